"""C28 group velocity, dispersion, delay and bandwidth derive from the index."""
import numpy as np

from mon import gen, ref, xtal

RULE = ('random crystals, axes, wavelengths (numbers and arrays) and lengths; '
        'values compared with exact derivatives of the published equations and '
        'with the group delay of pulses found from the wavenumbers.')
QUICK, THOROUGH = 24000, 120000
MIN_CHECKS = 40500
BUDGET = 300000
FILES = ['src/pynlo/media/crystals/CrystalContainer.py']
c = ref.C_NMPS


def scene(ctx, scalar=None):
    rng = ctx.rng
    x, m = xtal.build(rng)
    ax = None if m.kind == 'PPLN' else gen.pick(rng, ['mix', 'o', 'e'])
    wl = xtal.wavelengths(rng, m, scalar)
    ctx.note(kind=m.kind, axis=ax, T=m.T, theta=m.theta, source=m.source, wl=wl, L=m.length)
    return x, m, ax, wl


def arg(rng, ax):
    if ax is None:
        return gen.pick(rng, [dict(), dict(axis=None)])
    return dict(axis=ax)


def vg(m, wl, ax):
    n, d1, d2 = m.derivatives(wl, ax)
    w = np.atleast_1d(np.asarray(wl, float))
    return c / (n - w * d1)


def shaped(got, like):
    return np.reshape(np.asarray(got), np.shape(like))


def velocity(ctx):
    rng = ctx.rng
    x, m, ax, wl = scene(ctx)
    keep = np.array(wl)
    got = x.calculate_group_velocity_nm_ps(wl, **arg(rng, ax))
    ctx.close(got, shaped(vg(m, wl, ax), wl), 'group-velocity', rtol=1e-8)
    n, d1, d2 = m.derivatives(wl, ax)
    w = np.atleast_1d(keep.astype(float))
    D = shaped(-(w / c) * d2 * 1e12, wl)
    noise = w / c * 1e12 * 3e-12        # rounding of a second difference at 0.1 nm
    for nm in ('calculate_D_ps_nm_km', 'calculate_D_fs_um_mm'):
        got = getattr(x, nm)(wl, **arg(rng, ax))
        ctx.close(got, D, 'dispersion', rtol=1e-5, atol=float(np.max(noise)), unit=nm)
    ctx.check(np.array_equal(wl, keep), 'argument-unchanged')
    ctx.close(x.n(wl) if ax is None else x.n(wl, ax), m.n(keep, ax), 'index-unchanged', rtol=1e-12)
    ctx.event('wavelengths', np.size(keep))


def delay(ctx):
    rng = ctx.rng
    x, m, ax, a = scene(ctx, True)
    b = xtal.wavelengths(rng, m, True)
    own = rng.random() < .5
    L = m.length if own else gen.pick(rng, [gen.logu(rng, 1e-4, 1), gen.logu(rng, 1e-12, 1e6), 0., 0])
    kw = arg(rng, ax)
    if not own:
        kw['crystal_length_mks'] = L
    got = x.calculate_pulse_delay_ps(a, b, **kw)
    ta, tb = (L * 1e9 / float(vg(m, v, ax)[0]) for v in (a, b))
    ctx.close(got, ta - tb, 'transit-time-difference', atol=1e-8 * (ta + tb))
    ctx.close(x.calculate_pulse_delay_ps(b, a, **kw), tb - ta, 'delay-antisymmetric', atol=1e-8 * (ta + tb))
    ctx.close(x.calculate_pulse_delay_ps(a, a, **kw), 0., 'no-delay-for-equal-colours', atol=1e-12 * ta)
    if not own:
        kw['crystal_length_mks'] = 3 * L
        ctx.close(x.calculate_pulse_delay_ps(a, b, **kw), 3 * (ta - tb), 'delay-scales-with-length', atol=4e-8 * (ta + tb))
    ctx.close(x.length_mks, m.length, 'length-unchanged', rtol=0)
    ctx.note(b=b, own=own)
    ctx.event('delays')


def bandwidth(ctx):
    rng = ctx.rng
    x, m, ax, _ = scene(ctx, True)
    lo, hi = xtal.RANGE[m.kind]
    p = gen.logu(rng, lo, hi * .45)
    scalar = rng.random() < .4
    s_lo = 1 / (1 / p - 1 / hi)
    s = rng.uniform(s_lo * 1.001, hi, 1 if scalar else int(rng.integers(1, 20)))
    s = float(s[0]) if scalar else s
    i = 1 / (1 / p - 1 / s)
    vp, vs, vi = (np.reshape(vg(m, w, ax), np.shape(w)) * 1e3 for w in (p, s, i))
    ds, di = 1 / vs - 1 / vp, 1 / vi - 1 / vp
    if np.min(np.maximum(np.abs(ds), np.abs(di))) < 1e-4 / 3e8:
        return
    ctx.note(pump=p, scalar=scalar)
    want = np.minimum(.886 * np.pi / np.abs(ds), .886 * np.pi / np.abs(di)) / ref.C
    got = x.calculate_mix_phasematching_bw(p, s, **arg(rng, ax))
    ctx.need(np.shape(got) == np.shape(want), 'bandwidth-shape', got=np.shape(got))
    # group velocities are good to 1e-8; their difference is what counts
    ctx.close(1 / np.asarray(got), 1 / want, 'acceptance-bandwidth', rtol=1e-7, atol=float(4e-8 * ref.C / np.min(vp) * 1))
    ctx.event('bandwidths', np.size(want))


def pulses(ctx):
    """The slope of the wavenumbers on a fine pulse grid is the inverse group
    velocity, its curvature the dispersion - through the code alone."""
    rng = ctx.rng
    x, m = xtal.build(rng)
    ax = None if m.kind == 'PPLN' else gen.pick(rng, ['mix', 'o', 'e'])
    lo, hi = xtal.RANGE[m.kind]
    wl = gen.logu(rng, lo * 1.5, hi / 1.5)
    f0 = c / wl
    p = gen.bare_pulse(rng, 64, 64 / (f0 * rng.uniform(.02, .08)), wl)
    k = np.asarray(x.get_pulse_k(p, *(() if ax is None else (ax,))))
    W = p.W_mks
    fit = np.polynomial.polynomial.Polynomial.fit(W - W[32], k, 8).convert().coef
    ctx.note(kind=m.kind, axis=ax, wl=wl)
    v = x.calculate_group_velocity_nm_ps(float(p.wl_nm[32]), **arg(rng, ax))
    ctx.close(1 / (v * 1e3), fit[1], 'slope-of-wavenumber', rtol=1e-5)
    D = x.calculate_D_ps_nm_km(float(p.wl_nm[32]), **arg(rng, ax))
    w0 = p.wl_mks[32]
    b2 = -D * 1e-6 * w0 ** 2 / (2 * np.pi * ref.C)
    ctx.close(b2, 2 * fit[2], 'curvature-of-wavenumber', rtol=5e-3, atol=2e-27)
    ctx.event('pulse grids')


STRATA = [('velocity', velocity, 3), ('delay', delay, 2), ('bandwidth', bandwidth, 2), ('pulses', pulses, 1)]
