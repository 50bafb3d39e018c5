"""C08 grid-changing operations keep the field where it belongs."""
import numpy as np

from mon import gen, ref

RULE = ('random fields on random grids through padding, spectral rotation, '
        're-centring by interpolation, band selection and filtering, alone and '
        'in sequences; field and grid compared with an independent model.')
QUICK, THOROUGH = 16000, 120000
MIN_CHECKS = 78700
BUDGET = 300000
FILES = ['src/pynlo/light/PulseBase.py']


def state(p):
    return dict(n=p.NPTS, tw=p.time_window_ps, f0=p.center_frequency_THz, frep=p.frep_MHz, AT=p.AT)


def unchanged(ctx, p, s, clause):
    ctx.check(p.NPTS == s['n'] and p.frep_MHz == s['frep'], clause)
    ctx.close(p.time_window_ps, s['tw'], clause, rtol=1e-13)
    ctx.close(p.center_frequency_THz, s['f0'], clause, rtol=1e-13)
    ctx.close(p.AT, s['AT'], clause, rtol=1e-13)


def check_grid(ctx, p, n, tw, f0, frep):
    g = ref.grids(n, tw, f0)
    ctx.check(p.NPTS == n, 'new-grid', got=p.NPTS, want=n)
    ctx.close(p.T_ps, g['T'], 'new-grid', rtol=1e-10)
    ctx.close(p.W_THz, g['W'], 'new-grid', rtol=1e-10)
    ctx.close(p.dT_mks, g['dT'] * 1e-12, 'new-grid', rtol=1e-10)
    ctx.close(p.frep_MHz, frep, 'new-grid', rtol=1e-12)


def pad(A, e, loc):
    n = len(A)
    new = n * (2 ** e - 1)
    b = {'before': new, 'after': 0, 'even': new // 2}[loc]
    return np.concatenate([np.zeros(b), A, np.zeros(new - b)])


def expand(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, frep=gen.logu(rng, .01, 1e4), positive=False)
    n, tw, f0, frep = info['n'], info['tw'], p.center_frequency_THz, p.frep_MHz
    trace = []
    for nm in ('wl_nm', 'W_mks', 'T_ps', 'V_THz'):
        if rng.random() < .5:
            getattr(p, nm)
    for _ in range(int(rng.integers(1, 3))):
        e = int(rng.integers(0, 4)) if n <= 256 else 1
        if n <= 64 and rng.random() < .1:
            e = int(rng.integers(4, 9))
        loc = gen.pick(rng, ['before', 'after', 'even', None])
        if loc is None:
            p.expand_time_window(e)
            loc = 'before'
        else:
            p.expand_time_window(e, loc)
        A = pad(A, e, loc)
        n, tw = n * 2 ** e, tw * 2 ** e
        trace.append((e, loc))
        ctx.close(p.AT, A, 'padded-field', rtol=1e-10)
        ctx.close(p.AW, ref.to_freq(A), 'padded-field', rtol=1e-10)
        check_grid(ctx, p, n, tw, f0, frep)
        ctx.event('paddings')
    s = state(p)
    ctx.raises(ValueError, 'bad-location-refused', p.expand_time_window, 1,
               gen.pick(rng, ['middle', '', 'Before', 'end', None]))
    unchanged(ctx, p, s, 'refused-leaves-pulse')
    ctx.note(trace=trace, **info)


def rotate(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, frep=gen.logu(rng, .01, 1e4))
    n, tw, f0 = info['n'], info['tw'], p.center_frequency_THz
    S = ref.to_freq(A)
    k = rng.uniform(-1.5, 1.5) * n
    # stay away from half-integers, where rounding decides, and keep f>0
    k = float(np.floor(k) + rng.uniform(-.48, .48))
    if f0 + k / tw < .02 * f0:
        k = abs(k)
    wl = ref.C_NMPS / (f0 + k / tw)
    ctx.note(k=k, **info)
    p.rotate_spectrum_to_new_center_wl(wl)
    r = int(np.rint(k))
    ctx.close(p.AW, np.roll(S, r), 'rotated-spectrum', rtol=1e-10)
    check_grid(ctx, p, n, tw, f0, p.frep_MHz)
    # line at the old centre is now at the bin closest to the requested colour
    if -n // 2 < r < n // 2:
        x = np.zeros(n)
        x[n // 2] = 1
        p.set_AW(x)
        p.rotate_spectrum_to_new_center_wl(wl)
        f = p.F_THz[int(np.argmax(np.abs(p.AW)))]
        ctx.leq(abs(f - ref.C_NMPS / wl), .5001 / tw, 'rotated-to-closest-bin')
    ctx.event('rotations')


def interpolate(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, frep=gen.logu(rng, .01, 1e4))
    n, tw, f0 = info['n'], info['tw'], p.center_frequency_THz
    S = ref.to_freq(A)
    k = float(np.floor(rng.uniform(-.8, .8) * n) + rng.uniform(.02, .98))
    if rng.random() < .1:
        k = float(rng.uniform(1.2, 3) * n)      # disjoint grids
    if f0 + k / tw < .02 * f0:
        k = abs(k)
    wl = ref.C_NMPS / (f0 + k / tw)
    ctx.note(k=k, **info)
    s = state(p)
    q = p.interpolate_to_new_center_wl(wl)
    unchanged(ctx, p, s, 'source-unchanged')
    check_grid(ctx, q, n, tw, ref.C_NMPS / wl, p.frep_MHz)
    x = np.arange(n) + k                         # new bins in units of old bins
    i = np.floor(x).astype(int)
    t = x - i
    ok = (i >= 0) & (i < n - 1)
    j = np.clip(i, 0, n - 2)
    want = np.where(ok, S[j] * (1 - t) + S[j + 1] * t, 0)
    # spectral position of a bin is known to f0*tw*eps bins
    ctx.close(q.AW, want, 'interpolated-spectrum', rtol=1e-8 * max(1, f0 * tw / 1e3),
              atol=1e-13 * float(np.max(np.abs(S))))
    q.set_AW(np.zeros(n))
    unchanged(ctx, p, s, 'source-unchanged')
    ctx.event('interpolations')


def subset(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, frep=gen.logu(rng, .01, 1e4))
    n, tw, f0 = info['n'], info['tw'], p.center_frequency_THz
    S = ref.to_freq(A)
    g = ref.grids(n, tw, f0)
    m = 2 * int(rng.integers(1, n // 2))
    c = int(rng.integers(m // 2, n - m // 2 + 1))
    c = min(c, n - 1)
    # a wavelength closer to bin c than to its neighbours
    d = rng.uniform(-.45, .45)
    nb = c + (1 if d > 0 else -1)
    wl = g['wl'][c] + abs(d) * (g['wl'][nb] - g['wl'][c]) if 0 <= nb < n else g['wl'][c]
    if c + m // 2 > n:
        return
    s = state(p)
    ctx.note(m=m, c=c, **info)
    q = p.create_subset_pulse(wl, m)
    unchanged(ctx, p, s, 'source-unchanged')
    ctx.close(q.AW, S[c - m // 2:c + m // 2], 'subset-spectrum', rtol=1e-10,
              atol=1e-13 * float(np.max(np.abs(S))))
    check_grid(ctx, q, m, tw, g['F'][c], p.frep_MHz)
    ctx.close(q.F_THz, g['F'][c - m // 2:c + m // 2], 'subset-frequencies', rtol=1e-10)
    q.set_AW(np.zeros(m))
    unchanged(ctx, p, s, 'source-unchanged')
    ctx.raises(ValueError, 'bigger-subset-refused', p.create_subset_pulse, wl, n + 2 * int(rng.integers(0, 3)))
    unchanged(ctx, p, s, 'source-unchanged')
    ctx.event('subsets')


def filt(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng)
    n = info['n']
    S = ref.to_freq(A)
    g = gen.model_of(p)
    lim = sorted([rng.uniform(g['wl'].min() * .9, g['wl'].max() * 1.02) for _ in range(2)])
    if rng.random() < .5:
        i = np.sort(rng.choice(n, 2, replace=False))
        lim = sorted([float(g['wl'][k] * (1 + rng.choice([-1, 1]) * 1e-7)) for k in i])
    lo, hi = lim
    if min(np.min(np.abs(g['wl'] / lo - 1)), np.min(np.abs(g['wl'] / hi - 1))) < 1e-9:
        return
    ctx.note(lo=lo, hi=hi, **info)
    keep = (g['wl'] > lo) & (g['wl'] < hi)
    p.filter_by_wavelength_nm(lo, hi)
    ctx.close(p.AW, np.where(keep, S, 0), 'filtered-spectrum', rtol=1e-12, scale=np.max(np.abs(S)))
    ctx.check(not np.any(np.abs(p.AW[~keep])), 'stopband-exactly-empty')
    B = p.AW
    p.filter_by_wavelength_nm(lo, hi)
    ctx.close(p.AW, B, 'filter-idempotent', rtol=1e-13)
    check_grid(ctx, p, n, info['tw'], g['f0'], p.frep_MHz)
    # both limits are inclusive: bins exactly on a limit stay
    wl = p.wl_nm
    k = int(rng.integers(n))
    p.set_AW(S)
    p.filter_by_wavelength_nm(float(wl[k]), float(wl[k]))
    want = np.zeros(n, complex)
    want[k] = S[k]
    ctx.close(p.AW, want, 'limits-inclusive', rtol=1e-12, scale=np.max(np.abs(S)))
    ctx.event('filters')


def chains(ctx):
    """Sequences of grid operations against the model of all of them."""
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng)
    n, tw, f0 = info['n'], info['tw'], p.center_frequency_THz
    trace, sc = [], float(np.max(np.abs(A)))
    for _ in range(int(rng.integers(2, 5))):
        k = int(rng.integers(4))
        trace.append(k)
        g = ref.grids(n, tw, f0)
        if k == 0 and n <= 512:
            loc = gen.pick(rng, ['before', 'after', 'even'])
            p.expand_time_window(1, loc)
            A = pad(A, 1, loc)
            n, tw = 2 * n, 2 * tw
        elif k == 1:
            r = int(rng.integers(-n // 4, n // 4))
            p.rotate_spectrum_to_new_center_wl(ref.C_NMPS / (f0 + r / tw))
            A = ref.to_time(np.roll(ref.to_freq(A), r))
        elif k == 2 and n >= 32:
            m = n // 4 * 2
            c = int(rng.integers(m // 2, n - m // 2))
            p = p.create_subset_pulse(float(g['wl'][c]), m)
            A = ref.to_time(ref.to_freq(A)[c - m // 2:c + m // 2])
            n, f0 = m, g['F'][c]
        else:
            i = int(rng.integers(1, n - 1))
            cut = .5 * (g['wl'][i] + g['wl'][i + 1])
            if rng.random() < .5:
                p.filter_by_wavelength_nm(cut, 1e9)
                S = np.where(g['wl'] > cut, ref.to_freq(A), 0)
            else:
                p.filter_by_wavelength_nm(0., cut)
                S = np.where(g['wl'] < cut, ref.to_freq(A), 0)
            A = ref.to_time(S)
        sc = max(sc, float(np.max(np.abs(A))))
        ctx.close(p.AT, A, 'chain-field', rtol=1e-8, atol=1e-12 * sc)
        check_grid(ctx, p, n, tw, f0, p.frep_MHz)
    ctx.note(trace=trace, **info)
    ctx.event('chains')


STRATA = [('expand', expand, 2), ('rotate', rotate, 2), ('interpolate', interpolate, 2),
          ('subset', subset, 2), ('filter', filt, 2), ('chains', chains, 3)]
