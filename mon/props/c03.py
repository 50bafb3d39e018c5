"""C03 pulse energy is the time integral of |A|^2, in joules, after any history."""
import numpy as np

from mon import gen, ref

RULE = ('random fields over 40 decades of energy and random histories of energy '
        'settings, phase operations, grid changes and copies; every reported '
        'energy compared with the integral of the reported field.')
QUICK, THOROUGH = 16000, 120000
MIN_CHECKS = 90000
BUDGET = 200000
FILES = ['src/pynlo/light/PulseBase.py', 'src/pynlo/light/DerivedPulses.py']


def energy(A, tw, n):
    return ref.trapz(np.abs(A) ** 2, tw * 1e-12 / n)


def full(A, tw, n):
    """Periodic-grid energy, invariant under any phase in either domain."""
    return float(np.sum(np.abs(A) ** 2)) * tw * 1e-12 / n


def integral(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, positive=False)
    s = 10.0 ** rng.uniform(-12, 12)
    n, tw = info['n'], info['tw']
    ctx.note(scale=s, **info)
    p.set_AT(A * s)
    E = p.calc_epp()
    ctx.close(E, energy(A * s, tw, n), 'energy-integral', rtol=1e-10)
    ctx.close(E, energy(p.AT, tw, n), 'energy-integral', rtol=1e-10)
    ctx.check(np.ndim(E) == 0 and not np.iscomplexobj(E), 'energy-is-real-scalar', got=repr(E))
    k = float(rng.uniform(.1, 9))
    p.set_AW(p.AW * k)
    ctx.close(p.calc_epp(), k * k * E, 'energy-quadratic', rtol=1e-9)
    p.set_AW(p.AW * np.exp(1j * rng.uniform(0, 6)))
    ctx.close(p.calc_epp(), k * k * E, 'energy-phase-blind', rtol=1e-9)
    p.set_frep_MHz(float(gen.logu(rng, 1e-3, 1e4)))
    ctx.close(p.calc_epp(), k * k * E, 'energy-frep-blind', rtol=1e-9)
    # stretching the time axis by r keeps |A|^2 and multiplies energy by r
    r = float(rng.uniform(.2, 5))
    B = p.AT
    p.set_time_window_ps(tw * r)
    p.set_AT(B)
    ctx.close(p.calc_epp(), r * k * k * E, 'energy-time-unit', rtol=1e-9)
    ctx.event('energies read', 5)


def setting(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, positive=False)
    n, tw = info['n'], info['tw']
    ctx.note(**info)
    for _ in range(int(rng.integers(1, 5))):
        if np.max(np.abs(A)) == 0 or energy(p.AT, tw, n) == 0:
            return
        E = 10.0 ** rng.uniform(-20, 3)
        if rng.random() < .2:
            E = float(int(rng.integers(1, 9)))
        before, w = p.AT, p.AW
        E = gen.near(rng, energy(before, tw, n)) or E
        frep = p.frep_MHz
        p.set_epp(gen.as_number(rng, E))
        ctx.close(p.calc_epp(), E, 'set-energy', rtol=1e-11)
        s = np.sqrt(E / energy(before, tw, n))
        ctx.close(p.AT, before * s, 'set-energy-keeps-shape', rtol=1e-9)
        ctx.close(p.AW, w * s, 'set-energy-keeps-shape', rtol=1e-9)
        ctx.check(p.frep_MHz == frep and p.NPTS == n, 'set-energy-keeps-grid')
        ctx.event('energies set')
        if rng.random() < .5:
            p.chirp_pulse_W(float(rng.normal()) * .01)


def unitary(ctx):
    """Phase-only operations and padding keep the energy of the grid."""
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng)
    n, tw = info['n'], info['tw']
    E0 = full(A, tw, n)
    trace = []
    for _ in range(int(rng.integers(2, 8))):
        k = int(rng.integers(8))
        s = tw / 30.
        if k == 0:
            p.chirp_pulse_W(rng.normal() * s * s, rng.normal() * s ** 3, rng.normal() * s ** 4)
        elif k == 1:
            p.chirp_pulse_T(rng.normal(), rng.normal(), s)
        elif k == 2:
            p.add_time_offset(rng.normal() * tw * .3)
        elif k == 3:
            p.apply_phase_W(rng.normal(size=n))
        elif k == 4:
            p.rotate_spectrum_to_new_center_wl(ref.C_NMPS / (p.center_frequency_THz + rng.normal() * n * .2 / tw))
        elif k == 5:
            p.apply_phase_W(float(rng.normal()))
        elif k == 6:
            q = p.create_cloned_pulse()
            p.set_AT(np.zeros(n))
            p = q
        elif n <= 512:
            p.expand_time_window(1, gen.pick(rng, ['before', 'after', 'even']))
            n, tw = 2 * n, 2 * tw
        trace.append(k)
        ctx.event('phase-only operations')
        ctx.close(full(p.AT, tw, n), E0, 'unitary-energy', rtol=1e-9)
        ctx.close(tw * 1e-12 * np.sum(np.abs(p.AW) ** 2), E0, 'unitary-energy', rtol=1e-9)
        ctx.close(p.calc_epp(), energy(p.AT, tw, n), 'energy-integral', rtol=1e-9)
    ctx.note(trace=trace, **info)


def averages(ctx):
    """Requested average power = pulse energy x repetition rate."""
    from pynlo.light.DerivedPulses import SechPulse, GaussianPulse, SincPulse
    rng = ctx.rng
    cls = gen.pick(rng, [SechPulse, GaussianPulse, SincPulse])
    n, tw, wl = gen.grid(rng, gen.EVEN_BIG, tw_lo=1.1)
    w = tw * rng.uniform(.01, .2)
    P = gen.logu(rng, 1e-9, 1e3)
    frep = gen.logu(rng, 1e-4, 1e5)
    kw = dict(time_window_ps=tw, NPTS=n, frep_MHz=frep)
    if rng.random() < .5:
        s = w
        kw.update(GDD=rng.normal() * s * s, TOD=rng.normal() * s ** 3 * .2)
    if rng.random() < .3:
        kw.update(chirp2=rng.normal(), chirp3=rng.normal() * .1)
    ctx.note(cls=cls.__name__, P=P, width=w, wl=wl, **kw)
    p = ctx.call(cls, P, w, wl, power_is_avg=True, **kw)
    # chirp moves the edges of the window, so compare on the periodic grid
    q = ctx.call(cls, P, w, wl, power_is_avg=True, time_window_ps=tw, NPTS=n, frep_MHz=frep)
    ctx.close(q.calc_epp() * frep * 1e6, P, 'average-power', rtol=1e-9)
    ctx.close(q.calc_epp() * q.frep_mks, P, 'average-power', rtol=1e-9)
    ctx.close(full(p.AT, tw, n), full(q.AT, tw, n), 'chirp-keeps-average-power', rtol=1e-9)
    r = ctx.call(cls, P, w, wl, power_is_avg=False, time_window_ps=tw, NPTS=n, frep_MHz=frep)
    c = np.vdot(r.AT, q.AT) / np.vdot(r.AT, r.AT)
    ctx.close(q.AT, c * r.AT, 'average-power-same-shape', rtol=1e-9)
    ctx.event('average-power pulses')


def cut(ctx):
    """Spectral filtering removes exactly the energy outside the band."""
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, kind=gen.pick(rng, ['noise', 'gauss', 'band', 'multi']))
    n, tw = info['n'], info['tw']
    m = gen.model_of(p)
    wl = np.sort(m['wl'])
    i, j = sorted(rng.choice(n, 2, replace=False))
    lo = .5 * (wl[i] + wl[max(i - 1, 0)])
    hi = .5 * (wl[j] + wl[min(j + 1, n - 1)])
    if i == 0:
        lo = wl[0] * .9
    if j == n - 1:
        hi = wl[-1] * 1.1
    keep = (m['wl'] >= lo) & (m['wl'] <= hi)
    S = np.abs(p.AW) ** 2
    ctx.note(lo=lo, hi=hi, **info)
    p.filter_by_wavelength_nm(lo, hi)
    E = tw * 1e-12 * np.sum(S[keep])
    ctx.close(full(p.AT, tw, n), E, 'filter-energy', rtol=1e-9, atol=1e-13 * tw * 1e-12 * S.sum())
    ctx.close(p.calc_epp(), energy(p.AT, tw, n), 'energy-integral', rtol=1e-9)
    ctx.event('filters')


STRATA = [('integral', integral, 3), ('setting', setting, 3), ('unitary', unitary, 3),
          ('averages', averages, 2), ('cut', cut, 1)]
