"""C05 chirp, phase and delay operations act exactly as documented."""
import copy

import numpy as np

from mon import gen, ref

RULE = ('random histories of phase operations on random fields; the field after '
        'each step compared with the documented phase factor applied to the '
        'field before it; inverses, additivity and physical broadening checked.')
QUICK, THOROUGH = 16000, 140000
MIN_CHECKS = 78700
BUDGET = 200000
FILES = ['src/pynlo/light/PulseBase.py']


def rnd(rng, s):
    k = int(rng.integers(5))
    if rng.random() < .25:                      # far weaker or stronger than the grid suggests
        return gen.sgn(rng) * s * gen.logu(rng, 1e-7, 1e4)
    if k == 0:
        return 0.0
    if k == 1:
        return float(int(rng.integers(-3, 4))) if s > .5 else float(rng.normal() * s)
    return float(rng.normal() * s)


def rounding(m, V, ph, a, b, c):
    slope = np.max(np.abs(a * V + b / 2 * V ** 2 + c / 6 * V ** 3))
    return 1e-15 * float(np.max(np.abs(m['W'])) * slope + np.max(np.abs(ph)))


def apply(ctx, p, S, m):
    """One random documented operation on pulse p; returns its name, the model
    spectrum and how many radians of rounding a double leaves in its phase."""
    rng = ctx.rng
    tw = m['tw']
    s = tw / 25.
    k = int(rng.integers(6))
    if k == 0:
        a, b, c = rnd(rng, s * s), rnd(rng, s ** 3), rnd(rng, s ** 4)
        V = m['V']
        j = int(rng.integers(4))
        if j == 0:
            p.chirp_pulse_W(a)
            b = c = 0
        elif j == 1:
            p.chirp_pulse_W(a, b)
            c = 0
        elif j == 2:
            p.chirp_pulse_W(a, TOD=b, FOD=c)
        else:
            p.chirp_pulse_W(a, b, c)
        ph = a / 2 * V ** 2 + b / 6 * V ** 3 + c / 24 * V ** 4
        return 'chirp_W', S * np.exp(1j * ph), rounding(m, V, ph, a, b, c)
    if k == 1:
        a, b, c = rnd(rng, s * s), rnd(rng, s ** 3), rnd(rng, s ** 4)
        w0 = float(m['W'][int(rng.integers(m['n']))] + rng.normal() * 2 / tw)
        if rng.random() < .15:                      # the absolute frequency itself
            w0 = gen.pick(rng, [0, 0., float(m['W'][len(S) // 2])])
        p.chirp_pulse_W(a, b, c, w0_THz=w0)
        V = m['W'] - w0
        ph = a / 2 * V ** 2 + b / 6 * V ** 3 + c / 24 * V ** 4
        return 'chirp_W_about', S * np.exp(1j * ph), rounding(m, V, ph, a, b, c)
    if k == 2:
        a, b, t0 = rnd(rng, 1.), rnd(rng, .3), s * rng.uniform(.3, 3) * (-1 if rng.random() < .3 else 1)
        x = m['T'] / t0
        p.chirp_pulse_T(a, b, t0)
        return 'chirp_T', ref.to_freq(ref.to_time(S) * np.exp(-1j * (a / 2 * x ** 2 + b / 3 * x ** 3))), 0.
    if k == 3:
        ph = rng.normal(size=m['n']) * 3 if rng.random() < .6 else float(rng.normal() * 3)
        keep = np.copy(ph)
        p.apply_phase_W(ph)
        ctx.close(ph, keep, 'argument-unchanged', rtol=0)
        return 'phase_W', S * np.exp(1j * keep), 0.
    if k == 4:
        d = rnd(rng, tw * .2)
        if rng.random() < .1:
            d = gen.sgn(rng) * m['dT'] * gen.logu(rng, 1e-7, 1.)
        p.add_time_offset(d)
        return 'delay', S * np.exp(-1j * m['W'] * d), 1e-15 * np.max(np.abs(m['W'] * d))
    return 'none', S, 0.


def check_grid_kept(ctx, p, m):
    ctx.check(p.NPTS == m['n'], 'grid-kept')
    ctx.close(p.W_THz, m['W'], 'grid-kept', rtol=1e-11)
    ctx.close(p.T_ps, m['T'], 'grid-kept', rtol=1e-11)


def history(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng)
    m = gen.model_of(p)
    S = ref.to_freq(A)
    trace = []
    for _ in range(int(rng.integers(2, 8))):
        before = np.abs(p.AW)
        name, S, eps = apply(ctx, p, S, m)
        trace.append(name)
        ctx.event(name)
        if eps < 1e-2:                          # beyond, the phase is rounding
            ctx.close(p.AW, S, 'operation-exact', rtol=1e-8 + eps, op=name)
        if name != 'chirp_T':
            ctx.close(np.abs(p.AW), before, 'spectrum-untouched', rtol=1e-10, op=name)
        S = p.AW
    ctx.close(p.AT, ref.to_time(S), 'operation-exact', rtol=1e-9)
    check_grid_kept(ctx, p, m)
    ctx.note(trace=trace, **info)


def algebra(ctx):
    """Inverse undoes, two of the same kind add up, order does not matter."""
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng)
    s = info['tw'] / 25. * min(1., 512. / info['n'])   # phases stay below 1e6
    S = p.AW
    a, b = rng.normal(size=3) * [s ** 2, s ** 3, s ** 4], rng.normal(size=3) * [s ** 2, s ** 3, s ** 4]
    ctx.note(a=a, b=b, **info)
    p.chirp_pulse_W(*a)
    p.chirp_pulse_W(*(-a))
    ctx.close(p.AW, S, 'inverse-restores', rtol=1e-9)
    q = p.create_cloned_pulse()
    p.chirp_pulse_W(*a)
    p.chirp_pulse_W(*b)
    q.chirp_pulse_W(*b)
    q.chirp_pulse_W(*a)
    ctx.close(p.AW, q.AW, 'order-free', rtol=1e-9)
    q.set_AW(S)
    q.chirp_pulse_W(*(a + b))
    ctx.close(p.AW, q.AW, 'additive', rtol=1e-7)
    # same operation split between Taylor terms
    q.set_AW(S)
    for t in np.eye(3) * (a + b):
        q.chirp_pulse_W(*t)
    ctx.close(p.AW, q.AW, 'additive', rtol=1e-7)
    T = p.AT
    c2, c3, t0 = rng.normal(), rng.normal() * .2, s
    p.chirp_pulse_T(c2, c3, t0)
    p.chirp_pulse_T(-c2, -c3, t0)
    ctx.close(p.AT, T, 'inverse-restores', rtol=1e-9)
    p.chirp_pulse_T(c2, 0, t0)
    p.chirp_pulse_T(-4 * c2, 0, 2 * t0)
    ctx.close(p.AT, T, 'chirp-scaling', rtol=1e-8)
    d = rng.normal() * s
    p.add_time_offset(d)
    p.add_time_offset(-d)
    ctx.close(p.AT, T, 'inverse-restores', rtol=1e-8)


def delay(ctx):
    """A delay of k samples moves the intensity k samples, nothing else."""
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng)
    n = info['n']
    I = np.abs(A) ** 2
    k = int(rng.integers(-n, n + 1))
    ctx.note(k=k, **info)
    p.add_time_offset(k * p.dT_ps)
    eps = 1e-15 * abs(k * p.dT_ps) * float(np.max(np.abs(p.W_THz)))
    ctx.close(np.abs(p.AT) ** 2, np.roll(I, -k), 'delay-moves-intensity', rtol=1e-7 + eps)
    # the optical field shifts rigidly: E(t)=A(t)exp(-i w0 t)
    E0 = A * np.exp(-1j * 2 * np.pi * p.center_frequency_THz * p.T_ps)
    E1 = p.AT * np.exp(-1j * 2 * np.pi * p.center_frequency_THz * p.T_ps)
    if abs(k) < n:
        if k >= 0:
            ctx.close(E1[:n - k], E0[k:], 'delay-moves-field', rtol=1e-7 + eps, scale=np.max(np.abs(E0)))
        else:
            ctx.close(E1[-k:], E0[:n + k], 'delay-moves-field', rtol=1e-7 + eps, scale=np.max(np.abs(E0)))
    ctx.event('delays')


def physics(ctx):
    """Gaussian pulses broaden as sqrt(1+(GDD/T0^2)^2) and the instantaneous
    frequency sweeps the way group delay says."""
    rng = ctx.rng
    n = gen.pick(rng, [256, 512, 1000, 1024])
    tw = gen.logu(rng, 2, 40)
    wl = float(rng.uniform(.2, .8)) * ref.C_NMPS / (n / tw)
    p = gen.bare_pulse(rng, n, tw, wl)
    t0 = tw / n * rng.uniform(6, n / 60.) if n >= 512 else tw / n * 6
    g = float(rng.uniform(-1, 1)) * t0 * tw / 30
    T = p.T_ps
    p.set_AT(np.exp(-T ** 2 / 2 / t0 ** 2))
    ctx.note(n=n, tw=tw, t0=t0, gdd=g)
    p.chirp_pulse_W(g)
    # spectrum exp(-V^2 t0^2/2 + i g V^2/2), kernel exp(-iVt)
    q = t0 ** 2 - 1j * g
    want = t0 / np.sqrt(q) * np.exp(-T ** 2 / (2 * q))
    ctx.close(p.AT, want, 'gaussian-dispersion', rtol=1e-6)
    I = np.abs(p.AT) ** 2
    rms = np.sqrt(2 * np.sum(I * T ** 2) / np.sum(I))
    ctx.close(rms, t0 * np.sqrt(1 + (g / t0 ** 2) ** 2), 'gaussian-broadening', rtol=1e-5)
    # group delay: blue part delayed when GDD > 0
    S = p.AW
    F = S.copy()
    F[p.V_THz < 0] = 0
    p.set_AW(F)
    I = np.abs(p.AT) ** 2
    cm = np.sum(I * T) / np.sum(I)
    if abs(g) > .3 * t0 ** 2:
        ctx.check(cm * g > 0, 'blue-delayed-for-positive-gdd', cm=cm, g=g)
    ctx.event('gaussians dispersed')


def constructed(ctx):
    """Constructor chirps equal the same operations applied afterwards."""
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    cls = gen.pick(rng, [D.SechPulse, D.GaussianPulse, D.SincPulse])
    n, tw, wl = gen.grid(rng, tw_lo=1.1)
    w = tw * rng.uniform(.03, .1)
    t0 = w / 3.7909885 if cls is D.SincPulse else w
    k = dict(GDD=rng.normal() * w * w, TOD=rng.normal() * w ** 3 * .3,
             chirp2=rng.normal(), chirp3=.2 * rng.normal())
    for x in list(k):
        if rng.random() < .3:
            del k[x]
    ctx.note(cls=cls.__name__, n=n, tw=tw, w=w, **k)
    p = ctx.call(cls, 3., w, wl, time_window_ps=tw, NPTS=n, **k)
    q = ctx.call(cls, 3., w, wl, time_window_ps=tw, NPTS=n)
    q.chirp_pulse_W(k.get('GDD', 0), k.get('TOD', 0))
    q.chirp_pulse_T(k.get('chirp2', 0), k.get('chirp3', 0), t0)
    ctx.close(p.AT, q.AT, 'constructor-chirp', rtol=1e-8)
    ctx.event('chirped constructors')


STRATA = [('history', history, 5), ('algebra', algebra, 2), ('delay', delay, 1),
          ('physics', physics, 1), ('constructed', constructed, 1)]
