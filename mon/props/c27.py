"""C27 phase-matching angles and poling periods close the momentum balance."""
import numpy as np

from mon import gen, xtal

RULE = ('random wavelength triples (complete or with one to be supplied), '
        'temperatures, lengths, offsets and crystals; the wavevector balance is '
        'evaluated with the published index equations.')
QUICK, THOROUGH = 32000, 120000
MIN_CHECKS = 86400
BUDGET = 300000
FILES = ['src/pynlo/media/crystals/XTAL_PPLN.py', 'src/pynlo/media/crystals/XTAL_AgGaS.py',
         'src/pynlo/media/crystals/XTAL_AgGaSe2.py', 'src/pynlo/media/crystals/CrystalContainer.py']


def triple(rng, kind):
    lo, hi = xtal.RANGE[kind]
    while True:
        p = gen.logu(rng, lo, hi * .7)
        s = p * rng.uniform(1.1, 6)
        i = 1 / (1 / p - 1 / s)
        if s < hi and i < hi and i > p:
            return p, s, i


def mismatch(m, p, s, i):
    """k_pump - k_signal - k_idler in 1/m."""
    return 2 * np.pi * 1e9 * (m.n(p) / p - m.n(s) / s - m.n(i) / i)


def period(ctx):
    rng = ctx.rng
    x, m = xtal.build(rng, 'PPLN')
    p, s, i = triple(rng, 'PPLN')
    full = rng.random() < .3
    if full:
        i = i * rng.uniform(.98, 1.02)
    w = dict(pump_wl_nm=p, sgnl_wl_nm=s, idlr_wl_nm=i)
    hide = None if full else gen.pick(rng, sorted(w) + [None])
    a = dict(w)
    if hide:
        a[hide] = None
    kw = {}
    off = 3.2
    if rng.random() < .4:
        off = kw['delta_k_L'] = float(gen.pick(rng, [0., 3.2, rng.uniform(-20, 20)]))
    if rng.random() < .7:
        kw['silent'] = True
    dk = mismatch(m, p, s, i) - off / m.length
    if abs(dk) < 1e3:
        return
    ctx.note(p=p, s=s, i=i, hide=hide, off=off, L=m.length, T=m.T, source=m.source)
    if rng.random() < .5:
        got = ctx.call(x.calculate_poling_period, a['pump_wl_nm'], a['sgnl_wl_nm'], a['idlr_wl_nm'], **kw)
    else:
        got = ctx.call(x.calculate_poling_period, **a, **kw)
    if hide:
        ctx.need(isinstance(got, tuple) and len(got) == 2, 'supplied-wavelength-returned', got=repr(got)[:80])
        ctx.close(got[1], w[hide], 'energy-conserving-wavelength', rtol=1e-11)
        got = got[0]
    else:
        ctx.need(np.ndim(got) == 0 and not isinstance(got, tuple), 'period-only', got=repr(got)[:80])
    # conditioning: k ~ 1e7..1e8 1/m against a mismatch dk
    ctx.close(2 * np.pi / got, dk, 'momentum-balance', atol=1e-12 * 4 * np.pi * 1e9 * m.n(p) / p, rtol=1e-11)
    ctx.close(got, 2 * np.pi / dk, 'period', rtol=1e-11 * (1 + 3e8 / abs(dk)))
    # a longer crystal is closer to exact matching
    ctx.event('periods')
    if rng.random() < .3:
        T = xtal.temperature(rng)
        x.set_T(T)
        m.T = T
        got = ctx.call(x.calculate_poling_period, p, s, i, silent=True)
        dk = mismatch(m, p, s, i) - 3.2 / m.length
        ctx.close(2 * np.pi / got, dk, 'period-after-heating', atol=1e-12 * 4 * np.pi * 1e9 * m.n(p) / p, rtol=1e-11)


def invert(ctx):
    """The search returns a signal whose period is the one asked for."""
    rng = ctx.rng
    x, m = xtal.build(rng, 'PPLN')
    pump = float(gen.pick(rng, [rng.uniform(700, 1300), rng.uniform(430, 800), rng.uniform(1300, 2400)]))
    top = float(rng.uniform(pump * 1.15, pump * gen.pick(rng, [1.85, 1.98, 2.6])))
    lo = pump * 1.001
    i_lo = 1 / (1 / pump - 1 / top)
    # keep the idler inside the Sellmeier range everywhere the answer may be
    lo_ok = 1 / (1 / pump - 1 / 5400.)
    if lo_ok >= top * .97:
        return

    def per(s):
        i = 1 / (1 / pump - 1 / s)
        return 2 * np.pi / (mismatch(m, pump, s, i) - 3.2 / m.length)
    s = float(rng.uniform(lo_ok * 1.005 if rng.random() < .7 else .93 * top, top * .99))
    if s < lo_ok * 1.005:
        return
    want = per(s)
    grid = np.linspace(lo_ok, top, 400)
    v = per(grid)
    if not (np.all(np.diff(v) > 0) or np.all(np.diff(v) < 0)) or want <= 0:
        return
    # unimodal over the whole interval searched by the code?
    g = np.linspace(lo, top, 3000)
    with np.errstate(all='ignore'):
        e = (per(g) - want) ** 2
    # below some signal the idler leaves the range of the index (no number),
    # which the search treats as a bad guess
    ok = np.isfinite(e)
    first = len(e) - int(np.argmin(ok[::-1])) if not ok.all() else 0
    e = e[first:]
    if len(e) < 100:
        return
    k = int(np.argmin(e))
    if np.any(np.diff(e[:k + 1]) > 0) or np.any(np.diff(e[k:]) < 0):
        return
    ctx.note(pump=pump, period=want, top=top, s=s, T=m.T, source=m.source)
    got = ctx.call(x.invert_dfg_qpm_to_signal_wl, pump, want, top) if rng.random() < .8 else \
        ctx.call(x.invert_dfg_qpm_to_signal_wl, pump, want, max_signal_wl_nm=top)
    ctx.close(got, s, 'inverted-signal', rtol=1e-4)
    ctx.close(per(float(got)), want, 'inverted-period', rtol=1e-3)
    ctx.event('inversions')


def aimed(rng, m, lo, hi):
    """A triple whose angle is one chosen beforehand, often close to 90 degrees."""
    from scipy.optimize import brentq
    keep, m.theta = m.theta, float(rng.uniform(0, np.pi / 2) if rng.random() < .4 else np.pi / 2 - gen.logu(rng, 1e-3, .2))
    r = rng.uniform(1.1, 6)

    def gap(p):
        i = p / (1 - 1 / r)
        return float(m.n(p, 'mix') - p * (m.n(p * r, 'o') / (p * r) + m.n(i, 'o') / i))
    try:
        P = np.geomspace(lo, min(hi / r, hi * (1 - 1 / r)), 60)
        v = [gap(p) for p in P]
        k = [j for j in range(59) if v[j] * v[j + 1] < 0]
        if not k:
            return None
        j = int(gen.pick(rng, k))
        p = float(brentq(gap, P[j], P[j + 1]))
        s = p * r
        return p, s, 1 / (1 / p - 1 / s)
    finally:
        m.theta = keep


def angle(ctx):
    rng = ctx.rng
    kind = gen.pick(rng, ['AgGaS', 'AgGaSe2'])
    x, m = xtal.build(rng, kind)
    lo, hi = xtal.RANGE[kind]
    th0 = m.theta
    while True:
        p, s, i = triple(rng, kind)
        if rng.random() < .3:
            break
        # likely matchable: pump at the short end
        if p < lo * 3:
            break
    if rng.random() < .4:
        t = aimed(rng, m, lo, hi)
        p, s, i = t or (p, s, i)
    w = dict(pump_wl_nm=p, sgnl_wl_nm=s, idlr_wl_nm=i)
    hide = gen.pick(rng, sorted(w) + [None])
    a = dict(w)
    if hide:
        a[hide] = None
    ret = bool(rng.random() < .5)
    need = p * (m.n(s, 'o') / s + m.n(i, 'o') / i)        # index the pump must see
    ne, no = float(m.n(p, 'e')), float(m.n(p, 'o'))
    edge = min(abs(need - ne), abs(need - no)) / abs(ne - no)
    ctx.note(kind=kind, p=p, s=s, i=i, hide=hide, ret=ret)
    if edge < 1e-6:
        return
    args = dict(a, return_wavelength=ret) if ret or rng.random() < .5 else a
    if not min(ne, no) < need < max(ne, no):
        ctx.raises(AttributeError, 'impossible-refused', x.phasematch, **args)
        ctx.event('refusals')
        return
    got = ctx.call(x.phasematch, **args)
    if ret and hide:
        ctx.need(isinstance(got, tuple) and len(got) == 2, 'supplied-wavelength-returned', got=repr(got)[:80])
        ctx.close(got[1], w[hide], 'energy-conserving-wavelength', rtol=1e-11)
        got = got[0]
    ctx.need(np.ndim(got) == 0 and not isinstance(got, tuple), 'angle-only', got=repr(got)[:80])
    th = float(got)
    ctx.check(-1e-12 <= th <= np.pi / 2 + 1e-12, 'angle-range', got=th)
    m.theta = th
    # the angle is ill conditioned at either end; the index is not
    ctx.close(float(m.n(p, 'mix')), need, 'phase-matched', rtol=1e-11)
    x.set_theta(th)
    kp = 2 * np.pi * x.n(p, 'mix') / p
    ks = 2 * np.pi * x.n(s, 'o') / s
    ki = 2 * np.pi * x.n(i, 'o') / i
    ctx.close(kp, ks + ki, 'phase-matched', rtol=1e-11)
    # exchanging signal and idler changes nothing
    if not hide:
        ctx.close(ctx.call(x.phasematch, p, i, s), th, 'signal-idler-exchange', rtol=1e-6)
    ctx.event('angles')


def poling(ctx):
    rng = ctx.rng
    x, m = xtal.build(rng, 'PPLN')
    L = m.length
    z = float(rng.uniform(0, L))
    ctx.note(L=L)
    ctx.close(x.pp(z), 30.49e-6, 'default-poling', rtol=1e-12)
    for _ in range(3):
        k = int(rng.integers(4))
        if k == 0:
            v = float(rng.uniform(5e-6, 60e-6))
            x.set_pp((v,))
            want = lambda z, v=v: v
        elif k == 1:
            a, b = rng.uniform(5e-6, 60e-6), rng.uniform(-1e-4, 1e-4)
            fn = lambda z, a=a, b=b: a + b * z
            x.set_pp(fn)
            want = fn
        elif k == 2:
            a, b = float(rng.uniform(5e-6, 60e-6)), float(rng.uniform(5e-6, 60e-6))
            x.set_pp_chirp(a, b)
            want = lambda z, a=a, b=b: a + (b - a) * z / L
            ctx.close(x.pp(0.), a, 'chirped-poling-ends', rtol=1e-12)
            ctx.close(x.pp(L), b, 'chirped-poling-ends', rtol=1e-9)
            ctx.close(x.pp(L / 2), (a + b) / 2, 'chirped-poling-ends', rtol=1e-9)
        else:
            a = float(rng.uniform(5e-6, 60e-6))

            class Pattern:
                def __call__(self, z, a=a, L=L):
                    return a * (1 + .1 * np.sin(z / L))
            fn = Pattern()
            x.set_pp(fn)
            want = fn
        for _ in range(3):
            z = float(rng.uniform(0, L))
            ctx.close(x.pp(z), want(z), 'poling-at-z', rtol=1e-11)
        if rng.random() < .5:
            # nothing but the poling: indices stay, another crystal's poling too
            y, my = xtal.build(rng, 'PPLN')
            y.set_pp((1e-6,))
            ctx.close(x.pp(z), want(z), 'poling-is-own', rtol=1e-11)
            x.set_T(m.T)
            ctx.close(x.pp(z), want(z), 'poling-survives-heating', rtol=1e-11)
    w = xtal.wavelengths(rng, m)
    ctx.close(x.n(w), m.n(w), 'index-poling-blind', rtol=1e-12)
    ctx.event('poling patterns')


STRATA = [('period', period, 3), ('angle', angle, 3), ('poling', poling, 2), ('invert', invert, 2)]
