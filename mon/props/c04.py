"""C04 pulse constructors deliver the documented shape, power and grid."""
import os

import numpy as np

from mon import gen, ref

RULE = ('random widths, powers, grids, chirps and flags for every pulse '
        'constructor; field compared with the documented closed form.')
QUICK, THOROUGH = 10000, 80000
MIN_CHECKS = 59400
BUDGET = 200000
FILES = ['src/pynlo/light/DerivedPulses.py', 'src/pynlo/light/PulseBase.py']


def power(rng):
    return gen.logu(rng, 1e-6, 1e6) if rng.random() < .8 else gen.logu(rng, 1e-18, 1e15)


def rate(rng):
    return gen.logu(rng, 1e-3, 1e5) if rng.random() < .8 else gen.logu(rng, 1e-9, 1e8)


def params(rng, n_list=gen.EVEN_BIG):
    n, tw, wl = gen.grid(rng, n_list, tw_lo=1.1)
    return n, tw, wl, tw * gen.logu(rng, .01, .25), power(rng)


def shape(name, T, w):
    if name == 'SechPulse':
        return ref.sech(T / w)
    if name == 'GaussianPulse':
        return np.exp(-2.77 * .5 * (T / w) ** 2)
    return ref.sinc(T / (w / 3.7909885))


def check_grid(ctx, p, n, tw, f0, frep):
    g = ref.grids(n, tw, f0)
    ctx.close(p.T_ps, g['T'], 'constructor-grid', rtol=1e-11)
    ctx.close(p.W_THz, g['W'], 'constructor-grid', rtol=1e-11)
    ctx.close(p.wl_nm * p.F_THz, np.full(n, ref.C_NMPS), 'constructor-grid', rtol=1e-8)
    ctx.check(p.NPTS == n, 'constructor-grid')
    if frep is not None:
        ctx.close(p.frep_MHz, frep, 'constructor-frep', rtol=1e-12)
        ctx.close(p.frep_mks, frep * 1e6, 'constructor-frep', rtol=1e-12)


def shaped(ctx):
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    name = gen.pick(rng, ['SechPulse', 'GaussianPulse', 'SincPulse'])
    n, tw, wl, w, P = params(rng)
    frep = rate(rng)
    s = w if name != 'SincPulse' else w / 3.7909885
    kw = {}
    if rng.random() < .6:
        kw['GDD'] = rng.normal() * w * w
    if rng.random() < .4:
        kw['TOD'] = rng.normal() * w ** 3 * .3
    if rng.random() < .5:
        kw['chirp2'] = rng.normal() * 2
    if rng.random() < .3:
        kw['chirp3'] = rng.normal() * .3
    avg = bool(rng.random() < .4)
    ctx.note(cls=name, n=n, tw=tw, wl=wl, width=w, P=P, avg=avg, frep=frep, **kw)
    cls = getattr(D, name)
    args = dict(time_window_ps=tw, frep_MHz=frep, NPTS=gen.as_int(rng, n), power_is_avg=avg, **kw)
    if rng.random() < .3:
        p = ctx.call(cls, P, w, wl, tw, frep, n, kw.get('GDD', 0), kw.get('TOD', 0),
                     kw.get('chirp2', 0), kw.get('chirp3', 0), avg)
    else:
        p = ctx.call(cls, P, w, wl, **args)
    g = ref.grids(n, tw, ref.C_NMPS / wl)
    check_grid(ctx, p, n, tw, g['f0'], frep)
    A = shape(name, g['T'], w).astype(complex)
    if avg:
        A *= np.sqrt(P / (frep * 1e6) / ref.trapz(np.abs(A) ** 2, tw * 1e-12 / n))
    else:
        A *= np.sqrt(P)
    if kw.get('GDD') or kw.get('TOD'):
        ph = kw.get('GDD', 0) / 2 * g['V'] ** 2 + kw.get('TOD', 0) / 6 * g['V'] ** 3
        A = ref.to_time(ref.to_freq(A) * np.exp(1j * ph))
    x = g['T'] / s
    A = A * np.exp(-1j * (kw.get('chirp2', 0) / 2 * x ** 2 + kw.get('chirp3', 0) / 3 * x ** 3))
    # The documented Gaussian width constant is rounded, hence 1e-3 there.
    rt = 1.5e-3 if name == 'GaussianPulse' else 1e-7
    if name == 'GaussianPulse' and kw:
        # exact constant for chirped pulses, but any constant within 0.1 % of
        # 4 ln 2 passes through the unchirped comparison
        q = ctx.call(cls, P, w, wl, time_window_ps=tw, frep_MHz=frep, NPTS=n, power_is_avg=avg)
        B = np.sqrt(P) * shape(name, g['T'], w)
        if avg:
            B = B * np.sqrt(1 / (frep * 1e6) / ref.trapz(shape(name, g['T'], w) ** 2, tw * 1e-12 / n))
        ctx.close(q.AT, B, 'constructor-field', rtol=1.5e-3)
        A = q.AT
        if kw.get('GDD') or kw.get('TOD'):
            A = ref.to_time(ref.to_freq(A) * np.exp(1j * ph))
        A = A * np.exp(-1j * (kw.get('chirp2', 0) / 2 * x ** 2 + kw.get('chirp3', 0) / 3 * x ** 3))
        rt = 1e-7
    ctx.close(p.AT, A, 'constructor-field', rtol=rt)
    ctx.event(name)


def fwhm(ctx):
    """Measured width of the intensity profile equals the documented one."""
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    name = gen.pick(rng, ['SechPulse', 'GaussianPulse', 'SincPulse'])
    n = gen.pick(rng, [1024, 2048])
    tw = gen.logu(rng, 2, 50)
    wl = float(rng.uniform(300, .8 * ref.C_NMPS * tw / n * 2)) if ref.C_NMPS * tw / n * 1.6 > 310 else 300.
    w = tw * rng.uniform(.05, .1)
    P = gen.logu(rng, 1e-3, 1e5)
    ctx.note(cls=name, n=n, tw=tw, w=w)
    p = ctx.call(getattr(D, name), P, w, wl, time_window_ps=tw, NPTS=n)
    I = np.abs(p.AT) ** 2
    T = p.T_ps
    k = int(np.argmax(I))
    ctx.close(T[k], 0.0, 'peak-at-zero', atol=1e-9 * tw)
    ctx.close(I[k], P, 'peak-power', rtol=1e-9)
    i = k
    while I[i] > P / 2:
        i += 1
    right = T[i - 1] + (T[i] - T[i - 1]) * (I[i - 1] - P / 2) / (I[i - 1] - I[i])
    i = k
    while I[i] > P / 2:
        i -= 1
    left = T[i + 1] - (T[i + 1] - T[i]) * (I[i + 1] - P / 2) / (I[i + 1] - I[i])
    want = {'SechPulse': 2 * np.arccosh(np.sqrt(2)), 'GaussianPulse': 1.0,
            'SincPulse': 0.7342}[name] * w
    if name == 'SincPulse':
        # FWHM_ps is the width of the field's main lobe (|A| = 1/2)
        f = np.abs(p.AT) - .5 * np.sqrt(P)
        i = k
        while f[i] > 0:
            i += 1
        j = k
        while f[j] > 0:
            j -= 1
        right = T[i - 1] + (T[i] - T[i - 1]) * f[i - 1] / (f[i - 1] - f[i])
        left = T[j + 1] - (T[j + 1] - T[j]) * f[j + 1] / (f[j + 1] - f[j])
        want = w
    ctx.close(right - left, want, 'documented-width', rtol=3e-3)
    ctx.event('widths measured')


def cw(ctx):
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    n, tw, wl, _, P = params(rng)
    off = None if rng.random() < .4 else float(rng.uniform(-.4, .4) * n / tw)
    f = ref.C_NMPS / wl
    if off is not None:
        m = float(np.round(off * tw))
        if abs(off * tw - m) > .499999 or f - m / tw <= .01 * f or abs(m) >= n / 2:
            off = m / tw
        if f - off <= .01 * f:
            off = 0.0
    ctx.note(n=n, tw=tw, wl=wl, P=P, off=off)
    if off is None:
        p = ctx.call(D.CWPulse, P, wl, time_window_ps=tw, NPTS=n)
    else:
        p = ctx.call(D.CWPulse, P, wl, time_window_ps=tw, NPTS=n, offset_from_center_THz=off)
    m = 0 if off is None else int(np.round(off * tw))
    check_grid(ctx, p, n, tw, f - m / tw, None)
    ctx.close(np.abs(p.AT) ** 2, np.full(n, P), 'cw-power', rtol=1e-9)
    k = int(np.argmax(np.abs(p.AW)))
    ctx.close(p.wl_nm[k], wl, 'cw-wavelength', rtol=1e-9)
    rest = np.delete(np.abs(p.AW), k)
    ctx.leq(float(rest.max()), 1e-9 * np.sqrt(P), 'cw-single-line')
    ctx.event('CW pulses')


def noise(ctx):
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    n, tw, wl, _, _ = params(rng)
    frep = gen.logu(rng, 1e-2, 1e4) if rng.random() < .5 else None
    ctx.note(n=n, tw=tw, wl=wl, frep=frep)
    p = ctx.call(D.NoisePulse, wl, time_window_ps=tw, NPTS=n, frep_MHz=frep)
    check_grid(ctx, p, n, tw, ref.C_NMPS / wl, frep)
    ctx.leq(float(np.max(np.abs(p.AW))), 1.01e-30, 'noise-negligible')
    ctx.check(float(np.min(np.abs(p.AW))) > 0, 'noise-present')
    ctx.event('noise pulses')


def frog(ctx):
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    n, tw, wl, _, P = params(rng)
    frep = rate(rng)
    g = ref.grids(n, tw, ref.C_NMPS / wl)
    inside = np.sort(g['wl'])
    # a table around the middle of the grid, so that it covers several points
    c = int(rng.integers(n // 4, 3 * n // 4))
    lo, hi = inside[max(0, c - n // 5)], inside[min(n - 1, c + n // 5)]
    lo, hi = lo * (1 - 1e-3), hi * (1 + 1e-3)
    m = int(rng.integers(5, 60))
    tab = np.sort(np.concatenate([[lo, hi], rng.uniform(lo, hi, m)]))
    amp = np.exp(-((tab - tab.mean()) / (.3 * (hi - lo))) ** 2) + .05 * rng.random(tab.size)
    ph = np.cumsum(rng.normal(size=tab.size)) * .4
    order = np.argsort(tab)
    if rng.random() < .5:
        order = order[::-1]
    fn = 'frog_%d.dat' % ctx.index
    np.savetxt(fn, np.vstack((tab, amp, ph)).T[order], fmt='%.18e')
    flip = bool(rng.random() < .5)
    avg = bool(rng.random() < .5)
    ctx.note(n=n, tw=tw, wl=wl, rows=tab.size, flip=flip, avg=avg, P=P, frep=frep)
    try:
        p = ctx.call(D.FROGPulse, tw, wl, P, frep_MHz=frep, NPTS=n, power_is_avg=avg,
                     fileloc=fn, flip_phase=flip)
    finally:
        os.unlink(fn)
    check_grid(ctx, p, n, tw, g['f0'], frep)
    a = np.interp(g['wl'], tab, amp, left=0, right=0)
    f = np.interp(g['wl'], tab, ph, left=0, right=0) * (-1 if flip else 1)
    edge = np.min(np.abs(g['wl'][:, None] - np.array([tab[0], tab[-1]])[None, :])) / wl < 1e-9
    if edge:
        return
    S = a * np.exp(1j * f)
    A = ref.to_time(S)
    E = P / (frep * 1e6) if avg else P
    A = A * np.sqrt(E / ref.trapz(np.abs(A) ** 2, tw * 1e-12 / n))
    ctx.close(p.AT, A, 'frog-field', rtol=1e-9)
    ctx.close(p.calc_epp(), E, 'frog-energy', rtol=1e-9)
    ctx.event('FROG tables')


def units(ctx):
    """Values that can only be SI units are refused by the nm/ps constructors."""
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    name = gen.pick(rng, ['SechPulse', 'GaussianPulse', 'SincPulse', 'CWPulse'])
    n, tw, wl, w, P = params(rng)
    bad = bool(rng.random() < .5)
    kw = dict(time_window_ps=tw * 1e-12 if bad else tw, NPTS=n)
    wl_arg = wl if bad else wl * 1e-9
    cls = getattr(D, name)
    ctx.note(cls=name, bad=bad)
    if name == 'CWPulse':
        ctx.raises((AssertionError, ValueError), 'si-units-refused', cls, P, wl_arg, **kw)
    else:
        ctx.raises((AssertionError, ValueError), 'si-units-refused', cls, P, w, wl_arg, **kw)
    ctx.event('unit mistakes')


def independent(ctx):
    """One pulse's construction never alters another's."""
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    made = []
    n, tw, wl, w, P = params(rng, gen.EVEN)
    for _ in range(3):
        name = gen.pick(rng, ['SechPulse', 'GaussianPulse', 'SincPulse'])
        p = ctx.call(getattr(D, name), P, w, wl, time_window_ps=tw, NPTS=n)
        made.append((p, p.AT, p.AW, p.wl_nm))
        P, w = P * rng.uniform(.5, 2), w * rng.uniform(.8, 1.2)
        if rng.random() < .5:
            wl *= rng.uniform(.9, 1.05)
            if ref.C_NMPS / wl - .5 * n / tw < .01:
                wl /= 1.5
    ctx.note(n=n, tw=tw)
    for p, a, b, c in made:
        ctx.close(p.AT, a, 'constructors-independent', rtol=0)
        ctx.close(p.AW, b, 'constructors-independent', rtol=0)
        ctx.close(p.wl_nm, c, 'constructors-independent', rtol=0)


def defaults(ctx):
    """What is not given takes the documented default."""
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    wl = float(rng.uniform(500, 2500))
    name = gen.pick(rng, ['SechPulse', 'GaussianPulse', 'SincPulse', 'CWPulse', 'NoisePulse', 'FROGPulse'])
    f0 = ref.C_NMPS / wl
    P = gen.logu(rng, 1e-3, 1e5)
    tw, n = float(rng.uniform(4, 40)), int(gen.pick(rng, [256, 300, 512]))
    kw = {}
    if rng.random() < .5:
        kw['time_window_ps'] = tw
    if rng.random() < .5 and name != 'FROGPulse':
        kw['NPTS'] = n
    ctx.note(cls=name, wl=wl, **kw)
    got_tw, cls = kw.get('time_window_ps', 10.), getattr(D, name)
    if name == 'CWPulse':
        p = ctx.call(cls, P, wl, **kw)
        m = kw.get('NPTS', 256)
        check_grid(ctx, p, m, got_tw, f0, None)
        A = p.AT
        ctx.close(np.abs(A), np.full(m, np.abs(A[0])), 'default-offset', rtol=1e-9)
        ctx.close(np.abs(p.AW[np.arange(m) != m // 2]), 0 * np.zeros(m - 1), 'default-offset', rtol=0,
                  atol=1e-9 * np.max(np.abs(p.AW)))
    elif name == 'NoisePulse':
        p = ctx.call(cls, wl, **kw)
        check_grid(ctx, p, kw.get('NPTS', 256), got_tw, f0, 100.)
    elif name == 'FROGPulse':
        fn = 'default_%d.dat' % ctx.index
        lam = np.linspace(wl * .9, wl * 1.1, 400)
        np.savetxt(fn, np.vstack((lam, np.exp(-((lam - wl) / wl / .02) ** 2), .01 * (lam - wl))).T)
        avg = {} if rng.random() < .5 else dict(power_is_avg=False)
        try:
            p = ctx.call(cls, tw, wl, P * 1e-9, fileloc=fn, **avg)
            q = ctx.call(cls, tw, wl, P * 1e-9, 100., 1024, False, fn, True)
        finally:
            os.unlink(fn)
        check_grid(ctx, p, 1024, tw, f0, 100.)
        ctx.close(p.AT, q.AT, 'default-field', rtol=1e-12)
        ctx.close(p.calc_epp(), P * 1e-9, 'default-field', rtol=1e-9)
    else:
        w = got_tw * gen.logu(rng, .01, .1)
        p = ctx.call(cls, P, w, wl, **kw)
        m = kw.get('NPTS', 1024)
        check_grid(ctx, p, m, got_tw, f0, 100.)
        rt = 1.5e-3 if name == 'GaussianPulse' else 1e-7
        T = ref.grids(m, got_tw, f0)['T']
        ctx.close(p.AT, np.sqrt(P) * shape(name, T, w), 'default-field', rtol=rt)
    ctx.event('constructors with defaults')


STRATA = [('shaped', shaped, 6), ('fwhm', fwhm, 1), ('cw', cw, 2), ('noise', noise, 1),
          ('frog', frog, 3), ('units', units, 1), ('independent', independent, 1),
          ('defaults', defaults, 1)]
