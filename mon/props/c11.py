"""C11 the propagation constant follows the fibre's dispersion data."""
import math
import os

import numpy as np

from mon import fib, gen, ref

RULE = ('random fibres in every dispersion format (Taylor coefficients per '
        'metre and per kilometre, D tables in memory and in files, effective '
        'index) on random pulse grids; compared with independent models.')
QUICK, THOROUGH = 11000, 80000
MIN_CHECKS = 38800
BUDGET = 400000
FILES = ['src/pynlo/media/fibers/fiber.py', 'src/pynlo/media/fibers/calculators.py',
         'src/pynlo/media/fibers/JSONFiberLoader.py']


def pulse(rng, sizes=(16, 32, 50, 64, 100, 128, 256, 512)):
    n, tw, wl = gen.grid(rng, list(sizes), tw_lo=.3)
    p = gen.bare_pulse(rng, n, tw, wl)
    p.set_AT(np.ones(n))
    return p, n, tw, wl, ref.grids(n, tw, ref.C_NMPS / wl)


def centred(ctx, B, M, g, clause, rtol, scale, slope_slack):
    """B equals M up to an affine term that zeroes value and slope at centre."""
    n = g['n']
    c = n // 2
    dw = 2 * np.pi / g['tw']
    if not ctx.check(np.shape(B) == (n,), clause + '-shape', got=np.shape(B)):
        return
    ctx.leq(abs(B[c]), rtol * scale, clause + '-zero-at-centre')
    s = (B[c + 1] - B[c - 1]) / (2 * dw)
    ctx.leq(abs(s) * dw, 4 * rtol * scale + slope_slack * dw * 1.01, clause + '-flat-at-centre')
    R = B - M
    k = (R[-1] - R[0]) / (n - 1)
    ctx.close(R, R[0] + k * np.arange(n), clause, rtol=rtol, scale=scale)


def gvd(ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    p, n, tw, wl, g = pulse(rng)
    off = 0.0 if rng.random() < .3 else rng.uniform(-1, 1) * np.pi * n / tw * .5
    wf = 2 * np.pi * g['f0'] + off
    betas = fib.random_betas(rng, tw, n, 1.0)
    km = bool(rng.random() < .5)
    arg = [b * 1e3 for b in betas] if km else list(betas)
    kind = gen.pick(rng, [tuple, list, np.array])
    ctx.note(n=n, tw=tw, wl=wl, fiber_wl=2 * np.pi * ref.C_NMPS / wf, betas=betas, km=km)
    fb = FiberInstance()
    arg = kind(arg)
    kw = dict(gvd_units='ps^n/km') if km else ({} if rng.random() < .5 else dict(gvd_units='ps^n/m'))
    fb.generate_fiber(1.0, center_wl_nm=2 * np.pi * ref.C_NMPS / wf, betas=arg, gamma_W_m=.1, **kw)
    B = fb.get_betas(p)
    x = g['W'] - wf
    M = ref.taylor_beta(betas, x)
    sc = float(np.sum([np.max(np.abs(ref.taylor_beta([0] * i + [b], x))) for i, b in enumerate(betas)])) \
        + float(np.max(np.abs(B)))
    c, dw = n // 2, 2 * np.pi / tw
    x0 = 2 * np.pi * g['f0'] - wf
    d = sum(b / math.factorial(i + 1) * x0 ** (i + 1) for i, b in enumerate(betas))
    slack = abs((M[c + 1] - M[c - 1]) / (2 * dw) - d)
    noise = fib.taylor_slack(betas, g['W'], x)
    sc += noise * 1e9                                # at the tolerance of 1e-9
    centred(ctx, B, M, g, 'taylor-dispersion', 1e-9, sc, slack)
    ctx.close(fb.get_betas(p), B, 'repeatable', rtol=0)
    ctx.close(fb.get_betas(p, z=.7), B, 'uniform-along-z', rtol=0)
    curvature(ctx, fb, p, g, M, sc, noise)
    ctx.event('taylor fibres')


def curvature(ctx, fb, p, g, M, sc, noise=0.):
    """Reported beta2 and D are the curvature of the propagation constant."""
    dw = 2 * np.pi / g['tw']
    b2 = fb.Beta2(p)
    D2 = (M[2:] - 2 * M[1:-1] + M[:-2]) / dw ** 2
    ctx.close(np.asarray(b2)[1:-1], D2, 'beta2', rtol=1e-9, atol=(4e-13 * sc + 4 * noise) / dw ** 2 + 1e-9 * np.max(np.abs(D2)))
    ctx.check(np.shape(b2) == (g['n'],), 'beta2-shape')
    ctx.close(np.array([b2[0], b2[-1]]), np.array([b2[1], b2[-2]]), 'beta2-ends', rtol=1e-12)
    ctx.close(fb.Beta2_to_D(p), -2 * np.pi * ref.C_NMPS / g['wl'] ** 2 * b2 * 1e3, 'd-from-beta2', rtol=1e-8)


def table(ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    p, n, tw, wl, g = pulse(rng)
    order = int(rng.integers(1, 6) if rng.random() < .9 else rng.integers(6, 9))
    lo, hi = max(g['wl'].min(), .6 * wl), min(g['wl'].max(), 1.6 * wl)
    x = np.linspace(lo, hi, gen.rows(rng, order + 3, 80))
    y = fib.table_values(rng, x)
    if rng.random() < .3:
        x, y = x[::-1], y[::-1]
    how = gen.pick(rng, ['file', 'file', 'function', 'db'])
    ctx.note(n=n, tw=tw, wl=wl, order=order, rows=x.size, how=how)
    fb = FiberInstance()
    name = 'disp_%d.csv' % ctx.index
    if how == 'file':
        skip = int(rng.integers(0, 3))
        delim = gen.pick(rng, [',', ';', None])
        with open(name, 'w') as f:
            for _ in range(skip):
                f.write('some header text\n')
            for a, b in zip(x, y):
                f.write('%.17g%s%.17g\n' % (a, delim or ' ', b))
        kw = {}
        if order != 3 or rng.random() < .5:
            kw['poly_order'] = order
        try:
            fb.load_from_file(name, length=.3, gamma_W_m=.2, delimiter=delim, skiprows=skip, **kw)
        finally:
            os.unlink(name)
        ctx.check(fb.length == .3 and fb.get_gamma() == .2, 'file-parameters')
    elif how == 'function':
        fb.generate_fiber(.3, wl, [0.], .2)
        fb.poly_order = order
        fb.set_dispersion_function(lambda z: (x, y), dispersion_format='D')
    else:
        import json
        db = {'mine': {'dispersion_format': 'D', 'dispersion_x_units': 'nm',
                       'dispersion_y_units': 'ps/nm/km', 'dispersion_x_data': list(map(float, x)),
                       'dispersion_y_data': list(map(float, y)), 'gamma': .2, 'is_gain': False}}
        with open('db_%d.txt' % ctx.index, 'w') as f:
            json.dump(db, f)
        try:
            fb = FiberInstance('db_%d' % ctx.index, os.getcwd())
        finally:
            os.unlink('db_%d.txt' % ctx.index)
        fb.load_from_db(.3, 'mine', poly_order=order)
    kx, ky = x.copy(), y.copy()
    B = fb.get_betas(p)
    betas, w, P = fib.fit_beta2(wl, x, y, order)
    M = ref.taylor_beta(betas, g['V'])
    # rounding of the fit grows outside the tabulated band
    span = max(1.0, np.max(np.abs(g['V'])) / np.max(np.abs(w)))
    sc = sum(np.max(np.abs(ref.taylor_beta([0] * i + [b], g['V']))) for i, b in enumerate(betas))
    ctx.close(B, M, 'table-dispersion', rtol=1e-8, scale=sc + 1e-300, span=span)
    ctx.leq(abs(B[n // 2]), 1e-12 * sc, 'table-zero-at-centre')
    ctx.close(x, kx, 'argument-unchanged', rtol=0)
    ctx.close(y, ky, 'argument-unchanged', rtol=0)
    ctx.close(fb.get_betas(p), B, 'repeatable', rtol=1e-12)
    curvature(ctx, fb, p, g, M, sc)
    ctx.event('table fibres')


def index(ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    nfun, par = fib.sellmeier(rng)
    while True:
        p, n, tw, wl, g = pulse(rng)
        if g['wl'].min() > 350 and g['wl'].max() < 4500:
            break
    x = np.linspace(g['wl'].min() * .95, g['wl'].max() * 1.05, gen.rows(rng, 300, 900, 5000))
    y = nfun(x * 1e-3)
    ctx.note(n=n, tw=tw, wl=wl, sellmeier=par, rows=x.size)
    fb = FiberInstance()
    fb.generate_fiber(.3, wl, [0.], .2)
    fb.set_dispersion_function(lambda z: (x, y), dispersion_format='n')
    B = fb.get_betas(p)
    beta = nfun(g['wl'] * 1e-3) * 2 * np.pi / (g['wl'] * 1e-9)
    R = beta - beta[n // 2]
    c = n // 2
    dw = 2 * np.pi / tw
    R = R - (R[c + 1] - R[c - 1]) / (2 * dw) * g['V']
    sc = max(float(np.max(np.abs(R))), 1e-9 * np.max(np.abs(beta)))
    ctx.close(B, R, 'index-dispersion', rtol=1e-4, scale=sc,
              atol=1e-14 * np.max(np.abs(beta)) * (3 + np.max(np.abs(g['V'])) / dw))
    ctx.leq(abs(B[c]), 1e-9 * np.max(np.abs(beta)), 'index-zero-at-centre')
    ctx.event('index fibres')


def index_cubic(ctx):
    """An index whose wavenumber is a cubic in frequency is followed exactly,
    however few, many or uneven the rows of the table are."""
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    p, n, tw, wl, g = pulse(rng)
    w_lo, w_hi = g['W'].min(), g['W'].max()
    lo, hi = w_lo * rng.uniform(.8, .999), w_hi * rng.uniform(1.001, 1.2)
    u = np.concatenate([[0], np.cumsum(rng.uniform(.3, 1., gen.rows(rng, 5, 80)))])
    w = lo + (hi - lo) * u / u[-1]
    w0 = 2 * np.pi * ref.C_NMPS / wl
    b1 = rng.uniform(1.2, 2.5) / (ref.C * 1e-12)
    b2 = gen.sgn(rng) * gen.logu(rng, 1e-4, 1)
    b3 = gen.sgn(rng) * gen.logu(rng, 1e-7, 1e-2)

    level = rng.uniform(.8, 1.2)

    def poly(v):
        return b1 * w0 * level + b1 * (v - w0) + b2 / 2 * (v - w0) ** 2 + b3 / 6 * (v - w0) ** 3
    w = w[::-1]
    x = 2 * np.pi * ref.C_NMPS / w                     # ascending wavelengths
    y = poly(w) * (x * 1e-9) / (2 * np.pi)
    ctx.note(n=n, tw=tw, wl=wl, b2=b2, b3=b3, rows=x.size)
    fb = FiberInstance()
    fb.generate_fiber(.3, wl * rng.uniform(.9, 1.1), [0.], .2)
    fb.set_dispersion_function(lambda z: (x, y), dispersion_format='n')
    keep = x.copy(), y.copy()
    B = fb.get_betas(p)
    R = b2 / 2 * g['V'] ** 2 + b3 / 6 * g['V'] ** 3
    c, dw = n // 2, 2 * np.pi / tw
    R = R - (R[c + 1] - R[c - 1]) / (2 * dw) * g['V'] - R[c]
    big = np.max(np.abs(y / x)) * 2 * np.pi * 1e9
    big = max(big, np.max(np.abs(poly(g['W']))))
    # rounding of the wavenumbers, and what the slope at the centre makes of it
    ctx.close(B, R, 'index-cubic-exact', rtol=1e-10, atol=1e-14 * big * (3 + np.max(np.abs(g['V'])) / dw))
    ctx.check(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), 'table-kept')
    ctx.event('exact index tables')


def units(ctx):
    """Same glass in three formats: the same pulse sees the same dispersion."""
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    while True:
        p, n, tw, wl, g = pulse(rng, (32, 64, 100, 128))
        if g['wl'].min() > .75 * wl and g['wl'].max() < 1.35 * wl:
            break
    b2, b3 = rng.normal() * .02, rng.normal() * 1e-4
    L = .5
    x = np.linspace(g['wl'].min(), g['wl'].max(), 200)
    w = 2 * np.pi * ref.C_NMPS * (1 / x - 1 / wl)
    D = -2 * np.pi * ref.C_NMPS / x ** 2 * (b2 + b3 * w) * 1e3
    ctx.note(n=n, tw=tw, wl=wl, b2=b2, b3=b3)
    fa, fb_, fc = FiberInstance(), FiberInstance(), FiberInstance()
    fa.generate_fiber(L, wl, (b2, b3), 0.)
    fb_.generate_fiber(L, wl, (b2 * 1e3, b3 * 1e3), 0., gvd_units='ps^n/km')
    fc.generate_fiber(L, wl, (0.,), 0.)
    fc.poly_order = int(rng.integers(1, 4))
    fc.set_dispersion_function(lambda z: (x, D), dispersion_format='D')
    A = fa.get_betas(p)
    sc = np.max(np.abs(A))
    ctx.close(fb_.get_betas(p), A, 'per-km-equals-per-m', rtol=1e-10)
    C = fc.get_betas(p)
    k = np.arange(n) - n / 2
    lin = (A - C)
    s = (lin[-1] - lin[0]) / (n - 1)
    ctx.close(lin, lin[0] + s * (k - k[0]), 'table-equals-taylor', rtol=1e-7, scale=sc)
    ctx.close(fa.Beta2(p)[n // 2], b2, 'beta2-at-centre', rtol=1e-6,
              atol=4e-13 * sc / (2 * np.pi / tw) ** 2 + 1e-6 * abs(b3) * 2 * np.pi / tw)
    ctx.close(fa.Beta2_to_D(p)[n // 2], -2 * np.pi * ref.C_NMPS / wl ** 2 * b2 * 1e3, 'd-at-centre', rtol=1e-6,
              atol=4e-10 * sc / (2 * np.pi / tw) ** 2 * 2 * np.pi * ref.C_NMPS / wl ** 2)
    ctx.event('same glass')


def along(ctx):
    """Tables that change along the fibre, queried at many positions."""
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    p, n, tw, wl, g = pulse(rng, (16, 32, 64))
    order = int(rng.integers(1, 5))
    lo, hi = max(g['wl'].min(), .6 * wl), min(g['wl'].max(), 1.6 * wl)
    x = np.linspace(lo, hi, gen.rows(rng, order + 3, 60))
    y0, y1 = fib.table_values(rng, x), fib.table_values(rng, x)
    fb = FiberInstance()
    fb.generate_fiber(1., wl, [0.], .2)
    fb.poly_order = order
    fb.set_dispersion_function(lambda z: (x + 0., y0 + y1 * z), dispersion_format='D')
    m = int(rng.integers(2, 50))
    ctx.note(n=n, tw=tw, wl=wl, order=order, rows=x.size, positions=m)
    for z in rng.uniform(0, 1, m):
        B = fb.get_betas(p, float(z))
        betas, w, P = fib.fit_beta2(wl, x, y0 + y1 * z, order)
        M = ref.taylor_beta(betas, g['V'])
        span = max(1.0, np.max(np.abs(g['V'])) / np.max(np.abs(w)))
        sc = sum(np.max(np.abs(ref.taylor_beta([0] * i + [b], g['V']))) for i, b in enumerate(betas))
        ctx.close(B, M, 'table-along-fibre', rtol=1e-8, scale=sc + 1e-300, span=span)
    ctx.event('positions', m)


STRATA = [('gvd', gvd, 4), ('along', along, 1), ('table', table, 3), ('index', index, 2), ('index_cubic', index_cubic, 1), ('units', units, 1)]
