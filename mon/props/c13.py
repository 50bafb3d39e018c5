"""C13 a fibre's description belongs to that fibre and is what was last set."""
import copy
import json
import os
import shutil

import numpy as np

from mon import fib, gen, ref

RULE = ('random interleavings of generating, loading, changing and querying '
        'several fibres; each query compared with a model of that fibre alone.')
QUICK, THOROUGH = 5000, 50000
MIN_CHECKS = 33700
BUDGET = 400000
FILES = ['src/pynlo/media/fibers/fiber.py', 'src/pynlo/media/fibers/JSONFiberLoader.py']

DUDLEY = [-11.83e-3, 8.1038e-5, -9.5205e-8, 2.0737e-10, -5.3943e-13, 1.3486e-15,
          -2.5495e-18, 3.0524e-21, -1.714e-24]


class Model:
    betas = None
    table = None
    zbeta = zgamma = None

    def gamma_at(self, z):
        return self.zgamma(z) if self.zgamma else self.gamma


def recentre(M, g):
    n = g['n']
    c, dw = n // 2, 2 * np.pi / g['tw']
    return M - M[c] - (M[c + 1] - M[c - 1]) / (2 * dw) * g['V']


def expected(m, g, z):
    if m.kind == 'table':
        b = fib.fit_beta2(g['wl0'], m.table[0], m.table[1], m.order)[0]
        M = ref.taylor_beta(b, g['V'])
        return M, float(np.max(np.abs(M)))
    b = m.zbeta(z) if m.zbeta else m.betas
    x = g['W'] - 2 * np.pi * ref.C_NMPS / m.wl
    M = ref.taylor_beta(b, x)
    return recentre(M, g), 1e8 * fib.taylor_slack(b, g['W'], x) + sum(float(np.max(np.abs(ref.taylor_beta([0] * i + [c], x)))) for i, c in enumerate(b))


def query(ctx, f, m, p, g):
    rng = ctx.rng
    z = float(rng.uniform(0, m.length))
    want, sc = expected(m, g, z)
    B = f.get_betas(p, z=z) if rng.random() < .7 or m.zbeta else f.get_betas(p)
    ctx.close(B, want, 'own-dispersion', rtol=1e-8, scale=sc + 1e-300, kind=m.kind)
    got = f.get_gamma(z) if rng.random() < .5 else f.get_gamma(z=z)
    ctx.close(got, m.gamma_at(z), 'own-nonlinearity', rtol=1e-12)
    ctx.close(f.length, m.length, 'own-length', rtol=1e-12)
    ctx.close(np.asarray(f.get_gain(p)), np.full(g['n'], m.gain), 'own-gain', rtol=1e-12)
    ctx.event('queries')


def some_length(rng):
    return float(rng.uniform(.05, 2)) if rng.random() < .7 else gen.logu(rng, 1e-4, 1e5)


def zfun(rng, base):
    """A z-dependent version of the given coefficients and its model."""
    a, b = rng.uniform(.2, 2), rng.uniform(-2, 2)
    kind = gen.pick(rng, [tuple, list, np.array])
    return (lambda z: kind([c * (a + b * z) for c in base]),
            lambda z: [c * (a + b * z) for c in base])


def change(ctx, f, m, tw, n, wl, db):
    """Redefine fibre f through the public interface; m follows."""
    rng = ctx.rng
    k = int(rng.integers(7))
    if k <= 1 or m.betas is None and k > 3:
        km = bool(rng.random() < .4)
        L = some_length(rng)
        b = fib.random_betas(rng, tw, n, L)
        arg = np.array([x * 1e3 for x in b] if km else b)
        m.__dict__.clear()
        m.kind, m.betas, m.length, m.wl = 'taylor', b, L, wl * float(rng.uniform(.95, 1.05))
        m.gamma = float(rng.uniform(0, 2))
        m.gain = fib.some_gain(rng)
        if km:
            f.generate_fiber(L, m.wl, arg, m.gamma, m.gain, gvd_units='ps^n/km')
        else:
            f.generate_fiber(L, center_wl_nm=m.wl, betas=arg, gamma_W_m=m.gamma, gain=m.gain)
        arg *= 17.0                        # the caller reuses the array
        return 'generate'
    if k == 2:
        L = some_length(rng)
        name = gen.pick(rng, sorted(db))
        f.load_from_db(L, name) if rng.random() < .7 else f.load_from_db(length=L, fibertype=name, poly_order=2)
        s = db[name]
        m.__dict__.clear()
        m.length, m.gamma, m.gain = L, s['gamma'], 0.0
        if s['dispersion_format'] == 'GVD':
            u = 1e-3 if s['dispersion_gvd_units'] == 'ps^n/km' else 1.0
            m.kind, m.betas = 'taylor', [x * u for x in s['dispersion_data']]
            m.wl = s['dispersion_gvd_center_wavelength']
        else:
            m.kind, m.order = 'table', 2
            m.table = (np.array(s['dispersion_x_data']), np.array(s['dispersion_y_data']))
        return 'db:' + name
    if k == 3:
        x = np.linspace(wl * .7, wl * 1.5, 20)
        y = fib.table_values(rng, x)
        name = 'iso_%d_%d.csv' % (ctx.index, int(rng.integers(1e9)))
        np.savetxt(name, np.vstack((x, y)).T, delimiter=',', fmt='%.18e')
        L, gm = float(rng.uniform(.05, 2)), float(rng.uniform(0, 2))
        gain = fib.some_gain(rng)
        order = int(rng.integers(1, 5))
        kw = dict(length=L, gamma_W_m=gm, gain=gain, poly_order=order, fiberName='mine')
        for k in list(kw):                 # what is not given has a default
            if rng.random() < .15:
                del kw[k]
        L, gm, gain, order = kw.get('length', .1), kw.get('gamma_W_m', 0), kw.get('gain', 0), kw.get('poly_order', 3)
        try:
            f.load_from_file(name, **kw)
            ctx.check(f.fibertype == kw.get('fiberName', name), 'own-name', got=f.fibertype)
        finally:
            os.unlink(name)
        m.__dict__.clear()
        m.kind, m.table, m.order, m.length, m.gamma, m.gain = 'table', (x, y), order, L, gm, gain
        return 'file'
    if k == 4 and m.kind == 'taylor':
        fn, mod = zfun(rng, m.betas)
        f.set_dispersion_function(fn) if rng.random() < .5 else f.set_dispersion_function(fn, dispersion_format='GVD')
        m.zbeta = mod
        return 'z-dispersion'
    a, b = rng.uniform(.1, 2), rng.uniform(-1, 1)
    f.set_gamma_function(lambda z: a + b * z)
    m.zgamma = lambda z: a + b * z
    return 'z-gamma'


def write_db(ctx, wl, tw, n):
    rng = ctx.rng
    db = {}
    for i in range(3):
        if rng.random() < .7:
            km = bool(rng.random() < .5)
            b = fib.random_betas(rng, tw, n, 1.)
            db['fiber%d' % i] = dict(dispersion_format='GVD', dispersion_gvd_units='ps^n/km' if km else 'ps^n/m',
                                     dispersion_gvd_center_wavelength=wl * float(rng.uniform(.97, 1.03)),
                                     dispersion_data=[x * 1e3 if km else x for x in b],
                                     gamma=float(rng.uniform(0, 1)), is_gain=False, name='fiber%d' % i)
        else:
            x = np.linspace(wl * .7, wl * 1.5, 12)
            db['fiber%d' % i] = dict(dispersion_format='D', dispersion_x_units='nm', dispersion_y_units='ps/nm/km',
                                     dispersion_x_data=x.tolist(),
                                     dispersion_y_data=fib.table_values(rng, x).tolist(),
                                     gamma=float(rng.uniform(0, 1)), is_gain=False, name='fiber%d' % i)
    return db


def histories(ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    n, tw, wl = gen.grid(rng, [16, 32, 64, 100], tw_lo=.3)
    pulses = []
    for s in (1.0, 1.02):
        p = gen.bare_pulse(rng, n, tw, wl * s)
        p.set_AT(np.ones(n))
        pulses.append((p, ref.grids(n, tw, ref.C_NMPS / (wl * s))))
    # collections of the same name in two folders, and rewritten in between
    dirs = ['dbs_%d_%d' % (ctx.index, i) for i in range(2)]
    name = 'mine' if rng.random() < .5 else 'general_fibers'
    fibers = []
    try:
        for d in dirs:
            os.mkdir(d)
        held = {}
        for k in range(int(rng.integers(2, 5))):
            d = dirs[0] if k == 0 else gen.pick(rng, dirs)
            if d not in held or rng.random() < .3:
                held[d] = write_db(ctx, wl, tw, n)
                with open(os.path.join(d, name + '.txt'), 'w') as f:
                    json.dump(held[d], f)
            fibers.append([FiberInstance(name, os.path.join(os.getcwd(), d)), Model(), held[d]])
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    trace = []
    for f, m, db in fibers:
        while not m.__dict__:
            trace.append((len(trace), change(ctx, f, m, tw, n, wl, db)))
    for _ in range(int(rng.integers(3, 10))):
        i = int(rng.integers(len(fibers)))
        f, m, db = fibers[i]
        if rng.random() < .15:
            f, m = copy.deepcopy(f), copy.copy(m)
            fibers.append([f, m, db])
            i = len(fibers) - 1
        trace.append((i, change(ctx, f, m, tw, n, wl, db)))
        p, g = gen.pick(rng, pulses)
        query(ctx, f, m, p, g)
        j = int(rng.integers(len(fibers)))
        query(ctx, fibers[j][0], fibers[j][1], *gen.pick(rng, pulses))
    for f, m, db in fibers:
        query(ctx, f, m, *pulses[0])
    ctx.note(trace=trace, n=n, tw=tw, wl=wl)


def shipped(ctx):
    """The shipped photonic-crystal fibre has its published parameters."""
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    L = float(rng.uniform(.01, 1))
    n = gen.pick(rng, [64, 128, 256])
    wl = float(rng.uniform(700, 1000))
    tw = n / (ref.C_NMPS / wl) * rng.uniform(1.2, 4)
    p = gen.bare_pulse(rng, n, tw, wl)
    p.set_AT(np.ones(n))
    g = ref.grids(n, tw, ref.C_NMPS / wl)
    ctx.note(L=L, n=n, tw=tw, wl=wl)
    m = Model()
    m.kind, m.betas, m.wl, m.length, m.gamma, m.gain = 'taylor', DUDLEY, 835., L, .11, 0.0
    f = FiberInstance()
    for _ in range(int(rng.integers(1, 3))):
        f.load_from_db(L, 'dudley')
        query(ctx, f, m, p, g)
    h = FiberInstance()
    if rng.random() < .5:
        f.set_gamma_function(lambda z: 5.)
        f.set_dispersion_function(lambda z: (1.,))
    h.load_from_db(L, 'dudley')
    query(ctx, h, m, p, g)
    ctx.raises(Exception, 'unknown-fibre-refused', h.load_from_db, L, 'no such fibre')
    ctx.event('shipped fibre')


def scan(ctx):
    """Position along the fibre is honoured in any order of queries."""
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    n, tw, wl = gen.grid(rng, [16, 32, 64], tw_lo=.3)
    p = gen.bare_pulse(rng, n, tw, wl)
    p.set_AT(np.ones(n))
    g = ref.grids(n, tw, ref.C_NMPS / wl)
    L = some_length(rng)
    f = FiberInstance()
    b = fib.random_betas(rng, tw, n, L)
    f.generate_fiber(L, wl, b, 1.)
    m = Model()
    m.kind, m.betas, m.wl, m.length, m.gamma, m.gain = 'taylor', b, wl, L, 1., 0.0
    fn, m.zbeta = zfun(rng, b)
    f.set_dispersion_function(fn)
    c = rng.normal(size=3)
    f.set_gamma_function(lambda z: c[0] + c[1] * z + c[2] * z * z)
    m.zgamma = lambda z: c[0] + c[1] * z + c[2] * z * z
    zs = [float(z) for z in rng.uniform(0, L, 6)] + [0.0, L, L * gen.logu(rng, 1e-12, 1e-2),
                                                     L * (1 + gen.logu(rng, 1e-12, .3))]
    rng.shuffle(zs)
    for z in zs:
        want, sc = expected(m, g, z)
        ctx.close(f.get_betas(p, z), want, 'dispersion-at-z', rtol=1e-8, scale=sc)
        ctx.close(f.get_gamma(z), m.gamma_at(z), 'gamma-at-z', rtol=1e-12)
    want, sc = expected(m, g, 0.)
    ctx.close(f.get_betas(p), want, 'default-is-entrance', rtol=1e-8, scale=sc)
    ctx.close(f.get_gamma(), m.gamma_at(0), 'default-is-entrance', rtol=1e-12)
    ctx.note(n=n, tw=tw, wl=wl, zs=zs)
    ctx.event('positions', len(zs))


def tables(ctx):
    """Tables of D or of the index that a function makes anew at every position."""
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    n, tw, wl = gen.grid(rng, [16, 32, 64], tw_lo=.3)
    while not (wl * .55 < ref.grids(n, tw, ref.C_NMPS / wl)['wl'].min() and
               0 < ref.grids(n, tw, ref.C_NMPS / wl)['wl'].max() < 2. * wl):
        n, tw, wl = gen.grid(rng, [16, 32, 64], tw_lo=.3)
    p = gen.bare_pulse(rng, n, tw, wl)
    p.set_AT(np.ones(n))
    g = ref.grids(n, tw, ref.C_NMPS / wl)
    L = some_length(rng)
    index = rng.random() < .4
    x = np.linspace(wl * .5, wl * 2.1, 160 if index else 40)
    if index:
        nfun, par = fib.sellmeier(rng)
        y = nfun(x * 1e-3)
        q = np.isfinite(y)
        x, y = x[q], y[q]
        slope = y * .02 * rng.normal() * (x / wl) ** 2
        if x.size < 20:
            return
    else:
        y, slope = fib.table_values(rng, x), fib.table_values(rng, x)
    order = int(rng.integers(1, 5))
    fmt = 'n' if index else 'D'

    def at(z):
        return x * 1., y + slope * z

    def fresh():
        f = FiberInstance()
        f.generate_fiber(L, wl, [0.], .1)
        f.poly_order = order
        return f
    f = fresh()
    f.set_dispersion_function(at, dispersion_format=fmt)
    zs = [float(z) for z in rng.uniform(0, L, int(rng.integers(3, 40)))]
    zs += [0., L * gen.logu(rng, 1e-12, 1e-2), L, L * (1 + gen.logu(rng, 1e-12, .3))]
    rng.shuffle(zs)
    ctx.note(n=n, tw=tw, wl=wl, format=fmt, order=order, positions=len(zs))
    for z in zs:
        B = f.get_betas(p, z) if rng.random() < .5 else f.get_betas(p, z=z)
        if index:
            h = fresh()
            X, Y = at(z)
            h.set_dispersion_function(lambda u: (X, Y), dispersion_format='n')
            want = h.get_betas(p)
            sc = float(np.max(np.abs(want))) + 1e-9 * float(np.max(np.abs(g['W']))) / ref.C_NMPS * 1e9
        else:
            X, Y = at(z)
            want = ref.taylor_beta(fib.fit_beta2(wl, X, Y, order)[0], g['V'])
            sc = float(np.max(np.abs(want)))
        ctx.close(B, want, 'table-at-z', rtol=1e-7, scale=sc + 1e-300)
    ctx.event('positions', len(zs))
    ctx.event('tables at ' + fmt, len(zs))


STRATA = [('histories', histories, 4), ('tables', tables, 1), ('shipped', shipped, 1), ('scan', scan, 1)]
