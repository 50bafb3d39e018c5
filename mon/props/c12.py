"""C12 converting a D table gives the least-squares Taylor coefficients."""
import os

import numpy as np

from mon import fib, gen, ref

RULE = ('random tables (exactly polynomial, noisy, unsorted, in memory and in '
        'files), fit orders and expansion wavelengths; coefficients compared '
        'with an independent fit, and the fit itself judged by its residuals.')
QUICK, THOROUGH = 14000, 100000
MIN_CHECKS = 56700
BUDGET = 100000
FILES = ['src/pynlo/media/fibers/calculators.py']


def conv(*a, **k):
    from pynlo.media.fibers.calculators import DTabulationToBetas
    return DTabulationToBetas(*a, **k)


def axis(rng, m):
    lo = rng.uniform(400, 2500) if rng.random() < .85 else gen.logu(rng, 40, 20000)
    hi = lo * rng.uniform(1.1, 2.2)
    x = np.linspace(lo, hi, m) if rng.random() < .5 else np.sort(rng.uniform(lo, hi, m))
    return x, float(rng.uniform(lo, hi))


def as_table(rng, x, y):
    k = int(rng.integers(4))
    t = np.vstack((x, y)).T
    if k == 0:
        return t.tolist()
    if k == 1:
        return np.asfortranarray(t)
    if k == 2:
        t = t.copy()
        t.setflags(write=False)
        return t
    return t


def scale_of(betas, w):
    import math
    return [abs(b) * np.max(np.abs(w)) ** i / math.factorial(i) for i, b in enumerate(betas)]


def same(ctx, got, want, w, clause, rtol):
    """Compare coefficient by coefficient in the size of its contribution."""
    import math
    ctx.need(np.shape(got) == np.shape(want), clause, got=np.shape(got), want=np.shape(want))
    u = np.array([np.max(np.abs(w)) ** i / math.factorial(i) for i in range(len(want))])
    ctx.close(np.asarray(got) * u, np.asarray(want) * u, clause, rtol=rtol)


def exact(ctx):
    """Data that are a polynomial in frequency give back its coefficients."""
    import math
    rng = ctx.rng
    deg = int(rng.integers(0, 6))
    order = deg + int(rng.integers(0, 3))
    x, wl0 = axis(rng, int(rng.integers(order + 4, 60)))
    w = 2 * np.pi * ref.C_NMPS * (1 / x - 1 / wl0)
    W = np.max(np.abs(w))
    b = np.array([rng.normal() * .02 * math.factorial(i) / W ** i for i in range(deg + 1)])
    b2 = sum(b[i] / math.factorial(i) * w ** i for i in range(deg + 1))
    y = -2 * np.pi * ref.C_NMPS / x ** 2 * b2 * 1e3
    t = as_table(rng, x, y)
    keep = np.array(t)
    ctx.note(deg=deg, order=order, rows=x.size, wl0=wl0)
    got = conv(gen.as_number(rng, wl0), t, order, DDataIsFile=False)
    same(ctx, got, np.concatenate([b, np.zeros(order - deg)]), w, 'exact-coefficients', 1e-7)
    ctx.close(np.array(t), keep, 'table-unchanged', rtol=0)
    ctx.close(conv(wl0, t, order, DDataIsFile=False), got, 'repeatable', rtol=0)
    # the same polynomial about another wavelength
    wl1 = float(rng.uniform(x.min(), x.max()))
    d = 2 * np.pi * ref.C_NMPS * (1 / wl1 - 1 / wl0)
    c = [sum(b[j] / math.factorial(j - i) * d ** (j - i) for j in range(i, deg + 1)) for i in range(deg + 1)]
    w1 = 2 * np.pi * ref.C_NMPS * (1 / x - 1 / wl1)
    same(ctx, conv(wl1, t, order, DDataIsFile=False), np.concatenate([c, np.zeros(order - deg)]), w1,
         'recentred-coefficients', 1e-6)
    ctx.event('exact tables')


def fitted(ctx):
    rng = ctx.rng
    order = int(rng.integers(1, 7) if rng.random() < .88 else rng.integers(7, 11))
    m = int(rng.integers(order + 4, 120)) if rng.random() < .8 else int(gen.logu(rng, 120, 3000))
    x, wl0 = axis(rng, m)
    y = fib.table_values(rng, x) + rng.normal(size=m) * rng.uniform(0, 5)
    if rng.random() < .5:
        i = rng.permutation(m)
        x, y = x[i], y[i]
    ctx.note(order=order, rows=m, wl0=wl0)
    t = as_table(rng, x, y)
    got = conv(wl0, t, order, DDataIsFile=False)
    want, w, P = fib.fit_beta2(wl0, x, y, order)
    same(ctx, got, want, w, 'least-squares-coefficients', 1e-6)
    out = conv(wl0, t, order, DDataIsFile=False, return_diagnostics=True)
    ctx.need(len(out) == 4, 'diagnostics', got=len(out))
    same(ctx, out[0], got, w, 'diagnostics', 1e-12)
    ctx.close(out[1], w, 'diagnostic-axis', rtol=1e-9, scale=2 * np.pi * ref.C_NMPS / x.min())
    b2 = fib.d_to_beta2(x, y)
    ctx.close(out[2], b2, 'diagnostic-data', rtol=1e-9)
    ctx.close(out[3], P(w), 'diagnostic-fit', rtol=1e-6, scale=np.max(np.abs(b2)))
    # normal equations: residual orthogonal to every power used
    r = np.asarray(out[3]) - b2
    u = w / np.max(np.abs(w))
    for k in range(order + 1):
        ctx.leq(abs(np.sum(r * u ** k)), 1e-6 * m * np.max(np.abs(b2)), 'residual-orthogonal')
    # order of rows does not matter
    j = rng.permutation(m)
    same(ctx, conv(wl0, np.array(t)[j], order, DDataIsFile=False), got, w, 'row-order-free', 1e-7 if order < 7 else 3e-6)
    # twice the dispersion, twice the coefficients
    s = float(rng.uniform(-3, 3))
    t2 = np.array(t)
    t2[:, 1] *= s
    same(ctx, conv(wl0, t2, order, DDataIsFile=False), s * np.asarray(got), w, 'linear-in-data', 1e-7)
    ctx.event('fitted tables')


def files(ctx):
    rng = ctx.rng
    order = int(rng.integers(1, 5))
    m = int(rng.integers(order + 4, 40) if rng.random() < .9 else gen.logu(rng, 40, 4000))
    x, wl0 = axis(rng, m)
    y = fib.table_values(rng, x)
    name = 'dtab_%d.csv' % ctx.index
    with open(name, 'w') as f:
        f.write(gen.pick(rng, ['wavelength (nm), D (ps/nm/km)', 'a,b', '#x,y']) + '\n')
        for a, b in zip(x, y):
            f.write('%.17g,%.17g\n' % (a, b))
    ctx.note(order=order, rows=m, wl0=wl0)
    with open(name) as f:
        before = f.read()
    try:
        got = conv(wl0, name, order) if rng.random() < .5 else conv(wl0, name, order, DDataIsFile=True)
        with open(name) as f:
            ctx.check(f.read() == before, 'file-unchanged')
    finally:
        os.unlink(name)
    want, w, P = fib.fit_beta2(wl0, x, y, order)
    same(ctx, got, want, w, 'file-coefficients', 1e-6)
    same(ctx, got, conv(wl0, np.vstack((x, y)).T, order, DDataIsFile=False), w, 'file-equals-memory', 1e-9)
    ctx.event('files')


STRATA = [('exact', exact, 3), ('fitted', fitted, 4), ('files', files, 1)]
