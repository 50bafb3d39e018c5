"""C22 the adaptive integrator meets its error tolerance."""
import numpy as np

from mon import gen, ode

RULE = ('random initial value problems with closed-form solutions, forwards and '
        'backwards, real and complex, at random tolerances and first steps; final '
        'values compared with the exact ones, single steps with the order of the '
        'method, and rescaled problems with each other.')
QUICK, THOROUGH = 6000, 40000
MIN_CHECKS = 3700
BUDGET = 3_000_000
FILES = ['src/pynlo/util/ode_solve/steppers.py', 'src/pynlo/util/ode_solve/dopr853.py',
         'src/pynlo/util/ode_solve/dopr853_controller.py', 'src/pynlo/util/ode_solve/dopr853_constants.py']


def run(ctx, p, out=None, **kw):
    dense = kw.pop('dense', None)
    if out is None:
        out = ode.output(1) if dense is None else ode.output(None)
    y0 = p.y0()
    a = ode.make(p, out, y0=y0, **kw) if dense is None else ode.make(p, out, y0=y0, dense=dense, **kw)
    ctx.call(a.integrate)
    ctx.event('integrations')
    return y0, a


def accuracy(ctx):
    rng = ctx.rng
    p = ode.pick(rng, far=True)
    tol = max(10 ** rng.uniform(-12, -3), 100 * p.slack)
    h1 = p.unit * gen.logu(rng, 1e-6, 3 if p.name.split()[0] in ('linear', 'rotation', 'phase') else .3)
    h1 = min(h1, p.hmax) * gen.sgn(rng)
    dense = None if rng.random() < .5 else False
    ctx.note(problem=p.name, x1=p.x1, x2=p.x2, tol=tol, h1=h1, dense=dense)
    y, a = run(ctx, p, atol=tol, rtol=tol, h1=h1, dense=dense)
    want = np.asarray(p.exact(p.x2))
    big = max(1.0, np.max(np.abs(want)), np.max(np.abs(p.y0())))
    ctx.leq(np.max(np.abs(y - want)), (40 * tol + 1e-12 + 10 * p.slack) * p.amp * big, 'error-tolerance',
            problem=p.name)
    ctx.close(a.s.x, p.x2, 'end-point', atol=1e-13 * (abs(p.x1) + abs(p.x2)))
    ctx.check(y.dtype == p.dtype, 'dtype-kept')
    w = abs(p.x2 - p.x1) * 1e-9
    ctx.check(p.lo >= min(p.x1, p.x2) - w and p.hi <= max(p.x1, p.x2) + w, 'stays-inside-the-interval',
              low=p.lo, high=p.hi, x1=p.x1, x2=p.x2)
    ctx.event('problem ' + p.name)


def compared(ctx, p, tol, h1, wide=0):
    """The work is that of a reference implementation of the same method."""
    from scipy.integrate import solve_ivp
    y, a = run(ctx, p, atol=tol, rtol=tol, h1=h1, dense=False)
    mine = p.calls
    s = solve_ivp(p.f, (p.x1, p.x2), p.y0(), method='DOP853', rtol=tol, atol=tol, first_step=h1)
    ctx.leq(mine, 1.3 * s.nfev + 80 + wide, 'evaluations-comparable', reference=int(s.nfev))
    ctx.leq(s.nfev, 1.3 * mine + 60 + wide, 'evaluations-comparable', mine=mine)
    return y, s


def effort(ctx):
    """The work is comparable with a reference implementation of the same method
    and grows as the tolerance shrinks."""
    rng = ctx.rng
    p = ode.pick(rng, reverse=0)
    tol = 10 ** rng.uniform(-13, -1.5)
    h1 = min(p.hmax, p.unit * gen.logu(rng, 1e-6, 1), abs(p.x2 - p.x1))
    ctx.note(problem=p.name, tol=tol, h1=h1)
    compared(ctx, p, tol, h1)
    ctx.event('efforts')


def long(ctx):
    """Thousands of steps: nothing is given up, and errors add up no faster than
    in the reference."""
    rng = ctx.rng
    x = rng.random()
    turns = gen.logu(rng, 20, 300) if x < .85 else gen.logu(rng, 300, 8000)
    w = gen.logu(rng, 1e-3, 1e3)
    y0 = rng.normal(size=2)

    def exact(x):
        c, s = np.cos(w * x), np.sin(w * x)
        return np.array([c * y0[0] + s * y0[1], -s * y0[0] + c * y0[1]])
    p = ode.Prob('many turns', lambda x, y: w * np.array([y[1], -y[0]]), exact, 0., turns / w)
    tol = 10 ** rng.uniform(-13, -2)
    h1 = gen.logu(rng, 1e-6, 1) / w
    ctx.note(problem=p.name, turns=turns, tol=tol, h1=h1)
    y, s = compared(ctx, p, tol, h1)
    big = float(np.max(np.abs(y0)))
    e, r = np.max(np.abs(y - exact(p.x2))), np.max(np.abs(s.y[:, -1] - exact(p.x2)))
    ctx.leq(e, 10 * r + 3 * tol * big * (1 + .01 * turns) + 1e-14 * turns * big, 'error-over-many-steps', reference=r)
    ctx.event('steps of long integrations', p.calls // 12)


def order(ctx):
    """One step of size h has an error of order h^9; quadrature is exact up to
    degree seven."""
    rng = ctx.rng
    if rng.random() < .5:
        deg = int(rng.integers(0, 8))
        p = ode.poly(rng, deg)
        ctx.note(problem='poly', degree=deg)
        y, a = run(ctx, p, atol=1e30, rtol=1e30, h1=abs(p.x2 - p.x1), dense=False)
        ctx.check(p.calls <= 25, 'one-step', calls=p.calls)
        ctx.close(y, p.exact(p.x2), 'quadrature-exact', rtol=1e-12, scale=1 + float(np.max(np.abs(p.exact(p.x2)))) + 20)
        ctx.event('degree %d' % deg)
        return
    p = ode.linear(rng, norm=rng.uniform(.8, 1.6)) if rng.random() < .6 else ode.nls(rng, amp=rng.uniform(.6, 1.))
    ctx.note(problem=p.name)
    errs = []
    x1 = p.x1
    hs = [.9, .45, .225]
    for h in hs:
        p.x2 = x1 + h
        y, a = run(ctx, p, atol=1e30, rtol=1e30, h1=h, dense=False)
        errs.append(np.max(np.abs(y - p.exact(p.x2))) / max(1., np.max(np.abs(y))))
    ctx.leq(errs[0], 2e-2, 'single-step-error')
    if errs[1] > 1e-10:
        ctx.leq(errs[1], errs[0] / 60 + 5e-12, 'ninth-order-step', errs=errs)
        ctx.event('orders')
    if errs[2] > 1e-11:
        ctx.leq(errs[2], errs[1] / 100 + 2e-12, 'ninth-order-step', errs=errs)
    ctx.leq(errs[2], 1e-8, 'single-step-error')


def symmetry(ctx):
    """Powers of two scale through exactly; shifted and reversed runs agree."""
    rng = ctx.rng
    p = ode.linear(rng)
    tol = 10 ** rng.uniform(-11, -5)
    ctx.note(problem=p.name, tol=tol)
    y, a = run(ctx, p, atol=tol, rtol=tol, h1=.1, dense=False)
    k = 2.0 ** int(rng.integers(-20, 20))
    z0 = p.y0() * k
    b = ode.make(p, ode.output(None), atol=tol * k, rtol=tol, h1=.1, y0=z0, dense=False)
    b.integrate()
    ctx.close(z0, y * k, 'units-of-y', rtol=1e-13)
    # a quarter turn of the complex plane
    u = [1j, -1, -1j][int(rng.integers(3))]
    q = ode.Prob('turned', lambda x, v: p.f(x, v / u) * u, None, p.x1, p.x2, complex)
    w = np.array(p.y0() * u, complex)
    b = ode.make(q, ode.output(None), atol=tol, rtol=tol, h1=.1, y0=w, dense=False)
    b.integrate()
    ctx.close(w, y * u, 'direction-in-the-complex-plane', rtol=1e-11)
    # there and back
    q = ode.Prob('back', p.f, p.exact, p.x2, p.x1, p.dtype)
    w = y.copy()
    b = ode.make(q, ode.output(None), atol=tol, rtol=tol, h1=.1, y0=w, dense=False)
    b.integrate()
    ctx.leq(np.max(np.abs(w - p.y0())), 10 * tol * p.amp * max(1, np.max(np.abs(y))) + 1e-11 * p.amp ** 2, 'there-and-back')
    # substituting x -> 2 x
    q = ode.Prob('stretched', lambda x, v: p.f(x, v) / 2, None, 2 * p.x1, 2 * p.x2, p.dtype)
    w = p.y0()
    b = ode.make(q, ode.output(None), atol=tol, rtol=tol, h1=.2, y0=w, dense=False)
    b.integrate()
    ctx.close(w, y, 'units-of-x', rtol=1e-13)
    ctx.event('symmetries')


def mixed(ctx):
    """Absolute and relative tolerance each apply to every component."""
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    s = 10 ** rng.uniform(-6, 6, n)
    w = rng.uniform(.5, 4, n)
    y0 = s * np.exp(1j * rng.uniform(0, 6, n))
    p = ode.Prob('scales', lambda x, y: 1j * w * y, lambda x: y0 * np.exp(1j * w * x), 0, rng.uniform(1, 5), complex)
    rtol = 10 ** rng.uniform(-10, -4)
    atol = gen.pick(rng, [0.0, 1e-300, 10 ** rng.uniform(-14, -8)])
    ctx.note(problem='scales', atol=atol, rtol=rtol)
    y, a = run(ctx, p, atol=atol, rtol=rtol, dense=False)
    e = np.abs(y - p.exact(p.x2)) / (atol + rtol * s)
    ctx.leq(np.max(e), 300, 'per-component-tolerance')
    # only an absolute tolerance
    at = 10 ** rng.uniform(-8, -3) * np.max(s)
    y, a = run(ctx, p, atol=at, rtol=0.0, dense=False)
    ctx.leq(np.max(np.abs(y - p.exact(p.x2))) / at, 300, 'per-component-tolerance')
    ctx.event('mixed scales')


def large(ctx):
    """Size of the system: the tolerance is that of every component."""
    from scipy.integrate import solve_ivp
    rng = ctx.rng
    n = int(10 ** rng.uniform(1, 4))
    w = rng.uniform(3, 4) + rng.uniform(0, 1, n)
    y0 = np.exp(1j * rng.uniform(0, 6, n))
    p = ode.Prob('many', lambda x, y: 1j * w * y, lambda x: y0 * np.exp(1j * w * x), 0, rng.uniform(3, 15), complex)
    tol = 10 ** rng.uniform(-10, -5)
    ctx.note(problem='many', n=n, tol=tol)
    y, a = run(ctx, p, atol=tol, rtol=tol, dense=False)
    want = p.exact(p.x2)
    s = solve_ivp(p.f, (p.x1, p.x2), p.y0(), method='DOP853', rtol=tol, atol=tol, first_step=.01)
    e, r = np.max(np.abs(y - want)), np.max(np.abs(s.y[:, -1] - want))
    ctx.leq(e, 6 * r + 3 * tol, 'tolerance-of-large-systems', reference=r)
    ctx.event('components', n)


def smallest(ctx):
    """A smallest step either raises or changes nothing about the end point."""
    rng = ctx.rng
    p = ode.pick(rng)
    span = abs(p.x2 - p.x1)
    tol = 10 ** rng.uniform(-9, -3)
    h1 = min(p.hmax, span * rng.uniform(.02, 1.1), p.unit * .5)
    hmin = h1 * rng.uniform(.01, 1.2)
    ctx.note(problem=p.name, tol=tol, h1=h1, hmin=hmin)
    y = p.y0()
    a = ode.make(p, ode.output(None), y0=y, atol=tol, rtol=tol, h1=h1, hmin=hmin, dense=False)
    try:
        a.integrate()
    except RuntimeError:
        ctx.check(np.array_equal(y, p.y0()), 'start-kept-on-failure')
        ctx.event('smallest step met')
        return
    ctx.close(a.s.x, p.x2, 'end-point', atol=1e-13 * (abs(p.x1) + abs(p.x2)))
    want = np.asarray(p.exact(p.x2))
    big = max(1.0, np.max(np.abs(want)), np.max(np.abs(p.y0())))
    ctx.leq(np.max(np.abs(y - want)), 40 * tol * p.amp * big + 1e-12 * p.amp * big, 'error-tolerance', problem=p.name)
    ctx.event('smallest step kept')


def empty(ctx):
    """An interval of no length ends where it starts."""
    rng = ctx.rng
    p = ode.pick(rng)
    p.x2 = p.x1
    y = p.y0()
    m = gen.pick(rng, [None, 0, 1, 5])
    out = ode.output(m)
    ctx.note(problem=p.name, x1=p.x1, saves=m)
    a = ode.make(p, out, y0=y, atol=1e-8, rtol=1e-8, h1=p.unit * .1, dense=bool(m))
    ctx.call(a.integrate)
    ctx.check(np.array_equal(y, p.y0()), 'empty-interval', got=y)
    ctx.close(a.s.x, p.x1, 'end-point', rtol=0)
    if m is not None:
        ctx.check(out.count >= 1 and np.all(np.real(out.xsave[:out.count]) == p.x1) and
                  np.all(out.ysave[:out.count] == y), 'empty-interval', what='saved rows')
    ctx.event('empty intervals')


STRATA = [('accuracy', accuracy, 4), ('effort', effort, 2), ('long', long, 1), ('order', order, 2), ('symmetry', symmetry, 1), ('mixed', mixed, 1),
          ('large', large, 1), ('smallest', smallest, 1), ('empty', empty, 1)]
