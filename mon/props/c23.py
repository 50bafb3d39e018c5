"""C23 dense output returns the solution on the requested points."""
import numpy as np

from mon import gen, ode

RULE = ('random initial value problems with closed-form solutions, directions and '
        'numbers of save points (below, at and far above the initial storage); '
        'every saved row compared with the exact solution at its position.')
QUICK, THOROUGH = 2400, 25000
MIN_CHECKS = 3700
BUDGET = 3_000_000
FILES = ['src/pynlo/util/ode_solve/steppers.py', 'src/pynlo/util/ode_solve/dopr853.py',
         'src/pynlo/util/ode_solve/dopr853_constants.py']


def saved(out):
    return np.real(np.asarray(out.xsave[:out.count])).astype(float), np.asarray(out.ysave[:out.count])


def dense(ctx):
    rng = ctx.rng
    p = ode.pick(rng, far=True)
    m = int(gen.pick(rng, [1, 2, 3, int(rng.integers(4, 60)), int(rng.integers(60, 400)), 498, 499, 500, 501, 999, 1000,
                           int(rng.integers(500, 2500)), int(rng.integers(4000, 9000))]))
    tol = max(10 ** rng.uniform(-11, -5), 100 * p.slack)
    h1 = min(p.hmax, p.unit * gen.logu(rng, 1e-4, .3))
    ctx.note(problem=p.name, saves=m, x1=p.x1, x2=p.x2, tol=tol, h1=h1)
    y = p.y0()
    start = y.copy()
    out = ode.output(m)
    a = ode.make(p, out, atol=tol, rtol=tol, h1=h1, y0=y)
    ctx.call(a.integrate)
    xs, ys = saved(out)
    want = np.linspace(p.x1, p.x2, m + 1)
    span = abs(p.x2 - p.x1)
    ctx.need(len(xs) == m + 1, 'number-of-points', got=len(xs), want=m + 1, tail=xs[-3:])
    ctx.close(xs, want, 'positions', atol=1e-14 * (span + abs(p.x1)))
    d = np.diff(xs) * np.sign(p.x2 - p.x1)
    ctx.check(bool(np.all(d > 0)), 'positions-ordered')
    ctx.check(ys.dtype == p.dtype and ys.shape[1] == len(start), 'row-type')
    ctx.check(np.array_equal(ys[0], start), 'first-row-is-start')
    ctx.close(ys[-1], y, 'last-row-is-final', atol=1e-9 * (1 + float(np.max(np.abs(y)))) + 200 * tol)
    E = np.array([p.exact(x) for x in xs])
    big = max(1.0, float(np.max(np.abs(E))))
    err = np.max(np.abs(ys - E))
    ctx.leq(err, (1000 * tol + 1e-11 + 10 * p.slack) * p.amp * big, 'dense-accuracy', problem=p.name)
    ctx.event('rows', len(xs))
    if out.count > 500:
        ctx.event('storage grown')


def interpolant(ctx):
    """Within one step the interpolant is exact for solutions up to degree seven
    and has an error of order h^8."""
    rng = ctx.rng
    m = int(rng.integers(2, 40))
    if rng.random() < .5:
        deg = int(rng.integers(0, 7))
        p = ode.poly(rng, deg)
        ctx.note(problem='poly', degree=deg, saves=m)
        out = ode.output(m)
        a = ode.make(p, out, atol=1e30, rtol=1e30, h1=abs(p.x2 - p.x1))
        ctx.call(a.integrate)
        xs, ys = saved(out)
        E = np.array([p.exact(x) for x in xs])
        ctx.close(ys, E, 'interpolant-exact', rtol=1e-12, scale=20 + float(np.max(np.abs(E))))
        ctx.event('degree %d' % deg)
        return
    p = ode.linear(rng, norm=rng.uniform(.8, 1.5))
    ctx.note(problem=p.name, saves=m)
    x1, errs = p.x1, []
    for h in (.8, .4):
        p.x2 = x1 + h
        out = ode.output(m)
        a = ode.make(p, out, atol=1e30, rtol=1e30, h1=h)
        ctx.call(a.integrate)
        xs, ys = saved(out)
        E = np.array([p.exact(x) for x in xs])
        errs.append(float(np.max(np.abs(ys - E)) / max(1, np.max(np.abs(E)))))
    ctx.leq(errs[0], 1e-4, 'interpolant-error')
    if errs[0] > 1e-10:
        ctx.leq(errs[1], errs[0] / 60 + 1e-13, 'eighth-order-interpolant', errs=errs)
        ctx.event('orders')


def every_step(ctx):
    """Without dense output every accepted step is kept, or nothing at all."""
    rng = ctx.rng
    p = ode.pick(rng)
    tol = 10 ** rng.uniform(-11, -5)
    if rng.random() < .3:
        tol = 1e-13
    ctx.note(problem=p.name, tol=tol)
    y = p.y0()
    start = y.copy()
    out = ode.output(0)
    a = ode.make(p, out, atol=tol, rtol=tol, h1=p.unit * (.01 if rng.random() < .7 else 1e-5), y0=y, dense=False)
    steps, inner = [], a.s.step

    def step(h, *k):
        inner(h, *k)
        steps.append(bool(a.s.hdid == h))
    a.s.step = step
    ctx.call(a.integrate)
    if steps:
        ctx.check(a.nok == sum(steps) and a.nbad == len(steps) - sum(steps), 'good-and-bad-steps-counted',
                  good=a.nok, bad=a.nbad, want=[sum(steps), len(steps)])
    xs, ys = saved(out)
    ctx.check(len(xs) == a.nok + a.nbad + 1, 'one-row-per-step', rows=len(xs), steps=a.nok + a.nbad)
    ctx.close(xs[0], p.x1, 'first-row-is-start', atol=0)
    ctx.check(np.array_equal(ys[0], start), 'first-row-is-start')
    ctx.close(xs[-1], p.x2, 'endpoint', atol=1e-12 * (abs(p.x1) + abs(p.x2)))
    ctx.check(np.array_equal(ys[-1], y), 'last-row-is-final')
    ctx.check(bool(np.all(np.diff(xs) * np.sign(p.x2 - p.x1) > 0)), 'positions-ordered')
    E = np.array([p.exact(x) for x in xs])
    big = max(1.0, float(np.max(np.abs(E))))
    ctx.leq(np.max(np.abs(ys - E)), 40 * tol * p.amp * big + 1e-11 * p.amp * big, 'step-accuracy', problem=p.name)
    # the saving mode does not influence the solution
    z = p.y0()
    b = ode.make(p, ode.output(None), atol=tol, rtol=tol, y0=z, dense=False)
    ctx.call(b.integrate)
    w = p.y0()
    c = ode.make(p, ode.output(int(rng.integers(1, 300))), atol=tol, rtol=tol, y0=w)
    ctx.call(c.integrate)
    ctx.close(w, z, 'saving-is-passive', rtol=1e-13)
    ctx.event('steps kept', len(xs))


STRATA = [('dense', dense, 4), ('interpolant', interpolant, 2), ('every_step', every_step, 2)]
