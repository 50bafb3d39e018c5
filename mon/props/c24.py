"""C24 integrations do not influence each other and fail loudly."""
import numpy as np

from mon import gen, ode

RULE = ('several integrations constructed, interleaved, repeated and reused in '
        'random order, compared bit by bit with the same integration run alone; '
        'failing right-hand sides, exhausted step limits and mismatched types '
        'must raise.')
QUICK, THOROUGH = 2000, 20000
MIN_CHECKS = 4300
BUDGET = 3_000_000
FILES = ['src/pynlo/util/ode_solve/steppers.py', 'src/pynlo/util/ode_solve/dopr853.py',
         'src/pynlo/util/ode_solve/dopr853_controller.py']


def rows(out):
    return np.array(out.xsave[:out.count]), np.array(out.ysave[:out.count])


class Twin:
    """The same problem again, as a separate object."""

    def __init__(self, p, tol, h1, m):
        self.p, self.tol, self.h1, self.m = p, tol, h1, m

    def build(self, out=None, rhs=None):
        self.y = self.p.y0()
        self.out = ode.output(self.m) if out is None else out
        q = self.p if rhs is None else rhs
        self.a = ode.make(q, self.out, atol=self.tol, rtol=self.tol, h1=self.h1, y0=self.y)
        return self

    def result(self):
        return rows(self.out) + (self.y.copy(), self.a.nok, self.a.nbad)


def twin(rng):
    p = ode.pick(rng)
    return Twin(p, 10 ** rng.uniform(-11, -4), min(p.hmax, p.unit * gen.logu(rng, 1e-4, .3)), int(rng.integers(1, 60)))


def same(ctx, a, b, clause):
    # equal but for the order of additions inside the linear algebra library
    ok = all(np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-9, atol=1e-12) for x, y in zip(a, b))
    return ctx.check(ok, clause)


def isolation(ctx):
    rng = ctx.rng
    ts = [twin(rng) for _ in range(int(rng.integers(2, 5)))]
    ctx.note(problems=[t.p.name for t in ts], tols=[t.tol for t in ts])
    alone = []
    for t in ts:
        t.build()
        ctx.call(t.a.integrate)
        alone.append(t.result())
    # built together, run in another order
    order = [int(i) for i in rng.permutation(len(ts))]
    for t in ts:
        t.build()
    for i in order:
        ctx.call(ts[i].a.integrate)
    for t, r in zip(ts, alone):
        same(ctx, t.result(), r, 'constructed-together')
    # one integration running inside the right-hand side of another
    outer, inner = ts[0], ts[1]
    want = alone[0], alone[1]
    inner.build()
    box = dict(n=0)
    at = int(rng.integers(1, max(2, outer.p.calls // 3 % 200 + 2)))

    class Nested:
        x1, x2 = outer.p.x1, outer.p.x2

        def deriv(self, x, y, dydx):
            box['n'] += 1
            if box['n'] == at:
                inner.a.integrate()
                box['ran'] = True
            outer.p.deriv(x, y, dydx)
    outer.build(rhs=Nested())
    ctx.call(outer.a.integrate)
    if not box.get('ran'):
        ctx.call(inner.a.integrate)
    same(ctx, outer.result(), want[0], 'nested-outer')
    same(ctx, inner.result(), want[1], 'nested-inner')
    ctx.event('nested' if box.get('ran') else 'sequential')
    # the same storage used again
    out = ode.output(ts[0].m)
    for _ in range(int(rng.integers(2, 4))):
        ts[0].build(out=out)
        ctx.call(ts[0].a.integrate)
        same(ctx, ts[0].result(), alone[0], 'storage-reused')
    o2 = ts[1]
    o2.m = ts[0].m
    o2.build(out=out)
    ctx.call(o2.a.integrate)
    o3 = Twin(o2.p, o2.tol, o2.h1, o2.m).build()
    ctx.call(o3.a.integrate)
    same(ctx, o2.result(), o3.result(), 'storage-reused')


def steppers(ctx):
    """Single steps of several steppers, interleaved, equal those taken alone."""
    from pynlo.util.ode_solve import dopr853
    rng = ctx.rng
    ps = [ode.pick(rng, reverse=0) for _ in range(int(rng.integers(2, 4)))]
    tol = 10 ** rng.uniform(-10, -4)
    k = int(rng.integers(2, 8))
    ctx.note(problems=[p.name for p in ps], tol=tol, steps=k)

    def fresh(p):
        y = p.y0()
        d = np.zeros_like(y)
        p.deriv(p.x1, y, d)
        s = dopr853.StepperDopr853(y, d, p.x1, tol, tol, True)
        s.next_h = (p.x2 - p.x1) * 1e-2
        return s

    def step(p, s):
        s.step(s.next_h, p)
        s.next_h = s.hnext
        if abs(s.next_h) > abs(p.x2 - p.x1) / 8:
            s.next_h = (p.x2 - p.x1) / 8
        mid = s.dense_out(s.xold + .37 * s.hdid, s.hdid)
        return [float(s.x), np.array(s.y), float(s.hdid), float(s.hnext), np.array(mid)]
    alone = []
    for p in ps:
        s = fresh(p)
        alone.append([step(p, s) for _ in range(k)])
    ss = [fresh(p) for p in ps]
    todo = [i for i in range(len(ps)) for _ in range(k)]
    rng.shuffle(todo)
    got = [[] for _ in ps]
    for i in todo:
        got[i].append(step(ps[i], ss[i]))
    for a, b in zip(got, alone):
        for x, y in zip(a, b):
            same(ctx, x, y, 'interleaved-steps')
    # each accepted step is accurate, and so is its midpoint
    for p, a in zip(ps, alone):
        for x, y, hd, hn, mid in a:
            if not min(p.x1, p.x2) <= x <= max(p.x1, p.x2):
                continue
            big = max(1., float(np.max(np.abs(p.exact(x)))))
            ctx.leq(np.max(np.abs(y - p.exact(x))), (40 * tol + 1e-12) * p.amp * big, 'step-accuracy')
            ctx.leq(np.max(np.abs(mid - p.exact(x - .63 * hd))), (400 * tol + 1e-12) * p.amp * big, 'midpoint-accuracy')
    ctx.event('interleaved steps', len(todo))


class Boom(Exception):
    pass


TROUBLE = [Boom, ArithmeticError, ZeroDivisionError, FloatingPointError, OverflowError, ValueError,
           RuntimeError, AssertionError, np.linalg.LinAlgError, StopIteration, KeyError, IndexError,
           AttributeError, TypeError, OSError, MemoryError, KeyboardInterrupt]


def failures(ctx):
    """Whatever goes wrong is raised, and the caller's start values are kept."""
    from pynlo.util import ode_solve
    rng = ctx.rng
    p = ode.pick(rng, reverse=0)
    kind = gen.pick(rng, ['rhs', 'steps', 'hmin', 'dtype', 'not dense', 'blow up', 'nothing', 'rhs', 'no value', 'no value'])
    ctx.note(problem=p.name, failure=kind)
    y = p.y0()
    start = y.copy()
    tol = 1e-9
    if kind == 'rhs':
        at = int(rng.integers(0, 40)) if rng.random() < .8 else int(rng.integers(40, 400))
        once = rng.random() < .5
        boom = gen.pick(rng, TROUBLE)

        class R:
            n = 0

            def deriv(self, x, y, d):
                R.n += 1
                if R.n == at + 1 or R.n > at and not once:
                    raise boom('rhs')
                p.deriv(x, y, d)
        from pynlo.util.ode_solve import dopr853
        a = ode_solve.ODEint(y, p.x1, p.x2, tol, tol, min(1e-4, p.hmax), 0.0, ode.output(3), dopr853.StepperDopr853, R())
        try:
            a.integrate()
            ctx.check(R.n <= at, 'exception-passes-through', kind=boom.__name__, once=once, at=at)
        except boom:
            ctx.check(R.n == at + 1, 'exception-passes-through', kind=boom.__name__, once=once, at=at, calls=R.n)
            ctx.check(np.array_equal(y, start), 'start-kept-on-failure')
            ctx.event('rhs raised')
    elif kind == 'steps':
        class Few(ode_solve.ODEint):
            MAXSTP = int(rng.integers(1, 4))
        from pynlo.util.ode_solve import dopr853
        a = Few(y, p.x1, p.x2, 1e-13, 1e-13, min(p.hmax, abs(p.x2 - p.x1) * 1e-6), 0.0, ode.output(3), dopr853.StepperDopr853, p)
        ctx.raises(RuntimeError, 'step-limit-raises', a.integrate)
        ctx.check(np.array_equal(y, start), 'start-kept-on-failure')
        ctx.event('step limits')
    elif kind == 'hmin':
        w = abs(p.x2 - p.x1)
        a = ode.make(p, ode.output(3), atol=1e-12, rtol=1e-12, y0=y, h1=min(p.hmax, w / 1000), hmin=w * 10)
        ctx.raises(RuntimeError, 'minimum-step-raises', a.integrate)
        ctx.check(np.array_equal(y, start), 'start-kept-on-failure')
        ctx.event('minimum steps')
    elif kind == 'dtype':
        # asking a complex problem for real rows (or the reverse) is refused
        q = ode.linear(rng, cplx=bool(rng.random() < .5))
        out = ode.output(3)
        y = q.y0()
        a = ode.make(q, out, y0=y)
        out.init(a.nvar, q.x1, q.x2, dtype=np.float32)
        ctx.raises(TypeError, 'type-mismatch-raises', a.integrate)
        ctx.event('type mismatches')
    elif kind == 'not dense':
        a = ode.make(p, ode.output(None), y0=y)
        ctx.raises(AttributeError, 'no-dense-storage-raises', a.integrate)
        ctx.event('dense refused')
    elif kind == 'blow up':
        # y' = y^2 from y(0)=1 ends at x = 1
        q = ode.Prob('blowup', lambda x, v: v * v, lambda x: np.ones(1), 0., 2.)
        y = q.y0()
        a = ode.make(q, ode.output(3), y0=y)
        try:
            with np.errstate(all='ignore'):
                a.integrate()
            ctx.check(False, 'singularity-raises')
        except Exception as e:
            ctx.check(isinstance(e, (OverflowError, RuntimeError, AssertionError)), 'singularity-raises', got=repr(e))
        ctx.event('singularities')
    elif kind == 'no value':
        # the right-hand side has no value on part of the interval
        p = ode.pick(rng, reverse=0)
        span = p.x2 - p.x1
        hole = p.x1 + span * gen.pick(rng, [rng.uniform(0, 1), 1.0, rng.uniform(.9, 1)])
        # the last position is x2 up to rounding
        hole -= 1e-12 * max(abs(p.x1), abs(p.x2))
        bad = gen.pick(rng, [np.nan, np.inf, -np.inf])
        which = int(rng.integers(-1, len(p.y0())))
        f = p.f

        def g(x, v):
            d = np.array(f(x, v))
            if x >= hole:
                if which < 0:
                    d[:] = bad
                else:
                    d[which] = bad * (1j if d.dtype.kind == 'c' and rng.random() < .5 else 1)
            return d
        p.f = g
        y = p.y0()
        start = y.copy()
        lax = 10 ** rng.uniform(-12, 0)
        a = ode.make(p, ode.output(None if rng.random() < .5 else 3), atol=lax, rtol=lax, y0=y,
                     h1=min(p.hmax, abs(span) * gen.logu(rng, 1e-4, 3)), dense=False)
        try:
            with np.errstate(all='ignore'):
                a.integrate()
            ctx.check(False, 'missing-value-raises', got=y, hole=hole, bad=bad)
        except Boom:
            raise
        except Exception as e:
            ctx.check(np.array_equal(y, start), 'start-kept-on-failure', error=repr(e))
        ctx.event('right-hand sides without value')
    else:
        # y' = 0 and zero start: nothing to estimate an error from
        n = int(rng.integers(1, 5))
        c = rng.normal(size=n) * (rng.random() < .6)
        q = ode.Prob('zero', lambda x, v: 0 * v, lambda x: c, -1., 3.)
        y = q.y0()
        a = ode.make(q, ode.output(5), y0=y, atol=gen.pick(rng, [1e-9, 1e-3]), rtol=1e-9)
        ctx.call(a.integrate)
        ctx.close(y, c, 'standstill', rtol=1e-14, atol=1e-300)
        ctx.event('standstills')


STRATA = [('isolation', isolation, 3), ('steppers', steppers, 2), ('failures', failures, 2)]
