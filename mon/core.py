"""Core of the runtime monitors: contexts, verdicts, reach counters, budgets.

A property module (mon/props/cXX.py) provides

    STRATA  = [(name, function, weight), ...]   scenarios; function(ctx)
    QUICK, THOROUGH = number of cases per tier
    BUDGET  = logical step budget of one case (loop iterations inside pynlo)
    MIN_CHECKS = fewest oracle decisions for the run to count as conclusive
    FILES   = files of the repository that have to be reached

A scenario drives the real code through its public interface and hands what it
observed to the oracle through ctx.check / ctx.close / ctx.raises.  It never
reads private state of the code under test.
"""
import contextlib
import hashlib
import json
import os
import sys
import traceback

import numpy as np

REPO_SRC = os.environ.get('PYNLO_SRC', '/repo/src')


class BudgetExceeded(Exception):
    """The code under test ran more loop iterations than any legitimate run."""


class Stop(Exception):
    """A scenario cannot go on after a violation that was already recorded."""


class Harness(Exception):
    """The monitor itself is at fault; makes the run inconclusive."""


def jsonable(x, depth=0):
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, np.ndarray):
        if x.size > 8:
            return 'array%s %s head=%s' % (x.shape, x.dtype,
                                           [jsonable(v) for v in x.ravel()[:4]])
        return [jsonable(v) for v in x.ravel()]
    if depth > 4:
        return repr(x)[:80]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    return repr(x)[:120]


class Ctx:
    """What one scenario run sees: its generator, its oracle, its counters."""

    def __init__(self, prop, seed, index, stratum, tier='quick', params=None):
        self.prop, self.seed, self.index = prop, seed, index
        self.stratum, self.tier = stratum, tier
        h = hashlib.sha256(('%s/%s/%s' % (prop, seed, index)).encode()).digest()
        self.rng = np.random.default_rng(np.frombuffer(h, dtype=np.uint32))
        self.params = {}
        self.events = {}
        self.checks = {}
        self.violations = []
        self.margins = {}

    # -- recording ---------------------------------------------------------
    def note(self, **kw):
        """Parameters of this case; they identify it in evidence and replays."""
        for k, v in kw.items():
            self.params[k] = jsonable(v)

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def violation(self, clause, **detail):
        if len(self.violations) < 8:
            self.violations.append({'clause': clause,
                                    'detail': jsonable(detail)})

    # -- oracle ------------------------------------------------------------
    def check(self, cond, clause, **detail):
        self.checks[clause] = self.checks.get(clause, 0) + 1
        ok = bool(cond)
        if not ok:
            self.violation(clause, **detail)
        return ok

    def need(self, cond, clause, **detail):
        if not self.check(cond, clause, **detail):
            raise Stop()

    def close(self, got, want, clause, rtol=1e-9, atol=0.0, scale=None, **detail):
        """|got-want| <= atol + rtol*scale elementwise; scale defaults to the
        largest |want|.  Wrong shape, NaN or a non-number is a violation."""
        self.checks[clause] = self.checks.get(clause, 0) + 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object or g.dtype.kind not in 'biufc':
                raise TypeError('not numeric: %r' % (type(got),))
        except Exception as e:               # ragged, None, ...
            self.violation(clause, problem=repr(e), got=repr(got)[:80], **detail)
            return False
        if g.shape != w.shape and not (g.size == 1 and w.size == 1):
            self.violation(clause, problem='shape', got=g.shape, want=w.shape, **detail)
            return False
        if g.size == 0:
            return True
        g = g.reshape(w.shape)
        if not np.all(np.isfinite(g)):
            bad = int(np.argmin(np.isfinite(g).ravel()))
            self.violation(clause, problem='not finite', at=bad,
                           got=g.ravel()[bad], want=w.ravel()[bad], **detail)
            return False
        if scale is None:
            scale = float(np.max(np.abs(w)))
        tol = atol + rtol * scale
        err = np.abs(g - w)
        m = float(np.max(err))
        if not m <= tol:
            i = int(np.argmax(err))
            self.violation(clause, problem='differs', at=i, got=g.ravel()[i],
                           want=w.ravel()[i], err=m, tol=tol, **detail)
            return False
        if tol > 0:
            r = m / tol
            if r > self.margins.get(clause, 0.0):
                self.margins[clause] = r
        return True

    def leq(self, value, bound, clause, **detail):
        ok = bool(np.all(np.isfinite(value))) and bool(np.all(np.asarray(value) <= bound))
        self.check(ok, clause, value=value, bound=bound, **detail)
        if ok and np.ndim(value) == 0 and bound > 0:
            r = float(value) / float(bound)
            if r > self.margins.get(clause, 0.0):
                self.margins[clause] = r
        return ok

    def raises(self, excs, clause, fn, *a, **k):
        try:
            self.call(fn, *a, **k)
        except excs:
            return self.check(True, clause)
        except BudgetExceeded:
            raise
        except Exception as e:
            return self.check(False, clause, got=repr(e))
        return self.check(False, clause, got='no exception')

    # -- driving the code --------------------------------------------------
    def call(self, fn, *a, **k):
        with quiet():
            return fn(*a, **k)


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = _NULL
    try:
        yield
    finally:
        sys.stdout = old


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


_NULL = _Null()


# ---------------------------------------------------------------- monitoring
class Reach:
    """Counts entries into pynlo functions and source lines reached, and
    enforces the logical step budget, using sys.monitoring (PEP 669)."""
    TOOL = 3

    def __init__(self):
        self.funcs = {}
        self.lines = {}
        self.steps = 0
        self.max_steps = 0
        self.budget = None
        self.on = False

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'pynlo-monitor')
        E = m.events
        m.register_callback(self.TOOL, E.PY_START, self._start)
        m.register_callback(self.TOOL, E.LINE, self._line)
        m.register_callback(self.TOOL, E.JUMP, self._jump)
        m.set_events(self.TOOL, E.PY_START | E.LINE | E.JUMP)
        self.on = True

    def _mine(self, code):
        return code.co_filename.startswith(REPO_SRC)

    def _start(self, code, off):
        if not self._mine(code):
            return sys.monitoring.DISABLE
        key = (code.co_filename, code.co_qualname)
        self.funcs[key] = self.funcs.get(key, 0) + 1
        self.steps += 1
        if self.budget is not None and self.steps > self.budget:
            self.budget = None
            raise BudgetExceeded(code.co_qualname)

    def _line(self, code, line):
        if self._mine(code):
            self.lines.setdefault(code.co_filename, set()).add(line)
        return sys.monitoring.DISABLE

    def _jump(self, code, off, dst):
        if not self._mine(code):
            return sys.monitoring.DISABLE
        self.steps += 1
        if self.budget is not None and self.steps > self.budget:
            self.budget = None
            raise BudgetExceeded(code.co_qualname)

    def begin(self, budget):
        self.steps = 0
        self.budget = budget

    def end(self):
        self.budget = None
        if self.steps > self.max_steps:
            self.max_steps = self.steps


REACH = Reach()


def in_pynlo(tb):
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO_SRC):
            return True
    return False


def run_case(mod, prop, seed, index, tier, only_stratum=None):
    name, fn = pick(mod, index)
    if only_stratum is not None and only_stratum != name:
        raise Harness('replay: stratum %s is now %s' % (only_stratum, name))
    ctx = Ctx(prop, seed, index, name, tier)
    np.random.seed(int(ctx.rng.integers(2**31)))
    REACH.begin(getattr(mod, 'BUDGET', 2_000_000))
    err = None
    try:
        fn(ctx)
    except Stop:
        pass
    except BudgetExceeded as e:
        ctx.violation('terminates', problem='more than %d loop iterations and '
                      'calls inside the code under test' % getattr(mod, 'BUDGET', 2_000_000),
                      where=str(e))
    except (MemoryError, KeyboardInterrupt):
        raise
    except Harness:
        raise
    except OSError as e:
        if in_pynlo(sys.exc_info()[2]) and not e.errno in (28, 23, 24):
            ctx.violation('unexpected-exception', error=repr(e),
                          trace=traceback.format_exc().splitlines()[-8:])
        else:
            raise
    except Exception as e:
        # Every case is silent on the unchanged tree, so an exception - also
        # one raised while the oracle digests an output - comes from the code.
        ctx.violation('unexpected-exception', error=repr(e),
                      inside_pynlo=in_pynlo(sys.exc_info()[2]),
                      trace=traceback.format_exc().splitlines()[-8:])
    finally:
        REACH.end()
    return ctx


def pick(mod, index):
    """Stratified schedule: every block of sum(weights) cases visits every
    stratum `weight` times."""
    sched = getattr(mod, '_sched', None)
    if sched is None:
        sched = []
        rem = [[n, f, w, 0.0] for n, f, w in mod.STRATA]
        total = sum(w for _, _, w in mod.STRATA)
        for _ in range(total):               # smooth weighted round robin
            for r in rem:
                r[3] += r[2]
            best = max(rem, key=lambda r: r[3])
            best[3] -= total
            sched.append((best[0], best[1]))
        mod._sched = sched
    return sched[index % len(sched)]
