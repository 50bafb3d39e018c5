"""Initial value problems with known solutions, and how to run them.
Imports nothing from pynlo at module level."""
import numpy as np
from scipy.linalg import expm
from scipy.special import ellipj


class Prob:
    """y' = f(x, y), exact(x) -> y; counts and watches its evaluations."""

    def __init__(self, name, f, exact, x1, x2, dtype=float, amp=1.0):
        self.name, self.f, self.exact = name, f, exact
        self.x1, self.x2, self.dtype = float(x1), float(x2), dtype
        self.amp = amp                # error amplification over the interval
        self.calls, self.lo, self.hi = 0, np.inf, -np.inf
        self.log = None
        self.hmax = np.inf            # larger first steps overflow the stages
        self.unit = 1.0               # natural unit of x
        self.slack = 0.0              # rounding of x far from zero, relative to y

    def deriv(self, x, y, dydx):
        self.calls += 1
        xr = float(np.real(x))
        self.lo, self.hi = min(self.lo, xr), max(self.hi, xr)
        if self.log is not None:
            self.log.append((xr, np.array(y)))
        dydx[:] = self.f(x, y)

    def y0(self):
        return np.array(self.exact(self.x1), dtype=self.dtype)


def linear(rng, n=None, cplx=None, norm=None):
    n = n or int(rng.integers(1, 6))
    cplx = bool(rng.random() < .4) if cplx is None else cplx
    M = rng.normal(size=(n, n)) / np.sqrt(n)
    if cplx:
        M = M + 1j * rng.normal(size=(n, n)) / np.sqrt(n)
    if norm:
        M = M * norm / np.linalg.norm(M, 2)
    y0 = rng.normal(size=n) + (1j * rng.normal(size=n) if cplx else 0)
    a = rng.uniform(-2, 2)
    L = rng.uniform(.5, 4)
    amp = max(np.linalg.norm(expm(M * t), 2) for t in np.linspace(-L, L, 17)) ** 2
    return Prob('linear', lambda x, y: M @ y, lambda x: expm(M * (x - a)) @ y0, a, a + L,
                complex if cplx else float, amp)


def rotation(rng):
    w = rng.uniform(.5, 6)
    y0 = rng.normal(size=2)
    L = rng.uniform(1, 30) / w

    def ex(x):
        c, s = np.cos(w * x), np.sin(w * x)
        return np.array([c * y0[0] + s * y0[1], -s * y0[0] + c * y0[1]])
    return Prob('rotation', lambda x, y: w * np.array([y[1], -y[0]]), ex, 0, L, amp=1 + w * L)


def phase(rng):
    n = int(rng.integers(1, 5))
    w = rng.uniform(-5, 5, n)
    y0 = rng.normal(size=n) + 1j * rng.normal(size=n)
    L = rng.uniform(.5, 5)
    return Prob('phase', lambda x, y: 1j * w * y, lambda x: y0 * np.exp(1j * w * x), 0, L, complex, 1 + 5 * L)


def logistic(rng):
    r, K, p = rng.uniform(.5, 2), rng.uniform(.5, 3), rng.uniform(.1, .9)
    a = rng.uniform(-3, 3)
    return Prob('logistic', lambda x, y: r * y * (1 - y / K),
                lambda x: np.array([K / (1 + (1 / p - 1) * np.exp(-r * (x - a)))]), a, a + rng.uniform(1, 5), amp=60)


def gaussian(rng):
    k, a = rng.uniform(.3, 2), rng.uniform(-2, 0)
    return Prob('gaussian', lambda x, y: -2 * k * x * y, lambda x: np.array([np.exp(-k * x * x)]),
                a, a + rng.uniform(1, 3.5), amp=np.exp(k * a * a) * 5)


def bernoulli(rng):
    return Prob('bernoulli', lambda x, y: (-6 * y + 3 * x * np.power(np.abs(y), 4. / 3)) / x,
                lambda x: np.array([np.power(x + x ** 2 * (.5 * 2 ** (2. / 3) - 1), -3)]), 1, rng.uniform(1.5, 4), amp=10)


def riccati(rng):
    a = rng.uniform(-1.2, 0)
    return Prob('riccati', lambda x, y: 1 + y * y, lambda x: np.array([np.tan(x)]), a, rng.uniform(.3, 1.3), amp=60)


def kepler(rng):
    e = rng.uniform(0, .6)
    L = rng.uniform(1, 7)

    def ex(t):
        E = t + e * np.sin(t)
        for _ in range(60):
            E = E - (E - e * np.sin(E) - t) / (1 - e * np.cos(E))
        d = 1 - e * np.cos(E)
        b = np.sqrt(1 - e * e)
        return np.array([np.cos(E) - e, b * np.sin(E), -np.sin(E) / d, b * np.cos(E) / d])

    def f(x, y):
        r3 = (y[0] ** 2 + y[1] ** 2) ** 1.5
        return np.array([y[2], y[3], -y[0] / r3, -y[1] / r3])
    return Prob('kepler', f, ex, 0, L, amp=30 * (1 + L) / (1 - e) ** 3)


def rigid(rng):
    m = rng.uniform(.05, .9)
    L = rng.uniform(1, 10)

    def ex(x):
        s, c, d, _ = ellipj(x, m)
        return np.array([s, c, d])
    return Prob('rigid', lambda x, y: np.array([y[1] * y[2], -y[0] * y[2], -m * y[0] * y[1]]), ex, 0, L, amp=5 * (1 + L))


def nls(rng, amp=None):
    """y' = i |y|^2 y and its driven cousin: complex and nonlinear."""
    n = int(rng.integers(1, 4))
    y0 = rng.normal(size=n) + 1j * rng.normal(size=n)
    if amp:
        y0 = y0 * amp / np.max(np.abs(y0))
    g = rng.uniform(-.4, .3)
    L = rng.uniform(.5, 3)

    def ex(x):
        le = x if g == 0 else (np.exp(2 * g * x) - 1) / (2 * g)
        return y0 * np.exp(g * x + 1j * np.abs(y0) ** 2 * le)
    p = Prob('nls', lambda x, y: 1j * np.abs(y) ** 2 * y + g * y, ex, 0, L, complex, 10 * (1 + np.max(np.abs(y0)) ** 2 * L))
    p.hmax = .5 / max(np.max(np.abs(ex(x))) ** 2 for x in (0, L))
    return p


def poly(rng, deg):
    """y' = p(x), componentwise polynomials of the given degree."""
    n = int(rng.integers(1, 4))
    c = rng.normal(size=(deg + 1, n))
    k = np.arange(deg + 1)[:, None]
    y0 = rng.normal(size=n)
    a, b = rng.uniform(-1.5, 0), rng.uniform(.5, 1.5)

    def P(x):
        return np.sum(c * x ** (k + 1) / (k + 1), axis=0)
    return Prob('poly', lambda x, y: np.sum(c * x ** k, axis=0), lambda x: y0 + P(x) - P(a), a, b)


ALL = [linear, linear, rotation, phase, logistic, gaussian, bernoulli, riccati, kepler, rigid, nls]


def pick(rng, reverse=None, far=False):
    p = ALL[int(rng.integers(len(ALL)))](rng)
    back = rng.random() < (.4 if reverse is None else reverse)
    # the others lose all memory of their start one way and explode the other
    if back and p.name in ('linear', 'rotation', 'phase', 'kepler', 'rigid', 'nls'):
        p.x1, p.x2 = p.x2, p.x1
        p.name += ' backwards'
    p = turned(rng, p) if rng.random() < .3 else p
    return moved(rng, p, far) if rng.random() < .4 else p


def moved(rng, p, far=False):
    """The same problem on another axis: any unit of length, either end at or
    near zero, or both ends far from it."""
    k = 10 ** rng.uniform(-12, 12) if rng.random() < .6 else 1.0
    how = rng.integers(5)
    span = abs(p.x2 - p.x1)
    o = [0.0, -p.x2, -p.x1, -p.x2 + span * 10 ** rng.uniform(-18, -3), rng.uniform(-30, 30) * span][how]
    if far and how == 4:
        o = span * 10 ** rng.uniform(0, 10) * (1 if rng.random() < .5 else -1)
    f, ex, x1, x2 = p.f, p.exact, k * (p.x1 + o), k * (p.x2 + o)
    if how == 1:
        x2 = 0.0
    if how == 2:
        x1 = 0.0
    q = Prob(p.name + ' moved', lambda x, y: f(x / k - o, y) / k, lambda x: ex(x / k - o), x1, x2, p.dtype, p.amp)
    q.hmax, q.unit = p.hmax * k, k
    q.slack = 4e-16 * abs(o) / span
    return q


def turned(rng, p, quarter=None):
    """A real problem along some direction of the complex plane."""
    if p.dtype is not float:
        return p
    k = int(rng.integers(6)) if quarter is None else quarter
    u = [1, 1j, -1, -1j][k] if k < 4 else np.exp(1j * rng.uniform(0, 2 * np.pi))
    f, ex = p.f, p.exact
    q = Prob(p.name + ' turned', lambda x, y: u * f(x, np.real(y / u)), lambda x: u * np.asarray(ex(x)), p.x1, p.x2, complex, p.amp)
    return q


def make(p, out, atol=1e-9, rtol=1e-9, h1=None, hmin=0.0, y0=None, **kw):
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    y0 = p.y0() if y0 is None else y0
    h1 = 1e-2 * p.unit if h1 is None else h1
    return ode_solve.ODEint(y0, p.x1, p.x2, atol, rtol, h1, hmin, out, dopr853.StepperDopr853, p, **kw)


def output(*a):
    from pynlo.util import ode_solve
    return ode_solve.Output(*a)
