"""Crystals: published Sellmeier equations, generators, construction."""
import numpy as np

from mon import gen, ref

# (a1..a6, b1..b5) of n^2 = a1+b1 f + (a2+b2 f)/(L^2-(a3+b3 f)^2)
#                           + (a4+b4 f)/(L^2-a5^2) - (a6+b5 f) L^2,  f=(T-24.5)(T+570.82)
LN = {
    'Gayer_5pctMg': (5.756, .0983, .2020, 189.32, 12.52, 1.32e-2,
                     2.860e-6, 4.700e-8, 6.113e-8, 1.516e-4, 0.),
    'Deng': (5.39121, .100473, .20692, 100., 11.34927, 1.544e-2,
             4.96827e-7, 3.862e-8, -.89e-8, 2.657e-5, 9.62119e-10)}

# lists of (B, exponent, C) for B/(L^p - C), the constant and (D, E, q) for D/(1-E/L^q)
BIREF = {
    'AgGaS': {'o': (5.814100, [(.0867547, 3.156983, .0356502), (.0821721, 4.430430, -.315646),
                               (.506566, 6.604280, -6.582197)], (176380., 112586195., 2.225043)),
              'e': (5.530050, [(.0510941, 2.359877, .141109), (.195314, 2.566664, -.0910735)],
                    (4253.78, 4304924., 2.383834))},
    'AgGaSe2': {'o': (6.849065, [(.417863, 1.970203, .178080), (.000442, .340086, .889242)],
                      (1.209374, 915.345, 1.921292)),
                'e': (6.675232, [(.436579, 1.893694, .229775), (.012063, 4.269152, .213957)],
                      (3.252722, 3129.32, 2.047204))}}
RANGE = {'PPLN': (410., 5200.), 'AgGaS': (550., 12000.), 'AgGaSe2': (900., 17000.)}
DEFF = {'PPLN': 14.9e-12, 'AgGaS': 8.69e-12, 'AgGaSe2': 28.5e-12}
N2 = {'PPLN': 3e-19, 'AgGaS': 0., 'AgGaSe2': 3.5e-18}
DAMAGE = {'PPLN': 4e13, 'AgGaS': 1e13, 'AgGaSe2': 1e13}
MODE = {'PPLN': 'PP', 'AgGaS': 'BPM', 'AgGaSe2': 'BPM'}
TWO_PI = 2 * np.pi


class Model:
    """What a crystal has been told; n() is the published equation."""

    def __init__(self, kind, T=None, theta=None, length=1., source='Gayer_5pctMg'):
        self.kind, self.T, self.theta = kind, T, theta
        self.length, self.source = length, source

    def n(self, wl_nm, axis=None):
        L = np.asarray(wl_nm) * 1e-3
        if self.kind == 'PPLN':
            a1, a2, a3, a4, a5, a6, b1, b2, b3, b4, b5 = LN[self.source]
            f = (self.T - 24.5) * (self.T + 570.82)
            return np.sqrt(a1 + b1 * f + (a2 + b2 * f) / (L ** 2 - (a3 + b3 * f) ** 2)
                           + (a4 + b4 * f) / (L ** 2 - a5 ** 2) - (a6 + b5 * f) * L ** 2)
        v = {}
        for x in 'oe':
            A, terms, (D, E, q) = BIREF[self.kind][x]
            v[x] = A + sum(B / (L ** p - C) for B, p, C in terms) + D / (1 - E / L ** q)
        if axis in ('o', 'e'):
            return np.sqrt(v[axis])
        s = np.sin(self.theta) ** 2
        return 1 / np.sqrt(s / v['e'] + (1 - s) / v['o'])

    def derivatives(self, wl, axis, m=48):
        """(n, n', n'') by Cauchy's formula on a circle in the complex plane."""
        wl = np.atleast_1d(np.asarray(wl, float))
        r = .04 * wl
        z = np.exp(2j * np.pi * np.arange(m) / m)
        f = self.n(wl[:, None] + r[:, None] * z[None, :], axis)
        c = np.fft.fft(f, axis=1) / m
        return c[:, 0].real, c[:, 1].real / r, 2 * c[:, 2].real / r ** 2


def build(rng, kind=None, caching=None):
    """A crystal and its model."""
    from pynlo.media.crystals.XTAL_PPLN import PPLN
    from pynlo.media.crystals import XTAL_AgGaS, XTAL_AgGaSe2
    kind = kind or gen.pick(rng, ['PPLN', 'PPLN', 'AgGaS', 'AgGaSe2'])
    kw = {}
    m = Model(kind)
    if rng.random() < .8:
        m.length = kw['length'] = gen.logu(rng, 1e-4, .1) if rng.random() < .8 else gen.logu(rng, 1e-9, 1e4)
    if caching is None:
        caching = rng.random() < .5
    if caching or rng.random() < .3:
        kw['enable_caching'] = bool(caching)
    if kind == 'PPLN':
        m.T = temperature(rng)
        x = PPLN(m.T, **kw) if rng.random() < .7 else PPLN(T=m.T, **kw)
        if rng.random() < .4:
            m.T = temperature(rng)
            if rng.random() < .7:
                m.source = gen.pick(rng, ['Deng', 'Gayer_5pctMg'])
                x.load(m.T, m.source) if rng.random() < .5 else x.load(m.T, data_source=m.source)
            else:
                x.load(m.T)
    else:
        cls = (XTAL_AgGaS if kind == 'AgGaS' else XTAL_AgGaSe2).AgGaSe2
        if rng.random() < .85:
            m.theta = angle(rng)
            x = cls(m.theta, **kw) if rng.random() < .5 else cls(theta=m.theta, **kw)
        else:
            m.theta = 0.
            x = cls(**kw)
    return x, m


def temperature(rng):
    return gen.pick(rng, [float(rng.uniform(15, 220)), float(rng.uniform(-60, 350)), int(rng.integers(20, 200)), 24.5])


def step(rng):
    """A small change, down to the last digits a setting would be given with."""
    return gen.sgn(rng) * gen.logu(rng, 1e-4, .5)


def angle(rng):
    return gen.pick(rng, [float(rng.uniform(0, np.pi / 2)), float(rng.uniform(-4, 4)), 0., np.pi / 2])


def axis_of(rng, m):
    if m.kind == 'PPLN':
        return gen.pick(rng, [None, None, 'e'])
    return gen.pick(rng, ['mix', 'o', 'e'])


def wavelengths(rng, m, scalar=None):
    lo, hi = RANGE[m.kind]
    if scalar is None:
        scalar = rng.random() < .4
    if scalar:
        w = gen.logu(rng, lo, hi)
        return gen.pick(rng, [float(w), np.float64(w), int(w)])
    w = np.exp(rng.uniform(np.log(lo), np.log(hi), int(rng.integers(1, 30))))
    return w


def change(rng, x, m):
    """One legal change of settings, made on crystal and model alike."""
    if m.kind == 'PPLN':
        m.T = temperature(rng) if rng.random() < .7 else m.T + step(rng)
        if rng.random() < .6:
            x.set_T(m.T)
            return 'set_T'
        m.source = gen.pick(rng, ['Deng', 'Gayer_5pctMg'])
        x.load(m.T, m.source)
        return 'load'
    m.theta = angle(rng) if rng.random() < .7 else m.theta + .1 * step(rng)
    x.set_theta(m.theta)
    return 'set_theta'


def pulse(rng, kind, sizes=(16, 32, 64, 100)):
    """A pulse whose wavelengths lie where the index is defined."""
    lo, hi = RANGE[kind]
    n = gen.size(rng, list(sizes))
    wl = gen.logu(rng, lo * 1.6, hi / 1.6)
    f0 = ref.C_NMPS / wl
    span = f0 * rng.uniform(.01, .5)
    return gen.bare_pulse(rng, n, n / span, wl)
