"""Fiber builders and their independent reference models."""
import math

import numpy as np

from mon import gen, ref


def random_betas(rng, tw, n, L, order=None, strength=None):
    """Dispersion coefficients, each of which bends the phase by a few radians
    over the length L at the edge of the used band."""
    order = order or int(rng.integers(1, 7) if rng.random() < .88 else rng.integers(7, 15))
    V = math.pi * n / tw
    out = []
    for i in range(order):
        s = (strength or rng.uniform(.1, 5.)) * math.factorial(i + 2) / V ** (i + 2) / L
        out.append(float(rng.normal() * s))
    if order > 1 and rng.random() < .3:       # e.g. at the zero-dispersion wavelength
        for i in rng.choice(order, int(rng.integers(1, order)), replace=False):
            out[i] = 0.0
    return out


def taylor_slack(betas, W, x):
    """What the rounding of W (of which x is a difference) does to a Taylor
    series in x, and to its slope at the centre times the width of the grid."""
    n = len(x)
    t = sum(np.abs(b * x ** (k + 1)) / math.factorial(k + 1) for k, b in enumerate(betas))
    return 1e-15 * float(np.max(np.abs(W))) * float(np.max(t) + n * np.max(t[n // 2 - 1:n // 2 + 2]))


def gvd_model(W, V, w_center, betas):
    """Taylor series about the fibre centre; affine terms removed by caller."""
    return ref.taylor_beta(betas, W - w_center)


def sellmeier(rng):
    """A smooth index n(lambda_um) with normal and anomalous regions."""
    b1, c1 = rng.uniform(.5, 1.3), rng.uniform(.003, .02)
    b2, c2 = rng.uniform(.3, 1.), rng.uniform(80, 250)

    def n(um):
        l2 = np.asarray(um, float) ** 2
        return np.sqrt(1 + b1 * l2 / (l2 - c1) + b2 * l2 / (l2 - c2))
    return n, (b1, c1, b2, c2)


def d_to_beta2(wl_nm, D):
    """beta2 [ps^2/m] from D [ps/nm/km]."""
    wl_nm = np.asarray(wl_nm, float)
    return -np.asarray(D, float) * 1e-3 * wl_nm ** 2 / (2 * np.pi * ref.C_NMPS)


def fit_beta2(wl0_nm, wl_nm, D, order):
    """Least-squares Taylor coefficients of beta2 about wl0."""
    w = 2 * np.pi * ref.C_NMPS * (1 / np.asarray(wl_nm, float) - 1 / wl0_nm)
    P = np.polynomial.Polynomial.fit(w, d_to_beta2(wl_nm, D), order)
    c = P.convert().coef
    c = np.concatenate([c, np.zeros(order + 1 - len(c))])
    return np.array([c[i] * math.factorial(i) for i in range(order + 1)]), w, P


def table_values(rng, wl):
    """A smooth D(lambda) with a zero crossing, ps/nm/km."""
    wl = np.asarray(wl, float)
    l0 = rng.uniform(wl.min(), wl.max())
    s = rng.uniform(.02, .3)
    return s * (wl - l0) * (1 + rng.uniform(-.2, .2) * (wl - l0) / (wl.max() - wl.min())) \
        + rng.normal() * 3


def amp_entry(rng, f0, half, wl, gamma=.001, betas=(-10.0,)):
    """One amplifier of a database, with its gain table (entry, nu, gain)."""
    from mon import ref
    nu = np.sort(np.concatenate([np.linspace(f0 - half, f0 + half, 8) + rng.uniform(-.03, .03, 8) * half,
                                 [f0 + half * rng.uniform(-.02, .02)]]))
    nu = nu[nu > .05 * f0]
    y = np.exp(-.5 * ((nu - f0 - rng.normal() * half * .1) / (half * rng.uniform(.4, 1.))) ** 2)
    lam = ref.C / (nu * 1e12)
    return dict(dispersion_format='GVD', dispersion_gvd_units='ps^n/km',
                dispersion_gvd_center_wavelength=wl, dispersion_data=list(betas), gamma=gamma,
                is_gain=True, gain_x_units='m', gain_x_data=lam[::-1].tolist(),
                gain_y_data=y[::-1].tolist(), name='amp'), nu, y


def from_entries(db, tag):
    """A fibre object on a database made of the given entries."""
    import json
    import os
    from pynlo.media.fibers.fiber import FiberInstance
    name = 'amp_%s' % tag
    with open(name + '.txt', 'w') as fh:
        json.dump(db, fh)
    try:
        return FiberInstance(name, os.getcwd())
    finally:
        os.unlink(name + '.txt')


def amplifier(rng, f0, half, wl, L, tag, gamma=.001, betas=(-10.0,)):
    """A gain fibre loaded from a small database file: (fibre, nu, gain table).
    nu in THz increasing, covering f0 +- half irregularly."""
    e, nu, y = amp_entry(rng, f0, half, wl, gamma, betas)
    f = from_entries({'amp': e}, tag)
    f.load_from_db(L, 'amp')
    return f, nu, y


def some_gain(rng):
    """Gain or loss [1/m], round and special values included."""
    k = int(rng.integers(6))
    if k < 3:
        return 0.0
    return float(rng.normal()) if k < 5 else [1, -1, 1.0, -1.0, 2, .1, -0.0, 0][int(rng.integers(8))]
