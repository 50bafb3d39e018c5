"""Random generators shared by the property modules."""
import numpy as np

from mon import ref

EVEN = [16, 20, 32, 50, 64, 96, 100, 128, 130, 200, 250, 256, 360, 512]
EVEN_BIG = EVEN + [768, 1000, 1024, 2048]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def logu(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def sgn(rng):
    return 1.0 if rng.random() < 0.5 else -1.0


def near(rng, x, share=.3):
    """Sometimes x changed by parts in 1e9 to 1e2 (0 means: not near)."""
    return x * (1 + sgn(rng) * logu(rng, 1e-9, 1e-2)) if rng.random() < share else 0.


def as_number(rng, x):
    """The same real number in one of the types a caller might use."""
    k = int(rng.integers(4))
    if k == 0:
        return np.float64(x)
    if k == 1 and float(x) == int(x):
        return int(x)
    if k == 2:
        return np.array(float(x))[()]
    return float(x)


def as_int(rng, n):
    return pick(rng, [int, np.int64, np.int32, float, np.float64])(n)


def size(rng, sizes, big=(1000, 2048, 3000, 4096, 8192), share=.03):
    """One of the given sizes; now and then any even one between them, or a
    far larger one."""
    u = rng.random()
    if len(sizes) > 2 and max(sizes) >= 64:
        if u < share:
            return pick(rng, big) if rng.random() < .9 or max(big) < 8192 else pick(rng, (16384, 20000, 32768))
        if u < share + .12:
            return 2 * int(rng.integers(min(sizes) // 2, max(sizes) // 2 + 1))
    return pick(rng, sizes)


def rows(rng, lo, hi, most=2000):
    """Rows of a table: usually few, now and then very many."""
    return int(rng.integers(lo, hi)) if rng.random() < .85 else int(logu(rng, hi, most))


def grid(rng, sizes=EVEN, positive=True, tw_lo=1.05, tw_hi=60.0):
    """(n, time window, centre wavelength) with an all-positive frequency grid."""
    while True:
        n = size(rng, sizes)
        tw = logu(rng, tw_lo, tw_hi) * (max(1., n / 1024.) if n > max(sizes) else 1.)
        if rng.random() < .06:                      # nanoseconds and more
            tw *= logu(rng, 1., 1e4)
        wl = float(rng.uniform(300., 4500.))
        if rng.random() < .04:                      # soft X-rays to terahertz
            wl = logu(rng, 20., 300.) if rng.random() < .5 else logu(rng, 4500., 3e5)
        if not positive and rng.random() < .4:      # reaches below zero frequency
            tw *= rng.uniform(.02, .5)
            wl *= rng.uniform(1., 4.)
        f0 = ref.C_NMPS / wl
        if not positive or f0 - 0.5 * n / tw > 0.02 * f0:
            return n, tw, wl


def bare_pulse(rng, n, tw, wl, frep=None):
    """Pulse set up through setters, in a random legal order and unit."""
    from pynlo.light.PulseBase import Pulse
    p = Pulse(frep_MHz=frep) if frep is not None else Pulse()
    ops = ['n', 'tw', 'wl']
    rng.shuffle(ops)
    for o in ops:
        if o == 'n':
            p.set_NPTS(n)
        elif o == 'tw':
            p.set_time_window_ps(tw) if rng.random() < .5 else p.set_time_window_s(tw * 1e-12)
        else:
            if rng.random() < .5:
                p.set_center_wavelength_nm(wl)
            else:
                p.set_center_wavelength_m(wl * 1e-9)
    return p


def field(rng, n, tw, kind=None):
    """A complex time-domain field on the centred grid and its kind."""
    g = ref.grids(n, tw, 1.0)
    T, dT = g['T'], g['dT']
    kinds = ['gauss', 'sech', 'multi', 'noise', 'band', 'line', 'delta', 'ramp', 'edge']
    kind = kind or pick(rng, kinds)
    amp = 10 ** rng.uniform(-3, 3)
    if kind == 'gauss':
        w = tw * rng.uniform(.03, .12)
        A = np.exp(-.5 * ((T - tw * rng.uniform(-.15, .15)) / w) ** 2)
        A = A * np.exp(1j * rng.uniform(-2, 2) * (T / w) ** 2 * .2)
    elif kind == 'sech':
        w = tw * rng.uniform(.02, .06)
        A = ref.sech((T - tw * rng.uniform(-.1, .1)) / w) * np.exp(1j * rng.uniform(-3, 3) * T / w * .3)
    elif kind == 'multi':
        A = np.zeros(n, complex)
        for _ in range(int(rng.integers(2, 5))):
            w = tw * rng.uniform(.02, .08)
            A += rng.uniform(.2, 1) * np.exp(1j * rng.uniform(0, 6.28)) * \
                np.exp(-.5 * ((T - tw * rng.uniform(-.25, .25)) / w) ** 2)
    elif kind == 'noise':
        A = rng.normal(size=n) + 1j * rng.normal(size=n)
    elif kind == 'band':
        S = (rng.normal(size=n) + 1j * rng.normal(size=n)) * \
            np.exp(-.5 * ((np.arange(n) - n / 2) / (n * rng.uniform(.03, .15))) ** 2)
        A = ref.to_time(S)
    elif kind == 'line':
        k = int(rng.integers(-(n // 2), n // 2))
        A = np.exp(-2j * np.pi * k * T / tw)
    elif kind == 'delta':
        A = np.zeros(n, complex)
        A[int(rng.integers(n))] = 1.0
    elif kind == 'ramp':
        A = np.arange(1, n + 1) * (1 + .5j)
    else:
        A = np.exp(-np.abs(T - T[0]) / (tw * .1)) + .3 * np.exp(-np.abs(T - T[-1]) / (tw * .05))
    return np.asarray(A, complex) * amp, kind


def loaded_pulse(rng, sizes=EVEN, kind=None, frep=None, positive=True):
    n, tw, wl = grid(rng, sizes, positive)
    p = bare_pulse(rng, n, tw, wl, frep)
    A, kind = field(rng, n, tw, kind)
    if rng.random() < .5:
        p.set_AT(A)
    else:
        p.set_AW(ref.to_freq(A))
    return p, A, dict(n=n, tw=tw, wl=wl, field=kind)


def model_of(p):
    """Reference grids from the three public parameters of a pulse."""
    return ref.grids(p.NPTS, p.time_window_ps, p.center_frequency_THz)
