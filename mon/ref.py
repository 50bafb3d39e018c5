"""Independent reference models, written from the documentation and from
textbook formulas; nothing in here imports pynlo."""
import math

import numpy as np

C = 299792458.0                 # m/s
C_NMPS = C * 1e9 / 1e12         # nm/ps
H = 6.62607015e-34
EPS0 = 8.8541878128e-12


def grids(n, tw_ps, f0_thz):
    """Every grid quantity of an n-point pulse."""
    m = np.arange(n) - n / 2.0
    dT = tw_ps / float(n)
    T = -tw_ps / 2.0 + dT * np.arange(n)
    V = 2 * np.pi * m / tw_ps
    W = V + 2 * np.pi * f0_thz
    with np.errstate(divide='ignore'):
        wl = 2 * np.pi * C_NMPS / W
    return dict(n=n, T=T, dT=dT, V=V, W=W, F=W / (2 * np.pi), dF=1.0 / tw_ps,
                wl=wl, f0=f0_thz, wl0=C_NMPS / f0_thz, tw=tw_ps)


def to_freq(AT):
    """A(w_k) = 1/N sum_j A(t_j) exp(+i w_k t_j) on centred even grids."""
    AT = np.asarray(AT, dtype=complex)
    n = AT.shape[-1]
    return np.roll(np.fft.ifft(np.roll(AT, n // 2, axis=-1), axis=-1), -(n // 2), axis=-1)


def to_time(AW):
    AW = np.asarray(AW, dtype=complex)
    n = AW.shape[-1]
    return np.roll(np.fft.fft(np.roll(AW, n // 2, axis=-1), axis=-1), -(n // 2), axis=-1)


def dft_matrix(n):
    m = np.arange(n) - n // 2
    return np.exp(-2j * np.pi * ((np.outer(m, m) % n) / float(n)))


def trapz(y, dx):
    y = np.asarray(y)
    return dx * (y.sum() - 0.5 * (y[0] + y[-1]))


def sech(x):
    x = np.abs(np.asarray(x, dtype=float))
    return 2.0 * np.exp(-x) / (1.0 + np.exp(-2 * x))


def sinc(x):
    x = np.asarray(x, dtype=float)
    out = np.ones_like(x)
    m = x != 0
    out[m] = np.sin(x[m]) / x[m]
    return out


# ------------------------------------------------------------------ fibers
def taylor_beta(coeffs, dw):
    """sum_i coeffs[i]/(i+2)! dw^(i+2)"""
    out = np.zeros_like(np.asarray(dw, dtype=float))
    for i, b in enumerate(coeffs):
        out = out + float(b) / math.factorial(i + 2) * dw ** (i + 2)
    return out


# ------------------------------------------------------------- Raman models
def raman_h(kind, t, tau1=0.0122, tau2=0.0320):
    """Unnormalised delayed response h(t), t in ps; zero for t<0."""
    h = np.zeros_like(t)
    p = t >= -1e-9              # the sample at zero may be rounded below it
    tp = np.maximum(t[p], 0)
    if kind == 'simple':
        h[p] = np.exp(-tp / tau2) * np.sin(tp / tau1)
    elif kind == 'lin':
        taub, fa, fb, fc = 0.096, 0.75, 0.21, 0.04
        ha = tau1 / (tau1 ** 2 + tau2 ** 2) * np.exp(-tp / tau2) * np.sin(tp / tau1)
        hb = (2 * taub - tp) / taub ** 2 * np.exp(-tp / taub)
        h[p] = (fa + fc) * ha + fb * hb
    return h


def raman_R(kind, n, tw, f_R=0.18, tau1=0.0122, tau2=0.0320):
    """1-f_R + f_R H(w) on the centred frequency grid, H(0)=1."""
    if kind == 'off':
        return np.ones(n, dtype=complex)
    g = grids(n, tw, 1.0)
    if kind == 'lin':
        f_R = 0.245
    h = raman_h(kind, g['T'], tau1, tau2)
    h = h / trapz(h, g['dT'])
    return (1.0 - f_R) + f_R * tw * to_freq(h)
