"""Propagation problems and an independent solver for the GNLSE

    dA/dz = (g/2 + i beta(w)) A + i gamma (1 + w/w0 * shock) F[ A (R * |A|^2) ]

written in the frequency domain and integrated with fixed-step RK4 in the
interaction picture.  Imports nothing from pynlo."""
import contextlib
import math

import numpy as np

from mon import gen, ref


class Problem:
    pass


def ft(a):          # time -> frequency on natural (unshifted) order
    return np.fft.ifft(a)


def it(a):
    return np.fft.fft(a)


def problem(rng, sizes=(128, 200, 256, 512), raman=None, shock=None, gain=None,
            nmax=2.0, T0=None, disp=True, nl=True, order=None, lengths=(.2, 1.2), kind=None):
    """A resolved pulse in a random fibre; everything the oracle needs."""
    q = Problem()
    q.n = n = int(gen.size(rng, sizes, big=(1000, 1024, 2048), share=.02))
    q.T0 = T0 or gen.logu(rng, .03, 1.)
    q.tw = tw = q.T0 * rng.uniform(18, 26) * (n / 128.) ** .5
    f0_min = .55 * n / tw
    wl_max = min(3000., ref.C_NMPS / f0_min)
    q.wl = float(rng.uniform(min(400., .5 * wl_max), wl_max))
    q.f0 = ref.C_NMPS / q.wl
    q.g = ref.grids(n, tw, q.f0)
    q.raman = raman or gen.pick(rng, ['off', 'simple', 'lin'])
    q.shock = bool(rng.random() < .5) if shock is None else shock
    q.f_R, q.tau1, q.tau2 = .18, .0122, .0320
    if q.raman == 'simple' and rng.random() < .4:
        q.f_R, q.tau1, q.tau2 = rng.uniform(.05, .4), rng.uniform(.008, .03), rng.uniform(.02, .06)
    q.kind = kind or gen.pick(rng, ['sech', 'gauss', 'two', 'chirped'])
    T = q.g['T'] / q.T0
    t0 = rng.uniform(-1.5, 1.5)
    if q.kind == 'sech':
        A = ref.sech(T - t0).astype(complex)
    elif q.kind == 'gauss':
        A = np.exp(-.5 * (T - t0) ** 2).astype(complex)
    elif q.kind == 'two':
        A = np.exp(-.5 * (T - 2.5) ** 2) + rng.uniform(.3, .9) * np.exp(
            1j * rng.uniform(0, 6.28) - .5 * ((T + 2.2) / .9) ** 2 + 1j * rng.uniform(-1, 1) * T)
    else:
        A = np.exp(-.5 * (T - t0) ** 2 * (1 + 1j * rng.uniform(-.8, .8)))
    q.disp, q.nl = disp, nl
    b2 = gen.sgn(rng) * (gen.logu(rng, 1e-3, .1) if rng.random() < .6 else gen.logu(rng, 1e-5, 1e3))
    q.b2 = b2
    LD = q.T0 ** 2 / abs(b2)
    N2 = rng.uniform(.1, nmax) if nl else 0.
    q.N2 = N2
    q.gamma = (gen.logu(rng, 1e-3, .2) if rng.random() < .6 else gen.logu(rng, 1e-5, 1e9)) if nl else 0.
    P = N2 / (q.gamma * LD) if nl else gen.logu(rng, 1e-3, 1e4)
    q.P = P
    A = A * np.sqrt(P)
    q.A = A
    q.L = float(rng.uniform(*lengths) * LD)
    order = order or int(rng.integers(1, 4))
    q.betas = [b2]
    if order > 1:
        q.betas.append(float(rng.normal() * .3 * abs(b2) * q.T0))
    if order > 2:
        q.betas.append(float(rng.normal() * .1 * abs(b2) * q.T0 ** 2))
    if order > 1 and rng.random() < .15:
        q.betas[0] = 0.0                      # zero-dispersion wavelength
    if not disp:
        q.betas = [0.0]
    if gain is None:
        gain = 0.0 if rng.random() < .5 else rng.uniform(-1.5, 1.) / q.L
    q.gain = float(gain)
    q.frep = gen.logu(rng, 1, 1e4)
    # the wavelength the fibre is specified at need not be the pulse's
    q.off = float(rng.uniform(.97, 1.03)) if rng.random() < .3 else 1.
    return q


def about(q, betas):
    """The coefficients `betas` (about the pulse's centre) re-expanded about the
    wavelength the fibre is specified at: the same fibre, but for a constant and
    a linear term that the solver's frame removes."""
    if getattr(q, 'off', 1.) == 1.:
        return list(betas)
    d = 2 * np.pi * (ref.C_NMPS / (q.wl * q.off) - ref.C_NMPS / q.wl)
    return [sum(b * d ** j / math.factorial(j) for j, b in enumerate(betas[k:])) for k in range(len(betas))]


def spec(q):
    """Wavelength and coefficients with which to make the fibre of problem q."""
    if hasattr(q, 'fwl'):
        return q.fwl, list(q.betas)
    return q.wl * getattr(q, 'off', 1.), about(q, q.betas)


def pulse(q, A=None):
    from pynlo.light.PulseBase import Pulse
    p = Pulse(frep_MHz=q.frep, n=q.n)
    p.set_center_wavelength_nm(q.wl)
    p.set_time_window_ps(q.tw)
    p.set_AT(q.A if A is None else A)
    return p


def fiber(q, L=None, sign=1.0, gain=None, gamma=None, betas=None):
    from pynlo.media.fibers.fiber import FiberInstance
    f = FiberInstance()
    wl, b = spec(q)
    b = [sign * x for x in (b if betas is None else about(q, betas))]
    f.generate_fiber(q.L if L is None else L, center_wl_nm=wl, betas=b,
                     gamma_W_m=sign * (q.gamma if gamma is None else gamma),
                     gain=sign * (q.gain if gain is None else gain))
    return f


def solver(q, **kw):
    from pynlo.interactions.FourWaveMixing import SSFM
    # the module and the class share their name in the package namespace
    cls = getattr(SSFM, 'SSFM', SSFM)
    k = dict(local_error=1e-6, disable_Raman=q.raman == 'off',
             disable_self_steepening=not q.shock, USE_SIMPLE_RAMAN=q.raman == 'simple',
             f_R=q.f_R, tau_1=q.tau1, tau_2=q.tau2, dz=q.L / 50.)
    k.update(kw)
    return cls(**k)


def run(ctx, q, n_steps=1, p=None, f=None, s=None, solver_kw=None, **kw):
    p = pulse(q) if p is None else p
    f = fiber(q) if f is None else f
    s = solver(q, **(solver_kw or {})) if s is None else s
    out = ctx.call(s.propagate, p, f, n_steps, **kw)
    ctx.need(isinstance(out, tuple) and len(out) == 4, 'propagate-returns-four')
    ctx.event('propagations')
    return out


def beta_of(q, betas=None):
    """The propagation constant the fibre presents to this pulse: Taylor series
    with the discrete slope at the centre taken out."""
    M = ref.taylor_beta(q.betas if betas is None else betas, q.g['V'])
    c, dw = q.n // 2, 2 * np.pi / q.tw
    return M - M[c] - (M[c + 1] - M[c - 1]) / (2 * dw) * q.g['V']


def rounding(q):
    """Phase that double precision cannot resolve when the fibre is specified
    away from the pulse: the slope at the pulse is a difference of large terms."""
    d = 2 * np.pi * (ref.C_NMPS / (q.wl * getattr(q, 'off', 1.)) - ref.C_NMPS / q.wl)
    x = q.g['V'] - d
    t = sum(np.abs(b * x ** (k + 2)) / math.factorial(k + 2) for k, b in enumerate(about(q, q.betas)))
    return 2e-15 * q.L * float(np.max(t) + q.n * t[q.n // 2])


def response(q):
    return ref.raman_R(q.raman, q.n, q.tw, q.f_R, q.tau1, q.tau2)


def reference(q, L=None, A=None, steps=None, tol=2e-6, beta=None, gamma=None, R=None):
    """A(L) in the time domain, on the centred grid."""
    sh = np.fft.ifftshift
    A0 = sh(q.A if A is None else A)
    L = q.L if L is None else L
    b = sh(beta_of(q) if beta is None else beta)
    R = sh(response(q) if R is None else R)
    V = sh(q.g['V'])
    D = 1j * b + q.gain / 2
    ga = q.gamma if gamma is None else gamma
    N = 1j * ga * (1 + (V / (2 * np.pi * q.f0) if q.shock else 0 * V))

    def F(S):
        a = it(S)
        return N * ft(a * it(R * ft(np.abs(a) ** 2)))

    def march(m):
        h = L / m
        E = np.exp(D * h / 2)
        S = ft(A0)
        for _ in range(m):
            SI = E * S
            k1 = E * F(S) * h
            k2 = h * F(SI + k1 / 2)
            k3 = h * F(SI + k2 / 2)
            k4 = h * F(E * (SI + k3))
            S = E * (SI + k1 / 6 + k2 / 3 + k3 / 3) + k4 / 6
        return it(S)
    m = steps or 40
    a = march(m)
    while True:
        m *= 2
        b2 = march(m)
        err = np.max(np.abs(b2 - a)) / np.max(np.abs(b2))
        a = b2
        if err < tol * 15:
            return np.fft.fftshift(a)
        if m > 4000 or not np.isfinite(err):
            return None


def resolved(A, lim=1e-5):
    """Is the field still well inside its grid in both domains?  Beyond that the
    discretised equations differ from each other through wrap-around."""
    for x in (np.abs(A), np.abs(ref.to_freq(A))):
        m = max(2, len(x) // 16)
        if max(np.max(x[:m]), np.max(x[-m:])) > lim * np.max(x):
            return False
    return True


@contextlib.contextmanager
def backend(prefftshift=None, freq_raman=None, fftw=None):
    from pynlo.interactions.FourWaveMixing import global_variables as gv
    import sys
    mod = sys.modules['pynlo.interactions.FourWaveMixing.SSFM']
    old = gv.PRE_FFTSHIFT, gv.USE_FREQUENCY_DOMAIN_RAMAN, mod.PYFFTW_AVAILABLE
    try:
        if prefftshift is not None:
            gv.PRE_FFTSHIFT = prefftshift
        if freq_raman is not None:
            gv.USE_FREQUENCY_DOMAIN_RAMAN = freq_raman
        if fftw is not None:
            mod.PYFFTW_AVAILABLE = fftw and old[2]
        yield
    finally:
        gv.PRE_FFTSHIFT, gv.USE_FREQUENCY_DOMAIN_RAMAN, mod.PYFFTW_AVAILABLE = old


def info(q):
    return dict(n=q.n, tw=q.tw, wl=q.wl, T0=q.T0, kind=q.kind, raman=q.raman, shock=q.shock,
                betas=q.betas, gamma=q.gamma, gain=q.gain, L=q.L, N2=q.N2, off=getattr(q, 'off', 1.))


def energy(A, q):
    return float(np.sum(np.abs(A) ** 2)) * q.tw * 1e-12 / q.n
