"""C17 propagation keeps the invariants and symmetries of its equation."""
import copy

import numpy as np

from mon import gen, nlse, ref

RULE = ('random resolved pulses and fibres; energy, photon number and mean '
        'frequency before and after are compared with the conservation laws, '
        'and pairs of runs related by a symmetry of the equation (phase, time '
        'shift, time reversal, amplitude and time scaling, reversal of the '
        'propagation) are compared with each other.')
QUICK, THOROUGH = 1800, 20000
MIN_CHECKS = 1200
BUDGET = 6_000_000
FILES = ['src/pynlo/interactions/FourWaveMixing/SSFM.py']


def E(A):
    return float(np.sum(np.abs(A) ** 2))


def mean_V(A, q):
    S = np.abs(ref.to_freq(A)) ** 2
    return float(np.sum(S * q.g['V']) / np.sum(S))


def photons(A, q):
    S = np.abs(ref.to_freq(A)) ** 2
    return float(np.sum(S / (2 * np.pi * q.f0 + q.g['V'])))


def start(ctx, **kw):
    q = nlse.problem(ctx.rng, **kw)
    ctx.note(**nlse.info(q))
    return q


def energy(ctx):
    """Without self-steepening only gain changes the energy, at every position."""
    q = start(ctx, shock=False, nmax=3.)
    steps = int(ctx.rng.integers(1, 5))
    p = nlse.pulse(q)
    e0, epp0 = E(q.A), p.calc_epp()
    z, AW, AT, po = nlse.run(ctx, q, steps, p=p, solver_kw=dict(local_error=10 ** ctx.rng.uniform(-8, -6)))
    for i in range(steps):
        ctx.close(E(AT[:, i]), e0 * np.exp(q.gain * z[i + 1]), 'energy-balance', rtol=2e-5)
        ctx.close(E(AW[:, i]) * q.n, E(AT[:, i]), 'parseval-of-output', rtol=1e-5)
    ctx.close(E(po.AT), e0 * np.exp(q.gain * q.L), 'energy-balance', rtol=1e-5)
    ctx.close(po.calc_epp(), epp0 * np.exp(q.gain * q.L), 'pulse-energy-balance', rtol=2e-4)
    ctx.event('energy balances gain %s' % (q.gain != 0))


def photon(ctx):
    """With self-steepening the photon number is kept and the energy is not."""
    q = start(ctx, shock=True, gain=0.0)
    n0 = photons(q.A, q)
    po = nlse.run(ctx, q, 1, solver_kw=dict(local_error=1e-7))[3]
    if not nlse.resolved(po.AT):
        ctx.event('field at the edge of its grid')
        return
    ctx.close(photons(po.AT, q), n0, 'photon-number', rtol=3e-6)
    ctx.event('photon numbers')


def redshift(ctx):
    """Raman scattering moves the mean frequency down, at the rate the imaginary
    part of the response gives; without it the mean frequency stays."""
    q = start(ctx, shock=False, gain=0.0)
    steps = 4
    m0 = mean_V(q.A, q)
    s = nlse.solver(q, local_error=1e-8)
    z, AW, AT, po = nlse.run(ctx, q, steps, s=s)
    bw = np.sqrt(np.sum(np.abs(po.AW) ** 2 * q.g['V'] ** 2) / np.sum(np.abs(po.AW) ** 2))
    if not nlse.resolved(po.AT):
        ctx.event('field at the edge of its grid')
        return
    if q.raman == 'off':
        ctx.close(mean_V(po.AT, q), m0, 'mean-frequency-kept', atol=1e-6 * bw)
        ctx.event('mean frequency kept')
        return
    # d<V>/dz = -2 gamma sum_m V_m Im R_m |I_m|^2 n / (2 E) with I = F|A|^2
    R = nlse.response(q)

    def rate(A):
        I = ref.to_freq(np.abs(A) ** 2)
        return float(-q.gamma * np.sum(q.g['V'] * R.imag * np.abs(I) ** 2) * q.n / E(A)), 0
    # trapezium over a finely resolved run
    z, AW, AT, po = nlse.run(ctx, q, 40, s=nlse.solver(q, local_error=1e-8))
    r = [rate(q.A)[0]] + [rate(AT[:, i])[0] for i in range(40)]
    from scipy.integrate import simpson
    shift = simpson(r, x=z)
    got = mean_V(po.AT, q) - m0
    if q.raman == 'simple':
        ctx.need(got < 0, 'raman-moves-to-the-red', shift=got)
    ctx.close(got, shift, 'raman-shift-rate', rtol=2e-3, scale=abs(shift) + 1e-4 * bw)
    ctx.event('raman shifts')


def reverse(ctx):
    """Propagating on through the fibre with all signs reversed undoes it."""
    q = start(ctx, gain=None)
    po = nlse.run(ctx, q, int(ctx.rng.integers(1, 4)), solver_kw=dict(local_error=1e-8))[3]
    if not nlse.resolved(po.AT):
        ctx.event('field at the edge of its grid')
        return
    back = nlse.run(ctx, q, 1, p=po, f=nlse.fiber(q, sign=-1.), solver_kw=dict(local_error=1e-8))[3]
    ctx.close(back.AT, q.A, 'back-propagation', rtol=3e-5)
    # the integrator's own inverse direction, on the same solver
    s = nlse.solver(q, local_error=1e-8)
    po = nlse.run(ctx, q, 1, s=s)[3]
    if hasattr(s, 'integrate_over_dz') and np.shape(getattr(s, 'A', None)) == (q.n,):
        # the working array may hold either half of the window first
        turned = np.max(np.abs(s.A - po.AT)) > np.max(np.abs(np.fft.fftshift(s.A) - po.AT))
        s.integrate_over_dz(q.L, -1)
        ctx.close(np.fft.fftshift(s.A) if turned else np.array(s.A), q.A, 'inverse-direction', rtol=3e-5)
    ctx.event('round trips')


def two(ctx, q, q2, **kw):
    s = dict(local_error=1e-7)
    a = nlse.run(ctx, q, 1, solver_kw=s)[3]
    b = nlse.run(ctx, q2, 1, solver_kw=s, **kw)[3]
    return a.AT, b.AT


def phase_shift(ctx):
    """A constant phase and a displacement in time pass through unchanged."""
    q = start(ctx)
    q2 = copy.copy(q)
    ph = ctx.rng.uniform(0, 2 * np.pi)
    k = int(ctx.rng.integers(-q.n // 2, q.n // 2))
    q2.A = np.roll(q.A, k) * np.exp(1j * ph)
    ctx.note(shift=k, phase=ph)
    a, b = two(ctx, q, q2)
    ctx.close(b, np.roll(a, k) * np.exp(1j * ph), 'phase-and-time-shift', rtol=1e-5)
    ctx.event('phase and time shifts')


def mirror(ctx):
    """With symmetric dispersion and instant response time has no direction."""
    q = start(ctx, raman='off', shock=False, order=1)
    q.betas = [q.b2, 0.0, float(ctx.rng.normal() * .1 * abs(q.b2) * q.T0 ** 2)]
    q2 = copy.copy(q)

    def flip(A):
        return np.roll(A[::-1], 1)
    q2.A = flip(q.A)
    po = nlse.run(ctx, q, 1, solver_kw=dict(local_error=1e-7))[3]
    if not nlse.resolved(po.AT):
        ctx.event('field at the edge of its grid')
        return
    b = nlse.run(ctx, q2, 1, solver_kw=dict(local_error=1e-7))[3].AT
    # the slope at the centre is a one-sided difference, so undo its delay
    V, c, dw = q.g['V'], q.n // 2, 2 * np.pi / q.tw
    M = ref.taylor_beta(q.betas, V)
    odd = (M[c + 1] - M[c - 1]) / (2 * dw)
    ctx.close(odd * q.tw, 0.0, 'even-dispersion', atol=1e-9)
    ctx.close(b, flip(po.AT), 'time-mirror', rtol=1e-5)
    # complex conjugation goes with reversed signs
    q3 = copy.copy(q)
    q3.A = q.A.conj()
    d = nlse.run(ctx, q3, 1, f=nlse.fiber(q, sign=-1., gain=-q.gain), solver_kw=dict(local_error=1e-7))[3].AT
    ctx.close(d, po.AT.conj(), 'conjugation', rtol=1e-5)
    ctx.event('mirrors')


def scaling(ctx):
    """Only gamma P and ratios of times to each other matter."""
    rng = ctx.rng
    q = start(ctx, raman=gen.pick(rng, ['off', 'simple']))
    s, u, l = gen.logu(rng, .1, 10), gen.logu(rng, .3, 3), gen.logu(rng, .01, 100)
    q2 = copy.copy(q)
    q2.A = q.A / np.sqrt(s)
    q2.gamma = q.gamma * s / l
    q2.tw, q2.T0 = q.tw * u, q.T0 * u
    q2.tau1, q2.tau2 = q.tau1 * u, q.tau2 * u
    q2.f0, q2.wl = q.f0 / u, q.wl * u
    q2.betas = [b * u ** (i + 2) / l for i, b in enumerate(q.betas)]
    q2.L = q.L * l
    q2.gain = q.gain / l
    q2.g = ref.grids(q2.n, q2.tw, q2.f0)
    q2.frep = gen.logu(rng, 1, 1e4)
    ctx.note(power=s, time=u, length=l)
    a, b = two(ctx, q, q2)
    ctx.close(b * np.sqrt(s), a, 'scaling', rtol=1e-5)
    ctx.event('scalings')


STRATA = [('energy', energy, 3), ('photon', photon, 2), ('redshift', redshift, 1),
          ('reverse', reverse, 2), ('phase_shift', phase_shift, 1), ('mirror', mirror, 1),
          ('scaling', scaling, 2)]
