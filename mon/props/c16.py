"""C16 nonlinear propagation solves the generalised Schroedinger equation."""
import numpy as np

from mon import gen, nlse, ref

RULE = ('random pulses and fibres with every combination of dispersion order, '
        'Raman model, self-steepening and gain; output compared with closed '
        'forms and with an independent fixed-step solver of the documented '
        'equation that was refined until it agreed with itself.')
QUICK, THOROUGH = 2000, 20000
MIN_CHECKS = 2500
BUDGET = 6_000_000
FILES = ['src/pynlo/interactions/FourWaveMixing/SSFM.py']


def general(ctx):
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(128, 200, 256))
    le = 10 ** rng.uniform(-8, -5)
    steps = int(rng.integers(1, 4))
    ctx.note(local_error=le, steps=steps, **nlse.info(q))
    want = nlse.reference(q)
    if want is None:
        ctx.event('reference not converged')
        return
    if not nlse.resolved(want):
        ctx.event('field at the edge of its grid')
        return
    z, AW, AT, po = nlse.run(ctx, q, steps, solver_kw=dict(local_error=le, dz=q.L * gen.logu(rng, 1e-3, 1)))
    tol = 5e-5 + 10 * le
    ctx.close(po.AT, want, 'gnlse-solution', rtol=tol)
    ctx.close(AT[:, -1], want, 'gnlse-solution', rtol=tol)
    ctx.close(AW[:, -1], ref.to_freq(want), 'gnlse-spectrum', rtol=tol)
    if steps > 1:
        mid = nlse.reference(q, L=float(z[1]))
        if mid is not None:
            ctx.close(AT[:, 0], mid, 'gnlse-intermediate', rtol=tol)
    ctx.event('raman %s shock %s' % (q.raman, q.shock))


def spm(ctx):
    """Without dispersion and shock: A0 exp(i gamma Leff (R*|A0|^2) + g L/2)."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(64, 128, 200, 256), disp=False, shock=False)
    ph = rng.uniform(.1, 6)
    q.L = ph / (q.gamma * q.P)
    q.gain = 0.0 if rng.random() < .5 else rng.uniform(-2, 1) / q.L
    steps = int(rng.integers(1, 4))
    ctx.note(phase=ph, steps=steps, **nlse.info(q))
    le = 10 ** rng.uniform(-12, -5)
    z, AW, AT, po = nlse.run(ctx, q, steps, solver_kw=dict(local_error=le))
    I = np.abs(q.A) ** 2
    C = ref.to_time(nlse.response(q) * ref.to_freq(I)).real
    for i in range(steps):
        Le = z[i + 1] if q.gain == 0 else (np.exp(q.gain * z[i + 1]) - 1) / q.gain
        W = q.A * np.exp(1j * q.gamma * Le * C + q.gain * z[i + 1] / 2)
        ctx.close(AT[:, i], W, 'self-phase-modulation', rtol=3e-5)
    ctx.close(po.AT, W, 'self-phase-modulation', rtol=le + 3e-11)
    ctx.close(np.abs(po.AT), np.abs(W), 'profile-kept', rtol=1e-4)
    ctx.event('SPM cases')


def soliton(ctx):
    """Fundamental solitons keep their shape, N=2 solitons recur."""
    rng = ctx.rng
    N = 1 if rng.random() < .7 else 2
    q = nlse.problem(rng, sizes=(256,) if N == 1 else (512,), raman='off', shock=False, gain=0.0, kind='sech', order=1)
    q.tw = q.T0 * 30
    q.g = ref.grids(q.n, q.tw, q.f0)
    if q.f0 < .55 * q.n / q.tw:
        q.f0 = .6 * q.n / q.tw
        q.wl = ref.C_NMPS / q.f0
        q.g = ref.grids(q.n, q.tw, q.f0)
    q.betas = [-abs(q.b2)]
    LD = q.T0 ** 2 / abs(q.b2)
    P = N ** 2 / (q.gamma * LD)
    q.A = np.sqrt(P) * ref.sech(q.g['T'] / q.T0).astype(complex)
    q.L = LD * (np.pi / 2 if N == 2 else float(rng.uniform(.5, 4)))
    ctx.note(N=N, **nlse.info(q))
    po = nlse.run(ctx, q, 1, solver_kw=dict(local_error=1e-7))[3]
    ctx.close(np.abs(po.AT), np.abs(q.A), 'soliton-shape', rtol=2e-4 if N == 1 else 1e-3)
    if N == 1:
        c = q.n // 2
        ctx.close(po.AT[c] / abs(po.AT[c]), np.exp(.5j * q.L / LD), 'soliton-phase', atol=3e-4)
    ctx.event('solitons N=%d' % N)


def four_wave(ctx):
    """A weak sideband on CW grows at the textbook parametric rate."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(64, 128), raman='off', shock=False, gain=0.0)
    m = int(rng.integers(1, 5))
    Om = 2 * np.pi * m / q.tw
    P = q.P
    x = rng.uniform(.3, 1.7)                       # beta2 Om^2 / (2 gamma P)
    b2 = gen.sgn(rng) * x * 2 * q.gamma * P / Om ** 2
    q.betas = [b2]
    q.L = rng.uniform(.5, 2) / (q.gamma * P)
    T = q.g['T']
    e = 1e-4
    q.A = np.sqrt(P) * (1 + e * np.exp(-1j * Om * T))
    ctx.note(x=x, m=m, b2=b2, **{k: v for k, v in nlse.info(q).items() if k != 'betas'})
    po = nlse.run(ctx, q, 1, solver_kw=dict(local_error=1e-8))[3]
    S = po.AW
    c = q.n // 2
    r = abs(S[c + m]) / (e * np.sqrt(P))
    # linearised: u' = i(k+gP)u + i gP v*, with k = b2 Om^2/2
    k, g = b2 * Om ** 2 / 2, q.gamma * P
    s = np.sqrt(complex(k * (k + 2 * g)))
    u = np.cos(s * q.L) + 1j * (k + g) * np.sin(s * q.L) / s
    ctx.close(r, abs(u), 'parametric-gain', rtol=1e-4)
    v = 1j * g * np.sin(s * q.L) / s
    ctx.close(abs(S[c - m]) / (e * np.sqrt(P)), abs(v), 'idler-growth', rtol=1e-4, scale=max(abs(u), abs(v)))
    ctx.event('sidebands')


def shock(ctx):
    """Self-steepening of a pulse without dispersion follows the implicit
    solution I(z,t) = I0(t - 3 gamma I z / w0)."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(256, 512), raman='off', shock=True, gain=0.0, disp=False, kind='gauss')
    w0 = 2 * np.pi * q.f0
    T = q.g['T'] / q.T0
    t0 = rng.uniform(-1, 1)
    q.A = np.sqrt(q.P) * np.exp(-.5 * (T - t0) ** 2).astype(complex)
    # stay well before the shock, and below a few radians of phase so that the
    # spectrum stays on the grid
    zs = w0 * q.T0 / (3 * q.gamma * q.P) * .8578
    q.L = min(.3 * zs, 6. / (q.gamma * q.P))
    ctx.note(**nlse.info(q))
    po = nlse.run(ctx, q, 1, solver_kw=dict(local_error=1e-8))[3]
    I = np.abs(po.AT) ** 2
    t = q.g['T'] - 3 * q.gamma * I * q.L / w0
    want = q.P * np.exp(-(t / q.T0 - t0) ** 2)
    ctx.close(I, want, 'self-steepening', rtol=1e-3)
    ctx.event('shocks')


def control(ctx):
    """The step control keeps the error near the requested local error, also
    when the first step offered is far too long."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(128, 200))
    le = 10 ** rng.uniform(-5, -2.5)
    steps = int(rng.integers(1, 4))
    dz = q.L * gen.logu(rng, .05, 5)
    ctx.note(local_error=le, dz=dz, steps=steps, **nlse.info(q))
    want = nlse.reference(q, tol=1e-7)
    if want is None:
        ctx.event('reference not converged')
        return
    if not nlse.resolved(want):
        ctx.event('field at the edge of its grid')
        return
    s = nlse.solver(q, local_error=le, dz=dz)
    po = nlse.run(ctx, q, steps, s=s)[3]
    scale = np.max(np.abs(want))
    ctx.leq(np.max(np.abs(po.AT - want)) / scale, 10 * le + 1e-6, 'error-follows-local-error')
    # a second pass through the same solver starts from the adapted step
    po = nlse.run(ctx, q, 1, s=s)[3]
    ctx.leq(np.max(np.abs(po.AT - want)) / scale, 10 * le + 1e-6, 'error-follows-local-error')
    ctx.event('controlled runs')


STRATA = [('general', general, 6), ('spm', spm, 2), ('soliton', soliton, 1),
          ('four_wave', four_wave, 1), ('shock', shock, 1),
          ('control', control, 3)]
