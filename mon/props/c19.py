"""C19 the delayed nonlinear response is the documented Raman response."""
import numpy as np

from mon import gen, nlse, ref

RULE = ('random grids, response models and parameters; the response is measured '
        'from outside by sending an intensity spike through a dispersionless '
        'fibre and reading the phase it leaves, and from the growth of weak '
        'sidebands on a continuous wave.')
QUICK, THOROUGH = 2400, 15000
MIN_CHECKS = 2500
BUDGET = 6_000_000
FILES = ['src/pynlo/interactions/FourWaveMixing/SSFM.py']


def base(rng, raman, sizes=(64, 100, 128, 200, 256, 512)):
    q = nlse.problem(rng, sizes=sizes, disp=False, shock=False, gain=0.0, raman=raman)
    q.tw = gen.logu(rng, .4, 20)
    f0_min = .55 * q.n / q.tw
    q.f0 = float(rng.uniform(max(f0_min, 120), max(1.2 * f0_min, 400)))
    q.wl = ref.C_NMPS / q.f0
    q.g = ref.grids(q.n, q.tw, q.f0)
    return q


def measure(ctx, q, le=1e-9, loose=0., s=None, **kw):
    """R(V) and the response in time, from the phase of a spiked field."""
    rng = ctx.rng
    c = q.n // 2
    I = np.full(q.n, rng.uniform(.1, .5))
    I[c] += 1.0
    A = np.sqrt(I * q.P) * np.exp(1j * rng.uniform(0, 6))
    # short enough for the phase not to wrap, also with a ringing response
    h = np.abs(ref.to_time(nlse.response(q)).real / q.n).sum()
    q.L = .8 / (q.gamma * q.P * max(1., float(h)))
    po = nlse.run(ctx, q, 1, p=nlse.pulse(q, A), s=s, solver_kw=dict(local_error=le, **kw))[3]
    ctx.close(np.abs(po.AT), np.abs(A), 'response-is-a-pure-phase', rtol=1e-6 + loose)
    ph = np.angle(po.AT * A.conj()) / (q.gamma * q.P * q.L)
    R = ref.to_freq(ph) / ref.to_freq(I)
    return R


def constants(rng):
    f = rng.uniform(0, .9) if rng.random() < .8 else 1 - gen.logu(rng, 1e-3, .1)
    return f, rng.uniform(.005, .04), rng.uniform(.01, .08) if rng.random() < .7 else gen.logu(rng, .08, 8)


def model(ctx):
    """All documented models against their formulae."""
    rng = ctx.rng
    kind = gen.pick(rng, ['off', 'simple', 'lin', 'simple', 'lin', 'frequency'])
    q = base(rng, 'simple' if kind == 'frequency' else kind)
    if kind in ('simple', 'frequency') and rng.random() < .6:
        q.f_R, q.tau1, q.tau2 = constants(rng)
    if q.tw > 1.5 * q.n * q.tau1:            # keep the oscillation sampled
        q.tw = 1.5 * q.n * q.tau1
        q.f0 = max(q.f0, .55 * q.n / q.tw)
        q.wl = ref.C_NMPS / q.f0
        q.g = ref.grids(q.n, q.tw, q.f0)
    ctx.note(kind=kind, n=q.n, tw=q.tw, wl=q.wl, f_R=q.f_R, tau1=q.tau1, tau2=q.tau2)
    V = q.g['V']
    tol = 0.
    if kind == 'frequency':
        # the analytic response is not Hermitian in the one sample at the edge
        # of the grid, which then adds a little gain or loss
        t1, t2 = q.tau1, q.tau2
        H = (t1 ** 2 + t2 ** 2) / (t1 ** 2 + t2 ** 2 - 2j * V * t1 ** 2 * t2 - (t1 * t2 * V) ** 2)
        tol = 4 * q.f_R * abs(H[0].imag)
    with nlse.backend(freq_raman=kind == 'frequency', prefftshift=bool(rng.random() < .7),
                      fftw=bool(rng.random() < .7)):
        R = measure(ctx, q, loose=tol)
    c = q.n // 2
    if q.tw > 50 * max(q.tau2, .08):         # the response has died out in the window
        ctx.close(R[c], 1.0, 'steady-state-is-unity', atol=1e-6 + tol)
    elif q.tau2 < .08 or kind == 'lin':
        ctx.close(R[c], 1.0, 'steady-state-is-unity', atol=.2 + tol)
    if kind == 'frequency':
        want = 1 - q.f_R + q.f_R * H
        ctx.close(R[1:], want[1:], 'documented-response', atol=1e-6 + tol)
        return ctx.event('model frequency')
    want = nlse.response(q)
    ctx.close(R[1:], want[1:], 'documented-response', atol=1e-6)
    if kind == 'off':
        return ctx.event('model off')
    # in time: nothing before the excitation, (1-f_R) at once
    h = ref.to_time(R).real / q.n
    fR = .245 if kind == 'lin' else q.f_R
    ctx.close(h[:c], np.zeros(c), 'causal', atol=1e-6)
    hr = ref.raman_h(kind, q.g['T'], q.tau1, q.tau2)
    inst = h[c] - fR * hr[c] * q.g['dT'] / ref.trapz(hr, q.g['dT'])
    ctx.close(inst, 1 - fR, 'instantaneous-fraction', atol=1e-6)
    ctx.event('model ' + kind)


def switched(ctx):
    """One solver taken through several response models, constants and grids."""
    rng = ctx.rng
    kinds, s = [], None
    n = int(gen.pick(rng, [64, 100, 128, 200]))
    for _ in range(int(rng.integers(2, 5))):
        kind = gen.pick(rng, ['off', 'simple', 'lin', 'simple'])
        q = base(rng, kind, sizes=(n,) if rng.random() < .7 else (64, 100, 128, 200))
        if kind == 'simple':
            if rng.random() < .7:
                q.f_R, q.tau1, q.tau2 = constants(rng)
            else:
                q.f_R, q.tau1, q.tau2 = .18, .0122, .0320
        else:
            q.f_R, q.tau1, q.tau2 = .18, .0122, .0320
        if kinds and rng.random() < .3:
            q.n, q.tw, q.f0, q.wl, q.g = grid
        q.tw = min(q.tw, 1.5 * q.n * q.tau1)
        q.f0 = max(q.f0, .55 * q.n / q.tw)
        q.wl, q.g = ref.C_NMPS / q.f0, ref.grids(q.n, q.tw, q.f0)
        grid = q.n, q.tw, q.f0, q.wl, q.g
        kinds.append(kind)
        ctx.note(kinds=list(kinds), n=q.n, tw=q.tw, wl=q.wl, f_R=q.f_R, tau1=q.tau1, tau2=q.tau2)
        if s is None:
            s = nlse.solver(q, local_error=1e-9)
        else:
            s.disable_Raman, s.USE_SIMPLE_RAMAN = kind == 'off', kind == 'simple'
            s.tau_1, s.tau_2 = q.tau1, q.tau2
            if kind == 'simple':         # the other model brings its own fraction
                s.f_R = q.f_R
        R = measure(ctx, q, s=s)
        ctx.close(R[1:], nlse.response(q)[1:], 'documented-response', atol=1e-6, after=list(kinds))
        ctx.event('responses of a used solver')


def peak(ctx):
    """With silica's default constants the gain peaks near 13 THz."""
    rng = ctx.rng
    kind = gen.pick(rng, ['simple', 'lin', 'frequency'])
    q = base(rng, 'lin' if kind == 'lin' else 'simple', sizes=(512, 1024))
    q.tw = rng.uniform(2., 5.)
    q.f0 = float(rng.uniform(.6, 1.) * q.n / q.tw)
    q.wl = ref.C_NMPS / q.f0
    q.g = ref.grids(q.n, q.tw, q.f0)
    q.f_R, q.tau1, q.tau2 = .18, .0122, .0320
    ctx.note(kind=kind, n=q.n, tw=q.tw)
    from pynlo.interactions.FourWaveMixing import SSFM
    cls = getattr(SSFM, 'SSFM', SSFM)
    with nlse.backend(freq_raman=kind == 'frequency'):
        s = cls(local_error=1e-9, disable_self_steepening=True, USE_SIMPLE_RAMAN=kind == 'simple',
                dz=.8 / (q.gamma * q.P) / 50)
        A = np.full(q.n, .5)
        A[q.n // 2] += 1.
        q.L = .8 / (q.gamma * q.P)
        po = nlse.run(ctx, q, 1, p=nlse.pulse(q, np.sqrt(A * q.P)), s=s)[3]
    R = ref.to_freq(np.angle(po.AT)) / ref.to_freq(A) / (q.gamma * q.P * q.L)
    g = -R.imag[1:q.n // 2]                  # red side
    f = -q.g['V'][1:q.n // 2] / (2 * np.pi)
    k = int(np.argmax(g))
    ctx.check(12.0 < f[k] < 14.2, 'raman-peak', at=float(f[k]))
    ctx.leq(.12, g[k], 'raman-strength')
    ctx.leq(g[k], .4, 'raman-strength')
    ctx.check(bool(np.all(g[(f > 3) & (f < 18)] > 0)), 'gain-on-the-red-side')
    ctx.event('peaks ' + kind)


def stokes(ctx):
    """Red and blue sidebands of a continuous wave grow and decay as the linear
    analysis of the equation with the documented response says."""
    rng = ctx.rng
    kind = gen.pick(rng, ['simple', 'lin'])
    q = base(rng, kind, sizes=(64, 128))
    q.tw = rng.uniform(.3, 2.)
    q.f0 = float(rng.uniform(.6, 1.) * q.n / q.tw)
    q.wl = ref.C_NMPS / q.f0
    q.g = ref.grids(q.n, q.tw, q.f0)
    m = int(gen.sgn(rng) * rng.integers(1, 9))
    Om = q.g['V'][q.n // 2 + m]
    P = q.P
    x = rng.uniform(.3, 3) * gen.sgn(rng)
    b2 = 2 * x * q.gamma * P / Om ** 2
    q.betas, q.L = [b2], rng.uniform(.5, 2.5) / (q.gamma * P)
    e = 1e-4
    q.A = np.sqrt(P) * (1 + e * np.exp(-1j * Om * q.g['T']))
    ctx.note(kind=kind, m=m, THz=Om / 6.283, x=x, f_R=q.f_R, tau1=q.tau1, tau2=q.tau2, L=q.L)
    s = nlse.solver(q, local_error=1e-8)
    S = nlse.run(ctx, q, 1, p=nlse.pulse(q), s=s)[3].AW
    c = q.n // 2
    R = nlse.response(q)[c + m]
    k, g = .5 * b2 * Om ** 2, q.gamma * P * R
    w = np.sqrt(complex(k * (k + 2 * g)))
    u = np.cos(w * q.L) + 1j * (k + g) * np.sin(w * q.L) / w
    v = 1j * g * np.sin(w * q.L) / w
    sc = max(abs(u), abs(v)) * e * np.sqrt(P)
    ctx.close(abs(S[c + m]), e * np.sqrt(P) * abs(u), 'sideband-growth', rtol=1e-4, scale=sc)
    ctx.close(abs(S[c - m]), e * np.sqrt(P) * abs(v), 'idler-growth', rtol=1e-4, scale=sc)
    ctx.event('stokes' if m < 0 else 'anti-stokes')


STRATA = [('model', model, 5), ('switched', switched, 2), ('peak', peak, 1), ('stokes', stokes, 2)]
