"""C20 the coherence is the documented statistic over independent noisy runs."""
import numpy as np

from mon import gen, nlse, ref

RULE = ('random pulses, fibres, numbers of trials and noise models; the returned '
        'coherence is recomputed from the returned trials, the trials are '
        'compared with each other and with undisturbed propagation, and repeated '
        'under the same and other seeds.')
QUICK, THOROUGH = 800, 12000
MIN_CHECKS = 2500
BUDGET = 6_000_000
FILES = ['src/pynlo/interactions/FourWaveMixing/SSFM.py', 'src/pynlo/light/PulseBase.py']
ASSUMPTIONS = ['statistical clauses use 7 standard errors of the stated model']


def coherence(ctx, q, p=None, f=None, s=None, **kw):
    s = nlse.solver(q, local_error=1e-6) if s is None else s
    p = nlse.pulse(q) if p is None else p
    f = nlse.fiber(q) if f is None else f
    g, res = ctx.call(s.calculate_coherence, p, f, **kw)
    ctx.event('trials', len(res))
    return np.asarray(g), res


def formula(cols):
    """|mean over ordered pairs of E1* E2 / |E1||E2| |"""
    acc, m = 0, 0
    for i, a in enumerate(cols):
        for j, b in enumerate(cols):
            if i != j:
                acc = acc + np.conj(a) * b / np.abs(a) / np.abs(b)
                m += 1
    return np.abs(acc / m)


def weak(rng, q, lo=-4, hi=8):
    """Scale the pulse so that its noise matters, but not its nonlinearity."""
    ph = ref.H * q.f0 * 1e12 * 1e12 / q.tw
    S = np.exp(-.5 * ((np.arange(q.n) - q.n / 2) / (q.n * rng.uniform(.05, .3))) ** 2) + 1e-3
    S = S * np.exp(1j * rng.normal() * 3 * np.linspace(-1, 1, q.n) ** 2)
    q.shock = False             # full-band noise has no resolved derivative
    r = 10 ** rng.uniform(lo, hi)
    q.A = ref.to_time(S * ph * r)
    q.amp = np.max(np.abs(q.A)) + 5 * ph * q.n ** .5     # with its noise
    return r


def definition(ctx):
    """g12 is the stated average of the returned trials, whatever they are."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(32, 64, 100, 128), nmax=3.)
    r = None
    if rng.random() < .5:
        r = weak(rng, q)
        q.gamma = q.N2 / (q.amp ** 2 * q.L)
    t, k = int(rng.integers(2, 6)), int(rng.integers(1, 5))
    kind = gen.pick(rng, ['one_photon_freq', 'sqrt_N_freq'])
    ctx.note(trials=t, steps=k, noise=kind, photons=r, **nlse.info(q))
    p = nlse.pulse(q)
    keep = p.AT.copy()
    if r is None and kind == 'sqrt_N_freq':
        kind = 'one_photon_freq'
    g, res = coherence(ctx, q, p=p, num_trials=t, n_steps=k, noise_type=kind, random_seed=ctx.index)
    ctx.need(len(res) == t, 'one-result-per-trial', got=len(res))
    ctx.need(g.shape == (q.n, k), 'coherence-shape', got=g.shape)
    for x in res:
        z, AW, AT = x[0], x[1], x[2]
        ctx.close(z, np.linspace(0, q.L, k + 1), 'trial-positions', rtol=1e-12)
        ctx.need(AW.shape == (q.n, k) and AT.shape == (q.n, k), 'trial-shape')
        ctx.close(AW, ref.to_freq(AT.T).T, 'trial-fourier-pair', rtol=1e-5)
        ctx.close(x[-1].AT, AT[:, -1], 'trial-output-pulse', rtol=1e-6)
    cols = [np.asarray(x[1], complex) for x in res]
    if min(np.min(np.abs(c)) for c in cols) > 1e-30:
        ctx.close(g, formula(cols), 'coherence-definition', atol=1e-4)
    ctx.check(bool(np.all(g > -1e-6) and np.all(g < 1 + 1e-5)), 'coherence-range', low=float(g.min()), high=float(g.max()))
    for i in range(t):
        for j in range(i):
            ctx.check(not np.array_equal(res[i][2], res[j][2]) or r is None, 'trials-differ')
    ctx.close(p.AT, keep, 'pulse-unchanged', rtol=0)
    ctx.event('coherences')


def linear(ctx):
    """In a linear fibre each trial is the pulse plus fresh noise of the chosen
    kind, and the coherence does not change along the fibre."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(128, 200, 256), nl=False, gain=0.0)
    r = weak(rng, q, -1, 4)
    kind = gen.pick(rng, ['one_photon_freq', 'sqrt_N_freq', None])
    t = int(rng.integers(3, 8)) if rng.random() < .9 else int(rng.integers(8, 40))
    k = int(rng.integers(1, 4))
    ctx.note(trials=t, noise=kind, photons=r, **nlse.info(q))
    kw = dict(noise_type=kind) if kind else {}
    p = nlse.pulse(q)
    np.random.seed(ctx.index)
    g, res = coherence(ctx, q, p=p, num_trials=t, n_steps=k, **kw)
    for i in range(1, k):
        ctx.close(g[:, i], g[:, 0], 'linear-coherence-constant', atol=1e-4)
    S0 = ref.to_freq(q.A)
    back = np.exp(-1j * nlse.beta_of(q) * q.L)
    N = np.array([x[-1].AW * back - S0 for x in res])
    F, dF = q.g['F'] * 1e12, 1e12 / q.tw
    hv = ref.H * F
    s = hv * dF if kind != 'sqrt_N_freq' else np.sqrt(np.abs(S0) ** 2 / dF / hv) * hv * dF
    use = s > 1e-6 * np.abs(S0).max()
    m = int(use.sum())
    if m < 64:
        return ctx.event('noise below rounding')
    X = N[:, use] / s[use]
    v = np.mean(np.abs(X) ** 2)
    ctx.close(v, 1.0, 'noise-strength', atol=7 * np.sqrt(2. / (m * t)))
    for i in range(t):
        for j in range(i):
            c = abs(np.mean(X[i] * X[j].conj()))
            ctx.leq(c, 7 / np.sqrt(m), 'trials-independent')
    ctx.event('noisy trials', t)


def seeds(ctx):
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(32, 64, 100))
    weak(rng, q, -2, 3)
    q.gamma = q.N2 / (q.amp ** 2 * q.L)
    t, k = int(rng.integers(2, 5)), int(rng.integers(1, 3))
    a, b = (int(x) for x in rng.choice(10000, 2, replace=False))
    if rng.random() < .3:
        a = 0
    kind = gen.pick(rng, ['one_photon_freq', 'sqrt_N_freq'])
    ctx.note(seeds=[a, b], trials=t, steps=k, noise=kind, **nlse.info(q))
    kw = dict(num_trials=t, n_steps=k, noise_type=kind)
    p = nlse.pulse(q)
    g1, r1 = coherence(ctx, q, p=p, random_seed=a, **kw)
    np.random.random(int(rng.integers(1, 50)))
    g2, r2 = coherence(ctx, q, p=p, random_seed=a, **kw)
    g3, r3 = coherence(ctx, q, p=p, random_seed=b, **kw)
    ctx.check(np.array_equal(g1, g2), 'same-seed-same-result')
    for x, y in zip(r1, r2):
        ctx.check(np.array_equal(x[1], y[1]) and np.array_equal(x[2], y[2]), 'same-seed-same-trials')
    for x, y in zip(r1, r3):
        ctx.check(not np.array_equal(x[2], y[2]), 'other-seed-other-trials')
    g4, r4 = coherence(ctx, q, p=p, **kw)
    g5, r5 = coherence(ctx, q, p=p, **kw)
    ctx.check(not np.array_equal(r4[0][2], r5[0][2]), 'unseeded-runs-differ')
    ctx.event('seed comparisons')


def limits(ctx):
    """Noise far below the signal leaves it coherent and every trial close to the
    noiseless run, also in fibres that change along z; bins holding nothing but
    noise lose coherence."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(64, 128), gain=0.0)
    k, t = int(rng.integers(1, 5)), int(rng.integers(2, 5))
    f = nlse.fiber(q)
    reload_ = bool(rng.random() < .6)
    if reload_:
        a, b = rng.uniform(.4, 1.4), rng.uniform(-.6, 1.) / q.L
        f.set_gamma_function(lambda z: q.gamma * (a + b * z))
    ctx.note(trials=t, steps=k, reload=reload_, **nlse.info(q))
    kw = dict(reload_fiber_each_step=reload_)
    s = nlse.solver(q, local_error=1e-6)
    g, res = coherence(ctx, q, f=f, s=s, num_trials=t, n_steps=k, random_seed=1, noise_type='one_photon_freq', **kw)
    base = nlse.run(ctx, q, k, f=f, solver_kw=dict(local_error=1e-6), **kw)
    top = np.max(np.abs(base[1]), axis=0)
    noise = ref.H * q.f0 * 1e12 * 1e12 / q.tw
    if noise > 1e-4 * top.min():
        return ctx.event('noise not negligible')
    for x in res:
        ctx.close(x[2], base[2], 'weak-noise-trial', rtol=2e-3)
    strong = np.abs(base[1]) > .03 * top
    ctx.check(bool(np.all(g[strong] > .99)), 'strong-signal-coherent', low=float(g[strong].min()))
    ctx.event('coherent limits reload %s' % reload_)


def dark(ctx):
    """Bins that hold only noise average to incoherence."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(256,), nl=False, gain=0.0)
    q.A = np.zeros(q.n) + 0j
    t = int(rng.integers(4, 9))
    ctx.note(trials=t, **nlse.info(q))
    g, res = coherence(ctx, q, num_trials=t, n_steps=1, noise_type='one_photon_freq', random_seed=ctx.index)
    # with N random phases the ordered-pair mean is (|sum|^2 - N)/(N(N-1))
    ctx.leq(np.mean(g), 1.6 / (t - 1), 'noise-is-incoherent')
    ctx.event('dark spectra')


STRATA = [('definition', definition, 3), ('linear', linear, 2), ('seeds', seeds, 1),
          ('limits', limits, 2), ('dark', dark, 1)]
