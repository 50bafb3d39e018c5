"""C10 added noise has the documented statistics and touches nothing else."""
import numpy as np

from mon import gen, ref

RULE = ('random pulses, both noise models, many draws each; normalised noise of '
        'all bins pooled, moments and correlations compared at 7 sigma.')
QUICK, THOROUGH = 1600, 20000
MIN_CHECKS = 7900
BUDGET = 2_000_000
FILES = ['src/pynlo/light/PulseBase.py']
ASSUMPTIONS = ['statistical clauses use 7 standard errors of the stated model']


def sigma(kind, AW, F_Hz, dF_Hz):
    hv = ref.H * np.abs(F_Hz)
    if kind == 'one_photon_freq':
        return hv * dF_Hz
    photons = np.where(F_Hz > 0, np.abs(AW) ** 2 / dF_Hz / hv, 0)
    return np.sqrt(photons) * hv * dF_Hz


def draws(p, kind, m, default=False):
    S0 = p.AW
    out = np.empty((m, len(S0)), complex)
    for i in range(m):
        q = p.create_cloned_pulse()
        q.set_AW(S0)
        q.add_noise() if default else q.add_noise(kind)
        out[i] = q.AW - S0
    return out


def pulse(rng, flat=False):
    """A pulse weak enough for its noise not to drown in double precision."""
    n, tw, wl = gen.grid(rng, [16, 32, 64, 100], tw_lo=.3, positive=rng.random() < .7)
    f0 = ref.C_NMPS / wl
    while np.min(np.abs(ref.grids(n, tw, f0)['F'])) < 1e-3 / tw:
        tw *= 1.013
    p = gen.bare_pulse(rng, n, tw, wl)
    i = np.arange(n)
    a = np.exp(-.5 * ((i - n / 2) / (n * rng.uniform(.1, .4))) ** 2) + .01
    S = a * np.exp(1j * rng.uniform(0, 6.28, n))
    # noise ~ hv dF (1 photon) or sqrt(|A|^2 hv dF): choose |A| comparable
    ph = ref.H * f0 * 1e12 * 1e12 / tw
    return p, n, tw, wl, S, ph


def statistics(ctx):
    rng = ctx.rng
    kind = gen.pick(rng, ['sqrt_N_freq', 'one_photon_freq'])
    p, n, tw, wl, S, ph = pulse(rng)
    if kind == 'one_photon_freq':
        S = S * ph * 10 ** rng.uniform(-2, 4)
    else:
        S = S * ph * 10 ** (rng.uniform(-2, 6) if rng.random() < .8 else rng.uniform(6, 10))
    p.set_AW(S)
    S = p.AW
    m = max(8, 4000 // n)
    default = kind == 'sqrt_N_freq' and rng.random() < .5
    ctx.note(kind=kind, n=n, tw=tw, wl=wl, draws=m, default=default)
    N = draws(p, kind, m, default)
    ctx.close(p.AW, S, 'source-unchanged', rtol=1e-12)
    s = sigma(kind, S, p.F_mks, 1e12 / tw)
    use = s > 1e-9 * np.abs(S)
    if kind == 'sqrt_N_freq':
        dead = p.F_mks < 0
        # only the rounding of add-then-subtract is left there
        ctx.close(N[:, dead], np.zeros((m, int(dead.sum()))), 'no-photons-no-noise',
                  atol=1e-12 * float(np.max(np.abs(S))))
        use &= ~dead
    if use.sum() < 4:
        return
    z = N[:, use] / s[use]
    M = z.size
    t = 7 / np.sqrt(M)
    ctx.leq(abs(np.mean(np.abs(z) ** 2) - 1), t * np.sqrt(2) + 1e-3, 'noise-power')
    ctx.leq(abs(np.mean(z)), t, 'noise-mean')
    ctx.leq(abs(np.mean(z ** 2)), t * np.sqrt(3), 'noise-phase-uniform')
    u = np.exp(1j * np.angle(z))
    ctx.leq(abs(np.mean(u)), t, 'noise-phase-uniform')
    ctx.leq(abs(np.mean(u ** 4)), t, 'noise-phase-uniform')
    ctx.leq(abs(np.mean(z[:, 1:] * z[:, :-1].conj())), 7 / np.sqrt(z[:, 1:].size), 'bins-independent')
    ctx.leq(abs(np.mean(z[1:] * z[:-1].conj())), 7 / np.sqrt(z[1:].size), 'draws-independent')
    ctx.check(np.std(np.abs(z)) > .2, 'noise-amplitude-random', std=np.std(np.abs(z)))
    # power per bin: no bin is favoured
    b = np.mean(np.abs(z) ** 2, axis=0)
    ctx.leq(float(np.max(b)), 1 + 12 * np.sqrt(2. / m) + 40. / m, 'noise-power-per-bin')
    if m >= 60:
        ctx.check(float(np.min(b)) > .05, 'noise-power-per-bin', least=float(np.min(b)))
    ctx.event('noise samples', M)


def joint(ctx):
    """Few bins, many draws: phases and amplitudes of different bins share
    nothing, in any harmonic and also not through their order."""
    rng = ctx.rng
    kind = gen.pick(rng, ['sqrt_N_freq', 'one_photon_freq'])
    n = gen.pick(rng, [2, 4, 6, 8])
    tw = gen.logu(rng, .3, 50)
    p = gen.bare_pulse(rng, n, tw, float(rng.uniform(400, 1500)))
    S = ref.H * 1e24 * p.center_frequency_THz / tw * 10 ** rng.uniform(-1, 2) * np.exp(6j * rng.random(n))
    p.set_AW(S)
    S = p.AW
    m = 500
    ctx.note(kind=kind, n=n)
    z = draws(p, kind, m) / sigma(kind, S, p.F_mks, 1e12 / tw)
    i = int(rng.integers(n))
    j = (i + int(rng.integers(1, n))) % n
    d = np.exp(1j * (np.angle(z[:, i]) - np.angle(z[:, j])))
    s = np.exp(1j * (np.angle(z[:, i]) + np.angle(z[:, j])))
    t = 7 / np.sqrt(m)
    for k in range(1, 9):
        ctx.leq(abs(np.mean(d ** k)), t, 'bin-phases-independent', harmonic=k)
        ctx.leq(abs(np.mean(s ** k)), t, 'bin-phases-independent', harmonic=k)
    # normalised amplitudes: |z| of a half normal, rank correlated with nothing
    r = np.abs(z).argsort(0).argsort(0) / (m - 1.) - .5
    ph = np.angle(z).argsort(0).argsort(0) / (m - 1.) - .5
    for a, b, what in ((r[:, i], r[:, j], 'amplitudes'), (ph[:, i], r[:, j], 'phase and amplitude'),
                       (ph[:, i], r[:, i], 'phase and amplitude'), (r[1:, i], r[:-1, i], 'draws'),
                       (ph[1:, i], ph[:-1, i], 'draws')):
        ctx.leq(abs(np.mean(a * b)) * 12, 7 / np.sqrt(m), 'bin-amplitudes-independent', what=what)
    ctx.event('joint draws', m)


def empty(ctx):
    """No light, no sqrt(N) noise; the one-photon model still adds some."""
    rng = ctx.rng
    p, n, tw, wl, S, ph = pulse(rng)
    dark = rng.random(n) < .5
    S = np.where(dark, 0, S * ph * 100)
    p.set_AW(S)
    ctx.note(n=n, dark=int(dark.sum()))
    p.add_noise('sqrt_N_freq')
    ctx.check(not np.any(p.AW[dark]), 'no-photons-no-noise')
    if np.any(~dark & (p.F_mks > 0)):
        ctx.check(np.any(p.AW != S), 'noise-present')
    p.set_AW(S)
    p.add_noise('one_photon_freq')
    ctx.check(np.all(p.AW != S), 'noise-present')
    ctx.event('dark bins', int(dark.sum()))


def scaling(ctx):
    """Same random stream: noise scales with the field or not at all."""
    rng = ctx.rng
    p, n, tw, wl, S, ph = pulse(rng)
    S = S * ph * 30
    k = float(rng.uniform(2, 9))
    seed = int(rng.integers(2 ** 31))
    got = {}
    for kind in ('sqrt_N_freq', 'one_photon_freq'):
        for f in (1., k):
            p.set_AW(S * f)
            np.random.seed(seed)
            p.add_noise(kind)
            got[kind, f] = p.AW - S * f
    ctx.note(n=n, k=k)
    ctx.close(got['sqrt_N_freq', k], k * got['sqrt_N_freq', 1.], 'shot-noise-scaling', rtol=1e-7)
    ctx.close(got['one_photon_freq', k], got['one_photon_freq', 1.], 'one-photon-field-blind', rtol=1e-7)
    # reproducible from numpy's seed, different without it
    p.set_AW(S)
    np.random.seed(seed)
    p.add_noise('one_photon_freq')
    a = p.AW
    p.set_AW(S)
    p.add_noise('one_photon_freq')
    b = p.AW
    p.set_AW(S)
    np.random.seed(seed)
    p.add_noise('one_photon_freq')
    ctx.close(p.AW, a, 'seeded-reproducible', rtol=1e-13)
    ctx.check(np.all(a != b), 'unseeded-fresh')
    ctx.event('seeded pairs')


def kept(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, frep=gen.logu(rng, .01, 1e4))
    g = gen.model_of(p)
    S = p.AW
    frep = p.frep_MHz
    ctx.note(**info)
    ctx.raises(ValueError, 'unknown-noise-refused', p.add_noise,
               gen.pick(rng, ['', 'sqrt_N', 'one_photon', 'SQRT_N_FREQ']))
    ctx.close(p.AW, S, 'refused-leaves-pulse', rtol=0)
    p.add_noise(gen.pick(rng, ['sqrt_N_freq', 'one_photon_freq']))
    ctx.close(p.W_THz, g['W'], 'grid-kept', rtol=1e-11)
    ctx.check(p.NPTS == info['n'] and p.frep_MHz == frep, 'grid-kept')
    # classical fields are hardly touched
    s = np.maximum(sigma('sqrt_N_freq', S, p.F_mks, 1e12 / info['tw']),
                   sigma('one_photon_freq', S, p.F_mks, 1e12 / info['tw']))
    ctx.check(np.all(np.abs(p.AW - S) <= 12 * s + 1e-13 * np.max(np.abs(S))), 'noise-bounded')
    ctx.event('classical pulses')


STRATA = [('statistics', statistics, 4), ('joint', joint, 1), ('empty', empty, 1), ('scaling', scaling, 1), ('kept', kept, 1)]
