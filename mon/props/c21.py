"""C21 amplifier runs deliver the power that was asked for."""
import numpy as np

from mon import fib, gen, nlse, ref

RULE = ('random pulses in gain fibres with random gain spectra, nonlinearity and '
        'target powers; the average power of the returned pulse is compared with '
        'the goal and the returned scale factor is replayed.')
QUICK, THOROUGH = 500, 6000
MIN_CHECKS = 1000
BUDGET = 1_200_000
FILES = ['src/pynlo/interactions/FourWaveMixing/SSFM.py', 'src/pynlo/media/fibers/fiber.py']


def avg(AT, q):
    return ref.trapz(np.abs(AT) ** 2, q.tw / q.n * 1e-12) * q.frep * 1e6


def amp(ctx, nl, n_sizes=(64, 128, 256), width=(2.5, 6)):
    rng = ctx.rng
    q = nlse.problem(rng, sizes=n_sizes, gain=0.0, nl=True, kind=gen.pick(rng, ['sech', 'gauss', 'chirped']),
                     shock=False if rng.random() < .7 else True)
    q.P = gen.logu(rng, 1, 1e4)
    q.A = q.A * np.sqrt(q.P / np.max(np.abs(q.A)) ** 2)
    q.L = gen.logu(rng, .1, 5) if rng.random() < .7 else gen.logu(rng, 1e-2, 2e3)
    q.pin = avg(q.A, q)
    q.goal = q.pin * 10 ** rng.uniform(-.3 if rng.random() < .2 else .1, 1.5)
    # peak nonlinear phase about nl radians at the output
    q.gamma = nl * q.pin / q.goal / (q.P * q.L) if nl else 0.
    # the pulse must fit well inside the gain table, the grid need not
    bw = 1 / (2 * np.pi * q.T0) * 4
    half = rng.uniform(*width) * bw
    half = min(half, .9 * q.f0)
    b2 = gen.sgn(rng) * rng.uniform(0, .5) * q.T0 ** 2 / q.L * 1e3
    q.f, q.nu, q.y = fib.amplifier(rng, q.f0, half, q.wl, q.L, ctx.index, gamma=q.gamma, betas=[b2])
    ctx.note(n=q.n, tw=q.tw, wl=q.wl, T0=q.T0, L=q.L, gamma=q.gamma, frep=q.frep, pin=q.pin, goal=q.goal,
             raman=q.raman, b2_km=b2, phase=nl)
    return q


def linear(ctx):
    """A linear amplifier reaches the requested output power directly."""
    rng = ctx.rng
    q = amp(ctx, 0.)
    k = int(rng.integers(1, 4))
    p = nlse.pulse(q)
    S = ref.to_freq(q.A)
    z, AW, AT, po = nlse.run(ctx, q, k, p=p, f=q.f, output_power=q.goal)
    ctx.close(avg(po.AT, q), q.goal, 'output-power', rtol=1e-4)
    ctx.close(po.calc_epp() * po.frep_mks, q.goal, 'output-power', rtol=1e-4)
    ctx.close(p.AT, q.A, 'pulse-unchanged', rtol=1e-12)
    # the gain is spread evenly over the length, with the shape of the table
    from scipy.interpolate import CubicSpline
    F = q.g['F']
    ins = (F > q.nu[0]) & (F < q.nu[-1])
    g = np.where(ins, CubicSpline(q.nu, q.y)(F), 0)
    with np.errstate(all='ignore'):
        gl = 2 * np.log(np.abs(po.AW) / np.abs(S))
    use = ins & (np.abs(S) > 1e-5 * np.max(np.abs(S)))
    s = np.dot(gl[use], g[use]) / np.dot(g[use], g[use])
    ctx.close(gl[use], s * g[use], 'gain-shape', rtol=1e-5, scale=max(abs(s), 1e-3))
    for i in range(k):
        ctx.close(np.abs(AW[:, i]), np.abs(S) * np.exp(s * g * (i + 1) / k / 2), 'gain-along-fibre', rtol=1e-5)
    # outside the table there is no gain at all
    out = ~((F > q.nu[0] * .999) & (F < q.nu[-1] * 1.001)) & (np.abs(S) > 1e-6 * np.max(np.abs(S)))
    if out.any():
        ctx.close(np.abs(po.AW[out]), np.abs(S[out]), 'no-gain-outside-table', rtol=1e-6)
    ctx.event('linear amplifiers')


def goal(ctx):
    """The search ends within its tolerance and its answer can be replayed."""
    rng = ctx.rng
    hard = bool(rng.random() < .35)
    if hard:
        # the spectrum outgrows the gain band: one rescaling is not enough
        q = amp(ctx, float(rng.uniform(2, 7)), n_sizes=(128, 256), width=(.6, 1.6))
        tol, le = gen.logu(rng, 3e-6, 5e-3), 1e-8
    else:
        q = amp(ctx, float(rng.choice([0., rng.uniform(0, 2.)])))
        tol, le = gen.logu(rng, 5e-3, .2), 1e-6
    k = int(rng.integers(1, 4))
    guess = None if rng.random() < .5 else rng.uniform(.6, 1.6)
    ctx.note(tol=tol, guess=guess, steps=k)
    p = nlse.pulse(q)
    s = nlse.solver(q, local_error=le)
    calls, inner = [], s.propagate

    def counted(*a, **b):
        calls.append(1)
        return inner(*a, **b)
    s.propagate = counted
    kw = dict(power_goal=q.goal, powertol=tol)
    if guess is not None:
        kw['scalefactor_guess'] = guess
    out = ctx.call(s.propagate_to_gain_goal, p, q.f, k, **kw)
    (z, AW, AT, po), scale = out
    ctx.need(AT.shape == (q.n, k), 'goal-output-shape', got=AT.shape)
    ctx.close(z, np.linspace(0, q.L, k + 1), 'positions', rtol=1e-12)
    P = po.calc_epp() * po.frep_mks
    ctx.leq(abs(P - q.goal) / q.goal, tol * 1.02 + 100 * le, 'power-goal')
    ctx.leq(abs(avg(AT[:, -1], q) - q.goal) / q.goal, tol * 1.02 + 200 * le, 'power-goal')
    ctx.close(p.AT, q.A, 'pulse-unchanged', rtol=1e-12)
    ctx.close(po.frep_mks, q.frep * 1e6, 'output-grid', rtol=1e-12)
    # replay
    again = nlse.run(ctx, q, 1, p=p, f=q.f, s=nlse.solver(q, local_error=le), output_power=float(scale) * q.goal)[3]
    ctx.close(again.AT, po.AT, 'scale-replays', rtol=1e-3)
    if guess is not None:
        first = nlse.run(ctx, q, 1, p=p, f=q.f, s=nlse.solver(q, local_error=le), output_power=guess * q.goal)[3]
        e = abs(first.calc_epp() * first.frep_mks - q.goal) / q.goal
        if e < tol * .98:
            ctx.close(scale, guess, 'good-guess-kept', rtol=1e-12)
            ctx.event('guess was good')
        elif e > tol * 1.02:
            ctx.check(scale != guess, 'bad-guess-revised')
            ctx.event('guess revised')
    # feeding the answer back is accepted at once
    (z, AW, AT, po2), scale2 = ctx.call(nlse.solver(q, local_error=le).propagate_to_gain_goal, p, q.f, 1,
                                        power_goal=q.goal, scalefactor_guess=scale, powertol=tol * 1.05 + 100 * le)
    ctx.close(scale2, scale, 'answer-is-a-fixed-point', rtol=1e-12)
    ctx.event('gain goals')
    ctx.event('goals met after %s runs' % (len(calls) if len(calls) < 6 else '6 or more'))


def coherent(ctx):
    """The requested power reaches the amplifier inside coherence runs too."""
    rng = ctx.rng
    q = amp(ctx, 0., n_sizes=(64,))
    t = int(rng.integers(2, 4))
    p = nlse.pulse(q)
    g, res = ctx.call(nlse.solver(q).calculate_coherence, p, q.f, num_trials=t, random_seed=3, n_steps=1,
                      noise_type='one_photon_freq', output_power=q.goal)
    for x in res:
        ctx.close(avg(x[-1].AT, q), q.goal, 'output-power', rtol=1e-3)
    ctx.event('amplified trials', t)


STRATA = [('linear', linear, 2), ('goal', goal, 4), ('coherent', coherent, 1)]
