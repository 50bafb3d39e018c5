"""C15 without nonlinearity every colour just gets its own phase and gain."""
import numpy as np

from mon import gen, nlse, ref

RULE = ('random pulses (smooth and noisy) through random linear fibres in all '
        'solver configurations and output spacings; every output column and the '
        'output pulse compared with exp((i beta + g/2) z).')
QUICK, THOROUGH = 2000, 25000
MIN_CHECKS = 6000
BUDGET = 3_000_000
FILES = ['src/pynlo/interactions/FourWaveMixing/SSFM.py', 'src/pynlo/media/fibers/fiber.py']


def setup(rng):
    q = nlse.problem(rng, sizes=(32, 64, 100, 128, 256, 512), nl=False)
    A, q.kind = gen.field(rng, q.n, q.tw)
    q.A = A
    q.gain = 0.0 if rng.random() < .4 else float(rng.normal() / q.L)
    if rng.random() < .25:              # pieces of nanometres to links of megametres
        r = gen.logu(rng, 1e-9, 1e6) / q.L
        q.L, q.betas, q.gain = q.L * r, [b / r for b in q.betas], q.gain / r
    return q


def kwargs(rng, q):
    return dict(local_error=gen.logu(rng, 1e-8, 1e-1), dz=(q.L or 1.) * gen.logu(rng, 1e-3, 10),
                f_R=.18)


def columns(ctx, q, S, out, steps, beta, gain_at=None):
    z, AW, AT, po = out
    ctx.need(np.shape(AW) == (q.n, steps) and np.shape(AT) == (q.n, steps), 'output-shape',
             got=[np.shape(AW), np.shape(AT)])
    ctx.close(z, np.linspace(0, q.L, steps + 1), 'z-axis', rtol=1e-12)
    for i in range(steps):
        W = S * np.exp((1j * beta + q.gain / 2) * z[i + 1])
        ctx.close(AW[:, i], W, 'column-spectrum', rtol=3e-6, step=i)
        ctx.close(AT[:, i], ref.to_time(W), 'column-field', rtol=3e-6, step=i)
    W = S * np.exp((1j * beta + q.gain / 2) * q.L)
    tol = 3e-9 + nlse.rounding(q)
    ctx.close(po.AW, W, 'linear-output', rtol=tol)
    ctx.close(po.AT, ref.to_time(W), 'linear-output', rtol=tol)


def taylor(ctx):
    rng = ctx.rng
    q = setup(rng)
    if rng.random() < .03:
        q.L = 0.0                       # no fibre at all
    steps = int(rng.integers(1, 7))
    kw = kwargs(rng, q)
    ctx.note(steps=steps, **nlse.info(q), **kw)
    p = nlse.pulse(q)
    out = nlse.run(ctx, q, gen.as_int(rng, steps), p=p, solver_kw=kw)
    columns(ctx, q, ref.to_freq(q.A), out, steps, nlse.beta_of(q))
    ctx.close(np.abs(out[3].AW), np.abs(ref.to_freq(q.A)) * np.exp(q.gain * q.L / 2), 'spectrum-shape-kept', rtol=1e-9)
    ctx.event('columns', steps)


def table(ctx):
    """Dispersion from an index or D table reaches the solver unchanged."""
    from mon import fib
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    while True:
        q = nlse.problem(rng, sizes=(64, 100, 128), nl=False, T0=rng.uniform(.2, 1), raman='off')
        if q.g['wl'].min() > .6 * q.wl and q.g['wl'].max() < 1.6 * q.wl and q.g['wl'].max() < 4500:
            break
    nf, par = fib.sellmeier(rng)
    x = np.linspace(q.g['wl'].min() * .97, q.g['wl'].max() * 1.03, 500)
    f = FiberInstance()
    q.gain = 0.0
    if rng.random() < .5:
        f.generate_fiber(q.L, q.wl, [0.], 0.)
        y = nf(x * 1e-3)
        f.set_dispersion_function(lambda z: (x, y), 'n')
        B = f.get_betas(nlse.pulse(q))
    else:
        order = int(rng.integers(1, 4))
        y = fib.table_values(rng, x)
        f.generate_fiber(q.L, q.wl, [0.], 0.)
        f.poly_order = order
        f.set_dispersion_function(lambda z: (x, y), 'D')
        b, _, _ = fib.fit_beta2(q.wl, x, y, order)
        B = ref.taylor_beta(b, q.g['V'])
    q.L = f.length = float(20. / max(np.max(np.abs(B)), 1e-9))
    ctx.note(**nlse.info(q))
    out = nlse.run(ctx, q, 2, f=f, solver_kw=kwargs(rng, q))
    ctx.close(out[3].AW, ref.to_freq(q.A) * np.exp(1j * B * q.L), 'table-output', rtol=1e-6)
    ctx.event('table fibres')


def graded(ctx):
    """Dispersion that changes along z, one value per output step."""
    rng = ctx.rng
    q = setup(rng)
    q.gain = 0.0
    steps = int(rng.integers(1, 6))
    a, b = rng.uniform(.3, 1.5), rng.uniform(-2, 2) / q.L
    f = nlse.fiber(q)
    f.set_dispersion_function(lambda z: [x * (a + b * z) for x in nlse.about(q, q.betas)])
    reload_ = bool(rng.random() < .7)
    ctx.note(steps=steps, reload=reload_, **nlse.info(q))
    z, AW, AT, po = nlse.run(ctx, q, steps, f=f, reload_fiber_each_step=reload_)
    S = ref.to_freq(q.A)
    beta = nlse.beta_of(q)
    for i in range(steps):
        zi = i * q.L / steps if reload_ else 0.0
        S = S * np.exp(1j * beta * (a + b * zi) * q.L / steps)
        ctx.close(AW[:, i], S, 'graded-column', rtol=3e-6)
    ctx.close(po.AW, S, 'graded-output', rtol=1e-9 + 3 * nlse.rounding(q))
    ctx.event('graded fibres')


def amplifier(ctx):
    """A gain that depends on the optical frequency reaches every bin as the
    fibre states it, also with dispersion and after several saved steps."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(32, 64, 100, 128, 256), nl=False)
    x = np.arange(q.n) - q.n / 2
    q.A = ref.to_time(np.exp(-.5 * (x / (q.n * rng.uniform(.03, .12))) ** 2) * gen.logu(rng, 1e-3, 10))
    q.gain = 0.0
    f = nlse.fiber(q)
    half = q.n / q.tw / 2
    nu = q.f0 + half * np.linspace(-1, 1, int(rng.integers(6, 40))) * rng.uniform(.5, 1.3)
    nu = nu[nu > .05 * q.f0]
    if len(nu) < 6:
        return
    y = np.exp(-.5 * ((nu - q.f0 - rng.normal() * half * .3) / (half * rng.uniform(.2, 1.))) ** 2) + .05
    f.fiberspecs.update(is_gain=True, gain_x_units='m', gain_x_data=(ref.C / (nu[::-1] * 1e12)).tolist(),
                        gain_y_data=y[::-1].tolist())
    p = nlse.pulse(q)
    S = ref.to_freq(q.A)
    P = p.calc_epp() * p.frep_mks * 10 ** rng.uniform(-.3, 1.)
    G = np.array(ctx.call(f.get_gain, p, P))
    ctx.need(G.shape == (q.n,) and np.all(np.isfinite(G)), 'gain-per-bin')
    if np.ptp(G) * q.L > 40:
        return
    steps = int(rng.integers(1, 5))
    ctx.note(steps=steps, **nlse.info(q))
    z, AW, AT, po = nlse.run(ctx, q, steps, p=p, f=f, solver_kw=kwargs(rng, q), output_power=P)
    beta = nlse.beta_of(q)
    for i in range(steps):
        ctx.close(AW[:, i], S * np.exp((1j * beta + G / 2) * z[i + 1]), 'amplified-column', rtol=3e-6, step=i)
    ctx.close(po.AW, S * np.exp((1j * beta + G / 2) * q.L), 'amplified-output', rtol=1e-8 + nlse.rounding(q))
    ctx.close(p.AW, S, 'input-unchanged', rtol=1e-12)
    ctx.event('amplifiers')


def many(ctx):
    """Hundreds of solver steps add nothing but rounding."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(16, 32, 50, 64), nl=False)
    A, q.kind = gen.field(rng, q.n, q.tw)
    q.A = A
    q.gain = 0.0 if rng.random() < .5 else float(rng.normal() / q.L)
    steps = int(rng.integers(150, 700))
    ctx.note(steps=steps, **nlse.info(q))
    z, AW, AT, po = nlse.run(ctx, q, steps, solver_kw=dict(dz=q.L * gen.logu(rng, 1e-4, 1)))
    S = ref.to_freq(q.A)
    beta = nlse.beta_of(q)
    tol = 1e-9 * (1 + np.max(np.abs(beta)) * q.L * 1e-3) + nlse.rounding(q)
    ctx.close(po.AW, S * np.exp((1j * beta + q.gain / 2) * q.L), 'many-steps', rtol=tol)
    k = int(rng.integers(steps))
    ctx.close(AW[:, k], S * np.exp((1j * beta + q.gain / 2) * z[k + 1]), 'many-steps', rtol=3e-6)
    ctx.event('steps', steps)


def superposition(ctx):
    rng = ctx.rng
    q = setup(rng)
    B, _ = gen.field(rng, q.n, q.tw)
    a, b = complex(*rng.normal(size=2)), complex(*rng.normal(size=2))
    ctx.note(**nlse.info(q))
    s = nlse.solver(q, **kwargs(rng, q))
    f = nlse.fiber(q)
    o = []
    for X in (q.A, B, a * q.A + b * B):
        o.append(nlse.run(ctx, q, 1, p=nlse.pulse(q, X), f=f, s=s)[3].AT)
    sc = float(np.max(np.abs(a * o[0])) + np.max(np.abs(b * o[1])))
    ctx.close(o[2], a * o[0] + b * o[1], 'superposition', rtol=1e-9, scale=sc)
    # equal to chirping the pulse by the fibre's Taylor coefficients
    q.betas = q.betas[:1]
    p = nlse.pulse(q)
    p.chirp_pulse_W(q.betas[0] * q.L)
    out = nlse.run(ctx, q, 1)[3]
    ctx.close(out.AW, p.AW * np.exp(q.gain * q.L / 2), 'fibre-equals-chirp', rtol=1e-8 + nlse.rounding(q))
    ctx.event('superpositions')


STRATA = [('taylor', taylor, 12), ('table', table, 3), ('graded', graded, 6), ('superposition', superposition, 3),
          ('amplifier', amplifier, 3), ('many', many, 1)]
