"""C30 three-wave mixing conserves energy and photons and keeps its bookkeeping."""
import numpy as np

from mon import dfg, gen, ref

RULE = ('random pulses, crystals, poling patterns, beams and waveguides; energy '
        'and photon numbers watched at every right-hand-side call and at every '
        'saved position, inputs compared before and after.')
QUICK, THOROUGH = 700, 12000
MIN_CHECKS = 6000
BUDGET = 20000000
FILES = ['src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py',
         'src/pynlo/interactions/ThreeWaveMixing/field_classes.py']


def parts(q, y):
    n = q.n
    return [y[..., i * n:(i + 1) * n] for i in range(3)]


def totals(q, y):
    """Energy and photon numbers of the three fields (any leading axes)."""
    e = [np.sum(np.abs(v) ** 2, axis=-1) for v in parts(q, y)]
    ph = [np.sum(np.abs(v) ** 2 / w, axis=-1) for v, w in zip(parts(q, y), q.W)]
    return e, ph


def random_state(rng, q, full=True):
    """Fields of comparable strength; `full` fills every colour of the grids."""
    out = []
    for i in range(3):
        v = rng.normal(size=q.n) + 1j * rng.normal(size=q.n)
        if not full:
            v = v * np.exp(-.5 * ((np.arange(q.n) - q.n / 2) / (q.n * rng.uniform(.05, .2))) ** 2)
        out.append(v * gen.logu(rng, .1, 10))
    return np.concatenate(out) * np.sqrt(q.Pp) * q.n


def rates(ctx):
    """Conservation laws of the right-hand side, whatever the fields."""
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('PPLN', 'glass'), wg=True, nlist=(8, 16, 32, 50, 64), domains=(1, 40))
    ctx.note(**dfg.describe(q))
    ob = dfg.build(ctx, q)
    for _ in range(6):
        z = float(rng.uniform(0, q.L))
        y = random_state(rng, q, rng.random() < .6)
        keep = y.copy()
        d = np.full(3 * q.n, np.nan + 0j)
        ctx.call(ob.deriv, z, y, d)
        ctx.close(y, keep, 'state-unchanged', rtol=0)
        ctx.need(np.all(np.isfinite(d)), 'finite-rates')
        flow = [2 * np.sum((np.conj(a) * b).real) for a, b in zip(parts(q, y), parts(q, d))]
        mag = sum(2 * np.sum(np.abs(a) * np.abs(b)) for a, b in zip(parts(q, y), parts(q, d)))
        ctx.close(sum(flow) / mag, 0., 'energy-rate', rtol=0, atol=1e-12)
        ph = [2 * np.sum((np.conj(a) * b).real / w) for a, b, w in zip(parts(q, y), parts(q, d), q.W)]
        pm = max(2 * np.sum(np.abs(a) * np.abs(b) / w) for a, b, w in zip(parts(q, y), parts(q, d), q.W))
        ctx.close((ph[0] + ph[1]) / pm, 0., 'pump-signal-photons', rtol=0, atol=1e-12)
        ctx.close((ph[1] - ph[2]) / pm, 0., 'signal-idler-photons', rtol=0, atol=1e-12)
        # same question, same answer, whatever was asked in between
        d2 = np.empty_like(d)
        ctx.call(ob.deriv, float(rng.uniform(0, q.L)), random_state(rng, q), d2)
        ctx.call(ob.deriv, z, y, d2)
        ctx.close(d2, d, 'rates-repeatable', rtol=1e-13)
        ctx.event('rate evaluations')
    ctx.event('poled' if q.domains else 'unpoled')


def conserve(ctx):
    """The same along whole crystals."""
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('PPLN', 'glass', 'glass'), wg=True, nlist=(16, 32), strength=(.7, 5.), domains=(1, 5))
    ctx.note(**dfg.describe(q))
    ob = dfg.build(ctx, q)
    rtol = 1e-8
    y0 = np.array(ob.ystart)
    if rng.random() < .4:
        v = random_state(rng, q, False)
        y0 = v * np.sqrt(np.sum(np.abs(y0) ** 2) / np.sum(np.abs(v) ** 2)) * gen.logu(rng, .3, 2)
    if rng.random() < .5:
        y0[2 * q.n:] = 0
    saves = int(rng.integers(1, 9))
    a = dfg.integrate(ctx, q, ob, saves=saves, rtol=rtol, y0=y0.copy())
    Y = a.out.ysave[:a.out.count]
    ctx.close(Y[0], y0, 'starts-from-input', rtol=0)
    e, ph = totals(q, Y)
    ctx.close(sum(e) / sum(e)[0], np.ones(len(Y)), 'energy-conserved', rtol=1e-5)
    N = ph[0][0] + ph[1][0] + ph[2][0]
    ctx.close((ph[0] + ph[1]) / N, (ph[0] + ph[1])[0] / N * np.ones(len(Y)), 'pump-photons-become-signal', rtol=0, atol=1e-5)
    ctx.close((ph[1] - ph[2]) / N, (ph[1] - ph[2])[0] / N * np.ones(len(Y)), 'signal-and-idler-in-pairs', rtol=0, atol=1e-5)
    moved = abs(ph[0][-1] - ph[0][0]) / N
    ctx.event('depleted' if moved > .05 else 'weakly coupled')
    ctx.event('saved fields', len(Y))
    positions(ctx, q, a, saves)


def positions(ctx, q, a, saves):
    z = np.asarray(a.out.xsave[:a.out.count]).real
    ctx.check(len(z) in (saves + 1, saves + 2), 'number-of-saves', got=len(z), want=saves + 1)
    ctx.close(z[:saves + 1], np.linspace(0, q.L, saves + 1)[:len(z)], 'save-positions', rtol=1e-9)
    ctx.close(z[-1], q.L, 'ends-at-length', rtol=1e-12)


def cw_bulk(ctx):
    """Focused beams of one colour each conserve energy too."""
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('glass', 'glass', 'AgGaS', 'AgGaSe2', 'PPLN'), wg=False, nlist=(16,),
                    fields=('line', 'line'), strength=(.3, 3.), domains=(1, 4))
    ctx.note(**dfg.describe(q))
    ob = dfg.build(ctx, q)
    y0 = np.array(ob.ystart)
    y0[2 * q.n:] = 0
    a = dfg.integrate(ctx, q, ob, saves=4, rtol=1e-8, y0=y0.copy())
    Y = a.out.ysave[:a.out.count]
    e, ph = totals(q, Y)
    # colours share the confocal parameter of the pump, which its chosen bin
    # has only exactly where the waists agree: one colour each, so exact
    N = ph[0][0] + ph[1][0]
    h = [int(np.argmax(np.abs(v[0]))) for v in parts(q, Y)[:2]]
    if h[0] == q.n // 2 and h[1] == q.n // 2:
        ctx.close(sum(e) / sum(e)[0], np.ones(len(Y)), 'energy-conserved-in-bulk', rtol=1e-5)
        ctx.close((ph[1] - ph[2]) / N, (ph[1] - ph[2])[0] / N * np.ones(len(Y)), 'photon-pairs-in-bulk', rtol=0, atol=1e-5)
    lit = [np.max(np.abs(v), axis=0) > 1e-9 * np.max(np.abs(v)) for v in parts(q, Y)]
    mp, ms = h[0] - q.n // 2, h[1] - q.n // 2
    want = mp - ms + q.n // 2
    if 0 <= want < q.n and np.max(np.abs(parts(q, Y)[2])) > 0:
        ctx.check(list(np.nonzero(lit[2])[0]) == [want], 'idler-at-difference-frequency', got=list(np.nonzero(lit[2])[0]), want=want)
        ctx.check(list(np.nonzero(lit[0])[0]) == [h[0]] and list(np.nonzero(lit[1])[0]) == [h[1]], 'one-colour-stays-one-colour')
    ctx.event('focused runs')


def nothing(ctx):
    """No partner or no nonlinearity, no exchange."""
    rng = ctx.rng
    kind = gen.pick(rng, ['no-pump', 'alone', 'signal-alone', 'linear'])
    q = dfg.problem(rng, kinds=('glass', 'PPLN', 'AgGaSe2'), nlist=(16, 32), domains=(1, 5))
    ctx.note(case=kind, **dfg.describe(q))
    if kind == 'linear':
        q.x.deff = 0.
    ob = dfg.build(ctx, q)
    y0 = random_state(rng, q, False)
    n = q.n
    if kind == 'no-pump':
        y0[:n] = 0
        y0[(1 if rng.random() < .5 else 2) * n:][:n] = 0
    elif kind == 'alone':
        y0[n:] = 0
    elif kind == 'signal-alone':
        y0[:n] = 0
        y0[2 * n:] = 0
    # pump in the background: one partner is missing for every colour
    for _ in range(4):
        d = np.full(3 * n, np.nan + 0j)
        ctx.call(ob.deriv, float(rng.uniform(0, q.L)), y0, d)
        ctx.close(d * q.L / np.max(np.abs(y0)), np.zeros(3 * n), 'nothing-exchanged', rtol=0, atol=1e-11)
    a = dfg.integrate(ctx, q, ob, saves=2, rtol=1e-6, y0=y0.copy())
    for v in a.out.ysave[:a.out.count]:
        ctx.close(v, y0, 'fields-unchanged', rtol=1e-11)
    # without a pump, signal and idler make sum-frequency light only: with all
    # fields present the exchange is there again
    if kind != 'linear':
        d = np.empty(3 * n, complex)
        y1 = random_state(rng, q, False)
        ctx.call(ob.deriv, q.L * .3, y1, d)
        ctx.check(np.max(np.abs(d)) > 0, 'exchange-with-partners')
    ctx.event(kind)


def snapshot(p):
    return dict(AW=np.array(p.AW), AT=np.array(p.AT), wl=p.center_wavelength_nm, n=p.NPTS, tw=p.time_window_ps,
                frep=p.frep_MHz, W=np.array(p.W_mks))


def same(ctx, a, b, clause):
    for k in a:
        ctx.close(b[k], a[k], clause, rtol=0, what=k)


def bookkeeping(ctx):
    rng = ctx.rng
    q = dfg.problem(rng, nlist=(16, 32), kinds=('glass', 'glass', 'AgGaS', 'AgGaSe2', 'PPLN'), domains=(1, 4))
    ctx.note(**dfg.describe(q))
    before = snapshot(q.pump), snapshot(q.sgnl)
    axes = q.axes
    wls = [l[::5] * 1e9 for l in q.lam]
    ind = [np.array([q.x.n(w, x) if x else q.x.n(w) for w in v]) for v, x in zip(wls, axes)]
    length = q.x.length_mks
    ob = dfg.build(ctx, q)
    n = q.n
    ctx.close(ob.ystart[:n], q.in_p, 'pump-at-entrance', rtol=0)
    ctx.close(ob.ystart[n:2 * n], q.in_s, 'signal-at-entrance', rtol=0)
    ctx.close(ob.idlr.center_wavelength_nm, 1 / (1 / q.pump.center_wavelength_nm - 1 / q.sgnl.center_wavelength_nm),
              'idler-wavelength', rtol=1e-12)
    ctx.close(ob.idlr.NPTS, n, 'idler-grid', rtol=0)
    ctx.close(ob.idlr.time_window_ps, q.tw, 'idler-grid', rtol=1e-12)
    ctx.close(ob.idlr.frep_MHz, q.frep, 'idler-repetition-rate', rtol=1e-12)
    ctx.close(ob.ystart[2 * n:], ob.idlr.AW, 'idler-at-entrance', rtol=0)
    ph = ob.idlr.AW
    ctx.check(np.all(np.isfinite(ph)) and np.any(np.abs(ph) > 0), 'idler-noise')
    d0 = np.empty(3 * n, complex)
    z = float(rng.uniform(0, q.L))
    y = random_state(rng, q, False)
    ctx.call(ob.deriv, z, y, d0)
    a = dfg.integrate(ctx, q, ob, saves=3, rtol=1e-6)
    positions(ctx, q, a, 3)
    res = ctx.call(ob.process_stepper_output, a.out)
    for i, want in enumerate((q.in_p, q.in_s, np.array(ob.idlr.AW))):
        got = (res.get_pump, res.get_sgnl, res.get_idlr)[i](0)
        ctx.close(got.AW, want, 'result-starts-from-input', rtol=1e-12)
    ctx.close(complex(res.get_z(res.n_saves - 1)).real, q.L, 'result-ends-at-length', rtol=1e-12)
    ctx.close(complex(res.get_z(0)).real, 0., 'result-starts-at-entrance', rtol=0)
    ctx.close(res.n_saves, a.out.count, 'result-size', rtol=0)
    # nothing of the caller's was touched
    same(ctx, before[0], snapshot(q.pump), 'pump-untouched')
    same(ctx, before[1], snapshot(q.sgnl), 'signal-untouched')
    now = [np.array([q.x.n(w, x) if x else q.x.n(w) for w in v]) for v, x in zip(wls, axes)]
    for a_, b_ in zip(ind, now):
        ctx.close(b_, a_, 'crystal-untouched', rtol=0)
    ctx.close(q.x.length_mks, length, 'crystal-untouched', rtol=0)
    # and what the caller does later does not reach the problem
    q.pump.set_AW(np.zeros(n, complex))
    q.sgnl.set_center_wavelength_nm(q.sgnl.center_wavelength_nm * 1.3)
    q.x.deff = 7 * q.x.deff
    d1 = np.empty(3 * n, complex)
    ctx.call(ob.deriv, z, y, d1)
    ctx.close(d1, d0, 'problem-independent-of-arguments', rtol=1e-12)
    ctx.event('problems')


def refused(ctx):
    from pynlo.interactions.ThreeWaveMixing import dfg_problem
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('glass', 'PPLN', 'AgGaS'), nlist=(16, 32), domains=(1, 3))
    kind = gen.pick(rng, ['pump-signal', 'signal-idler', 'points', 'no-area', 'bpm-guide'])
    ctx.note(case=kind, **dfg.describe(q))
    n, tw = q.n, q.tw
    B = n / tw
    if kind == 'pump-signal':
        # the signal's bluest colour passes the pump's reddest
        f = q.f[0] - rng.uniform(.02, .95) * B
        if f <= q.f[0] * .52:
            return
        s = dfg.make_pulse(rng, n, tw, f, np.ones(n, complex), 100.)
        ctx.raises(ValueError, 'overlapping-grids-refused', dfg_problem, q.pump, s, q.x, **q.opts)
    elif kind == 'signal-idler':
        # degenerate: idler centre within one grid width of the signal's
        f = q.f[0] * .5 + rng.uniform(.01, .45) * B
        if q.f[0] - f < 1.1 * B:
            return
        s = dfg.make_pulse(rng, n, tw, f, np.ones(n, complex), 100.)
        ctx.raises(ValueError, 'overlapping-grids-refused', dfg_problem, q.pump, s, q.x, **q.opts)
    elif kind == 'points':
        s = dfg.make_pulse(rng, n // 2, tw, q.f[1], np.ones(n // 2, complex), 100.)
        ctx.raises(ValueError, 'different-grids-refused', dfg_problem, q.pump, s, q.x, **q.opts)
    elif kind == 'no-area':
        ctx.raises((AssertionError, ValueError, TypeError), 'waveguide-needs-area', dfg_problem, q.pump, q.sgnl, q.x,
                   disable_SPM=True, wg_mode=True)
    else:
        q = dfg.problem(rng, kinds=('AgGaS', 'AgGaSe2'), nlist=(16,))
        ctx.raises((AssertionError, ValueError), 'angle-matched-waveguide-refused', dfg_problem, q.pump, q.sgnl, q.x,
                   disable_SPM=True, wg_mode=True, Aeff_squm=10.)
    # the neighbours of the refused problem are accepted
    q = dfg.problem(rng, kinds=('glass',), nlist=(16,))
    ctx.check(dfg.build(ctx, q) is not None, 'separate-grids-accepted')
    import matplotlib.pyplot as plt
    plt.close('all')
    ctx.event(kind)


def holders(ctx):
    """The containers for three fields and three waists."""
    from pynlo.interactions.ThreeWaveMixing.field_classes import ThreeFields, beam_parameters
    rng = ctx.rng
    n = int(rng.integers(1, 40))
    t, u = ThreeFields(n), ThreeFields(n)
    cur = np.zeros((3, n), complex)
    ctx.close(t.get_all(), cur, 'fields-start-empty', rtol=0)
    for _ in range(8):
        i = int(rng.integers(5))
        v = rng.normal(size=(3, n)) + 1j * rng.normal(size=(3, n))
        if i == 3:
            t.set_all(v)
            cur = v.copy()
        elif i == 4:
            c = t.create_copy()
            ctx.close(c.get_all(), cur, 'copied-fields', rtol=0)
            c.set_pump(np.ones(n))
            c.set_idlr(2.)
        else:
            (t.set_pump, t.set_sgnl, t.set_idlr)[i](v[i])
            cur[i] = v[i]
        v[:] = 0                                    # the caller reuses its buffer
        for got, want in zip((t.get_pump(), t.get_sgnl(), t.get_idlr()), cur):
            ctx.close(got, want, 'stored-fields', rtol=0)
        ctx.close(u.get_all(), np.zeros((3, n)), 'containers-independent', rtol=0)
    w = gen.logu(rng, 1e-6, 1e-3), gen.logu(rng, 1e-6, 1e-3), gen.logu(rng, 1e-6, 1e-3)
    b, o = beam_parameters(*w), beam_parameters(1., 2., 3.)
    for i in range(3):
        for j in range(3):
            ctx.close(b.calculate_overlap(i, j), .5 * (w[i] + w[j]), 'mean-waist', rtol=1e-12)
    ctx.raises(TypeError, 'field-number-type', b.calculate_overlap, 1.5, 0)
    ctx.raises(TypeError, 'field-number-type', b.calculate_overlap, 0, '1')
    ctx.raises((ValueError, IndexError), 'field-number-range', b.calculate_overlap, 0, int(gen.pick(rng, [-1, 4, 9])))
    ctx.raises((ValueError, IndexError), 'field-number-range', b.calculate_overlap, int(gen.pick(rng, [-1, 4, 9])), 1)
    ctx.event('holders')


STRATA = [('rates', rates, 5), ('conserve', conserve, 2), ('cw_bulk', cw_bulk, 1), ('nothing', nothing, 3),
          ('bookkeeping', bookkeeping, 2), ('refused', refused, 2), ('holders', holders, 2)]
