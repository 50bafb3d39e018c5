"""C31 three-wave mixing solves the coupled-wave equations."""
import numpy as np

from mon import dfg, gen, ref
from mon.props.c30 import parts, random_state

RULE = ('random pulses, crystals, poling, beams and waveguides; the right-hand '
        'side and the fields at all saved positions against an independent '
        'solution, single colours against closed forms, processed output against '
        'linear propagation.')
QUICK, THOROUGH = 1000, 16000
MIN_CHECKS = 5000
BUDGET = 40000000
FILES = ['src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py', 'src/pynlo/light/beam.py',
         'src/pynlo/light/high_V_waveguide.py']
C = ref.C
EPSC = dfg.EPSC


def rates(ctx):
    """The right-hand side at random places for fields filling the grids."""
    rng = ctx.rng
    q = dfg.problem(rng, nlist=(8, 16, 32, 50, 64, 128), domains=(1, 40) if (r := rng.random()) < .8 else (40, 2000) if r < .97 else (2000, 40000),
                    lengths=(2e-4, 2e-2) if rng.random() < .8 else (1e-6, 1.))
    ctx.note(**dfg.describe(q))
    ob = dfg.build(ctx, q)
    R = dfg.Reference(q)
    n = q.n
    zs = list(rng.uniform(0, q.L, 4))
    if q.domains:               # just inside and outside of a few domain walls
        for b, u in [q.domains[i] for i in rng.integers(0, len(q.domains), 2)]:
            w = u - b
            zs += [v for v in (b + .01 * w, b - .01 * w, u - .01 * w, u + .01 * w) if 0 < v < q.L]
    if rng.random() < .5:
        zs += [q.L, q.L / 2 * (1 + 1e-9), 0.]
    for z in zs:
        y = random_state(rng, q, rng.random() < .6)
        if rng.random() < .2:
            i = int(rng.integers(3))
            y[i * n:(i + 1) * n] = 0
        d = np.full(3 * n, np.nan + 0j)
        ctx.call(ob.deriv, float(z), y, d)
        sign = -1. if any(b < z < u for b, u in q.domains or []) else 1.
        want = R.rhs(float(z), y, sign)
        for i, name in enumerate(('pump-rate', 'signal-rate', 'idler-rate')):
            s = slice(i * n, (i + 1) * n)
            if np.max(np.abs(want[s])) > 1e-200:
                ctx.close(d[s], want[s], name, rtol=1e-7)
            else:
                ctx.close(d[s], want[s], name + '-zero', atol=1e-12 * np.max(np.abs(y)) / q.L)
        ctx.event('rates')
        if q.domains:
            ctx.event('inverted domain' if sign < 0 else 'straight domain')
            ctx.close(ob.poling(float(z)), sign, 'poling-sign', rtol=0)
    ctx.event(q.kind + (' guide' if q.wg else ' bulk'))


def siblings(ctx):
    """Pulses and crystal first used with slightly other settings, then with
    the ones that count; earlier problems keep theirs."""
    rng = ctx.rng
    q = dfg.problem(rng, nlist=(8, 16, 32, 50), domains=(1, 8))
    what = [str(v) for v in rng.choice(['pump', 'signal', 'both', 'field', 'crystal', 'deff', 'size', 'problem', 'window'],
                                       int(rng.integers(1, 4)), replace=False)]
    ctx.note(what=what, **dfg.describe(q))
    n = q.n
    f = 1 + gen.sgn(rng) * gen.logu(rng, 1e-7, 1e-2)
    wl = q.pump.center_wavelength_nm, q.sgnl.center_wavelength_nm
    deff = q.x.deff
    over = {}
    first = dfg.build(ctx, q) if 'problem' in what else None
    if 'pump' in what or 'both' in what:
        q.pump.set_center_wavelength_nm(wl[0] * f)
    if 'signal' in what or 'both' in what:
        q.sgnl.set_center_wavelength_nm(wl[1] * f)
    if 'window' in what:
        for p in (q.pump, q.sgnl):
            p.set_time_window_ps(q.tw * (1 + abs(f - 1)))
    if 'field' in what:
        q.pump.set_AW(q.in_p * f)
        q.sgnl.set_AW(q.in_s[::-1] * f)
    if 'deff' in what:
        q.x.deff = deff * f
    if 'size' in what:
        k = 'Aeff_squm' if q.wg else 'pump_waist'
        over[k] = q.opts[k] * f
    if 'crystal' in what:
        if q.kind == 'PPLN':
            q.x.set_T(q.m.T + 5 * (f - 1) * 100)
        elif q.kind != 'glass':
            q.x.set_theta(q.m.theta + (f - 1))
    z = float(rng.uniform(0, q.L))
    y = random_state(rng, q, rng.random() < .6)
    d = np.empty(3 * n, complex)
    try:
        other = dfg.build(ctx, q, **over)
    except ValueError:
        other = None                        # the changed grids touch each other
    if other is not None:
        ctx.call(other.deriv, z, y, d)
    # back to the problem proper
    q.pump.set_center_wavelength_nm(wl[0])
    q.sgnl.set_center_wavelength_nm(wl[1])
    for p, A in ((q.pump, q.in_p), (q.sgnl, q.in_s)):
        p.set_time_window_ps(q.tw)
        p.set_AW(A)
    q.x.deff = deff
    if q.kind == 'PPLN':
        q.x.set_T(q.m.T)
    elif q.kind != 'glass':
        q.x.set_theta(q.m.theta)
    ob = dfg.build(ctx, q)
    ctx.close(ob.ystart[:2 * n], np.concatenate([q.in_p, q.in_s]), 'entrance-after-others', rtol=1e-12)
    sign = -1. if any(b < z < u for b, u in q.domains or []) else 1.
    want = dfg.Reference(q).rhs(z, y, sign)
    if q.domains and min(abs(z - v) for w in q.domains for v in w) < 1e-9 * q.L:
        return
    for o, clause in ((ob, 'rate-after-others'), (first, 'earlier-problem-kept')):
        if o is None:
            continue
        ctx.call(o.deriv, z, y, d)
        for i in range(3):
            s = slice(i * n, (i + 1) * n)
            ctx.close(d[s], want[s], clause, rtol=1e-7)
    ctx.event('siblings')


def run(ctx, kinds, wg, **kw):
    rng = ctx.rng
    q = dfg.problem(rng, kinds=kinds, wg=wg, **kw)
    ctx.note(**dfg.describe(q))
    ob = dfg.build(ctx, q)
    n = q.n
    rtol = 1e-8
    y0 = np.array(ob.ystart)
    r = rng.random()
    if r < .4:
        y0[2 * n:] = 0
    elif r < .7:
        A, _ = dfg.light(rng, n, q.tw)
        y0[2 * n:] = ref.to_freq(A) * np.sqrt(q.Ps * rng.uniform(0, 1))
    saves = int(rng.integers(1, 6))
    a = dfg.integrate(ctx, q, ob, saves=saves, rtol=rtol, y0=y0.copy())
    z = np.asarray(a.out.xsave[:a.out.count]).real
    Y = a.out.ysave[:a.out.count]
    ctx.need(len(z) in (saves + 1, saves + 2), 'number-of-saves', got=len(z))
    ctx.close(z[:saves + 1], np.linspace(0, q.L, saves + 1), 'save-positions', rtol=1e-9)
    want = dfg.Reference(q).solve(y0, list(np.linspace(0, q.L, saves + 1)), rtol=1e-10)
    for i, name in enumerate(('pump', 'signal', 'idler')):
        s = slice(i * n, (i + 1) * n)
        ctx.close(Y[:saves + 1, s], want[:, s], name + '-field', rtol=1e-5 if q.domains is None else 2e-4)
    if len(z) > saves + 1:
        ctx.close(Y[-1], Y[-2], 'end-point', rtol=1e-6)
    ctx.event('runs')
    ctx.event('saved fields', len(z))
    return q, a, want


def guide(ctx):
    run(ctx, ('glass',), True, nlist=(16, 32, 64), strength=(.2, 3.))


def bulk(ctx):
    run(ctx, ('glass', 'AgGaS', 'AgGaSe2'), False, nlist=(16, 32), strength=(.2, 3.))


def poled(ctx):
    run(ctx, ('PPLN',), None, nlist=(16, 32), domains=(1, 5))


def continuous(ctx):
    """Undepleted single colours: closed form, domain by domain."""
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('glass', 'PPLN'), wg=True, nlist=(16,), fields=('line', 'line'), strength=(.1, 5.),
                    domains=(1, 7), mismatch=12.)
    n = q.n
    ip, js = (int(np.argmax(np.abs(v))) for v in (q.in_p, q.in_s))
    ki = ip - js + n // 2
    if not 0 <= ki < n:
        return
    ctx.note(lines=[ip, js, ki], **dfg.describe(q))
    ob = dfg.build(ctx, q)
    y0 = np.array(ob.ystart)
    y0[2 * n:] = 0
    y0[n:2 * n] *= 1e-4 / np.max(np.abs(y0[n:2 * n])) * np.max(np.abs(y0[:n]))
    a = dfg.integrate(ctx, q, ob, saves=1, rtol=1e-9, y0=y0.copy())
    Y = a.out.ysave[a.out.count - 1]
    # plane-wave couplings for fields in sqrt(power); one line of |A|^2 = P
    amp = np.abs(ref.to_time(y0[:n]))[0]
    w = [q.W[0][ip], q.W[1][js], q.W[2][ki]]
    nn = [q.ind[0][ip], q.ind[1][js], q.ind[2][ki]]
    dk = q.k[0][ip] - q.k[1][js] - q.k[2][ki]
    Ep = amp / np.sqrt(nn[0] * q.Aeff * EPSC)
    # amplitudes in photon units: gs = gi
    g = 2 * q.deff / C * np.sqrt(w[1] * w[2] / (nn[1] * nn[2])) * Ep
    b = np.sqrt(complex(g * g - dk * dk / 4))
    cuts = sorted({0., q.L} | {v for d in q.domains or [] for v in d if v < q.L})
    S, I = 1. + 0j, 0j                     # signal, conjugate idler (photon units)
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        mid, l = .5 * (lo + hi), hi - lo
        s = -1. if any(x < mid < u for x, u in q.domains or []) else 1.
        # S' = i s g e^{i dk z} I,  I' = -i s g e^{-i dk z} S
        ch = np.cosh(b * l)
        sh = l if abs(b * l) < 1e-9 else np.sinh(b * l) / b
        S0, I0 = S * np.exp(-.5j * dk * lo), I * np.exp(.5j * dk * lo)
        S1 = (ch - .5j * dk * sh) * S0 + 1j * s * g * sh * I0
        I1 = (ch + .5j * dk * sh) * I0 - 1j * s * g * sh * S0
        S, I = S1 * np.exp(.5j * dk * hi), I1 * np.exp(-.5j * dk * hi)
    gs = abs(Y[n + js] / y0[n + js]) ** 2
    scale = max(abs(S) ** 2, abs(I) ** 2, g * g * q.L ** 2)
    # the pump gives away a fraction of 1e-8 times the gain
    tol = (1e-6 if q.domains is None else 1e-4) + 1e-7 * scale
    ctx.close(gs, abs(S) ** 2, 'signal-gain', rtol=0, atol=tol * max(scale, 1))
    gi = abs(Y[2 * n + ki] / y0[n + js]) ** 2 * w[1] / w[2]
    ctx.close(gi, abs(I) ** 2, 'idler-efficiency', rtol=0, atol=tol * scale)
    ctx.close(np.angle(Y[n + js] / y0[n + js] / S), 0., 'signal-phase', rtol=0, atol=1e-4)
    ctx.event('single colours poled' if q.domains else 'single colours')
    ctx.event('amplified' if abs(S) > 2 else 'weak')


def focus(ctx):
    """Weak mixing of focused single colours: integral along the focus."""
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('glass', 'AgGaS', 'AgGaSe2'), wg=False, nlist=(16,), fields=('line', 'line'),
                    strength=(1e-4, 1e-3), mismatch=12.)
    n = q.n
    ip, js = (int(np.argmax(np.abs(v))) for v in (q.in_p, q.in_s))
    ki = ip - js + n // 2
    if not 0 <= ki < n:
        return
    ctx.note(lines=[ip, js, ki], **dfg.describe(q))
    ob = dfg.build(ctx, q)
    y0 = np.array(ob.ystart)
    y0[2 * n:] = 0
    a = dfg.integrate(ctx, q, ob, saves=1, rtol=1e-9, y0=y0.copy())
    Y = a.out.ysave[a.out.count - 1]
    m = 4001
    z = (np.arange(m) + .5) / m * q.L
    x = (z - q.L / 2) / q.zr
    c = [q.W[0][ip], q.W[1][js], q.W[2][ki]]
    nn = [q.ind[0][ip], q.ind[1][js], q.ind[2][ki]]
    dk = q.k[0][ip] - q.k[1][js] - q.k[2][ki]
    # E_j = A_j / sqrt(pi wp^2 n_j c eps0): all fields in the pump's cross-section,
    # which the code takes grid point by grid point
    w2 = [q.zr * q.lam[0][j] / (np.pi * q.ind[0][j]) for j in (ip, js, ki)]
    v = np.exp(1j * dk * z) * np.sqrt(w2[2] / (w2[0] * w2[1] * (1 + x * x)) / (np.pi * EPSC))
    if q.gouy:                  # one phase of the pump against two
        v = v * ((1 + 1j * x) / np.sqrt(1 + x * x)) ** -1
    K = 2 * q.deff / C * c[2] * np.sqrt(1 / (nn[0] * nn[1] * nn[2]))
    amp_p = ref.to_time(y0[:n])[0]
    got = abs(Y[2 * n + ki]) / abs(y0[n + js])
    want = K * abs(amp_p) * abs(np.sum(v)) * q.L / m
    full = K * abs(amp_p) * np.sum(np.abs(v)) * q.L / m
    ctx.close(got, want, 'focused-efficiency', rtol=0, atol=2e-5 * full + 1e-5 * want)
    ctx.event('focused single colours')


def output(ctx):
    """Processed fields carry the dispersion of the crystal."""
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('glass', 'PPLN', 'AgGaS', 'AgGaSe2'), nlist=(16, 32, 64), domains=(1, 4), strength=(.05, .5))
    n = q.n
    ctx.note(**dfg.describe(q))
    ob = dfg.build(ctx, q)
    a = dfg.integrate(ctx, q, ob, saves=int(rng.integers(1, 5)), rtol=1e-6)
    raw = a.out.ysave[:a.out.count].copy()
    z = np.asarray(a.out.xsave[:a.out.count]).real
    res = ctx.call(ob.process_stepper_output, a.out)
    ctx.close(a.out.ysave[:a.out.count], raw, 'solver-output-unchanged', rtol=0)
    # the frame moves with the strongest pump colour's phase velocity
    t0 = q.ind[0][int(np.argmax(np.abs(q.in_p)))] / C
    order = list(range(len(z))) * 2
    rng.shuffle(order)
    for j in order:
        i = int(rng.integers(3))
        p = (res.get_pump, res.get_sgnl, res.get_idlr)[i](j)
        want = raw[j, i * n:(i + 1) * n] * np.exp(1j * (q.k[i] - q.W[i] * t0) * z[j])
        ctx.close(p.AW, want, 'output-spectrum', rtol=1e-6)
        ctx.close(p.center_wavelength_nm, ref.C_NMPS / q.f[i], 'output-colour', rtol=1e-12)
        ctx.close(p.W_mks, q.W[i], 'output-grid', rtol=1e-12)
        ctx.close(complex(res.get_z(j)).real, z[j], 'output-position', rtol=0)
    ctx.event('processed fields', len(order))


def delays(ctx):
    """Weak light of either colour walks off with its group velocity."""
    rng = ctx.rng
    q = dfg.problem(rng, kinds=('glass', 'PPLN'), wg=True, nlist=(64, 128), domains=(1, 4), strength=(1e-4, 1e-3),
                    fields=('gauss', 'gauss'))
    n = q.n
    ctx.note(**dfg.describe(q))
    ob = dfg.build(ctx, q)
    y0 = np.array(ob.ystart)
    y0[:2 * n] *= 1e-6
    a = dfg.integrate(ctx, q, ob, saves=2, rtol=1e-6, y0=y0)
    res = ctx.call(ob.process_stepper_output, a.out)
    t0 = q.ind[0][int(np.argmax(np.abs(q.in_p)))] / C
    T = -q.tw / 2 + q.tw / n * np.arange(n)
    for i, get in ((0, res.get_pump), (1, res.get_sgnl)):
        # group index from the crystal's own equation, by a small central difference
        f, h = q.f[i] * 1e12, q.f[i] * 1e8
        k = lambda v: dfg.TWO_PI * v / C * float(q.m.n(C / v * 1e9))
        dT = ((k(f + h) - k(f - h)) / (2 * h) / dfg.TWO_PI - t0) * 1e12
        one = []
        for j in (0, 1, 2):
            zz = complex(res.get_z(j)).real
            p = get(j)
            if abs(dT * zz) > .12 * q.tw:
                break
            S = np.asarray(p.AW)
            k2 = (k(f + h * 1e2) + k(f - h * 1e2) - 2 * k(f)) / (h * 1e2 * dfg.TWO_PI) ** 2 * 1e24
            I = np.abs(np.asarray(p.AT)) ** 2
            one.append((zz, np.sum(T * I) / np.sum(I), k2, S))
        for zz, m, k2, S in one[1:]:
            wid = q.tw * .15
            if abs(k2 * zz) < .3 * wid ** 2:
                ctx.close(m - one[0][1], dT * zz, 'group-delay', rtol=.02, atol=.004 * q.tw)
                ctx.event('delays measured')


STRATA = [('rates', rates, 10), ('siblings', siblings, 8), ('guide', guide, 3), ('bulk', bulk, 3), ('poled', poled, 2), ('continuous', continuous, 3),
          ('focus', focus, 2), ('output', output, 3), ('delays', delays, 2)]
