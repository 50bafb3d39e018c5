"""C18 how a propagation is organised does not change what comes out."""
import copy

import numpy as np

from mon import gen, nlse, ref

RULE = ('random nonlinear problems solved in several ways - more output steps, '
        'cut fibres, a solver with a history, other numerical back ends, fibres '
        'whose nonlinearity and dispersion change along z - and compared with '
        'each other; all arguments are snapshotted around every call.')
QUICK, THOROUGH = 1000, 16000
MIN_CHECKS = 4000
BUDGET = 6_000_000
FILES = ['src/pynlo/interactions/FourWaveMixing/SSFM.py', 'src/pynlo/media/fibers/fiber.py']

LE = 1e-7
TOL = 2e-5


def snap(p):
    return dict(n=p.NPTS, wl=p.center_wavelength_nm, tw=p.time_window_ps, f=p.frep_mks,
                AT=p.AT.copy(), AW=p.AW.copy(), T=p.T_ps.copy(), V=p.V_THz.copy())


def same(ctx, p, s, clause):
    now = snap(p)
    for k in s:
        ctx.check(np.array_equal(now[k], s[k]), clause, what=k)


def fsnap(f):
    return dict(L=f.length, g=f.gamma, b=[float(x) for x in f.betas], gain=float(f.gain),
                wl=f.center_wavelength, spec=copy.deepcopy(f.fiberspecs))


def steps(ctx):
    """The number of saved positions changes what is saved and nothing else."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(64, 128, 200, 256))
    k = int(rng.integers(2, 9))
    ctx.note(steps=k, **nlse.info(q))
    p, f = nlse.pulse(q), nlse.fiber(q)
    sp, sf = snap(p), fsnap(f)
    one = nlse.run(ctx, q, 1, p=p, f=f, solver_kw=dict(local_error=LE))
    s = nlse.solver(q, local_error=LE)
    z, AW, AT, po = nlse.run(ctx, q, gen.as_int(rng, k), p=p, f=f, s=s)
    same(ctx, p, sp, 'input-pulse-untouched')
    ctx.check(fsnap(f) == sf, 'fiber-untouched', before=sf, after=fsnap(f))
    ctx.need(AT.shape == (q.n, k) and AW.shape == (q.n, k) and len(z) == k + 1, 'output-shape',
             got=[AT.shape, AW.shape, len(z)])
    ctx.check(bool(np.iscomplexobj(AT) and np.iscomplexobj(AW)), 'complex-output')
    ctx.close(z, np.linspace(0, q.L, k + 1), 'positions', rtol=1e-12)
    ctx.close(po.AT, one[3].AT, 'saved-positions-do-not-matter', rtol=TOL)
    ctx.close(AT[:, -1], po.AT, 'last-column-is-output', rtol=1e-6)
    ctx.close(AW[:, -1], po.AW, 'last-column-is-output', rtol=1e-6)
    for i in range(k):
        ctx.close(AW[:, i], ref.to_freq(AT[:, i]), 'columns-are-a-fourier-pair', rtol=1e-6)
    # a column in the middle is what a shorter fibre would deliver
    i = int(rng.integers(0, k))
    mid = nlse.run(ctx, q, 1, p=p, f=nlse.fiber(q, L=float(z[i + 1])), solver_kw=dict(local_error=LE))[3]
    ctx.close(AT[:, i], mid.AT, 'column-at-its-position', rtol=TOL)
    # the output is a full pulse on the same grid
    ctx.check(po is not p and po.NPTS == q.n, 'output-grid')
    for a, b in ((po.center_wavelength_nm, q.wl), (po.time_window_ps, q.tw), (po.frep_mks, q.frep * 1e6)):
        ctx.close(a, b, 'output-grid', rtol=1e-9)
    ctx.close(po.T_ps, p.T_ps, 'output-grid', rtol=1e-12)
    # independent of the input, and of later runs
    kept = AT.copy(), AW.copy(), po.AT.copy()
    po2 = nlse.run(ctx, q, k, p=po, f=f, s=s)[3]
    ctx.check(np.array_equal(po.AT, kept[2]), 'earlier-output-kept')
    po2.set_AT(po2.AT * 2 + 1)
    ctx.check(np.array_equal(AT, kept[0]) and np.array_equal(AW, kept[1]) and np.array_equal(po.AT, kept[2]),
              'earlier-output-kept')
    same(ctx, p, sp, 'input-pulse-untouched')
    ctx.event('step counts')


def cut(ctx):
    """Two pieces of fibre one after the other do what the whole does."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(64, 128, 200))
    x = rng.uniform(.05, .95)
    m = int(rng.integers(2, 5))
    ctx.note(cut=x, pieces=m, **nlse.info(q))
    p = nlse.pulse(q)
    whole = nlse.run(ctx, q, 1, p=p, solver_kw=dict(local_error=LE))[3]
    s = nlse.solver(q, local_error=LE)
    same_solver = rng.random() < .5
    f = nlse.fiber(q, L=q.L * x)
    edges = np.concatenate([[0], np.sort(rng.uniform(0, 1, m - 1)), [1]])
    if rng.random() < .2:          # one of the pieces is empty
        i = int(rng.integers(m + 1))
        edges, m = np.insert(edges, i, edges[i]), m + 1
    for i in range(m):
        f = nlse.fiber(q, L=q.L * (edges[i + 1] - edges[i]))
        s = s if same_solver else nlse.solver(q, local_error=LE)
        p = nlse.run(ctx, q, int(rng.integers(1, 3)), p=p, f=f, s=s)[3]
    ctx.close(p.AT, whole.AT, 'cut-fibre', rtol=TOL)
    ctx.event('cut fibres')


def history(ctx):
    """A solver that has done other work gives what a fresh one gives."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(64, 128, 200), raman=gen.pick(rng, ['off', 'simple', 'lin']))
    s = nlse.solver(q, local_error=LE)
    h = []
    for _ in range(int(rng.integers(1, 4))):
        o = nlse.problem(rng, sizes=(32, 64, 100, 128, 200, 256), nl=bool(rng.random() < .8))
        if rng.random() < .4:
            o.n = q.n
            o.g = ref.grids(o.n, o.tw, o.f0)
            o.A = np.interp(np.arange(o.n) / o.n, np.arange(len(o.A)) / len(o.A), o.A.real) + 0j
        try:
            s.propagate(nlse.pulse(o), nlse.fiber(o), int(rng.integers(1, 3)))
        except Exception as e:      # foreign work may be hostile; only q counts
            ctx.event('foreign run failed ' + type(e).__name__)
            s.dz = q.L / 50
        h.append((o.n, o.raman, o.shock))
    # the adapted step size is the one thing a solver is meant to remember;
    # far too long a step costs time, far too short a step costs more
    ctx.note(history=h, **nlse.info(q))
    used = nlse.run(ctx, q, 2, s=s)
    fresh = nlse.run(ctx, q, 2, solver_kw=dict(local_error=LE))
    ctx.close(used[3].AT, fresh[3].AT, 'solver-history', rtol=TOL)
    ctx.close(used[2], fresh[2], 'solver-history', rtol=TOL)
    again = nlse.run(ctx, q, 2, s=s)
    ctx.close(again[3].AT, fresh[3].AT, 'solver-history', rtol=TOL)
    ctx.event('histories')


def sibling(rng, q):
    """The same problem but for one or two of its parameters."""
    o = copy.copy(q)
    what = [str(x) for x in rng.choice(['wl', 'colour', 'tw', 'betas', 'gamma', 'gain', 'L', 'A', 'frep', 'shock', 'taus', 'raman', 'dispersion order'],
                                       int(rng.integers(1, 3)), replace=False)]
    for w in what:
        f = (1 + gen.logu(rng, 1e-3, .3)) ** gen.sgn(rng)
        if w == 'wl':
            o.wl = q.wl / (1 + gen.logu(rng, 1e-3, .3))
            o.f0 = ref.C_NMPS / o.wl
        elif w == 'colour':                # another pulse in the same fibre
            o.fwl = q.wl
            o.wl = q.wl / rng.uniform(1.003, 1.03)
            o.f0 = ref.C_NMPS / o.wl
        elif w == 'tw':
            o.tw = q.tw * (1 + gen.logu(rng, 1e-3, .3))
        elif w == 'betas':
            o.betas = [b * f for b in q.betas]
        elif w == 'dispersion order':
            o.betas = list(q.betas) + [.02 * abs(q.b2) * q.T0 ** 2]
        elif w == 'A':
            o.A = q.A * f
        elif w == 'gain':
            o.gain = q.gain + rng.normal() * .5 / q.L
        elif w == 'shock':
            o.shock = not q.shock
        elif w == 'raman':
            o.raman = gen.pick(rng, ['off', 'simple', 'lin'])
        elif w == 'taus':
            o.f_R, o.tau1, o.tau2 = q.f_R * .8, q.tau1 * 1.2, q.tau2 * .9
        else:
            setattr(o, w, getattr(q, w) * (0. if w == 'L' and rng.random() < .3 else f))
    o.g = ref.grids(o.n, o.tw, o.f0)
    return o, what


def configure(s, q):
    s.disable_self_steepening = not q.shock
    s.disable_Raman, s.USE_SIMPLE_RAMAN = q.raman == 'off', q.raman == 'simple'
    s.tau_1, s.tau_2 = q.tau1, q.tau2
    if q.raman == 'simple':       # the other model brings its own fraction
        s.f_R = q.f_R


def siblings(ctx):
    """A solver that has just solved nearly the same problem."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(64, 128, 200))
    if rng.random() < .3:
        q.gain = float(rng.uniform(-1.5, 1.) / q.L)
    s = nlse.solver(q, local_error=LE)
    held = rng.random() < .5              # the very same pulse and fibre objects
    p, f = nlse.pulse(q), nlse.fiber(q)
    h = []
    ctx.note(history=h, held=bool(held), **nlse.info(q))

    def load(o):
        if not held:
            return nlse.pulse(o), nlse.fiber(o)
        p.set_center_wavelength_nm(o.wl)
        p.set_time_window_ps(o.tw)
        p.set_frep_MHz(o.frep)
        p.set_AT(o.A)
        wl, b = nlse.spec(o)
        f.generate_fiber(o.L, center_wl_nm=wl, betas=b, gamma_W_m=o.gamma, gain=o.gain)
        return p, f
    if rng.random() < .5:
        nlse.run(ctx, q, 1, s=s)
    for _ in range(int(rng.integers(1, 4))):
        o, what = sibling(rng, q)
        h.append(what)
        configure(s, o)
        a, b = load(o)
        nlse.run(ctx, o, int(rng.integers(1, 3)), p=a, f=b, s=s)
    configure(s, q)
    a, b = load(q)
    used = nlse.run(ctx, q, 2, p=a, f=b, s=s)
    fresh = nlse.run(ctx, q, 2, solver_kw=dict(local_error=LE))
    ctx.close(used[3].AT, fresh[3].AT, 'solver-history', rtol=TOL)
    ctx.close(used[2], fresh[2], 'solver-history', rtol=TOL)
    ctx.close(used[0], fresh[0], 'solver-history', rtol=1e-12)
    for k, v in (('center_wavelength_nm', q.wl), ('time_window_ps', q.tw), ('frep_mks', q.frep * 1e6)):
        ctx.close(getattr(used[3], k), v, 'output-grid', rtol=1e-9)
    ctx.event('sibling histories')


def backends(ctx):
    """Shifted or unshifted storage, FFTW or scipy, RK4IP or split step."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(64, 128, 200, 256), raman=gen.pick(rng, ['off', 'simple', 'lin', 'simple']))
    k = int(rng.integers(1, 4))
    ctx.note(steps=k, **nlse.info(q))
    base = nlse.run(ctx, q, k, solver_kw=dict(local_error=LE))
    if not nlse.resolved(base[3].AT):
        ctx.event('field at the edge of its grid')
        return
    for name, kw in (('unshifted storage', dict(prefftshift=False)), ('scipy transforms', dict(fftw=False)),
                     ('both', dict(prefftshift=False, fftw=False))):
        with nlse.backend(**kw):
            o = nlse.run(ctx, q, k, solver_kw=dict(local_error=LE))
        ctx.close(o[3].AT, base[3].AT, 'back-end', rtol=1e-6, which=name)
        ctx.close(o[2], base[2], 'back-end', rtol=1e-6, which=name)
        ctx.close(o[1], base[1], 'back-end', rtol=1e-6, which=name)
        ctx.event(name)
    s = nlse.solver(q, local_error=1e-6)
    # self-steepening makes the split step's exponential non-unitary; it is
    # then only first order
    if not q.shock:
        s.method = type(s).METHOD_SSFM
        s.eta = 3
        o = nlse.run(ctx, q, k, s=s)
        ctx.close(o[3].AT, base[3].AT, 'split-step-method', rtol=1e-4)
        ctx.event('split step')


def graded(ctx):
    """Fibres whose nonlinearity and dispersion depend on z: with reloading every
    output step uses the values at its start, without it those at z = 0."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(64, 128, 200), gain=0.0)
    k = int(rng.integers(1, 6))
    a, b = rng.uniform(.4, 1.4), rng.uniform(-.6, 1.) / q.L
    c, d = rng.uniform(.4, 1.4), rng.uniform(-2, 2) / q.L
    which = int(rng.integers(1, 4))
    reload_ = bool(rng.random() < .75)
    if which == 1:
        c, d = 1., 0.
    if which == 2:
        a, b = 1., 0.
    ctx.note(steps=k, which=which, reload=reload_, **nlse.info(q))
    f = nlse.fiber(q)
    zs = []

    def gam(z):
        zs.append(float(z))
        return q.gamma * (a + b * z)
    if which & 1:
        f.set_gamma_function(gam)
    if which & 2:
        f.set_dispersion_function(lambda z: [x * (c + d * z) for x in nlse.about(q, q.betas)])
    z, AW, AT, po = nlse.run(ctx, q, k, f=f, solver_kw=dict(local_error=LE), reload_fiber_each_step=reload_)
    p = nlse.pulse(q)
    for i in range(k):
        zi = i * q.L / k if reload_ else 0.
        g = nlse.fiber(q, L=q.L / k, gamma=q.gamma * (a + b * zi), betas=[x * (c + d * zi) for x in q.betas])
        p = nlse.run(ctx, q, 1, p=p, f=g, solver_kw=dict(local_error=LE))[3]
        ctx.close(AT[:, i], p.AT, 'graded-column', rtol=TOL, step=i)
    ctx.close(po.AT, p.AT, 'graded-output', rtol=TOL)
    if which & 1:
        ctx.check(min(zs) >= -1e-12 and max(zs) <= q.L * (1 + 1e-9), 'positions-inside-the-fibre',
                  low=min(zs), high=max(zs), L=q.L)
    ctx.event('graded fibres')


def coarse(ctx):
    """Whatever the tolerance, first step and number of saved positions, what
    one run returns agrees with itself."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(32, 64, 128), nmax=4.)
    k = int(gen.logu(rng, 1, 60))
    kw = dict(local_error=gen.logu(rng, 1e-5, .3), dz=q.L * gen.logu(rng, 1e-3, 3))
    ctx.note(steps=k, **nlse.info(q), **kw)
    z, AW, AT, po = nlse.run(ctx, q, k, solver_kw=kw)
    ctx.need(AT.shape == (q.n, k) and AW.shape == (q.n, k) and len(z) == k + 1, 'output-shape')
    ctx.close(z, np.linspace(0, q.L, k + 1), 'positions', rtol=1e-12)
    for i in range(k):
        ctx.close(AW[:, i], ref.to_freq(AT[:, i]), 'columns-are-a-fourier-pair', rtol=1e-6)
    ctx.close(AT[:, -1], po.AT, 'last-column-is-output', rtol=1e-6)
    ctx.event('coarse runs')


def firststep(ctx):
    """The step a solver starts with is only a start: however long, it is
    refined until the tolerance is met."""
    rng = ctx.rng
    q = nlse.problem(rng, sizes=(32, 64, 128, 200), nmax=gen.pick(rng, [2., 4., 8.]))
    k = int(rng.integers(1, 4))
    dz = q.L * gen.logu(rng, .05, 100)
    ctx.note(steps=k, dz=dz, **nlse.info(q))
    o = nlse.run(ctx, q, k, solver_kw=dict(local_error=LE, dz=dz))
    b = nlse.run(ctx, q, k, solver_kw=dict(local_error=LE, dz=q.L / 300))
    if not (nlse.resolved(b[3].AT) and nlse.resolved(o[3].AT)) and np.all(np.isfinite(o[3].AT)):
        ctx.event('field at the edge of its grid')
        return
    ctx.close(o[3].AT, b[3].AT, 'first-step', rtol=2 * TOL)
    ctx.close(o[2], b[2], 'first-step', rtol=2 * TOL)
    ctx.event('first steps')


STRATA = [('firststep', firststep, 1), ('steps', steps, 3), ('cut', cut, 2), ('history', history, 2), ('siblings', siblings, 2), ('backends', backends, 2), ('graded', graded, 2),
          ('coarse', coarse, 2)]
