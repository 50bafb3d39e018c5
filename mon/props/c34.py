"""C34 computations in one process do not influence each other."""
import contextlib
import hashlib
import os
import pickle
import struct
import sys

import numpy as np

from mon import core, dfg, fib, gen, nlse, ode, ref, xtal

RULE = ('two to five random jobs (pulses, noise, fibres, amplifiers, propagations, '
        'coherence, compressors, crystals, beams, waveguides, mixing, integrations, '
        'tables), twins and near twins among them, run in one process with their stages '
        'interleaved at random; each result compared with that of the same job alone in '
        'a process forked before the library was used; arguments and process state '
        'digested before and after every stage.')
QUICK, THOROUGH = 1200, 12000
MIN_CHECKS = 135000
BUDGET = 20_000_000
FILES = ['src/pynlo/' + f for f in (
    'light/PulseBase.py', 'light/DerivedPulses.py', 'light/beam.py', 'light/high_V_waveguide.py',
    'media/fibers/fiber.py', 'media/fibers/calculators.py', 'media/crystals/CrystalContainer.py',
    'media/crystals/XTAL_PPLN.py', 'devices/grating_compressor.py', 'util/ode_solve/steppers.py',
    'interactions/FourWaveMixing/SSFM.py', 'interactions/ThreeWaveMixing/DFG_integrand.py')]
ASSUMPTIONS = ['jobs are deterministic given their seed: confirmed by their twins']


class Near:
    """A generator whose k-th uniform number is off by a little."""

    def __init__(self, seed, k, eps):
        self.r, self.k, self.eps, self.c = np.random.default_rng(seed), k, eps, 0

    def uniform(self, *a, **kw):
        v = self.r.uniform(*a, **kw)
        if np.ndim(v) == 0:
            self.c += 1
            if self.c == self.k:
                return v * (1 + self.eps)
        return v

    def __getattr__(self, nm):
        return getattr(self.r, nm)


def digest(*objs):
    """What a caller can see of the objects handed to the code."""
    h = hashlib.sha256()

    def add(o, depth=0):
        if isinstance(o, np.ndarray):
            h.update(str((o.dtype, o.shape)).encode() + np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (int, float, complex, str, bool, type(None), np.generic)):
            h.update(repr(o).encode())
        elif isinstance(o, (list, tuple)):
            h.update(b'[%d' % len(o))
            for x in o:
                add(x, depth + 1)
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                add(o[k], depth + 1)
        elif type(o).__name__.endswith('Pulse'):
            add([o.NPTS, o.time_window_ps, o.center_wavelength_nm, o.frep_MHz, o.AW, o.W_mks, o.T_ps])
        elif type(o).__name__ == 'FiberInstance':
            add([o.length, o.gamma, o.gain, np.array(o.betas), o.fiberspecs, o.fibertype])
    add(list(objs))
    return h.hexdigest()


def light(rng, n=None, tw=None, wl=None):
    from pynlo.light.DerivedPulses import GaussianPulse, SechPulse, SincPulse
    cls = [SechPulse, GaussianPulse, SincPulse][int(rng.integers(3))]
    n = n or int(gen.pick(rng, [16, 32, 64]))
    tw = tw or float(gen.logu(rng, 1.1, 8.))
    while True:
        l = wl or float(rng.uniform(500, 2500))
        if ref.C_NMPS / l > .6 * n / tw:
            break
        if wl:
            tw *= 2
    return cls(float(gen.logu(rng, .01, 100)), float(tw * rng.uniform(.05, .15)), l, time_window_ps=tw, NPTS=n,
               frep_MHz=float(rng.uniform(1, 500)), GDD=float(rng.normal() * 1e-4),
               power_is_avg=bool(rng.random() < .3))


# Each job is a generator: it yields ('in', objects) around calls whose
# arguments must come back untouched, and ('out', label, value) for results.

def job_pulse(rng, tag):
    p = light(rng)
    yield 'out', 'grids', [p.wl_nm, p.W_THz, p.V_mks, p.T_ps, p.F_mks, p.dT_mks, p.dF_THz]
    for _ in range(int(rng.integers(2, 6))):
        k = int(rng.integers(12))
        if k == 0:
            p.chirp_pulse_W(float(rng.uniform(-1e-3, 1e-3)), float(rng.uniform(-1e-5, 1e-5)))
        elif k == 1:
            p.set_epp(float(gen.logu(rng, 1e-13, 1e-9)))
        elif k == 2:
            p.add_time_offset(float(rng.uniform(-.1, .1)))
        elif k == 3:
            p.set_center_wavelength_nm(p.center_wavelength_nm * rng.uniform(.9, 1.1))
        elif k == 4:
            p.set_time_window_ps(p.time_window_ps * rng.uniform(1., 1.1))
        elif k == 5:
            q = p.create_cloned_pulse()
            yield 'in', p
            q.chirp_pulse_W(float(rng.uniform(-1, 1)) * 1e-3)
            q.set_center_wavelength_nm(777.)
            yield 'same', p
            yield 'out', 'clone', q.AW
        elif k == 6:
            yield 'in', p
            yield 'out', 'diagnostics', [p.calc_epp(), p.calculate_weighted_avg_frequency_mks(),
                                         p.calculate_intensity_autocorrelation()]
            yield 'same', p
        elif k == 7 and p.NPTS <= 64:
            p.expand_time_window(1, gen.pick(rng, ['before', 'even', 'after']))
        elif k == 8:
            yield 'in', p
            q = p.interpolate_to_new_center_wl(p.center_wavelength_nm * rng.uniform(.97, 1.03))
            q.set_AW(q.AW * 2)
            yield 'same', p
            yield 'out', 'interpolated', [q.AW, q.W_THz]
        elif k == 9:
            p.rotate_spectrum_to_new_center_wl(p.center_wavelength_nm * rng.uniform(.98, 1.02))
        elif k == 10:
            yield 'in', p
            yield 'out', 'spectrogram', p.spectrogram(time_steps=6, gate_type=gen.pick(rng, ['frog', 'xfrog']))[3]
            yield 'same', p
        else:
            q = type(p).__mro__[1]()
            d = p.get_pulse_dict()
            yield 'in', d, p
            q.load_pulse_dict(d)
            q.chirp_pulse_T(.1, 0., 1.)
            yield 'same', d, p
            yield 'out', 'loaded', q.AT
        yield 'out', 'field', [p.AW, p.wl_nm, p.T_ps]


def job_noise(rng, tag):
    p = light(rng)
    yield 'go',
    np.random.seed(int(rng.integers(2 ** 31)))
    p.add_noise(gen.pick(rng, ['sqrt_N_freq', 'one_photon_freq']))
    yield 'drew',
    yield 'out', 'noisy', p.AW


def a_fibre(rng, p, tag, gain=True):
    from pynlo.media.fibers.fiber import FiberInstance
    k = int(rng.integers(5))
    L = float(gen.logu(rng, .01, 2))
    wl = p.center_wavelength_nm
    half = .55 * p.NPTS / p.time_window_ps
    f = FiberInstance()
    betas = [float(rng.uniform(-1, 1)) * 1e-2, float(rng.uniform(-1, 1)) * 1e-4]
    if k == 0 and gain:
        return fib.amplifier(rng, p.center_frequency_THz, half, wl, L, tag)[0]
    if k == 1:
        x = np.linspace(wl * .6, wl * 1.6, 24)
        f.generate_fiber(L, wl, betas, .01)
        f.fiberspecs['dispersion_format'] = 'D'
        f.poly_order = int(rng.integers(2, 5))
        f.x, f.y = x, fib.table_values(rng, x)
        return f
    if k == 2:
        w = np.linspace(.3, 2.5, 60) * wl
        s = rng.uniform(.9, 1.1)
        f.generate_fiber(L, wl, betas, .01)
        f.fiberspecs['dispersion_format'] = 'n'
        f.x, f.y = w, 1.45 + .01 * s * (wl / w) ** 2 - .005 * (w / wl) ** 2
        return f
    f.generate_fiber(L, wl * rng.uniform(.98, 1.02), betas, float(gen.logu(rng, 1e-3, .1)),
                     gain=float(rng.uniform(-1, 1)) if gain and rng.random() < .4 else 0,
                     gvd_units=gen.pick(rng, ['ps^n/m', 'ps^n/km']))
    if k == 3:
        b, L_ = np.array(betas), f.length
        f.set_dispersion_function(lambda z: b * (1 - .5 * z / L_))
        f.set_gamma_function(lambda z: .01 * (1 + z / L_))
    return f


def job_fibre(rng, tag):
    p = light(rng)
    f = a_fibre(rng, p, tag)
    for i in range(int(rng.integers(1, 4))):
        yield 'in', p
        yield 'out', 'betas', f.get_betas(p, z=0.)
        yield 'out', 'beta2', [f.Beta2(p), f.Beta2_to_D(p), f.get_gamma(0.)]
        yield 'same', p
        if not f.is_simple_fiber and f.fiberspecs['is_gain']:
            P = p.calc_epp() * p.frep_mks * rng.uniform(1.2, 5)
            yield 'in', p
            yield 'opt', 'gain', f.get_gain(p, P)
        else:
            yield 'out', 'gain', f.get_gain(p)
        yield 'same', p
        if rng.random() < .5:
            p.set_center_wavelength_nm(p.center_wavelength_nm * rng.uniform(.99, 1.01))


def job_propagation(rng, tag):
    q = nlse.problem(rng, sizes=(32, 64), lengths=(.05, .3), nmax=1.)
    s = nlse.solver(q, local_error=float(gen.pick(rng, [1e-2, 1e-3])))
    yield 'go',
    for i in range(int(rng.integers(1, 3))):
        p, f = nlse.pulse(q), nlse.fiber(q)
        p.chirp_pulse_W(float(rng.uniform(-1, 1)) * q.T0 ** 2)
        f.length *= rng.uniform(.5, 1.)
        yield 'in', p, f
        out = s.propagate(p, f, int(rng.integers(1, 4)))
        yield 'same', p, f
        yield 'run', 'propagated', [out[0], out[1], out[2], out[3].AW, out[3].frep_MHz]


def job_coherence(rng, tag):
    q = nlse.problem(rng, sizes=(32,), lengths=(.02, .1), nmax=.5)
    s = nlse.solver(q, local_error=1e-2)
    p, f = nlse.pulse(q), nlse.fiber(q)
    yield 'in', p, f
    g, r = s.calculate_coherence(p, f, num_trials=int(rng.integers(2, 4)), random_seed=int(rng.integers(2 ** 31)), n_steps=1)
    yield 'drew',
    yield 'same', p, f
    yield 'run', 'trials', [x[1] for x in r]


def job_grating(rng, tag):
    from pynlo.devices.grating_compressor import TreacyCompressor
    lines, deg = float(rng.uniform(100, 400)), float(rng.uniform(10, 30))
    c = TreacyCompressor(lines, deg)
    wl = float(rng.uniform(900, 1300))
    p = light(rng, n=16, tw=3., wl=wl)
    yield 'go',
    yield 'out', 'compressor', [c.calc_compressor_gdd(wl, .01), c.calc_compressor_HOD(wl, .01, 3), c.calc_theta(wl)]
    c.apply_phase_to_pulse(float(gen.logu(rng, 1e-4, .1)), p)
    yield 'out', 'compressed', p.AW


def filled(rng, p):
    p.set_AW(rng.normal(size=p.NPTS) + 1j)
    return p


def job_crystal(rng, tag):
    x, m = xtal.build(rng)
    p = filled(rng, xtal.pulse(rng, m.kind, sizes=(16, 32)))
    ax = xtal.axis_of(rng, m)
    w = xtal.wavelengths(rng, m)
    for _ in range(int(rng.integers(1, 4))):
        yield 'in', p, w
        a, b = x.get_pulse_n(p, ax), x.get_pulse_k(p, ax)
        yield 'same', p, w
        yield 'out', 'index', [a, b, x.n(w, ax), x.length_mks]
        a *= 2
        b *= 2
        lo, hi = xtal.RANGE[m.kind]
        l = float(rng.uniform(lo * 1.3, hi * .7))
        yield 'out', 'group', [x.calculate_group_velocity_nm_ps(l, ax), x.calculate_D_ps_nm_km(l, ax)]
        if rng.random() < .6:
            xtal.change(rng, x, m)
        if rng.random() < .3:
            x.set_caching(bool(rng.random() < .5))
        if m.kind == 'PPLN' and rng.random() < .5:
            a, b = float(rng.uniform(5e-6, 3e-5)), float(rng.uniform(-1e-5, 1e-5))
            if rng.random() < .5:
                x.set_pp(lambda z, a=a, b=b: a + b * z)
            else:
                x.set_pp((a,)) if rng.random() < .5 else x.set_pp_chirp(a, a + b / 2)
            yield 'out', 'poling', x.pp(1e-4)
        yield 'go',


def job_beam(rng, tag):
    from pynlo.light.beam import OneDBeam
    from pynlo.light.high_V_waveguide import OneDBeam_highV_WG
    x, m = xtal.build(rng)
    ps = [filled(rng, xtal.pulse(rng, m.kind, sizes=(16,))) for _ in range(2)]
    ax = xtal.axis_of(rng, m)
    yield 'in', ps[0], ps[1]
    b = [OneDBeam(waist_meters=float(gen.logu(rng, 1e-5, 1e-3)), this_pulse=p, axis=ax) for p in ps]
    g = OneDBeam_highV_WG(float(rng.uniform(5, 50)), ps[0], ax)
    yield 'out', 'mode', g.rtP_to_a_2(ps[0], x)
    z = float(rng.uniform(-.1, .1))
    yield 'out', 'beam', [b[0].calculate_waist(z, 1.5), b[0].calculate_R(z, 1.5), b[0].calculate_gouy_phase(z, 1.5),
                          b[0].rtP_to_a_2(ps[0], x, z=z), b[1].waist]
    if rng.random() < .5:
        b[0].set_waist_to_match_central_waist(ps[0], float(gen.logu(rng, 1e-5, 1e-3)), x)
    else:
        b[0].set_waist_to_match_confocal(ps[0], ps[1], b[1], x)
    yield 'out', 'matched', b[0].waist
    yield 'out', 'overlap', b[0].calc_overlap_integral(z, ps[0], ps[1], b[1], x)
    yield 'same', ps[0], ps[1]


def job_mixing(rng, tag):
    c = core.Ctx('C34', 0, 0, 'job')
    q = dfg.problem(rng, nlist=(16,), strength=(.2, .8), domains=(2, 5))
    yield 'in', q.pump, q.sgnl
    ob = dfg.build(c, q)
    yield 'drew',                   # the idler starts from a vacuum of random phase
    y = np.array(ob.ystart)
    d = np.empty_like(y)
    ob.deriv(q.L * rng.uniform(.1, .9), y.copy(), d)
    yield 'out', 'mixing', [y, d]
    if rng.random() < .5:
        a = dfg.integrate(c, q, ob, saves=2, rtol=1e-5)
        yield 'run', 'mixed', np.array(a.y)
    yield 'same', q.pump, q.sgnl


def job_integration(rng, tag):
    p = ode.pick(rng)
    y = p.y0()
    out = ode.output(int(rng.integers(2, 6)))
    a = ode.make(p, out, atol=1e-8, rtol=1e-8, y0=y)
    yield 'go',
    a.integrate()
    yield 'run', 'integrated', [y, np.array(out.ysave[:out.count]), np.array(out.xsave[:out.count])]


def job_table(rng, tag):
    from pynlo.media.fibers.calculators import DTabulationToBetas
    x = np.linspace(1000, 1000 + float(rng.uniform(200, 900)), 20)
    t = np.vstack((x, fib.table_values(rng, x))).T
    yield 'in', t
    yield 'out', 'table', DTabulationToBetas(float(rng.uniform(1050, 1150)), t, int(rng.integers(1, 4)), DDataIsFile=False)
    yield 'same', t


JOBS = [job_pulse, job_noise, job_fibre, job_propagation, job_coherence, job_grating,
        job_crystal, job_beam, job_mixing, job_integration, job_table]


def make(spec):
    name, seed, k, eps, tag = spec
    fn = next(j for j in JOBS if j.__name__ == 'job_' + name)
    return fn(Near(seed, k, eps), tag)


@contextlib.contextmanager
def backend(b):
    with nlse.backend(prefftshift=b[0], freq_raman=b[1]):
        yield


def alone(spec, b):
    """The results of a job that is the only one (called in a fresh process)."""
    res = []
    with backend(b), core.quiet():
        for ev in make(spec):
            if ev[0] in ('out', 'opt', 'run'):
                res.append(pickle.loads(pickle.dumps(ev)))
    return res


class Fresh:
    """A process forked before the library did anything, which forks one child
    per job."""

    def __init__(self):
        self.r1, self.w1 = os.pipe()
        self.r2, self.w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(self.w1)
            os.close(self.r2)
            self.serve()
        os.close(self.r1)
        os.close(self.w2)
        self.inp, self.out = os.fdopen(self.w1, 'wb'), os.fdopen(self.r2, 'rb')

    def serve(self):
        import signal
        signal.alarm(0)
        inp = os.fdopen(self.r1, 'rb')
        while True:
            h = inp.read(4)
            if len(h) < 4:
                os._exit(0)
            req = inp.read(struct.unpack('I', h)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(100)
                    try:
                        a = ('ok', alone(*pickle.loads(req)))
                    except Exception as e:
                        a = ('error', repr(e))
                    a = pickle.dumps(a)
                    with os.fdopen(self.w2, 'wb') as o:
                        o.write(struct.pack('I', len(a)) + a)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                a = pickle.dumps(('error', 'status %d' % st))
                os.write(self.w2, struct.pack('I', len(a)) + a)

    def ask(self, spec, b):
        a = pickle.dumps((spec, b))
        self.inp.write(struct.pack('I', len(a)) + a)
        self.inp.flush()
        n, = struct.unpack('I', self.out.read(4))
        return pickle.loads(self.out.read(n))


FRESH = [None, None]


def fresh():
    if FRESH[1] != os.getpid():
        # importing the integrator sets numpy's warnings; that is not a use
        import pynlo.interactions.FourWaveMixing.SSFM, pynlo.interactions.ThreeWaveMixing   # noqa
        import pynlo.util.ode_solve.dopr853, pynlo.light.high_V_waveguide                    # noqa
        import pynlo.devices.grating_compressor, pynlo.media.fibers.fiber                    # noqa
        import pynlo.media.crystals.XTAL_PPLN                                                # noqa
        from pynlo.media.crystals import XTAL_AgGaS, XTAL_AgGaSe2                            # noqa
        FRESH[:] = [Fresh(), os.getpid()]
    return FRESH[0]


def process():
    """State of the process that no operation has any business changing."""
    from pynlo.interactions.FourWaveMixing import global_variables as gv
    s = np.random.get_state()
    return {'random state': (s[2], hashlib.sha256(s[1].tobytes()).hexdigest(), s[3]),
            'error handling': dict(np.geterr()), 'directory': os.getcwd(),
            'files': sorted(os.listdir('.'))[:50], 'print options': str(np.get_printoptions()),
            'switches': {k: v for k, v in vars(gv).items() if k.isupper()},
            'recursion': sys.getrecursionlimit(), 'path': len(sys.path)}


def flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from flat(x)
    else:
        yield v


def compare(ctx, got, want, clause, who):
    ctx.need([e[:2] for e in got] == [e[:2] for e in want], clause, job=who, got=[e[1] for e in got], want=[e[1] for e in want])
    for g, w in zip(got, want):
        rtol = {'out': 1e-12, 'run': 1e-9, 'opt': 1e-5}[g[0]]
        a, b = list(flat(g[2])), list(flat(w[2]))
        ctx.need(len(a) == len(b), clause, job=who, what=g[1])
        for u, v in zip(a, b):
            u, v = np.asarray(u), np.asarray(v)
            f = np.isfinite(v) if v.dtype.kind in 'fc' else np.ones(v.shape, bool)
            if not np.all(f):
                ctx.check(np.array_equal(f, np.isfinite(u)), clause, job=who, what=g[1])
                u, v = u[f], v[f]
            ctx.close(u, v, clause, rtol=rtol, atol=1e-300, job=who, what=g[1])


def company(ctx, names):
    rng = ctx.rng
    b = (bool(rng.random() < .5), bool(rng.random() < .5))
    specs = []
    for i in range(int(rng.integers(2, 6))):
        if specs and rng.random() < .45:           # a twin, or nearly one
            o = specs[int(rng.integers(len(specs)))]
            if rng.random() < .4:
                specs.append(o[:4] + ('j%d' % i,))
            else:
                specs.append((o[0], o[1], int(rng.integers(1, 9)),
                              gen.sgn(rng) * gen.logu(rng, 1e-8, 1e-2), 'j%d' % i))
        else:
            specs.append((gen.pick(rng, names), int(rng.integers(2 ** 31)), 0, 0., 'j%d' % i))
    ctx.note(jobs=specs, backend=b)
    srv = fresh()
    want = [srv.ask(s, b) for s in specs]
    for s, w in zip(specs, want):
        if w[0] != 'ok':
            ctx.violation('job-runs', job=s, error=w[1])
            return
    jobs = [make(s) for s in specs]
    got = [[] for _ in jobs]
    kept = [None] * len(jobs)
    live = list(range(len(jobs)))
    stages = 0
    with backend(b):
        while live:
            j = live[int(rng.integers(len(live)))]
            before = process()
            try:
                with core.quiet():
                    ev = next(jobs[j])
            except StopIteration:
                live.remove(j)
                continue
            stages += 1
            after = process()
            for k in before:
                if k == 'random state' and ev[0] == 'drew':
                    continue
                ctx.check(before[k] == after[k], 'process-left-alone', what=k, job=specs[j][0], after=after[k])
            if ev[0] == 'in':
                kept[j] = digest(*ev[1:])
            elif ev[0] == 'same':
                ctx.check(kept[j] == digest(*ev[1:]), 'arguments-left-alone', job=specs[j][0])
            elif ev[0] in ('out', 'opt', 'run'):
                got[j].append(pickle.loads(pickle.dumps(ev)))
    for s, g, w in zip(specs, got, want):
        compare(ctx, g, w[1], 'alone-equals-in-company', s[0])
        ctx.event('results compared', len(g))
        ctx.event('job ' + s[0])
    ctx.event('stages', stages)


ALL = [j.__name__[4:] for j in JOBS]


def anything(ctx):
    company(ctx, ALL)


def fibres(ctx):
    company(ctx, ['fibre', 'propagation', 'coherence', 'pulse', 'table'])


def crystals(ctx):
    company(ctx, ['crystal', 'beam', 'mixing', 'integration', 'pulse'])


def pulses(ctx):
    company(ctx, ['pulse', 'noise', 'fibre', 'grating', 'crystal'])


STRATA = [('anything', anything, 2), ('fibres', fibres, 1), ('crystals', crystals, 1), ('pulses', pulses, 1)]
