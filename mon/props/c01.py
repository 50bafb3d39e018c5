"""C01 grids agree with (NPTS, time window, centre wavelength) after any history."""
import copy

import numpy as np

from mon import gen, ref

RULE = ('random histories of grid setters (all units), reads of random subsets '
        'of the grid properties, in-place edits of returned arrays, copies and '
        'interleaved second pulses; every property compared with the closed form.')
QUICK, THOROUGH = 8000, 60000
MIN_CHECKS = 54000
BUDGET = 200000
FILES = ['src/pynlo/light/PulseBase.py']

ARRAYS = ['wl_nm', 'wl_mks', 'W_THz', 'W_mks', 'F_THz', 'F_mks', 'V_THz',
          'V_mks', 'T_ps', 'T_mks']
SCALARS = ['dT_ps', 'dT_mks', 'dF_THz', 'dF_mks', 'time_window_ps',
           'time_window_mks', 'center_wavelength_nm', 'center_wavelength_mks',
           'center_frequency_THz', 'center_frequency_mks', 'NPTS', 'frep_MHz',
           'frep_mks']
ALL = ARRAYS + SCALARS


class Model:
    def __init__(self, n=None, tw=None, f0=None, frep=100.0):
        self.n, self.tw, self.f0, self.frep = n, tw, f0, frep

    def value(self, name):
        g = ref.grids(self.n, self.tw, self.f0)
        t = 1e-12
        d = dict(W_THz=g['W'], W_mks=g['W'] / t, F_THz=g['F'], F_mks=g['F'] / t,
                 V_THz=g['V'], V_mks=g['V'] / t, T_ps=g['T'], T_mks=g['T'] * t,
                 wl_nm=g['wl'], wl_mks=g['wl'] * 1e-9,
                 dT_ps=g['dT'], dT_mks=g['dT'] * t, dF_THz=g['dF'], dF_mks=g['dF'] / t,
                 time_window_ps=self.tw, time_window_mks=self.tw * t,
                 center_wavelength_nm=g['wl0'], center_wavelength_mks=g['wl0'] * 1e-9,
                 center_frequency_THz=self.f0, center_frequency_mks=self.f0 / t,
                 NPTS=self.n, frep_MHz=self.frep, frep_mks=self.frep * 1e6)
        return d[name]


def compare(ctx, p, m, name):
    got = getattr(p, name)
    want = m.value(name)
    ctx.event('grid reads')
    kw = dict(name=name, n=m.n, tw=m.tw, f0=m.f0)
    if name in ('wl_nm', 'wl_mks'):
        w = m.value('W_THz')
        if np.min(np.abs(w)) < 1e-5 * 2 * np.pi * m.f0:
            return got
        # lambda * omega is well conditioned where lambda itself is not
        g = np.asarray(got)
        if ctx.check(g.shape == w.shape, 'grid-shape', got=g.shape, want=w.shape, **kw):
            unit = 1.0 if name == 'wl_nm' else 1e9
            ctx.close(g * w * unit, np.full(w.shape, 2 * np.pi * ref.C_NMPS),
                      'wavelength-grid', rtol=1e-9, **kw)
    elif name in ARRAYS:
        ctx.close(got, want, 'array-grid', rtol=1e-11, **kw)
    elif name == 'NPTS':
        ctx.check(got == want, 'npts', got=got, **kw)
    elif name in ('dF_THz', 'dF_mks'):
        # a difference of two neighbouring frequencies
        ctx.close(got, want, 'scalar-grid', rtol=1e-11 * max(1.0, m.f0 * m.tw), **kw)
    else:
        ctx.close(got, want, 'scalar-grid', rtol=1e-11, **kw)
    return got


def ladder(ctx, p, m):
    """Relations among the reported values themselves."""
    W, F, V, T = p.W_THz, p.F_THz, p.V_THz, p.T_ps
    ctx.close(W, 2 * np.pi * F, 'w-is-2pi-f', rtol=1e-12)
    ctx.close(W - V, np.full(m.n, 2 * np.pi * p.center_frequency_THz), 'w-minus-v', rtol=1e-12)
    ctx.close(np.diff(T), np.full(m.n - 1, p.dT_ps), 't-uniform', rtol=1e-9,
              scale=p.dT_ps * m.n)
    ctx.close(p.dT_ps * p.dF_THz * m.n, 1.0, 'dt-df-n', rtol=1e-10 * max(1, m.f0 * m.tw))
    ctx.close(T[m.n // 2], 0.0, 't-centre', atol=1e-12 * m.tw)
    ctx.close(V[m.n // 2], 0.0, 'v-centre', atol=1e-12 * abs(V[0]))


def random_target(rng):
    n = gen.pick(rng, [2, 4, 8] + gen.EVEN_BIG)
    tw = gen.logu(rng, .02, 500.)
    return n, tw, ref.C_NMPS / float(rng.uniform(150., 12000.))


def step(ctx, p, m):
    rng = ctx.rng
    k = int(rng.integers(10))
    n, tw, f0 = random_target(rng)
    if k == 0:
        p.set_NPTS(gen.as_int(rng, n))
        m.n = n
    elif k == 1:
        p.set_time_window_ps(gen.as_number(rng, tw))
        m.tw = tw
    elif k == 2:
        p.set_time_window_s(tw * 1e-12)
        m.tw = tw
    elif k == 3:
        d = float(m.n / tw)
        p.set_frequency_window_THz(gen.as_number(rng, d))
        m.tw = m.n / d
    elif k == 4:
        d = int(round(m.n / tw * 1e12)) if rng.random() < .5 else m.n / tw * 1e12
        p.set_frequency_window_mks(d)
        m.tw = m.n / d * 1e12
    elif k == 5:
        p.set_center_wavelength_nm(gen.as_number(rng, ref.C_NMPS / f0))
        m.f0 = f0
    elif k == 6:
        p.set_center_wavelength_m(ref.C_NMPS / f0 * 1e-9)
        m.f0 = f0
    elif k == 7:
        m.frep = float(gen.near(rng, m.frep) or gen.logu(rng, 1e-3, 9e5))
        p.set_frep_MHz(m.frep)
    elif k == 8:
        # same product n and nearly the same parameters: caches keyed on less
        # than the whole state are fooled by these
        j = int(rng.integers(5))
        tiny = 1 + gen.sgn(rng) * gen.logu(rng, 1e-9, 1e-2)
        if j == 0:
            m.tw = m.tw * tiny
            p.set_time_window_ps(m.tw)
        elif j == 3:
            m.f0 = m.f0 * tiny
            (p.set_center_wavelength_nm if rng.random() < .5 else lambda x: p.set_center_wavelength_m(x * 1e-9))(ref.C_NMPS / m.f0)
        elif j == 4:
            m.tw = m.tw * tiny
            (p.set_frequency_window_THz if rng.random() < .5 else lambda x: p.set_frequency_window_mks(x * 1e12))(m.n / m.tw)
        elif j == 1:
            m.tw *= 2.0
            m.n = max(2, m.n // 2 // 2 * 2)
            p.set_time_window_ps(m.tw)
            p.set_NPTS(m.n)
        else:
            old = m.f0
            p.set_center_wavelength_nm(700.)
            p.set_center_wavelength_nm(ref.C_NMPS / old)
    else:
        p.set_time_window_ps(m.tw)
    ctx.event('setter:%d' % k)
    return k


def history(ctx):
    rng = ctx.rng
    n, tw, f0 = random_target(rng)
    pulses = []
    for _ in range(int(rng.integers(1, 4))):
        frep = float(gen.logu(rng, .01, 1e5)) if rng.random() < .5 else None
        pulses.append((gen.bare_pulse(rng, n, tw, ref.C_NMPS / f0, frep),
                       Model(n, tw, f0, 100.0 if frep is None else frep)))
    trace = []
    for _ in range(int(rng.integers(4, 14))):
        i = int(rng.integers(len(pulses)))
        p, m = pulses[i]
        # warm a random subset of reads, change, then re-read
        for name in rng.permutation(ALL)[:int(rng.integers(0, 5))]:
            compare(ctx, p, m, name)
        trace.append((i, step(ctx, p, m)))
        for name in rng.permutation(ALL)[:int(rng.integers(0, 4))]:
            compare(ctx, p, m, name)
    ctx.note(pulses=len(pulses), trace=trace, n=n, tw=tw)
    for p, m in pulses:
        for name in ALL:
            compare(ctx, p, m, name)
        ladder(ctx, p, m)


def edits(ctx):
    """Editing what a read returned must not change later reads."""
    rng = ctx.rng
    n, tw, f0 = random_target(rng)
    p = gen.bare_pulse(rng, n, tw, ref.C_NMPS / f0)
    m = Model(n, tw, f0)
    order = [str(x) for x in rng.permutation(ARRAYS)]
    ctx.note(n=n, tw=tw, f0=f0, order=order)
    for name in order:
        a = compare(ctx, p, m, name)
        try:
            a[...] = rng.normal(size=a.shape)
            a *= 3.0
        except ValueError:
            ctx.event('read-only array returned')
        ctx.event('in-place edits')
        for other in rng.permutation(ARRAYS)[:3]:
            compare(ctx, p, m, str(other))
        compare(ctx, p, m, name)


def copies(ctx):
    """Copies start with the same grids and then go their own way."""
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng)
    m = Model(info['n'], info['tw'], p.center_frequency_THz)
    ctx.close(p.center_frequency_THz, ref.C_NMPS / info['wl'], 'scalar-grid', rtol=1e-11)
    for name in rng.permutation(ALL)[:4]:
        compare(ctx, p, m, str(name))
    q = copy.deepcopy(p) if rng.random() < .5 else p.create_cloned_pulse()
    mq = Model(m.n, m.tw, m.f0, p.frep_MHz)
    m.frep = p.frep_MHz
    trace = []
    for _ in range(int(rng.integers(1, 5))):
        if rng.random() < .5:
            trace.append(('p', step(ctx, p, m)))
        else:
            trace.append(('q', step(ctx, q, mq)))
    ctx.note(trace=trace, **info)
    for name in ALL:
        compare(ctx, p, m, name)
        compare(ctx, q, mq, name)


def derived(ctx):
    """Library operations that rebuild grids leave them consistent as well."""
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng)
    m = Model(info['n'], info['tw'], p.center_frequency_THz, p.frep_MHz)
    for name in rng.permutation(ALL)[:5]:
        compare(ctx, p, m, str(name))
    k = int(rng.integers(5))
    ctx.note(op=k, **info)
    if k == 0:
        e = int(rng.integers(1, 3))
        p.expand_time_window(e, gen.pick(rng, ['before', 'after', 'even']))
        m.n, m.tw = m.n * 2 ** e, m.tw * 2 ** e
    elif k == 1:
        wl = ref.C_NMPS / (m.f0 * rng.uniform(.8, 1.25))
        p = p.interpolate_to_new_center_wl(wl)
        m.f0 = ref.C_NMPS / wl
    elif k == 2:
        g = ref.grids(m.n, m.tw, m.f0)
        nn = 2 * int(rng.integers(1, max(2, m.n // 4)))
        lo = int(rng.integers(nn // 2, m.n - nn // 2 + 1))
        lo = min(lo, m.n - 1)
        p = p.create_subset_pulse(float(g['wl'][lo]), nn)
        m = Model(nn, m.tw, g['F'][lo], m.frep)
    elif k == 3:
        q, _, i2 = gen.loaded_pulse(rng)
        for name in rng.permutation(ALL)[:5]:
            getattr(q, str(name))
        q.clone_pulse(p)
        p = q
    else:
        q, _, i2 = gen.loaded_pulse(rng)
        for name in rng.permutation(ALL)[:5]:
            getattr(q, str(name))
        q.load_pulse_dict(p.get_pulse_dict())
        p = q
    for name in ALL:
        compare(ctx, p, m, name)


STRATA = [('history', history, 4), ('edits', edits, 1), ('copies', copies, 1),
          ('derived', derived, 2)]
