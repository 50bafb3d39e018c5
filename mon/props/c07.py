"""C07 copies and saved forms of a pulse are faithful and independent."""
import copy
import json
import os
import pickle

import numpy as np

from mon import gen, ref

RULE = ('random pulses of every class copied through every documented route '
        '(clone, copy into an existing pulse, deep copy, pickle, dictionary and '
        'JSON, FROG file), then either side is changed and both are re-read.')
QUICK, THOROUGH = 6000, 90000
MIN_CHECKS = 60700
BUDGET = 300000
FILES = ['src/pynlo/light/PulseBase.py', 'src/pynlo/light/DerivedPulses.py']


def source(ctx):
    import pynlo.light.DerivedPulses as D
    rng = ctx.rng
    if rng.random() < .5:
        p, A, info = gen.loaded_pulse(rng, frep=gen.logu(rng, 1e-3, 1e4))
        if rng.random() < .25:              # no repetition rate (or none yet)
            p.set_frep_MHz(gen.pick(rng, [None, 0., 0]))
        return p, info
    n, tw, wl = gen.grid(rng, tw_lo=1.1)
    w = tw * rng.uniform(.03, .1)
    cls = gen.pick(rng, [D.SechPulse, D.GaussianPulse, D.SincPulse, D.CWPulse])
    if cls is D.CWPulse:
        p = ctx.call(cls, 2.5, wl, time_window_ps=tw, NPTS=n)
        p.set_frep_MHz(gen.logu(rng, 1e-3, 1e4))
    else:
        p = ctx.call(cls, gen.logu(rng, 1e-3, 1e5), w, wl, time_window_ps=tw, NPTS=n,
                     frep_MHz=gen.logu(rng, 1e-3, 1e4), GDD=rng.normal() * w * w)
    return p, dict(n=n, tw=tw, wl=wl, field=cls.__name__)


def snap(p):
    return dict(n=p.NPTS, tw=p.time_window_ps, f0=p.center_frequency_THz, frep=p.frep_MHz,
                AT=p.AT, AW=p.AW, W=p.W_THz, T=p.T_ps, wl=p.wl_nm, dT=p.dT_mks,
                epp=p.calc_epp())


def same(ctx, a, b, clause, rtol=1e-11):
    for k in a:
        if a[k] is None:
            ctx.check(b[k] is None, clause, what=k)
        elif k == 'wl':
            ctx.close(np.asarray(b[k]) * np.asarray(a['W']), np.asarray(a[k]) * np.asarray(a['W']),
                      clause, rtol=1e-8, what=k)
        else:
            ctx.close(b[k], a[k], clause, rtol=rtol, what=k)


ROUTES = ['create', 'into', 'deepcopy', 'pickle', 'dict', 'json']


def route(ctx, p, name):
    from pynlo.light.PulseBase import Pulse
    rng = ctx.rng
    if name == 'create':
        return p.create_cloned_pulse()
    if name == 'deepcopy':
        return copy.deepcopy(p)
    if name == 'pickle':
        q = pickle.loads(pickle.dumps(p))
        if rng.random() < .5:
            q.load_consts()            # documented as needed 'after unpickling in some cases'
        return q
    if rng.random() < .5:
        q = Pulse()
    else:
        q, _, _ = gen.loaded_pulse(rng)
        if rng.random() < .3:
            q.set_NPTS(p.NPTS)
        if rng.random() < .3:
            q.set_time_window_ps(p.time_window_ps)
        getattr(q, gen.pick(rng, ['wl_nm', 'W_THz', 'T_ps', 'V_mks', 'F_THz']))
    if name == 'into':
        q.clone_pulse(p)
        return q
    d = p.get_pulse_dict()
    if name == 'json':
        d = json.loads(json.dumps(d))
    keep = copy.deepcopy(d)
    q.load_pulse_dict(d)
    ctx.check(keep == d, 'dictionary-unchanged')
    return q


def mutate(ctx, p):
    rng = ctx.rng
    k = int(rng.integers(9))
    n = p.NPTS
    if k == 0:
        p.set_AT(np.zeros(n))
    elif k == 1:
        p.set_AW(rng.normal(size=n))
    elif k == 2:
        p.set_center_wavelength_nm(p.center_wavelength_nm * 1.1)
    elif k == 3:
        p.set_time_window_ps(p.time_window_ps * 1.3)
    elif k == 4:
        p.set_frep_MHz((p.frep_MHz or 17.) * 2)
    elif k == 5:
        p.chirp_pulse_W(p.time_window_ps ** 2 / 100)
    elif k == 6:
        p.expand_time_window(1, 'even')
    elif k == 7:
        for nm in ('AT', 'AW', 'W_THz', 'T_ps', 'wl_nm', 'F_mks'):
            try:
                getattr(p, nm)[...] = 7.
            except ValueError:
                pass
    else:
        p.set_AT(p.AT * 3)
    return k


def copies(ctx):
    rng = ctx.rng
    p, info = source(ctx)
    name = gen.pick(rng, ROUTES)
    a = snap(p)
    q = route(ctx, p, name)
    same(ctx, a, snap(q), 'copy-equal')
    same(ctx, a, snap(p), 'source-unchanged', rtol=1e-13)
    # a chain of copies changes nothing either
    chain = [name]
    for _ in range(int(rng.integers(0, 3))):
        chain.append(gen.pick(rng, ROUTES))
        q = route(ctx, q, chain[-1])
    same(ctx, a, snap(q), 'copy-equal')
    if rng.random() < .5:
        p, q = q, p
    b = snap(q)
    if rng.random() < .2:
        # the copy is a working pulse: its grids follow a new centre
        wl = float(q.center_wavelength_nm * rng.uniform(.8, 1.3))
        q.set_center_wavelength_nm(wl)
        g = ref.grids(b['n'], b['tw'], ref.C_NMPS / wl)
        ctx.close(q.W_THz, g['W'], 'copy-works', rtol=1e-10)
        ctx.close(np.asarray(q.wl_nm) * np.asarray(q.W_THz), np.full(b['n'], 2 * np.pi * ref.C_NMPS),
                  'copy-works', rtol=1e-8)
        ctx.close(q.center_wavelength_nm, wl, 'copy-works', rtol=1e-11)
        b = snap(q)
    ops = [mutate(ctx, p) for _ in range(int(rng.integers(1, 4)))]
    same(ctx, b, snap(q), 'copy-independent', rtol=1e-13)
    ctx.note(chain=chain, ops=ops, **info)
    ctx.event('copies:' + '>'.join(chain[:1]))


def dictionaries(ctx):
    rng = ctx.rng
    p, info = source(ctx)
    a = snap(p)
    d = p.get_pulse_dict()
    ctx.note(**info)
    e = json.loads(json.dumps(d))
    ctx.close(np.array(e['AT_re']) + 1j * np.array(e['AT_im']), a['AT'], 'dictionary-content', rtol=1e-12)
    ctx.check(e['NPTS'] == a['n'], 'dictionary-content')
    ctx.close(e['time_window_ps'], a['tw'], 'dictionary-content', rtol=1e-12)
    ctx.close(e['center_wavelength_nm'], ref.C_NMPS / a['f0'], 'dictionary-content', rtol=1e-12)
    if a['frep'] is None:
        ctx.check(e['frep_MHz'] is None, 'dictionary-content')
    else:
        ctx.close(e['frep_MHz'], a['frep'], 'dictionary-content', rtol=1e-12)
    mutate(ctx, p)
    ctx.check(json.loads(json.dumps(d)) == e, 'dictionary-independent')
    b = snap(p)
    d['AT_re'][0] = 1e9
    d['NPTS'] = 4
    same(ctx, b, snap(p), 'copy-independent', rtol=1e-13)
    ctx.event('dictionaries')


def frog(ctx):
    from pynlo.light.DerivedPulses import FROGPulse
    rng = ctx.rng
    while True:
        n, tw, wl = gen.grid(rng, gen.EVEN_BIG, tw_lo=1.1)
        if n >= 32:
            break
    p = gen.bare_pulse(rng, n, tw, wl, gen.logu(rng, 1e-2, 1e4))
    i = np.arange(n)
    # amplitude that never vanishes inside and is negligible at the grid edges
    a = np.exp(-.5 * ((i - n / 2 - rng.uniform(-.1, .1) * n) / (n * rng.uniform(.03, .06))) ** 2)
    a = a * rng.uniform(.7, 1, size=n)
    ph = np.cumsum(rng.normal(size=n)) * .6
    S = a * np.exp(1j * ph) * 10 ** rng.uniform(-8, 3)
    p.set_AW(S)
    E = p.calc_epp()
    f1, f2 = bool(rng.random() < .5), bool(rng.random() < .5)
    fn = 'pulse_%d.dat' % ctx.index
    snapshot = snap(p)
    try:
        ctx.call(p.write_frog, fn, f1) if rng.random() < .5 else ctx.call(p.write_frog, fileloc=fn, flip_phase=f1)
        avg = bool(rng.random() < .5)
        q = ctx.call(FROGPulse, tw, wl, E * p.frep_mks if avg else E, frep_MHz=p.frep_MHz, NPTS=n,
                     power_is_avg=avg, fileloc=fn, flip_phase=f2)
    finally:
        if os.path.exists(fn):
            os.unlink(fn)
    ctx.note(n=n, tw=tw, wl=wl, flips=(f1, f2), avg=avg)
    want = S if f1 == f2 else S.conj()
    # energy is set with the trapezoidal rule, whose end points a reversal of
    # time moves
    want = want * np.sqrt(E / ref.trapz(np.abs(ref.to_time(want)) ** 2, tw * 1e-12 / n))
    ctx.close(q.AW, want, 'frog-roundtrip', rtol=3e-8)
    ctx.close(q.calc_epp(), E, 'frog-energy', rtol=1e-9)
    ctx.close(q.W_THz, p.W_THz, 'frog-grid', rtol=1e-11)
    ctx.close(q.frep_MHz, p.frep_MHz, 'frog-grid', rtol=1e-12)
    same(ctx, snapshot, snap(p), 'source-unchanged', rtol=1e-13)
    # default flags on both sides round-trip
    if rng.random() < .4:
        try:
            ctx.call(p.write_frog, fn)
            q = ctx.call(FROGPulse, tw, wl, E, frep_MHz=p.frep_MHz, NPTS=n, fileloc=fn)
        finally:
            if os.path.exists(fn):
                os.unlink(fn)
        ctx.close(q.AW, S, 'frog-roundtrip', rtol=1e-8)
    ctx.event('FROG files')


def regrid(ctx):
    """A written pulse read on another grid is the same field, sampled there."""
    from pynlo.light.DerivedPulses import FROGPulse
    rng = ctx.rng
    n = int(gen.pick(rng, [256, 512, 1000, 1024]))
    _, tw, wl = gen.grid(rng, [n], tw_lo=1.1)
    p = gen.bare_pulse(rng, n, tw, wl, gen.logu(rng, 1e-2, 1e4))
    s = n * rng.uniform(.04, .06)
    c = n / 2 + rng.uniform(-.1, .1) * n
    k1, k2, k3 = rng.uniform(-.8, .8), rng.uniform(-.4, .4) / s, rng.normal() * .1 / s ** 2

    def field(i):
        u = i - c
        return np.exp(-.5 * (u / s) ** 2 + 1j * (k1 * u + .5 * k2 * u ** 2 + k3 * u ** 3 / 6))
    scale = 10 ** rng.uniform(-6, 3)
    p.set_AW(scale * field(np.arange(n)))
    E = p.calc_epp()
    fn = 'regrid_%d.dat' % ctx.index
    flip = bool(rng.random() < .5)
    m = int(gen.pick(rng, [n, n, 2 * n, n - 2, n + 100]))
    tw2 = tw * float(rng.uniform(.9, 1.6))
    # the other carrier stays within the spectrum's reach
    wl2 = wl * (1 + float(rng.uniform(-1, 1)) * min(2e-4, .05 * n / tw * wl / ref.C_NMPS))
    try:
        ctx.call(p.write_frog, fn, flip)
        q = ctx.call(FROGPulse, tw2, wl2, E, frep_MHz=p.frep_MHz, NPTS=m, fileloc=fn, flip_phase=flip)
    finally:
        if os.path.exists(fn):
            os.unlink(fn)
    ctx.note(n=n, m=m, tw=tw, tw2=tw2, wl=wl, wl2=wl2)
    g = ref.grids(m, tw2, ref.C_NMPS / wl2)
    i = (g['W'] / (2 * np.pi) - ref.C_NMPS / wl) * tw + n // 2
    inside = (i > 0) & (i < n - 1)
    want = np.where(inside, field(np.clip(i, 0, n - 1)), 0)
    got = np.asarray(q.AW)
    gn, wn = np.sqrt(np.sum(np.abs(got) ** 2)), np.sqrt(np.sum(np.abs(want) ** 2))
    ctx.close(q.calc_epp(), E, 'frog-energy', rtol=1e-9)
    # a phase is recorded up to a multiple of 2 pi; interpolation costs a few per cent
    ctx.close(got / gn, want / wn, 'frog-regrid', rtol=.08, what='field read on another grid')
    ctx.event('FROG files read on another grid')


STRATA = [('copies', copies, 5), ('dictionaries', dictionaries, 1), ('frog', frog, 2), ('regrid', regrid, 1)]
