"""C26 index caching is invisible, crystals do not influence each other."""
import copy

import numpy as np

from mon import gen, ref, xtal

RULE = ('random interleavings of index queries with changes of pulses (grid, '
        'window, carrier), of crystals (temperature, angle, data set) and of the '
        'cache switch, on several crystals and pulses, with in-place edits of '
        'results; every answer compared with the published equation.')
QUICK, THOROUGH = 15000, 80000
MIN_CHECKS = 135000
BUDGET = 200000
FILES = ['src/pynlo/media/crystals/CrystalContainer.py', 'src/pynlo/media/crystals/XTAL_PPLN.py',
         'src/pynlo/media/crystals/XTAL_AgGaSe2.py', 'src/pynlo/media/crystals/XTAL_AgGaS.py']


def fits(p, kind):
    lo, hi = xtal.RANGE[kind]
    f = ref.grids(p.NPTS, p.time_window_ps, p.center_frequency_THz)['F']
    return f[0] > 0 and ref.C_NMPS / f[0] < hi and ref.C_NMPS / f[-1] > lo


def ask(ctx, x, m, p, clause):
    rng = ctx.rng
    if not fits(p, m.kind):
        return False
    ax = gen.pick(rng, [None, 'e']) if m.kind == 'PPLN' else gen.pick(rng, [None, 'mix', 'o', 'e'])
    wl = ref.C_NMPS / ref.grids(p.NPTS, p.time_window_ps, p.center_frequency_THz)['F']
    want = m.n(wl, ax)
    a = () if ax is None else (ax,)
    if rng.random() < .75:
        got = x.get_pulse_n(p, *a)
        # 1e-9: carrier wavelength and frequency differ in the last digits
        ctx.close(got, want, clause, rtol=1e-9, kind=m.kind, axis=ax)
    else:
        got = x.get_pulse_k(p, *a)
        ctx.close(got, 2 * np.pi * want / (wl * 1e-9), clause, rtol=1e-9, kind=m.kind, axis=ax, what='k')
    if isinstance(got, np.ndarray) and rng.random() < .4:
        try:
            got[...] = rng.normal()
            ctx.event('results edited')
        except ValueError:
            pass
    return True


def histories(ctx):
    rng = ctx.rng
    kinds = gen.pick(rng, [['PPLN'], ['PPLN'], ['AgGaS'], ['AgGaSe2'], ['PPLN', 'AgGaS'],
                           ['AgGaS', 'AgGaSe2'], ['PPLN', 'AgGaSe2']])
    cs = [xtal.build(rng, gen.pick(rng, kinds), caching=rng.random() < .75)
          for _ in range(int(rng.integers(1, 4)))]
    ps = [xtal.pulse(rng, gen.pick(rng, kinds)) for _ in range(2)]
    ctx.note(kinds=[m.kind for _, m in cs])
    log = []
    for _ in range(int(rng.integers(8, 30))):
        x, m = gen.pick(rng, cs)
        p = gen.pick(rng, ps)
        k = int(rng.integers(12))
        if k < 6:
            if ask(ctx, x, m, p, 'index-on-grid'):
                ask(ctx, x, m, p, 'asked-again')
                log.append('n')
        elif k == 6:
            log.append(xtal.change(rng, x, m))
        elif k == 7:
            on = bool(rng.random() < .7)
            x.set_caching(on) if rng.random() < .7 or not on else x.set_caching()
            log.append('cache%d' % on)
        elif k == 8:                 # another window, everything else as it was
            p.set_time_window_ps(p.time_window_ps * (rng.uniform(1.0005, 2) if rng.random() < .6 else
                                                     1 + gen.logu(rng, 1e-6, 1e-3)))
            log.append('window')
        elif k == 9:
            f = rng.uniform(.95, 1.05) if rng.random() < .6 else 1 + gen.sgn(rng) * gen.logu(rng, 1e-6, 1e-2)
            p.set_center_wavelength_nm(p.center_wavelength_nm * f)
            log.append('carrier')
        elif k == 10:
            if rng.random() < .5:    # same frequency span, other number of points
                p.set_NPTS(p.NPTS * 2)
                p.set_time_window_ps(p.time_window_ps * 2)
            else:
                p.set_NPTS(gen.pick(rng, [16, 32, 64]))
            if p.NPTS > 400:
                p.set_NPTS(32)
            log.append('points')
        else:
            j = int(rng.integers(3))
            if j == 0:
                p.set_AT(np.ones(p.NPTS))
                ps.append(p.create_cloned_pulse())
            elif j == 1:
                ps.append(xtal.pulse(rng, m.kind))
            else:
                cs.append(xtal.build(rng, m.kind, caching=True))
            log.append('new')
    for x, m in cs:
        for p in ps:
            ask(ctx, x, m, p, 'index-on-grid')
    ctx.note(log=' '.join(log))
    ctx.event('operations', len(log))


def separate(ctx):
    """Crystals asked about the same pulse, before and after the others changed."""
    rng = ctx.rng
    kind = gen.pick(rng, ['PPLN', 'AgGaS', 'AgGaSe2'])
    other = gen.pick(rng, ['PPLN', kind])
    a, ma = xtal.build(rng, kind, True)
    p = xtal.pulse(rng, kind)
    ask(ctx, a, ma, p, 'first-crystal')
    b, mb = xtal.build(rng, other, True)
    ctx.note(kinds=[kind, other], length=ma.length, n=p.NPTS, wl=p.center_wavelength_nm)
    ask(ctx, b, mb, p, 'second-crystal')
    ask(ctx, a, ma, p, 'first-crystal')
    xtal.change(rng, b, mb)
    ask(ctx, b, mb, p, 'second-crystal')
    ask(ctx, a, ma, p, 'first-crystal')
    pp = {}
    for x, nm in ((a, 'a'), (b, 'b')):
        if nm == 'b' or rng.random() < .5:
            v = float(rng.uniform(5e-6, 60e-6))
            if hasattr(x, 'set_pp'):
                x.set_pp((v,))
                pp[nm] = (x, v)
    for x, v in pp.values():
        ctx.close(x.pp(rng.uniform(0, 1)), v, 'own-poling', rtol=0)
    if kind == 'PPLN' and 'a' not in pp:
        ctx.close(a.pp(.3), 30.49e-6, 'own-poling', rtol=1e-12)
    for x, m in ((a, ma), (b, mb)):
        ctx.close(x.length_mks, m.length, 'own-length', rtol=0)
        ctx.close(x.length_nm, 1e9 * m.length, 'own-length', rtol=1e-12)
        ctx.close(x.damage_threshold_mks, xtal.DAMAGE[m.kind], 'own-damage-threshold', rtol=1e-12)
    ctx.raises(AssertionError, 'cache-switch-refuses', a.set_caching, gen.pick(rng, ['yes', None, 2, 'on']))
    ask(ctx, a, ma, p, 'first-crystal')
    # copies carry settings, and only those
    c, mc = copy.deepcopy(a), copy.deepcopy(ma)
    xtal.change(rng, c, mc)
    ask(ctx, c, mc, p, 'copied-crystal')
    ask(ctx, a, ma, p, 'first-crystal')
    ctx.event('pairs')


def plain_equals_cached(ctx):
    rng = ctx.rng
    x, m = xtal.build(rng, caching=False)
    p = xtal.pulse(rng, m.kind)
    ctx.note(kind=m.kind, n=p.NPTS, wl=p.center_wavelength_nm)
    ax = None if m.kind == 'PPLN' else gen.pick(rng, ['mix', 'o', 'e'])
    a = x.get_pulse_n(p, ax)
    ctx.close(a, x.n(p.wl_nm) if ax is None else x.n(p.wl_nm, ax), 'is-the-index', rtol=1e-13)
    x.set_caching(True)
    for _ in range(3):
        ctx.close(x.get_pulse_n(p, ax), a, 'cached-equals-plain', rtol=0)
    x.set_caching(False)
    ctx.close(x.get_pulse_n(p, ax), a, 'cached-equals-plain', rtol=0)
    w = x.get_pulse_k(p, ax)
    ctx.close(np.asarray(w) * p.wl_mks / (2 * np.pi), a, 'wavenumber', rtol=1e-12)
    ctx.event('switches')


STRATA = [('histories', histories, 5), ('separate', separate, 2), ('plain_equals_cached', plain_equals_cached, 1)]
