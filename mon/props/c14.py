"""C14 fibre gain: flat gain as given, gain spectra scaled to the output power."""
import json
import os

import numpy as np

from mon import fib, gen, ref

RULE = ('random flat gains and tabulated gain spectra on random pulses and '
        'target powers; spectrum shape compared with the table, its scale '
        'judged by the average power it produces.')
QUICK, THOROUGH = 3500, 30000
MIN_CHECKS = 12400
BUDGET = 600000
FILES = ['src/pynlo/media/fibers/fiber.py']


def flat(ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng)
    n = info['n']
    g = gen.pick(rng, [0, 0.0, 1, -1, 1., -1., float(rng.normal() * 3), float(-gen.logu(rng, 1e-3, 10)), 2])
    how = gen.pick(rng, ['generate', 'file', 'default'])
    f = FiberInstance()
    keep = p.AT
    if how == 'generate':
        f.generate_fiber(.5, 1550., [1e-3], .1, gain=g)
    elif how == 'file':
        name = 'g_%d.csv' % ctx.index
        np.savetxt(name, np.vstack((np.linspace(500, 3000, 9), np.zeros(9))).T, delimiter=',')
        try:
            f.load_from_file(name, gain=g)
        finally:
            os.unlink(name)
    else:
        g = 0.0
        f.generate_fiber(.5, 1550., [1e-3], .1)
    ctx.note(gain=g, how=how, **info)
    for kw in ({}, dict(output_power=float(gen.logu(rng, 1e-6, 10)))):
        G = f.get_gain(p, **kw)
        ctx.close(np.asarray(G), np.full(n, float(g)), 'flat-gain', rtol=1e-13)
        ctx.check(np.shape(G) == (n,), 'gain-per-bin', got=np.shape(G))
        G[...] = 99.
    ctx.close(np.asarray(f.get_gain(p)), np.full(n, float(g)), 'gain-isolated', rtol=1e-13)
    ctx.close(p.AT, keep, 'pulse-unchanged', rtol=0)
    ctx.event('flat gains')


def spectrum(ctx):
    from pynlo.media.fibers.fiber import FiberInstance
    from scipy.interpolate import CubicSpline
    rng = ctx.rng
    while True:
        n, tw, wl = gen.grid(rng, [32, 64, 100, 128, 256], tw_lo=.3)
        if n / tw > .02 * ref.C_NMPS / wl:
            break
    frep = gen.logu(rng, 1, 5000)
    p = gen.bare_pulse(rng, n, tw, wl, frep)
    g = ref.grids(n, tw, ref.C_NMPS / wl)
    x = np.arange(n) - n / 2
    S = np.exp(-.5 * (x / (n * rng.uniform(.03, .12))) ** 2) * np.exp(1j * rng.normal() * 1e-2 * x ** 2)
    p.set_AW(S)
    p.set_epp(gen.logu(rng, 1e-6, 1e-1) / (frep * 1e6))
    S = p.AW
    half = n / tw / 2 * rng.uniform(.5, 1.5)
    nu = np.sort(np.concatenate([[g['f0'] - half * .9, g['f0'] + half * .9],
                                 g['f0'] + rng.uniform(-half, half, int(rng.integers(5, 25))) * .85]))
    if rng.random() < .2:                           # finely tabulated
        nu = g['f0'] + half * .9 * np.linspace(-1, 1, int(gen.logu(rng, 40, 1000)))
        nu = nu[(nu > .05 * g['f0'])]
    else:
        nu = nu[(nu > .05 * g['f0'])]
        nu = nu[np.concatenate([[True], np.diff(nu) > half * .02])]
    if len(nu) < 5:
        return
    y = np.exp(-.5 * ((nu - g['f0'] - rng.normal() * half * .1) / (half * rng.uniform(.4, 1.))) ** 2) + .02 * rng.random(nu.size)
    if rng.random() < .5:                           # any unit of the table
        y = y * gen.logu(rng, 1e-3, 1e3)
    lam = ref.C / (nu * 1e12)                       # metres, decreasing
    db = {'amp': dict(dispersion_format='GVD', dispersion_gvd_units='ps^n/km',
                      dispersion_gvd_center_wavelength=wl, dispersion_data=[-10.0], gamma=.001,
                      is_gain=True, gain_x_units='m', gain_x_data=lam[::-1].tolist(),
                      gain_y_data=y[::-1].tolist(), name='amp')}
    name = 'amp_%d' % ctx.index
    with open(name + '.txt', 'w') as fh:
        json.dump(db, fh)
    try:
        f = FiberInstance(name, os.getcwd())
    finally:
        os.unlink(name + '.txt')
    L = float(gen.logu(rng, .1, 20) if rng.random() < .5 else gen.logu(rng, 1e-3, 1e4))
    f.load_from_db(L, 'amp')
    Pin = ref.trapz(np.abs(p.AT) ** 2, tw / n * 1e-12) * frep * 1e6
    Pout = Pin * 10 ** rng.uniform(-.5, 2.5)
    ctx.note(n=n, tw=tw, wl=wl, frep=frep, L=L, rows=nu.size, gain_dB=10 * np.log10(Pout / Pin))
    keep = p.AT
    G = np.asarray(ctx.call(f.get_gain, p, Pout) if rng.random() < .5 else ctx.call(f.get_gain, p, output_power=Pout))
    ctx.need(G.shape == (n,), 'gain-per-bin', got=G.shape)
    ctx.close(p.AT, keep, 'pulse-unchanged', rtol=0)
    inside = (g['F'] > nu[0] * (1 + 1e-9)) & (g['F'] < nu[-1] * (1 - 1e-9))
    outside = (g['F'] < nu[0] * (1 - 1e-9)) | (g['F'] > nu[-1] * (1 + 1e-9))
    want = CubicSpline(nu, y)(g['F'])
    ctx.check(not np.any(G[outside]), 'no-gain-outside-table')
    k = np.dot(G[inside], want[inside]) / np.dot(want[inside], want[inside])
    ctx.close(G[inside], k * want[inside], 'gain-shape', rtol=1e-7)
    out = ref.to_time(S * np.exp(G * L / 2))
    P = ref.trapz(np.abs(out) ** 2, tw / n * 1e-12) * frep * 1e6
    ctx.close(P, Pout, 'reaches-output-power', rtol=1e-5)
    ctx.check((k > 0) == (Pout > Pin) or abs(Pout / Pin - 1) < .02, 'gain-sign')
    # asking again, for another power, is answered afresh
    P2 = Pin * 10 ** rng.uniform(.2, 2)
    G2 = np.asarray(ctx.call(f.get_gain, p, P2))
    out = ref.to_time(S * np.exp(G2 * L / 2))
    ctx.close(ref.trapz(np.abs(out) ** 2, tw / n * 1e-12) * frep * 1e6, P2, 'reaches-output-power', rtol=1e-5)
    ctx.event('gain spectra', 2)


def judged(ctx, f, p, Pout, table, L, **kw):
    """One gain of an amplifier against its table and the power it must reach."""
    from scipy.interpolate import CubicSpline
    nu, y = table
    S, n, tw = p.AW, p.NPTS, p.time_window_ps
    F = ref.grids(n, tw, p.center_frequency_THz)['F']
    G = np.asarray(ctx.call(f.get_gain, p, Pout))
    ctx.need(G.shape == (n,), 'gain-per-bin', got=G.shape)
    edge = np.min(np.abs(F[:, None] / nu[[0, -1]][None, :] - 1)) < 1e-9
    if edge:
        return G
    want = np.where((F > nu[0]) & (F < nu[-1]), CubicSpline(nu, y)(F), 0)
    k = np.dot(G, want) / np.dot(want, want)
    ctx.close(G, k * want, 'gain-shape', rtol=1e-7, **kw)
    out = ref.to_time(S * np.exp(G * L / 2))
    P = ref.trapz(np.abs(out) ** 2, tw / n * 1e-12) * p.frep_MHz * 1e6
    ctx.close(P, Pout, 'reaches-output-power', rtol=1e-5, **kw)
    return G


def histories(ctx):
    """Amplifiers, flat fibres and pulses used in turn answer as if new."""
    import copy
    from pynlo.media.fibers.fiber import FiberInstance
    rng = ctx.rng
    pulses = []
    wl = float(rng.uniform(700, 2200))
    f0 = ref.C_NMPS / wl
    for _ in range(3):
        n = int(gen.pick(rng, [32, 63, 64, 100, 128]))
        tw = n / (f0 * rng.uniform(.03, .3))
        p = gen.bare_pulse(rng, n, tw, wl * rng.uniform(.995, 1.005), gen.logu(rng, 1, 5000))
        T = p.T_ps
        p.set_AT(np.exp(-.5 * (T / (tw * rng.uniform(.02, .08))) ** 2 + 1j * rng.normal() * (T / tw * 8) ** 2))
        p.set_epp(gen.logu(rng, 1e-13, 1e-8))
        pulses.append(p)
    amps = []
    for j in range(3):
        L = gen.logu(rng, 1e-2, 1e2)
        kinds = {}
        for name in 'abc':
            kinds[name] = fib.amp_entry(rng, f0, f0 * rng.uniform(.03, .2), wl)
        f = fib.from_entries({k: v[0] for k, v in kinds.items()}, '%d_%d' % (ctx.index, j))
        f.load_from_db(L, 'a')
        nu, y = kinds['a'][1:]
        if rng.random() < .5:                   # tables as arrays of the caller's
            f.fiberspecs['gain_x_data'] = np.array(f.fiberspecs['gain_x_data'])
            f.fiberspecs['gain_y_data'] = np.array(f.fiberspecs['gain_y_data'])
        amps.append([f, (nu, y), L, kinds])
    g0 = float(rng.normal())
    flat_f = FiberInstance()
    flat_f.generate_fiber(1., wl, [1e-3], .1, gain=g0)
    ctx.note(wl=wl, pulses=[(p.NPTS, p.time_window_ps) for p in pulses], L=[a[2] for a in amps])
    trail, last = [], None
    for _ in range(int(rng.integers(4, 10))):
        u = rng.random()
        p = pulses[int(rng.integers(3))]
        a = amps[int(rng.integers(3))]
        if u < .2:
            trail.append('length')
            a[2] = a[0].length = a[2] * float(gen.pick(rng, [.1, .5, 1.01, 2., 10.]))
        elif u < .3:
            k = str(gen.pick(rng, list('abc')))
            trail.append('load ' + k)
            a[2] = gen.logu(rng, 1e-2, 1e2) if rng.random() < .5 else a[2]
            a[1] = a[3][k][1:]
            a[0].load_from_db(a[2], k)
        elif u < .4:
            trail.append('energy')
            p.set_epp(p.calc_epp() * float(gen.pick(rng, [.1, .99, 1.01, 10.])))
        elif u < .5:
            trail.append('spectrum')
            e = p.calc_epp()
            x = (np.arange(p.NPTS) - p.NPTS // 2) / p.NPTS
            p.set_AW(p.AW * np.exp(.5j * rng.normal(size=p.NPTS) + rng.normal() * 20 * x) * (1 + .3 * rng.random(p.NPTS)))
            if rng.random() < .5:
                p.set_epp(e)
        elif u < .6:
            trail.append('repetition rate')
            p.set_frep_MHz(p.frep_MHz * float(gen.pick(rng, [.5, 1.01, 3.])))
        elif u < .7:
            trail.append('flat')
            ctx.close(np.asarray(flat_f.get_gain(p, 1.)), np.full(p.NPTS, g0), 'flat-gain', rtol=1e-13)
            continue
        spec = copy.deepcopy(a[0].fiberspecs)
        keep = p.AT, p.AW
        Pin = p.calc_epp() * p.frep_MHz * 1e6
        if last is None or rng.random() < .5 or not 1.1 * Pin < last < 300 * Pin:
            last = Pin * 10 ** rng.uniform(.05, 2)
        Pout = last
        G = judged(ctx, a[0], p, Pout, a[1], a[2], after=list(trail))
        if rng.random() < .3:
            G[...] = rng.normal(size=G.shape)
            trail.append('edited answer')
        ctx.close(p.AT, keep[0], 'pulse-unchanged', rtol=0)
        ctx.close(p.AW, keep[1], 'pulse-unchanged', rtol=0)
        ctx.close(np.asarray(a[0].fiberspecs['gain_y_data']), np.asarray(spec['gain_y_data']), 'table-unchanged', rtol=0)
        ctx.close(np.asarray(a[0].fiberspecs['gain_x_data']), np.asarray(spec['gain_x_data']), 'table-unchanged', rtol=0)
        ctx.check(a[0].length == a[2], 'length-unchanged')
        ctx.event('gains within a history')
    ctx.event('histories')


STRATA = [('flat', flat, 1), ('spectrum', spectrum, 3), ('histories', histories, 2)]
