"""C33 the grating compressor applies the analytic Treacy dispersion."""
import numpy as np

from mon import gen, ref

RULE = ('random gratings, incidence angles, separations, wavelengths (scalars and '
        'arrays, also impossible colours), orders and pulses; angles and '
        'dispersions against the analytic Treacy phase, its derivatives by a '
        'Cauchy contour, the field after the compressor against that phase.')
QUICK, THOROUGH = 4000, 40000
MIN_CHECKS = 17200
BUDGET = 400000
FILES = ['src/pynlo/devices/grating_compressor.py']
C = ref.C


def grating(rng, margin=.97, edge=False):
    """(lines, degrees, wavelength, period, angle) with first order possible;
    at the edge: diffracted as far as `margin` allows, to either side."""
    while True:
        lines = gen.logu(rng, 20, 3000)
        deg = rng.uniform(-20, 85) if rng.random() < .8 else float(gen.pick(rng, [0., 31.3, 45.]))
        d, g = 1e-3 / lines, np.radians(deg)
        s = gen.sgn(rng) * margin if edge else rng.uniform(-margin, margin)
        l = d * (s + np.sin(g))
        if 2e-7 < l < 2e-5:
            return lines, float(deg), l * 1e9, d, g


def make(lines, deg):
    from pynlo.devices.grating_compressor import TreacyCompressor
    return TreacyCompressor(lines, deg)


def sign(rng):
    """Now and then the gratings are crossed: a negative separation."""
    return -1 if rng.random() < .12 else 1


def curve(om, d, g, G):
    """Double-pass dt/domega of the grating pair; om may be complex."""
    s = 2 * np.pi * C / (om * d) - np.sin(g)
    return 2 * (-4 * np.pi ** 2 * C * G / np.sqrt(1 - s * s)) / (om ** 3 * d ** 2 * (1 - s * s))


def derivatives(om0, d, g, G, n):
    """Taylor derivatives 0..n of curve at om0 from a circle around it."""
    # nearest singularities: s = +-1 and om = 0
    sing = [2 * np.pi * C / (d * (np.sin(g) + e)) for e in (1, -1) if abs(np.sin(g) + e) > 1e-12] + [0.]
    r = .3 * min(abs(om0 - v) for v in sing)
    k = np.arange(128)
    f = curve(om0 + r * np.exp(2j * np.pi * k / 128), d, g, G)
    c = np.fft.fft(f) / 128
    out, fac = [], 1.
    for j in range(n + 1):
        if j:
            fac *= j
        out.append(float(c[j].real) * fac / r ** j)
    return out, r


def angles(ctx):
    rng = ctx.rng
    lines, deg, wl, d, g = grating(rng, 1.0)
    c = make(lines, deg)
    other = make(*grating(rng)[:2])             # must not disturb the first
    ctx.note(lines=lines, deg=deg, wl=wl)
    for shape in ('scalar', 'array', 'impossible', 'scalar-impossible'):
        if shape == 'scalar':
            w = wl
        elif shape == 'array':
            w = wl * rng.uniform(.9, 1.1, int(rng.integers(1, 30)))
        elif shape == 'impossible':
            w = np.sort(d * 1e9 * (np.sin(g) + rng.uniform(-1.6, 1.6, 12)))
            w = w[w > 0]
        else:
            w = float(d * 1e9 * (np.sin(g) + 1 + gen.logu(rng, 1e-4, 3)))
        if np.size(w) == 0:
            continue
        arg = np.array(w) if np.ndim(w) else w
        kw = dict(display_angle=True) if rng.random() < .3 else {}
        got = ctx.call(c.calc_theta, arg, **kw)
        s = np.asarray(w) * 1e-9 / d - np.sin(g)
        want = g - np.arcsin(np.clip(s, -1, 1))
        # arcsin near +-1 amplifies rounding of its argument
        tol = 1e-12 + 4e-16 / np.sqrt(np.maximum(1 - np.clip(s, -1, 1) ** 2, 1e-16))
        ctx.check(np.shape(got) == np.shape(w), 'angle-shape', got=np.shape(got), want=np.shape(w))
        ctx.leq(np.max(np.abs(np.asarray(got) - want) / (tol + 3e-8 * (np.abs(np.abs(s) - 1) < 1e-14))), 1., 'theta-' + ('coerced' if 'imp' in shape else 'allowed'))
        # grating equation: sin(gamma) + sin(beta) = lambda/d in the first order
        beta = g - np.asarray(got)
        ok = np.abs(s) <= 1
        ctx.close(np.where(ok, np.sin(g) + np.sin(beta), 0), np.where(ok, np.asarray(w) * 1e-9 / d, 0),
                  'grating-equation', rtol=1e-12, atol=1e-12)
        if np.ndim(w):
            ctx.close(arg, w, 'wavelengths-unchanged', rtol=0)
    ctx.close(c.calc_theta(wl), g - np.arcsin(np.clip(wl * 1e-9 / d - np.sin(g), -1, 1)),
              'compressors-independent', rtol=1e-9, atol=1e-9)
    ctx.event('compressors')


def dispersion(ctx):
    rng = ctx.rng
    # now and then almost grazing
    lines, deg, wl, d, g = grating(rng, 1 - gen.logu(rng, 1e-5, .1), edge=rng.random() < .3)
    c = make(lines, deg)
    G = gen.logu(rng, 1e-5, 10) * sign(rng)
    ctx.note(lines=lines, deg=deg, wl=wl, G=G)
    om0 = 2 * np.pi * C / (wl * 1e-9)
    want, _ = derivatives(om0, d, g, G, 1)
    ctx.close(want[0], curve(om0, d, g, G), 'contour-selfcheck', rtol=1e-9)
    ctx.close(c.calc_compressor_gdd(wl, G), curve(om0, d, g, G), 'gdd', rtol=1e-9)
    ctx.close(c.calc_dt_dw_singlepass(wl, G), .5 * curve(om0, d, g, G), 'single-pass', rtol=1e-9)
    ctx.check(c.calc_compressor_gdd(wl, G) * np.sign(G) < 0, 'gdd-negative')
    lam = wl * rng.uniform(.999, 1.001, 9)
    s = lam * 1e-9 / d - np.sin(g)
    lam = lam[np.abs(s) < max(.985, 1 - 2 * (1 - abs(wl * 1e-9 / d - np.sin(g))))]
    if lam.size:
        oms = 2 * np.pi * C / (lam * 1e-9)
        w = curve(oms, d, g, G)
        ctx.close(np.asarray(c.calc_compressor_gdd(lam, G)) / w, np.ones(lam.size), 'gdd-array', rtol=1e-9)
        # group delay: path b(1+cos theta) over c
        th = g - np.arcsin(lam * 1e-9 / d - np.sin(g))
        path = G / np.cos(g - th) * (1 + np.cos(th))
        ctx.close(c.calc_dphi_domega(oms, G), path / C, 'group-delay', rtol=1e-9)
    # the dispersion is the derivative of the group delay (complex-free, central)
    h = 1e-5 * om0
    if abs(wl * 1e-9 / d - np.sin(g)) < .9:
        fd = (c.calc_dphi_domega(om0 + h, G) - c.calc_dphi_domega(om0 - h, G)) / (2 * h)
        rel = abs(path_scale(om0, d, g, G) * 1e-16 / h / fd)
        ctx.close(fd, c.calc_dt_dw_singlepass(wl, G), 'dispersion-is-derivative-of-delay', rtol=1e-5 + 20 * rel)
    ctx.close(c.calc_compressor_gdd(wl, 2 * G), 2 * curve(om0, d, g, G), 'proportional-to-separation', rtol=1e-9)
    ctx.event('dispersions')


def path_scale(om, d, g, G):
    s = 2 * np.pi * C / (om * d) - np.sin(g)
    return 2 * abs(G) / np.sqrt(1 - s * s) / C


def higher(ctx):
    rng = ctx.rng
    lines, deg, wl, d, g = grating(rng, .9)
    c = make(lines, deg)
    G = gen.logu(rng, 1e-4, 1) * sign(rng)
    om0 = 2 * np.pi * C / (wl * 1e-9)
    want, r = derivatives(om0, d, g, G, 4)
    ctx.note(lines=lines, deg=deg, wl=wl, G=G)
    size = [abs(curve(om0, d, g, G)) / r ** j for j in range(5)]
    # +-5 THz of stencil must stay far from the cut-off colours
    if r > 2 * np.pi * 25e12:
        for o in (3, 4, 5, 6):
            noise = 1e-15 * size[0] * 3 ** (o - 2) / (2 * np.pi * 1e11) ** (o - 2)
            if noise < .03 * size[o - 2]:
                ctx.close(c.calc_compressor_HOD(wl, G, o), want[o - 2], 'third-and-higher-order', rtol=0,
                          atol=1e-4 * max(abs(want[o - 2]), size[o - 2]) + noise, order=o)
    if r > 1.5e13:
        for o in (1, 2, 3):
            got = c.calc_compressor_dnphi_domega_n(wl, G, o)
            noise = path_scale(om0, d, g, G) * 2e-16 * 40 ** (o - 1) / (2e11 ** o)
            ctx.close(2 * got * 10. ** (-15 * (1 + o)), want[o - 1], 'phase-derivative-fs', rtol=0,
                      atol=1e-4 * max(abs(want[o - 1]), size[o - 1]) + 3 * noise, order=o)
    ctx.raises(ValueError, 'order-refused', c.calc_compressor_HOD, wl, G, int(gen.pick(rng, [2, 1, 0, -1])))
    ctx.raises(ValueError, 'order-refused', c.calc_compressor_dnphi_domega_n, wl, G, int(gen.pick(rng, [0, -1])))
    ctx.event('orders')


def compress(ctx):
    rng = ctx.rng
    for _ in range(200):
        lines, deg, wl, d, g = grating(rng, .8)
        n = int(gen.pick(rng, [8, 16, 24, 32, 25, 64, 128, 200] + [512] * (rng.random() < .2)))
        F0 = C / (wl * 1e-9) * 1e-12
        tw = n / (F0 * gen.logu(rng, .002, .15))
        F = ref.grids(n, tw, F0)['F']
        s = ref.C_NMPS / F * 1e-9 / d - np.sin(g)
        if np.max(np.abs(s)) < .95:
            break
    else:
        return
    c = make(lines, deg)
    G = gen.logu(rng, 1e-5, .3) * sign(rng)
    A, kind = spectrum(rng, n)
    p = gen.bare_pulse(rng, n, tw, wl, gen.logu(rng, 1, 1e4))
    p.set_AW(A)
    ctx.note(lines=lines, deg=deg, wl=wl, G=G, n=n, tw=tw)
    e0 = np.sum(np.abs(p.AT) ** 2)
    for k in range(1 if rng.random() < .8 else 2):
        ctx.call(c.apply_phase_to_pulse, G, p)
        om = 2 * np.pi * F * 1e12
        ph = (k + 1) * phase_of(om, 2 * np.pi * C / (wl * 1e-9), d, g, G)
        got = np.asarray(p.AW)
        # the code asks for 1e-8 of the accumulated phase and gets 1e-13
        tol = 3e-9 * np.max(np.abs(ph)) + 1e-9
        ctx.leq(np.max(np.abs(got - A * np.exp(1j * ph)) / np.abs(A)), tol, 'compressed-spectrum')
        ctx.close(np.abs(got), np.abs(A), 'spectrum-magnitude', rtol=1e-10)
        ctx.close(np.sum(np.abs(p.AT) ** 2), e0, 'energy', rtol=1e-10)
    # curvature of what was applied is the compressor's dispersion, in the sense of a chirp
    q = gen.bare_pulse(rng, n, tw, wl, 1.)
    q.set_AW(np.ones(n, complex))
    r = q.create_cloned_pulse()
    ctx.call(c.apply_phase_to_pulse, G, q)
    a, b = np.asarray(q.AW), np.asarray(r.AW)
    h, j = n // 2, 1
    dw = 2 * np.pi / tw * 1e12
    turn = np.angle(a[h + j] * a[h - j] * np.conj(a[h]) ** 2)
    ref_turn = phase_of(om, 2 * np.pi * C / (wl * 1e-9), d, g, G)
    want = ref_turn[h + j] + ref_turn[h - j] - 2 * ref_turn[h]
    gdd = float(c.calc_compressor_gdd(wl, G))
    if abs(want) < 2 and abs(want) > 1e-4 and abs(want / (gdd * dw * dw) - 1) < .05:
        ctx.close(turn, gdd * dw * dw, 'second-difference-is-gdd', rtol=.08, atol=1e-5 + 4e-8 * np.max(np.abs(ref_turn)))
        r.chirp_pulse_W(gdd * 1e24)
        b = np.asarray(r.AW)
        ctx.close(np.angle(b[h + j] * b[h - j] * np.conj(b[h]) ** 2), turn, 'same-sense-as-chirp', rtol=0,
                  atol=.08 * abs(want) + 1e-5 + 4e-8 * np.max(np.abs(ref_turn)))
    ctx.event('pulses compressed')


def histories(ctx):
    """A few compressors, pulses and separations in every order, each also
    changed in place on the way: every answer is that of the settings in force."""
    rng = ctx.rng

    def fits(grid, d, g):
        n, tw, wl = grid
        F = ref.grids(n, tw, C / (wl * 1e-9) * 1e-12)['F']
        return np.min(F) > 0 and np.max(np.abs(ref.C_NMPS / F * 1e-9 / d - np.sin(g))) < .95

    def nearby(v, r=.05):
        return v * (1 + gen.sgn(rng) * gen.logu(rng, 1e-6, r))

    lines, deg, wl, d, g = grating(rng, .6)
    n = int(gen.pick(rng, [8, 16, 25]))
    tw = n / (C / (wl * 1e-9) * 1e-12 * gen.logu(rng, .002, .1))
    L = [lines, nearby(lines)]
    D = [deg, deg + gen.sgn(rng) * gen.logu(rng, 1e-5, 3)]
    W = [wl, nearby(wl)]
    T = [tw, nearby(tw)]
    N = [n, n + 1]
    G = [gen.logu(rng, 1e-4, .3)]
    G.append(nearby(G[0]))
    pick = lambda v: gen.pick(rng, v)
    comps = [[make(L[i], D[j]), L[i], D[j]] for i, j in ((0, 0), (1, 0), (0, 1))]
    pulses = []
    for _ in range(2):
        k = (int(pick(N)), float(pick(T)), float(pick(W)))
        pulses.append([gen.bare_pulse(rng, *k, gen.logu(rng, 1, 1e4)), k])
        pulses[-1][0].set_AW(np.ones(k[0], complex))
    ctx.note(lines=L, deg=D, wl=W, tw=T, n=N, G=G)
    done = 0
    for _ in range(int(rng.integers(4, 9))):
        c, p = pick(comps), pick(pulses)
        r = rng.random()
        if r < .25:                                     # regroove or turn a grating
            c[1], c[2] = float(pick(L)), float(pick(D))
            c[0].d, c[0].g = 1e-3 / c[1], c[2] * 2 * np.pi / 360
        elif r < .5:
            k = (int(pick(N)), float(pick(T)), float(pick(W)))
            p[0].set_NPTS(k[0])
            p[0].set_time_window_ps(k[1])
            p[0].set_center_wavelength_nm(k[2])
            p[1] = k
        elif r < .6:
            p[0] = p[0].create_cloned_pulse()
        d, g, k, sep = 1e-3 / c[1], np.radians(c[2]), p[1], float(pick(G))
        om0 = 2 * np.pi * C / (k[2] * 1e-9)
        if fits(k, d, g):
            om = 2 * np.pi * ref.grids(k[0], k[1], C / (k[2] * 1e-9) * 1e-12)['F'] * 1e12
            A, _ = spectrum(rng, k[0])
            p[0].set_AW(A)
            ctx.call(c[0].apply_phase_to_pulse, sep, p[0])
            ph = phase_of(om, om0, d, g, sep)
            tol = 3e-9 * np.max(np.abs(ph)) + 1e-9
            ctx.leq(np.max(np.abs(np.asarray(p[0].AW) - A * np.exp(1j * ph)) / np.abs(A)), tol, 'compressed-with-settings-in-force')
            ctx.close(p[0].center_wavelength_nm, k[2], 'pulse-settings-kept', rtol=1e-12)
            ctx.close(p[0].time_window_ps, k[1], 'pulse-settings-kept', rtol=1e-12)
            done += 1
        if abs(k[2] * 1e-9 / d - np.sin(g)) < .98:
            ctx.close(c[0].calc_compressor_gdd(k[2], sep), curve(om0, d, g, sep), 'gdd-of-settings-in-force', rtol=1e-9)
            ctx.close(c[0].calc_theta(k[2]), g - np.arcsin(k[2] * 1e-9 / d - np.sin(g)), 'angle-of-settings-in-force',
                      rtol=1e-12, atol=1e-12)
            if rng.random() < .15 and abs(k[2] * 1e-9 / d - np.sin(g)) < .8:
                want, r_ = derivatives(om0, d, g, sep, 1)
                if r_ > 2 * np.pi * 25e12:
                    size = abs(want[0]) / r_
                    ctx.close(c[0].calc_compressor_HOD(k[2], sep, 3), want[1], 'third-order-of-settings-in-force', rtol=0,
                              atol=1e-4 * max(abs(want[1]), size) + 3e-15 * abs(want[0]) / (2 * np.pi * 1e11))
    ctx.event('settings changed on the way')
    ctx.event('compressions among others', done)


def phase_of(om, om0, d, g, G):
    """Integral of the double-pass group delay from om0, Gauss-Legendre."""
    x, w = np.polynomial.legendre.leggauss(60)
    out = np.zeros(len(om))
    for i, v in enumerate(om):
        u = .5 * (v - om0) * x + .5 * (v + om0)
        s = 2 * np.pi * C / (u * d) - np.sin(g)
        ct, st = np.sqrt(1 - s * s), s
        cos_theta = np.cos(g) * ct + np.sin(g) * st         # cos(g - beta)
        out[i] = np.sum(w * 2 * G / ct * (1 + cos_theta) / C) * .5 * (v - om0)
    return out


def spectrum(rng, n):
    A = np.exp(rng.normal(size=n) * float(gen.pick(rng, [1., 1., 4.]))) * gen.logu(rng, 1e-3, 1e3) * np.exp(1j * rng.uniform(0, 6.28, n))
    return A, 'random'


STRATA = [('angles', angles, 3), ('dispersion', dispersion, 4), ('higher', higher, 2), ('compress', compress, 1),
          ('histories', histories, 1)]
