"""C29 beams and waveguide modes follow Gaussian-beam optics."""
import numpy as np

from mon import gen, ref, xtal

RULE = ('random waists, pulses, crystals, axes and positions; every quantity '
        'compared with Gaussian-beam optics, overlaps with the integral of the '
        'two fields, optimised waists with a dense search.')
QUICK, THOROUGH = 8000, 60000
MIN_CHECKS = 46800
BUDGET = 500000
FILES = ['src/pynlo/light/beam.py', 'src/pynlo/light/high_V_waveguide.py']
EPSC = ref.EPS0 * ref.C


def axis_of(rng, m):
    return gen.pick(rng, [None, 'e']) if m.kind == 'PPLN' else gen.pick(rng, [None, 'mix', 'o', 'e'])


def lam(p):
    return ref.C / ref.grids(p.NPTS, p.time_window_ps, p.center_frequency_THz)['F'] * 1e-12


def beam(rng, m, n=None):
    from pynlo.light.beam import OneDBeam
    p = xtal.pulse(rng, m.kind, sizes=[n] if n else (16, 32, 50))
    ax = axis_of(rng, m)
    w = gen.logu(rng, 3e-6, 2e-3) if rng.random() < .85 else gen.logu(rng, 1e-8, 10)
    if rng.random() < .2:
        w = w * rng.uniform(.7, 1.4, p.NPTS)
    kw = {} if ax is None and rng.random() < .5 else dict(axis=ax)
    b = OneDBeam(w, p, **kw) if rng.random() < .5 else OneDBeam(waist_meters=w, this_pulse=p, **kw)
    return b, p, w, ax


def geometry(ctx):
    rng = ctx.rng
    x, m = xtal.build(rng)
    b, p, w, ax = beam(rng, m)
    L = lam(p)
    ctx.note(kind=m.kind, axis=ax, w=w, wl=p.center_wavelength_nm)
    n = gen.pick(rng, [None, float(rng.uniform(1, 3)), gen.logu(rng, .1, 10), rng.uniform(1, 3, p.NPTS), m.n(L * 1e9, ax)])
    a = () if n is None else (n,)
    nn = 1.0 if n is None else n
    for _ in range(2):
        zr = np.pi * w ** 2 * nn / L
        ctx.close(b.calc_confocal(*a), 2 * zr, 'confocal-parameter', rtol=1e-9)
        ctx.close(b.calculate_zR(*a), zr, 'rayleigh-range', rtol=1e-9)
        ctx.close(b.waist, w, 'waist', rtol=1e-14)
        far = rng.random() < .3
        z = float(gen.sgn(rng) * (gen.logu(rng, 1e-8, 1e8) if far else gen.logu(rng, .01, 100)) * np.mean(zr))
        ctx.close(b.calculate_waist(z, *a), w * np.sqrt(1 + (z / zr) ** 2), 'waist-at-z', rtol=1e-9)
        ctx.close(b.calculate_waist(0, *a), w * np.ones(len(L)), 'waist-at-focus', rtol=1e-12)
        ctx.close(b.calculate_waist(zr, *a), np.sqrt(2) * w * np.ones(len(L)), 'waist-at-rayleigh-range', rtol=1e-9)
        ctx.close(b.calculate_R(z, *a), z + zr ** 2 / z, 'curvature', rtol=1e-9)
        g = (zr + 1j * z) / np.hypot(z, zr)
        ctx.close(b.calculate_gouy_phase(z, nn), g, 'gouy-phase', rtol=1e-9)
        ctx.close(b.calculate_gouy_phase(0., nn), np.ones(len(L)), 'gouy-phase', rtol=1e-12)
        # 1/q = 1/R - i lambda/(pi w^2 n) is 1/(z + i zr)... both sides from the code
        q = 1 / np.asarray(b.calculate_R(z, *a)) - 1j * L / (np.pi * nn * np.asarray(b.calculate_waist(z, *a)) ** 2)
        if not far:
            ctx.close(1 / q / zr, (z + 1j * zr) / zr, 'complex-beam-parameter', rtol=1e-8)
        if n is not None or rng.random() < .3:
            ctx.close(b.rtP_to_a(nn), 1 / np.sqrt(np.pi * w ** 2 * nn * EPSC) * np.ones(np.broadcast(w, nn).shape),
                      'power-to-field', rtol=1e-7)
        w = gen.near(rng, w, .4)
        if np.ndim(w) == 0 and w == 0:
            w = gen.logu(rng, 3e-6, 2e-3)
        b.set_w0(w)
    # a beam keeps the colours it was made with, and the pulse its own
    p.set_center_wavelength_nm(p.center_wavelength_nm * 1.2)
    ctx.close(b.calculate_zR(), np.pi * w ** 2 / L, 'beam-independent-of-pulse', rtol=1e-9)
    ctx.event('beams')


def in_crystal(ctx):
    rng = ctx.rng
    x, m = xtal.build(rng)
    b, p, w, ax = beam(rng, m)
    L = lam(p)
    n = m.n(L * 1e9, ax)
    ctx.note(kind=m.kind, axis=ax, w=w, wl=p.center_wavelength_nm)
    ctx.close(b.get_n_in_crystal(p, x), n, 'index-in-crystal', rtol=1e-9)
    ctx.close(b.get_k_in_crystal(p, x), 2 * np.pi * n / L, 'wavenumber-in-crystal', rtol=1e-9)
    zr = np.pi * w ** 2 * n / L
    z = float(rng.uniform(-3, 3) * np.mean(zr))
    wz = w * np.sqrt(1 + (z / zr) ** 2)
    ctx.close(b.rtP_to_a_2(p, x, z), 1 / np.sqrt(np.pi * wz ** 2 * n * EPSC), 'power-to-field-at-z', rtol=1e-7)
    w2 = gen.logu(rng, 1e-6, 1e-3)
    ctx.close(b.rtP_to_a_2(p, x, z, w2), 1 / np.sqrt(np.pi * w2 ** 2 * n * EPSC), 'power-to-field-given-waist', rtol=1e-7)
    # intensity on axis 2 n eps0 c |A|^2 times pi w^2/2 is the power
    P = gen.logu(rng, 1e-3, 1e6)
    A = np.sqrt(P) * np.asarray(b.rtP_to_a_2(p, x, z))
    ctx.close(2 * n * EPSC * A ** 2 * np.pi * wz ** 2 / 2, P * np.ones(len(L)), 'gaussian-power', rtol=1e-7)
    # all colours share the confocal parameter, the central one has the waist asked for
    wc = gen.logu(rng, 3e-6, 1e-3)
    b.set_waist_to_match_central_waist(p, wc, x)
    ctx.close(np.asarray(b.waist)[len(L) // 2], wc, 'central-waist', rtol=1e-9)
    zc = np.pi * wc ** 2 * n[len(L) // 2] / L[len(L) // 2]
    ctx.close(b.calculate_zR(n), zc * np.ones(len(L)), 'equal-confocal-parameters', rtol=1e-9)
    ctx.event('beams in crystals')


def histories(ctx):
    """One beam used with pulses and crystals that change between the calls
    gives each time what their current settings imply."""
    rng = ctx.rng
    made = [xtal.build(rng) for _ in range(2)]
    b, p, w, ax = beam(rng, made[0][1])
    if made[1][1].kind != made[0][1].kind:
        made[1] = xtal.build(rng, made[0][1].kind)
    h = []
    ctx.note(kind=made[0][1].kind, axis=ax, wl=p.center_wavelength_nm, history=h)
    for _ in range(int(rng.integers(3, 8))):
        k = int(rng.integers(5))
        x, m = made[int(rng.integers(2))]
        if k == 0:
            xtal.change(rng, x, m)
        elif k == 1:
            p.set_center_wavelength_nm(p.center_wavelength_nm * (1 + gen.sgn(rng) * gen.logu(rng, 1e-7, 1e-2)))
        elif k == 2:
            p.set_time_window_ps(p.time_window_ps * (1 + gen.logu(rng, 1e-6, 1e-1)))
        elif k == 3:
            v = gen.near(rng, w, .5)
            w = v if np.ndim(v) or v else gen.logu(rng, 3e-6, 2e-3)
            b.set_w0(w)
        h.append(k)
        L = lam(p)
        n = m.n(L * 1e9, ax)
        if not np.all(np.isfinite(n)):
            return
        ctx.close(b.get_n_in_crystal(p, x), n, 'index-in-crystal', rtol=1e-10)
        ctx.close(b.get_k_in_crystal(p, x), 2 * np.pi * n / L, 'wavenumber-in-crystal', rtol=1e-10)
        v = gen.logu(rng, 1e-6, 1e-3)
        ctx.close(b.rtP_to_a_2(p, x, .1, v), 1 / np.sqrt(np.pi * v ** 2 * n * EPSC), 'power-to-field-given-waist', rtol=1e-9)
        ctx.close(b.waist, w, 'waist', rtol=1e-14)
        if np.ndim(w) == 0:
            ctx.close(b.rtP_to_a(n), 1 / np.sqrt(np.pi * w ** 2 * n * EPSC), 'power-to-field', rtol=1e-9)
    ctx.event('beam histories')


def overlap_of(z, k1, zr1, k2, zr2):
    g1, g2 = 1j * k1 / (2 * (z + 1j * zr1)), 1j * k2 / (2 * (z + 1j * zr2))
    return 4 * g1.real * g2.real / np.abs(g1 + g2.conj()) ** 2


def overlap(ctx):
    rng = ctx.rng
    x, m = xtal.build(rng)
    b1, p1, w1, a1 = beam(rng, m, 32)
    b2, p2, w2, a2 = beam(rng, m, 32)
    if rng.random() < .7:
        w2 = w1 * float(rng.uniform(.3, 3))
        b2.set_w0(w2)
    ctx.note(kind=m.kind, axes=[a1, a2], w1=w1, w2=w2, wl=[p1.center_wavelength_nm, p2.center_wavelength_nm])
    L1, L2 = lam(p1), lam(p2)
    n1, n2 = m.n(L1 * 1e9, a1), m.n(L2 * 1e9, a2)
    k1, k2 = 2 * np.pi * n1 / L1, 2 * np.pi * n2 / L2
    zr1, zr2 = k1 * w1 ** 2 / 2, k2 * w2 ** 2 / 2
    z = float(rng.uniform(-2, 2) * min(np.mean(zr1), np.mean(zr2)))
    want = overlap_of(z, k1, zr1, k2, zr2)
    got = b1.calc_overlap_integral(z, p1, p2, b2, x)
    ctx.close(got, want, 'overlap', rtol=1e-9)
    ctx.check(np.all(np.asarray(got) > 0) and np.all(np.asarray(got) <= 1 + 1e-9), 'overlap-range')
    ctx.close(b2.calc_overlap_integral(z, p2, p1, b1, x), got, 'overlap-symmetric', rtol=1e-9)
    ctx.close(b1.calc_overlap_integral(z, p1, p1, b1, x), np.ones(32), 'overlap-with-itself', rtol=1e-9)
    ctx.close(b1.calc_overlap_integral(-z, p1, p2, b2, x), got, 'overlap-even', rtol=1e-9)
    # by brute force: radial integral of the two fields of one colour
    i = int(rng.integers(32))
    g = [1j * k[i] / (2 * (z + 1j * zr[i])) for k, zr in ((k1, zr1), (k2, zr2))]
    R = 7 / np.sqrt(2 * min(v.real for v in g))
    dr = min(1 / np.sqrt(max(v.real for v in g)), .5 / (R * (abs(g[0].imag - g[1].imag) + 1e-30))) / 12
    M = int(R / dr) + 10
    if M < 2000000:
        r = np.linspace(0, R, 2 * M + 1)
        e1, e2 = np.exp(-g[0] * r ** 2), np.exp(-g[1] * r ** 2)
        S = lambda y: np.sum((y[:-2:2] + 4 * y[1:-1:2] + y[2::2])) * (r[1] / 3)
        num = abs(S(e1 * e2.conj() * r)) ** 2 / (S(abs(e1) ** 2 * r) * S(abs(e2) ** 2 * r)).real
        ctx.close(np.asarray(got)[i], num, 'overlap-integral', rtol=1e-4, atol=1e-6)
    b1.set_waist_to_match_confocal(p1, p2, b2, x)
    ctx.close(b1.waist, np.sqrt(2 * zr2 / k1), 'matched-waist', rtol=1e-9)
    ctx.close(b1.calculate_zR(n1), zr2, 'matched-confocal', rtol=1e-9)
    ctx.close(b2.waist, w2, 'other-beam-unchanged', rtol=0)
    ctx.event('beam pairs')


def optimum(ctx):
    """The optimised waist maximises the overlap integrated over the length."""
    rng = ctx.rng
    x, m = xtal.build(rng)
    b1, p1, w1, a1 = beam(rng, m, 16)
    b2, p2, w2, a2 = beam(rng, m, 16)
    w2 = float(np.mean(w2))
    b2.set_w0(w2)
    L1, L2 = lam(p1), lam(p2)
    n1, n2 = m.n(L1 * 1e9, a1), m.n(L2 * 1e9, a2)
    k1, k2 = 2 * np.pi * n1 / L1, 2 * np.pi * n2 / L2
    if np.min(np.abs(k1 / k2 - 1)) < .02:
        return
    zr2 = k2 * w2 ** 2 / 2
    own = rng.random() < .5
    L = m.length if own else float(np.mean(zr2) * gen.logu(rng, .05, 5))
    if own and not .05 < L / np.mean(zr2) < 5:
        return
    ctx.note(kind=m.kind, w2=w2, L=L, own=own)
    got = b1.calc_optimal_beam_overlap_in_crystal(p1, p2, b2, x) if own else \
        b1.calc_optimal_beam_overlap_in_crystal(p1, p2, b2, x, L)
    ctx.close(b1.waist, w1, 'optimising-sets-nothing', rtol=0)
    ctx.need(np.shape(got) == (16,), 'optimum-shape', got=np.shape(got))
    z = np.linspace(0, L, 401)

    def total(zr1):
        o = overlap_of(z[:, None], k1, zr1, k2, zr2)
        return (np.sum(o, 0) - .5 * (o[0] + o[-1])) / 400
    best = np.max([total(zr2 * f) for f in np.exp(np.linspace(-3, 3, 241))], axis=0)
    val = total(k1 * np.asarray(got) ** 2 / 2)
    ctx.check(np.sum(val) >= np.sum(best) - 16 * 2e-3, 'optimal-overlap', got=np.sum(val), best=np.sum(best))
    ctx.event('optimisations')


def waveguide(ctx):
    from pynlo.light.high_V_waveguide import OneDBeam_highV_WG
    rng = ctx.rng
    x, m = xtal.build(rng)
    made = []
    for _ in range(2):
        p = xtal.pulse(rng, m.kind)
        ax = axis_of(rng, m)
        A = gen.logu(rng, .5, 500) if rng.random() < .7 else gen.logu(rng, 1e-4, 1e8)
        if rng.random() < .15:
            A, b = 10., OneDBeam_highV_WG(this_pulse=p, axis=ax)
        else:
            b = OneDBeam_highV_WG(A, p, ax) if rng.random() < .5 else OneDBeam_highV_WG(Aeff_squm=A, this_pulse=p, axis=ax)
        made.append([b, p, ax, A * 1e-12])
    if rng.random() < .5:
        made[1][3] = gen.logu(rng, 1e-13, 1e-9) if rng.random() < .7 else gen.logu(rng, 1e-16, 1e-3)
        made[1][0].set_Aeff(made[1][3])
    ctx.note(kind=m.kind, areas=[v[3] for v in made])
    for b, p, ax, A in made:
        L = lam(p)
        n = m.n(L * 1e9, ax)
        z = float(rng.uniform(-1, 1))
        ctx.close(b.Aeff, A, 'mode-area', rtol=1e-12)
        ctx.close(b.calculate_gouy_phase(z, n), 1., 'no-gouy-phase', rtol=0)
        ctx.close(b.get_n_in_crystal(p, x), n, 'index-in-crystal', rtol=1e-9)
        ctx.close(b.get_k_in_crystal(p, x), 2 * np.pi * n / L, 'wavenumber-in-crystal', rtol=1e-9)
        want = 1 / np.sqrt(A * n * EPSC)
        ctx.close(b.rtP_to_a(n), want, 'mode-power-to-field', rtol=1e-7)
        ctx.close(b.rtP_to_a(n, z), want, 'mode-power-to-field', rtol=1e-7)
        ctx.close(b.rtP_to_a_2(p, x, z), want, 'mode-power-to-field', rtol=1e-7)
    (b1, p1, _, _), (b2, p2, _, _) = made
    ctx.close(b1.calc_overlap_integral(.1, p1, p2, b2, x), 1., 'unit-overlap', rtol=0)
    ctx.event('modes', 2)


STRATA = [('histories', histories, 2), ('geometry', geometry, 4), ('in_crystal', in_crystal, 3), ('overlap', overlap, 3),
          ('waveguide', waveguide, 2), ('optimum', optimum, 1)]
