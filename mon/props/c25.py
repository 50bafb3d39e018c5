"""C25 refractive indices follow the published Sellmeier equations."""
import numpy as np

from mon import gen, xtal

RULE = ('random crystals of every kind, wavelengths (numbers and arrays), axes, '
        'and histories of temperature, data set and angle changes on several '
        'crystals; every index compared with the published equation.')
QUICK, THOROUGH = 24000, 150000
MIN_CHECKS = 243000
BUDGET = 100000
FILES = ['src/pynlo/media/crystals/XTAL_PPLN.py', 'src/pynlo/media/crystals/XTAL_AgGaS.py',
         'src/pynlo/media/crystals/XTAL_AgGaSe2.py', 'src/pynlo/media/crystals/CrystalContainer.py']


def ask(rng, x, wl, axis):
    if axis is None:
        return x.n(wl)
    if axis == 'mix' and rng.random() < .5:
        return x.n(wl)
    return x.n(wl, axis) if rng.random() < .5 else x.n(wl, axis=axis)


def query(ctx, x, m, clause):
    rng = ctx.rng
    wl, ax = xtal.wavelengths(rng, m), xtal.axis_of(rng, m)
    keep = np.array(wl)
    got = ask(rng, x, wl, ax)
    ctx.close(got, m.n(keep, ax), clause, rtol=1e-12, kind=m.kind, axis=ax)
    ctx.check(np.array_equal(wl, keep), 'argument-unchanged')
    ctx.check(np.shape(got) == np.shape(keep), 'index-shape')


def sellmeier(ctx):
    rng = ctx.rng
    x, m = xtal.build(rng)
    ctx.note(kind=m.kind, T=m.T, theta=m.theta, source=m.source)
    for _ in range(3):
        query(ctx, x, m, 'sellmeier')
    ctx.close(x.deff, xtal.DEFF[m.kind], 'nonlinearity', rtol=1e-12)
    ctx.close(x.n2, xtal.N2[m.kind], 'nonlinearity', rtol=1e-12, atol=1e-40)
    ctx.close(x.damage_threshold_mks, xtal.DAMAGE[m.kind], 'damage-threshold', rtol=1e-12)
    ctx.check(x.mode == xtal.MODE[m.kind], 'matching-mode', got=x.mode)
    ctx.close(x.length_mks, m.length, 'length', rtol=0)
    ctx.close(x.length_nm, m.length * 1e9, 'length', rtol=1e-12)
    ctx.event('crystals')


def histories(ctx):
    rng = ctx.rng
    cs = [xtal.build(rng) for _ in range(int(rng.integers(2, 5)))]
    ops = []
    ctx.note(kinds=[m.kind for _, m in cs])
    for _ in range(int(rng.integers(4, 16))):
        x, m = gen.pick(rng, cs)
        if rng.random() < .5:
            ops.append(xtal.change(rng, x, m))
            query(ctx, x, m, 'after-change')
        else:
            query(ctx, x, m, 'own-settings')
        if m.kind == 'PPLN' and hasattr(x, 'T'):
            ctx.close(x.T, m.T, 'temperature-shown', rtol=0)
        if rng.random() < .2:
            cs.append(xtal.build(rng))
    for x, m in cs:
        query(ctx, x, m, 'own-settings')
        ctx.close(x.length_mks, m.length, 'length', rtol=0)
        ctx.close(x.damage_threshold_mks, xtal.DAMAGE[m.kind], 'damage-threshold', rtol=1e-12)
    ctx.note(ops=ops)
    ctx.event('changes', len(ops))


def ellipsoid(ctx):
    """Between the two indices, at their ends equal to them, even and periodic."""
    rng = ctx.rng
    x, m = xtal.build(rng, gen.pick(rng, ['AgGaS', 'AgGaSe2']))
    wl = xtal.wavelengths(rng, m, False)
    th = float(rng.uniform(0, np.pi / 2))
    ctx.note(kind=m.kind, theta=th)
    no, ne = x.n(wl, 'o'), x.n(wl, 'e')

    def mix(t):
        x.set_theta(t)
        return x.n(wl, 'mix')
    ctx.close(mix(0.), no, 'ordinary-at-zero', rtol=1e-13)
    ctx.close(mix(np.pi / 2), ne, 'extraordinary-at-right-angle', rtol=1e-13)
    n = mix(th)
    ctx.check(np.all(n >= np.minimum(no, ne) - 1e-12) and np.all(n <= np.maximum(no, ne) + 1e-12),
              'between-axes')
    ctx.close(mix(-th), n, 'ellipsoid-symmetry', rtol=1e-12)
    ctx.close(mix(np.pi - th), n, 'ellipsoid-symmetry', rtol=1e-12)
    # the point n(cos, sin) lies on the ellipse with half axes no, ne
    ctx.close((n * np.cos(th) / no) ** 2 + (n * np.sin(th) / ne) ** 2, np.ones(len(wl)),
              'on-ellipse', rtol=1e-11)
    ctx.close(x.n(wl, 'o'), no, 'axes-angle-blind', rtol=0)
    ctx.close(x.n(wl, 'e'), ne, 'axes-angle-blind', rtol=0)
    ctx.raises(ValueError, 'unknown-axis-refused', x.n, wl, gen.pick(rng, ['x', 'O', 'oe', '', 'ordinary', 3]))
    ctx.event('ellipsoids')


STRATA = [('sellmeier', sellmeier, 4), ('histories', histories, 2), ('ellipsoid', ellipsoid, 2)]
