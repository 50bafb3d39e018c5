"""Three-wave mixing: random problems and an independent solution of the
coupled-wave equations."""
import numpy as np
from scipy.integrate import solve_ivp

from mon import gen, ref, xtal

C = ref.C
EPSC = ref.EPS0 * ref.C
TWO_PI = 2 * np.pi


def glass(n0, n1, n2, fref, deff, length, caching):
    """A user-defined crystal: index polynomial in frequency, no poling."""
    from pynlo.media.crystals.CrystalContainer import Crystal

    class Glass(Crystal):
        def __init__(self):
            Crystal.__init__(self, dict(length=length, enable_caching=caching))
            self.mode, self.deff, self.n2 = 'simple', deff, 0.

        def n(self, wl_nm, axis=None):
            u = ref.C_NMPS / wl_nm / fref - 1
            return n0 + n1 * u + n2 * u * u
    return Glass()


class GlassModel:
    kind = 'glass'

    def __init__(self, n0, n1, n2, fref, length):
        self.a, self.length = (n0, n1, n2, fref), length

    def n(self, wl_nm, axis=None):
        n0, n1, n2, fref = self.a
        u = ref.C_NMPS / np.asarray(wl_nm) / fref - 1
        return n0 + n1 * u + n2 * u * u


class Prob:
    pass


def colours(rng, kind, nlist, cw=False):
    """(n, tw, fp, fs) with separate grids inside the index range."""
    if kind == 'glass':
        lo, hi = 300., 20000.
    else:
        lo, hi = xtal.RANGE[kind]
        if kind == 'PPLN':
            lo, hi = 500., 4500.
    fmin, fmax = ref.C_NMPS / hi, ref.C_NMPS / lo
    while True:
        n = gen.size(rng, nlist, big=(150, 256, 500), share=.02)
        fp = rng.uniform(fmin * 2.2, fmax)
        fi = rng.uniform(fmin, fp * .48)
        fs = fp - fi
        gap = min(fp - fs, fs - fi, 2 * (fi - fmin), 2 * (fmax - fp))
        if gap < .03 * fp:
            continue
        B = gap * rng.uniform(.02, .9)
        tw = n / B
        if tw < .02:
            continue
        return n, tw, fp, fs


def light(rng, n, tw, kind=None):
    """A time-domain field of unit peak on the centred grid."""
    T = -tw / 2 + tw / n * np.arange(n)
    kind = kind or gen.pick(rng, ['gauss', 'gauss', 'chirped', 'two', 'noise', 'line'])
    if kind == 'gauss':
        A = np.exp(-.5 * ((T - tw * rng.uniform(-.15, .15)) / (tw * rng.uniform(.07, .15))) ** 2)
    elif kind == 'chirped':
        w = tw * rng.uniform(.1, .17)
        A = np.exp(-.5 * (T / w) ** 2 * (1 + 1j * rng.uniform(-2, 2)))
    elif kind == 'two':
        A = sum(rng.uniform(.3, 1) * np.exp(1j * rng.uniform(0, 6.28)) *
                np.exp(-.5 * ((T - s * tw * rng.uniform(.1, .25)) / (tw * rng.uniform(.06, .1))) ** 2)
                for s in (-1, 1))
    elif kind == 'noise':
        S = (rng.normal(size=n) + 1j * rng.normal(size=n)) * np.exp(-.5 * ((np.arange(n) - n / 2) / (n * .12)) ** 2)
        A = ref.to_time(S)
    else:
        A = np.exp(-2j * np.pi * int(rng.integers(-n // 5, n // 5 + 1)) * T / tw)
    A = np.asarray(A, complex)
    return A / np.max(np.abs(A)), kind


def make_pulse(rng, n, tw, f0, A, frep):
    p = gen.bare_pulse(rng, n, tw, ref.C_NMPS / f0, frep)
    p.set_AT(A)
    return p


def problem(rng, kinds=('PPLN', 'glass', 'AgGaS', 'AgGaSe2'), wg=None, nlist=(16, 32, 48, 64),
            strength=(.2, 2.), mismatch=8., fields=None, domains=(2, 14),
            lengths=(2e-4, 2e-2)):
    """A random mixing problem: code objects and everything the oracle needs."""
    q = Prob()
    kind = gen.pick(rng, list(kinds))
    q.kind = kind
    n, tw, fp, fs = colours(rng, kind, nlist)
    fi = fp - fs
    q.n, q.tw, q.f = n, tw, (fp, fs, fi)
    grids = [ref.grids(n, tw, f) for f in (fp, fs, fi)]
    q.W = [g['W'] * 1e12 for g in grids]
    q.lam = [g['wl'] * 1e-9 for g in grids]
    q.wg = bool(rng.random() < .5) if wg is None else wg
    if kind in ('AgGaS', 'AgGaSe2'):
        q.wg = False
    caching = bool(rng.random() < .5)
    axes = (None, None, None)
    wl0 = [ref.C_NMPS / f for f in q.f]
    if kind == 'glass':
        L = gen.logu(rng, *lengths)
        fref = fp / 2
        u = [f / fref - 1 for f in q.f]
        # kp-ks-ki = 2 pi/c (fp(n1 up+n2 up^2) - ...), the constant part cancels
        s1 = (fp * u[0] - fs * u[1] - fi * u[2]) * 1e12 * TWO_PI / C
        s2 = (fp * u[0] ** 2 - fs * u[1] ** 2 - fi * u[2] ** 2) * 1e12 * TWO_PI / C
        while True:
            # choose the curvature for a mismatch of a few pi at most over L
            n0, n1 = rng.uniform(1.4, 2.6), rng.uniform(-.02, .06)
            want = rng.uniform(-mismatch, mismatch) / L
            n2 = (want - n1 * s1) / s2
            v = n0 + n1 * (x := np.concatenate([g['F'] for g in grids]) / fref - 1) + n2 * x * x
            if 1.2 < v.min() and v.max() < 3.5:
                break
            L = L * 1.1
        deff = gen.logu(rng, 1e-12, 5e-11)
        q.m = GlassModel(n0, n1, n2, fref, L)
        q.x = glass(n0, n1, n2, fref, deff, L, caching)
        q.domains = None
    elif kind == 'PPLN':
        q.m = xtal.Model('PPLN', T=xtal.temperature(rng), source=gen.pick(rng, ['Gayer_5pctMg', 'Deng']))
        k0 = [TWO_PI * float(q.m.n(w)) / w * 1e9 for w in wl0]
        dk = k0[0] - k0[1] - k0[2]
        m = int(rng.integers(*domains))
        per = abs(TWO_PI / dk) * rng.uniform(.9, 1.1)
        if rng.random() < .15:
            per = per * rng.uniform(.3, 3)
        L = m * per * rng.uniform(.85, 1.15)
        q.m.length = L
        from pynlo.media.crystals.XTAL_PPLN import PPLN
        q.x = PPLN(q.m.T, length=L, enable_caching=caching)
        q.x.load(q.m.T, q.m.source)
        r = rng.random()
        if r < .4:
            pp = lambda z: per
            q.x.set_pp((per,))
        elif r < .7:
            a = per * rng.uniform(-.2, .2)
            pp = lambda z: per + a * z / L
            q.x.set_pp_chirp(per, per + a)
        else:
            a = rng.uniform(-.2, .2)
            pp = lambda z: per * (1 + a * np.sin(5 * z / L))
            q.x.set_pp(pp)
        q.domains = []
        z = 0.
        while z < L:
            q.domains.append((z + .5 * pp(z), z + pp(z)))
            z += pp(z)
        deff = q.x.deff
    else:
        from pynlo.media.crystals import XTAL_AgGaS, XTAL_AgGaSe2
        q.m = xtal.Model(kind, theta=float(rng.uniform(0, np.pi / 2)))
        need = (float(q.m.n(wl0[1], 'o')) / wl0[1] + float(q.m.n(wl0[2], 'o')) / wl0[2]) * wl0[0]
        ne, no = float(q.m.n(wl0[0], 'e')), float(q.m.n(wl0[0], 'o'))
        L = gen.logu(rng, 2e-4, 5e-3)
        if min(ne, no) < need < max(ne, no):
            need += rng.uniform(-mismatch, mismatch) / L * wl0[0] * 1e-9 / TWO_PI * .5
            s2 = (1 / need ** 2 - 1 / no ** 2) / (1 / ne ** 2 - 1 / no ** 2)
            q.m.theta = float(np.arcsin(np.sqrt(min(max(s2, 0), 1))))
        else:                                   # cannot be matched: keep it short
            dk = abs(TWO_PI * 1e9 / wl0[0] * (float(q.m.n(wl0[0], 'mix')) - need))
            L = min(L, rng.uniform(2, 30) / max(dk, 1.))
        q.m.length = L
        q.x = (XTAL_AgGaS if kind == 'AgGaS' else XTAL_AgGaSe2).AgGaSe2(q.m.theta, length=L, enable_caching=caching)
        q.domains = None
        axes = ('mix', 'o', 'o')
        deff = q.x.deff
    q.axes, q.L, q.deff = axes, L, xtal.DEFF.get(kind, deff)
    q.ind = [np.asarray(q.m.n(l * 1e9, a)) for l, a in zip(q.lam, axes)]
    q.k = [TWO_PI * v / l for v, l in zip(q.ind, q.lam)]
    q.gouy = bool(rng.random() < .4)
    if q.wg:
        q.Aeff = gen.logu(rng, 5, 500) * 1e-12
        area = q.Aeff
        q.zr = None
    else:
        h = n // 2
        # focus anywhere between loose and tight compared with the crystal
        b = L * gen.logu(rng, .4, 300)
        q.w0 = float(np.sqrt(b * q.lam[0][h] / (2 * np.pi * q.ind[0][h])))
        q.zr = np.pi * q.w0 ** 2 * q.ind[0][h] / q.lam[0][h]
        area = np.pi * q.w0 ** 2
    q.opts = dict(disable_SPM=True, apply_gouy_phase=q.gouy)
    if q.wg:
        q.opts.update(wg_mode=True, Aeff_squm=q.Aeff * 1e12)
    else:
        q.opts.update(pump_waist=q.w0)
    # amplitudes: strength is the parametric gain exponent over the crystal
    g1 = 2 * q.deff / C * np.sqrt(q.W[1][n // 2] * q.W[2][n // 2] /
                                  (q.ind[1][n // 2] * q.ind[2][n // 2]))
    a_peak = gen.logu(rng, *strength) / (g1 * L)
    q.Pp = a_peak ** 2 * area * float(q.ind[0][n // 2]) * EPSC
    q.Ps = q.Pp * 10 ** rng.uniform(-4, 0)
    fk = fields or (None, None)
    Ap, q.kp = light(rng, n, tw, fk[0])
    As, q.ks = light(rng, n, tw, fk[1])
    frep = gen.logu(rng, 1, 1e3)
    q.frep = frep
    q.pump = make_pulse(rng, n, tw, fp, Ap * np.sqrt(q.Pp), frep)
    q.sgnl = make_pulse(rng, n, tw, fs, As * np.sqrt(q.Ps), frep)
    q.in_p, q.in_s = q.pump.AW, q.sgnl.AW
    return q


def describe(q):
    return dict(kind=q.kind, n=q.n, tw=q.tw, f=q.f, wg=q.wg, L=q.L, gouy=q.gouy, Pp=q.Pp, Ps=q.Ps,
                fields=[q.kp, q.ks], domains=len(q.domains) if q.domains else 0)


def build(ctx, q, **over):
    from pynlo.interactions.ThreeWaveMixing import dfg_problem
    o = dict(q.opts)
    o.update(over)
    ob = ctx.call(dfg_problem, q.pump, q.sgnl, q.x, **o)
    import matplotlib.pyplot as plt
    plt.close('all')                # the code plots every poling pattern
    return ob


def integrate(ctx, q, ob, saves=4, rtol=1e-9, y0=None, L=None):
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    y0 = np.array(ob.ystart) if y0 is None else y0
    atol = rtol * 1e-3 * float(np.max(np.abs(y0)))
    out = ode_solve.Output(saves)
    a = ode_solve.ODEint(y0, 0., q.L if L is None else L, atol, rtol, q.L * 1e-4, 0.,
                         out, dopr853.StepperDopr853, ob, dtype=np.complex128)
    ctx.call(a.integrate)
    return a


class Reference:
    """The coupled-wave equations, written down anew."""

    def __init__(self, q):
        self.q = q
        n = q.n
        self.m = 4 * n

    def widths(self, z):
        """Field per square root of power for pump, signal and idler."""
        q = self.q
        if q.wg:
            return [1 / np.sqrt(q.Aeff * v * EPSC) for v in q.ind]
        zf = z - q.L / 2
        # every colour of the pump has the Rayleigh range of its central one,
        # and the interaction happens within the pump
        w2 = q.zr * q.lam[0] / (np.pi * q.ind[0]) * (1 + (zf / q.zr) ** 2)
        return [1 / np.sqrt(np.pi * w2 * v * EPSC) for v in q.ind]

    def rhs(self, z, y, sign):
        q, n = self.q, self.q.n
        a = self.widths(z)
        g = 1.
        if q.gouy and not q.wg:
            zf = z - q.L / 2
            g = (q.zr + 1j * zf) / np.hypot(zf, q.zr)
        ph = [np.exp(1j * k * z) * g for k in q.k]
        E = [a[i] * y[i * n:(i + 1) * n] * ph[i] for i in range(3)]
        m = self.m
        F = [np.fft.fft(e, m) for e in E]
        h = n // 2
        mix = [np.fft.ifft(F[1] * F[2])[h:h + n],
               np.roll(np.fft.ifft(F[0] * F[2].conj()), h)[:n],
               np.roll(np.fft.ifft(F[0] * F[1].conj()), h)[:n]]
        out = [2j * sign * q.deff / C * q.W[i] / q.ind[i] / a[i] * mix[i] / ph[i] for i in range(3)]
        return np.concatenate(out)

    def solve(self, y0, zs, rtol=1e-11):
        q = self.q
        cuts = {0., float(zs[-1])}
        for lb, ub in q.domains or []:
            cuts |= {v for v in (lb, ub) if 0 < v < zs[-1]}
        cuts = sorted(cuts)
        out = np.empty((len(zs), len(y0)), complex)
        y = np.array(y0, complex)
        out[0] = y
        j = 1
        atol = rtol * 1e-3 * float(np.max(np.abs(y0)))
        for lo, hi in zip(cuts[:-1], cuts[1:]):
            mid = .5 * (lo + hi)
            sign = -1. if any(b < mid < u for b, u in q.domains or []) else 1.
            inside = [z for z in zs[j:] if lo < z <= hi * (1 + 1e-15)]
            pts = list(inside)
            if not pts or pts[-1] < hi:
                pts.append(hi)
            zc = lo
            for z in pts:
                if z > zc:
                    s = solve_ivp(self.rhs, (zc, z), y, method='DOP853', rtol=rtol, atol=atol, args=(sign,))
                    y = s.y[:, -1]
                    zc = z
                if inside and z == inside[0]:
                    out[j] = y
                    j += 1
                    inside.pop(0)
        if j != len(zs):
            from mon.core import Harness
            raise Harness('reference missed save points')
        return out
