"""C06 dechirping and delay removal take out exactly the fitted phase."""
import numpy as np

from mon import gen, ref

RULE = ('smooth spectra of random centre, width and shape on random grids with '
        'random polynomial phase; result compared with the phase left after an '
        'independent least-squares fit over the bins above the threshold.')
QUICK, THOROUGH = 16000, 120000
MIN_CHECKS = 28800
BUDGET = 200000
FILES = ['src/pynlo/light/PulseBase.py']


def smooth(ctx):
    """A pulse with a smooth positive spectral amplitude and a slowly varying
    phase (well under pi per bin everywhere, so unwrapping is unambiguous)."""
    rng = ctx.rng
    while True:
        n, tw, wl = gen.grid(rng, [64, 100, 128, 200, 256, 360, 512, 1000], tw_lo=.3)
        p = gen.bare_pulse(rng, n, tw, wl)
        m = gen.model_of(p)
        x = np.arange(n) - n / 2 - rng.uniform(-.2, .2) * n
        w = n * rng.uniform(.06, .25)
        two = rng.random() < .25          # two lines with a dark gap between them
        if two:
            w *= .25
        if w * 2 * np.pi / tw > 1e-3 * 2 * np.pi * m['f0']:
            break
    a = np.exp(-.5 * (x / w) ** 2) + (.02 if rng.random() < .5 else 1e-9)
    if rng.random() < .5:
        a = a + .6 * np.exp(-.5 * ((x - 1.5 * w) / (.4 * w)) ** 2)
    if two:
        a = a + rng.uniform(.4, 1) * np.exp(-.5 * ((x + gen.sgn(rng) * rng.uniform(5, 8) * w) / w) ** 2)
    a = a * 10 ** rng.uniform(-8, 4)
    u = (np.arange(n) - n / 2) / (n / 2)
    return p, m, n, a, u


def fit(u, ph, mask, deg):
    c = np.polynomial.Polynomial.fit(u[mask], ph[mask], deg)
    return c(u)


def phase(ctx, u, n, deg):
    """Random polynomial whose slope stays under 2 rad per bin."""
    rng = ctx.rng
    c = rng.normal(size=deg + 1)
    P = np.polynomial.Polynomial(c)
    sl = np.max(np.abs(np.diff(P(u))))
    return P(u) * float(rng.uniform(.05, 2.0)) / sl


def dechirp(ctx):
    rng = ctx.rng
    p, m, n, a, u = smooth(ctx)
    deg = int(rng.integers(1, 6))
    ph = phase(ctx, u, n, deg)
    thr = gen.pick(rng, [None, .05, .01, .2, .5, float(rng.uniform(.001, .6)), gen.logu(rng, 1e-9, .9)])
    t = .05 if thr is None else thr
    mask = a ** 2 > t * np.max(a) ** 2
    # bins at the threshold would make membership a matter of rounding
    if np.sum(mask) < 5 or np.min(np.abs(a ** 2 / np.max(a) ** 2 - t)) < 1e-9 * t:
        return
    ctx.note(n=n, deg=deg, thr=t, bins=int(mask.sum()))
    p.set_AW(a * np.exp(1j * ph))
    p.dechirp_pulse() if thr is None else p.dechirp_pulse(intensity_threshold=thr)
    want = a * np.exp(1j * (ph - fit(u, ph, mask, 2)))
    ctx.close(np.abs(p.AW), a, 'amplitude-untouched', rtol=1e-10)
    ctx.close(p.AW, want, 'quadratic-phase-removed', rtol=1e-6)
    if deg <= 2:
        ctx.close(p.AW, a.astype(complex), 'transform-limited', rtol=1e-6)
        ctx.close(np.max(np.abs(p.AT)), np.sum(a), 'shortest-pulse', rtol=1e-6)
    first = p.AW
    p.dechirp_pulse(intensity_threshold=t)
    # what is left must still be read back unambiguously
    if np.max(np.abs(np.diff(ph - fit(u, ph, mask, 2)))) < 2.8:
        ctx.close(p.AW, first, 'idempotent', rtol=1e-6)
        ctx.event('repeated')
    ctx.close(p.W_THz, m['W'], 'grid-kept', rtol=1e-11)
    ctx.event('dechirped')


def undelay(ctx):
    rng = ctx.rng
    p, m, n, a, u = smooth(ctx)
    deg = int(rng.integers(1, 6))
    ph = phase(ctx, u, n, deg)
    thr = gen.pick(rng, [None, .05, .01, .2, .5, float(rng.uniform(.001, .6)), gen.logu(rng, 1e-9, .9)])
    t = .05 if thr is None else thr
    mask = a ** 2 > t * np.max(a) ** 2
    if np.sum(mask) < 5 or np.min(np.abs(a ** 2 / np.max(a) ** 2 - t)) < 1e-9 * t:
        return
    ctx.note(n=n, deg=deg, thr=t, bins=int(mask.sum()))
    p.set_AW(a * np.exp(1j * ph))
    p.remove_time_delay() if thr is None else p.remove_time_delay(intensity_threshold=thr)
    want = a * np.exp(1j * (ph - fit(u, ph, mask, 1)))
    ctx.close(np.abs(p.AW), a, 'amplitude-untouched', rtol=1e-10)
    ctx.close(p.AW, want, 'linear-phase-removed', rtol=1e-6)
    if deg == 1:
        ctx.close(p.AW, a.astype(complex), 'delay-gone', rtol=1e-6)
    first = p.AW
    p.remove_time_delay(intensity_threshold=t)
    if np.max(np.abs(np.diff(ph - fit(u, ph, mask, 1)))) < 2.8:
        ctx.close(p.AW, first, 'idempotent', rtol=1e-6)
        ctx.event('repeated')
    ctx.event('delays removed')


def invariance(ctx):
    """The result forgets any quadratic (linear) phase that was put on top."""
    rng = ctx.rng
    p, m, n, a, u = smooth(ctx)
    ph = phase(ctx, u, n, int(rng.integers(3, 6))) * .4
    extra = phase(ctx, u, n, 2) * .4
    lin = phase(ctx, u, n, 1) * .4
    if np.min(np.abs(a ** 2 / np.max(a) ** 2 - .05)) < 1e-9:
        return
    ctx.note(n=n)
    q = p.create_cloned_pulse() if False else None
    p.set_AW(a * np.exp(1j * ph))
    q = p.create_cloned_pulse()
    q.apply_phase_W(extra)
    r, s = p.create_cloned_pulse(), p.create_cloned_pulse()
    s.apply_phase_W(lin)
    p.dechirp_pulse()
    q.dechirp_pulse()
    ctx.close(q.AW, p.AW, 'forgets-quadratic', rtol=1e-6)
    r.remove_time_delay()
    s.remove_time_delay()
    ctx.close(s.AW, r.AW, 'forgets-linear', rtol=1e-6)
    ctx.event('invariance pairs')


def undo(ctx):
    """Dechirping undoes chirp_pulse_W's GDD and any delay, end to end."""
    rng = ctx.rng
    p, m, n, a, u = smooth(ctx)
    p.set_AW(a)
    peak = np.max(np.abs(p.AT))
    V = m['V']
    lim = 1.5 / np.max(np.abs(np.diff(V ** 2 / 2)))
    g = float(rng.uniform(-1, 1)) * lim * .5
    d = float(rng.uniform(-.5, .5)) * 1.5 / (2 * np.pi) * m['tw']
    ctx.note(n=n, gdd=g, delay=d)
    p.chirp_pulse_W(g)
    p.add_time_offset(d * .5)
    p.dechirp_pulse()
    ctx.close(np.max(np.abs(p.AT)), peak, 'compresses', rtol=1e-6)
    ctx.close(p.AW, a.astype(complex), 'compresses', rtol=1e-6)
    p.chirp_pulse_W(g)
    chirped = p.AW
    p.add_time_offset(d * .5)
    p.remove_time_delay()
    q = p.create_cloned_pulse()
    q.set_AW(chirped)
    q.remove_time_delay()
    ctx.close(p.AW, q.AW, 'delay-removed-chirp-kept', rtol=1e-6)
    ctx.event('round trips')


STRATA = [('dechirp', dechirp, 4), ('undelay', undelay, 3), ('invariance', invariance, 1),
          ('undo', undo, 2)]
