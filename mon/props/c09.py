"""C09 diagnostics report the pulse's own intensity and frequency content."""
import numpy as np

from mon import gen, ref

RULE = ('random pulses; mean frequency, intensity autocorrelation and '
        'spectrograms compared with directly evaluated sums and with what '
        'shifting the pulse in time or frequency has to do to them.')
QUICK, THOROUGH = 5000, 40000
MIN_CHECKS = 16200
BUDGET = 300000
FILES = ['src/pynlo/light/PulseBase.py']


def mean(ctx):
    rng = ctx.rng
    # sometimes a grid that reaches below zero frequency
    p, A, info = gen.loaded_pulse(rng, positive=rng.random() < .6)
    m = gen.model_of(p)
    top = np.max(np.abs(m['F'])) * 1e12
    S = np.abs(ref.to_freq(A)) ** 2
    ctx.note(**info)
    keep = p.AT
    f = np.sum(S * m['F']) / np.sum(S)
    ctx.close(p.calculate_weighted_avg_frequency_mks(), f * 1e12, 'mean-frequency', rtol=1e-10, scale=top)
    ctx.close(p.calculate_weighted_avg_wavelength_nm(), ref.C_NMPS / f, 'mean-wavelength',
              rtol=1e-10 * max(1, 1e-12 * top / abs(f)))
    ctx.close(p.AT, keep, 'diagnostic-keeps-field', rtol=0)
    # phase and energy do not matter, a spectral shift moves it one to one
    p.apply_phase_W(rng.normal(size=info['n']))
    p.set_AW(p.AW * (3.7 if rng.random() < .7 else gen.logu(rng, 1e-60, 1e60)))
    ctx.close(p.calculate_weighted_avg_frequency_mks(), f * 1e12, 'mean-phase-blind', rtol=1e-10, scale=top)
    k = int(rng.integers(info['n']))
    x = np.zeros(info['n'])
    x[k] = rng.uniform(.1, 5)
    p.set_AW(x)
    ctx.close(p.calculate_weighted_avg_frequency_mks(), m['F'][k] * 1e12, 'line-frequency', rtol=1e-10, scale=top)
    ctx.close(p.calculate_weighted_avg_wavelength_nm(), m['wl'][k], 'line-wavelength',
              rtol=1e-10 * max(1, 1e-12 * top / abs(m['F'][k])))
    ctx.event('mean frequencies', 3)


def autocorrelation(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, positive=False)
    n = info['n']
    I = np.abs(A) ** 2
    ctx.note(**info)
    keep = p.AT
    C = p.calculate_intensity_autocorrelation()
    Z = np.concatenate([I, np.zeros(n)])
    full = np.fft.irfft(np.abs(np.fft.rfft(Z)) ** 2, 2 * n)
    want = np.array([full[(k - n // 2) % (2 * n)] for k in range(n)])
    ctx.close(C, want, 'autocorrelation', rtol=1e-9)
    ctx.check(np.ndim(C) == 1 and not np.iscomplexobj(C), 'autocorrelation-real')
    ctx.close(p.AT, keep, 'diagnostic-keeps-field', rtol=0)
    ctx.close(C[n // 2], np.sum(I ** 2), 'autocorrelation-zero-delay', rtol=1e-9)
    ctx.close(C[1:], C[1:][::-1], 'autocorrelation-symmetric', rtol=1e-9)
    # phase in time leaves it alone, moving an isolated pulse leaves it alone
    p.chirp_pulse_T(rng.normal(), rng.normal() * .2, info['tw'] / 20)
    ctx.close(p.calculate_intensity_autocorrelation(), C, 'autocorrelation-phase-blind', rtol=1e-9)
    p.set_AT(A * 2)
    ctx.close(p.calculate_intensity_autocorrelation(), 16 * C, 'autocorrelation-order', rtol=1e-9)
    B = np.zeros(n, complex)
    w = int(rng.integers(1, n // 4))
    B[n // 4:n // 4 + w] = rng.normal(size=w) + 1j * rng.normal(size=w)
    p.set_AT(B)
    c1 = p.calculate_intensity_autocorrelation()
    p.set_AT(np.roll(B, int(rng.integers(1, n // 2 - w + 1))))
    ctx.close(p.calculate_intensity_autocorrelation(), c1, 'autocorrelation-delay-blind', rtol=1e-9)
    ctx.event('autocorrelations', 4)


def slow_grid(rng):
    """A grid whose carrier is below the Nyquist frequency of the time grid."""
    n = gen.pick(rng, [64, 100, 128, 200, 256])
    wl = float(rng.uniform(500, 3000))
    f0 = ref.C_NMPS / wl
    return n, n / 2 / f0 * rng.uniform(.15, .9), wl


def smooth_field(rng, n, tw):
    g = ref.grids(n, tw, 1.)
    w = tw * rng.uniform(.04, .1)
    A = np.zeros(n, complex)
    for _ in range(int(rng.integers(1, 4))):
        A += rng.uniform(.3, 1) * np.exp(-.5 * ((g['T'] - tw * rng.uniform(-.2, .2)) / w) ** 2
                                         + 1j * rng.uniform(0, 6.28) - 1j * rng.normal() * g['T'] / w)
    return A


def xfrog(ctx):
    rng = ctx.rng
    n, tw, wl = slow_grid(rng)
    p = gen.bare_pulse(rng, n, tw, wl)
    A = smooth_field(rng, n, tw)
    if rng.random() < .3:
        A = A + .3 * (rng.normal(size=n) + 1j * rng.normal(size=n))
    A = A * 10 ** rng.uniform(-6, 6)
    p.set_AT(A)
    steps = int(rng.integers(3, 40))
    # from gates that see a single sample to gates that see the whole window
    gw = float(gen.pick(rng, [tw * rng.uniform(.02, .2), tw / n * rng.uniform(.3, 2),
                              tw * rng.uniform(.5, 20)]))
    ctx.note(n=n, tw=tw, wl=wl, steps=steps, gate=gw)
    keep = p.AT
    u = rng.random()
    if u < .1:
        gw, steps = .02, 500
        D, F, ext, S = p.spectrogram()
    elif u < .2:
        steps = 500
        D, F, ext, S = p.spectrogram(gate_function_width_ps=gw)
    else:
        D, F, ext, S = p.spectrogram('xfrog', gw, steps)
    verify(ctx, p, A, D, F, ext, S, steps,
           lambda T, d: np.exp(-(T - d) ** 2 / (2 * gw ** 2)))
    ctx.close(p.AT, keep, 'diagnostic-keeps-field', rtol=0)
    ctx.event('xfrog spectrograms')


def verify(ctx, p, A, D, F, ext, S, steps, gate):
    n, tw = p.NPTS, p.time_window_ps
    f0 = p.center_frequency_THz
    m = ref.grids(n, tw, f0)
    T = m['T']
    delay = np.linspace(T[0], T[-1], steps)
    freqs = np.arange(n // 2) / tw
    ctx.close(D, np.tile(delay, (n // 2, 1)), 'spectrogram-delays', rtol=1e-9)
    ctx.close(F, np.tile(freqs[:, None], (1, steps)), 'spectrogram-frequencies', rtol=1e-9)
    ctx.close(np.array(ext), np.array([delay[0], delay[-1], freqs[0], freqs[-1]]),
              'spectrogram-extent', rtol=1e-9)
    # |sum_t A(t) g(t-d) exp(-i w0 t) exp(+i 2 pi f t)|
    E = A[:, None] * gate(T[:, None], delay[None, :]) * np.exp(-2j * np.pi * f0 * T)[:, None]
    K = np.exp(2j * np.pi * freqs[:, None] * T[None, :])
    ctx.close(S, np.abs(K @ E), 'spectrogram-values', rtol=1e-10)


def frog(ctx):
    rng = ctx.rng
    n, tw, wl = slow_grid(rng)
    n = gen.pick(rng, [64, 100, 128])
    tw = n / 2 / (ref.C_NMPS / wl) * rng.uniform(.3, .9)
    p = gen.bare_pulse(rng, n, tw, wl)
    A = smooth_field(rng, n, tw)
    p.set_AT(A)
    ctx.note(n=n, tw=tw, wl=wl)
    D, F, ext, S = p.spectrogram(gate_type='frog', time_steps=n)
    # with one delay per sample the gate falls on samples: A(t - d)
    f0 = p.center_frequency_THz
    T = ref.grids(n, tw, f0)['T']
    G = np.zeros((n, n), complex)
    for k in range(n):
        s = k - n // 2                      # delay in samples
        if s >= 0:
            G[s:, k] = A[:n - s]
        else:
            G[:n + s, k] = A[-s:]
    E = A[:, None] * G * np.exp(-2j * np.pi * f0 * T)[:, None]
    K = np.exp(2j * np.pi * (np.arange(n // 2) / tw)[:, None] * T[None, :])
    W = np.abs(K @ E)
    ctx.close(D[0], T, 'spectrogram-delays', rtol=1e-9)
    ctx.close(F[:, 0], np.arange(n // 2) / tw, 'spectrogram-frequencies', rtol=1e-9)
    # interpolation beyond the first/last sample is a boundary convention
    ctx.close(S, W, "frog-values", rtol=4e-3)
    ctx.event('frog spectrograms')


def where(ctx):
    """A pulse put at time t and frequency f shows up at (t, f)."""
    rng = ctx.rng
    n = gen.pick(rng, [256, 512])
    wl = float(rng.uniform(500, 3000))
    f0 = ref.C_NMPS / wl
    tw = n / 2 / f0 * rng.uniform(.3, .6)
    p = gen.bare_pulse(rng, n, tw, wl)
    T = p.T_ps
    w = tw * .06
    nyq = n / 2 / tw
    lo, hi = max(.1 * nyq, 6 / (2 * np.pi * w)), nyq - 6 / (2 * np.pi * w)
    f = float(rng.uniform(lo, hi))
    t = tw * rng.uniform(-.3, .3)
    p.set_AT(np.exp(-.5 * ((T - t) / w) ** 2 - 2j * np.pi * (f - f0) * T))
    steps = int(rng.integers(100, 140))
    ctx.note(n=n, tw=tw, f=f, t=t)
    D, F, ext, S = p.spectrogram('xfrog', w, steps)
    k = np.unravel_index(int(np.argmax(S)), S.shape)
    ctx.leq(abs(F[k] - f), .51 / tw + 1e-9, 'spectrogram-frequency-of-pulse', f=f, got=F[k])
    ctx.leq(abs(D[k] - t), .51 * tw / (steps - 1) + tw / n, 'spectrogram-time-of-pulse', t=t, got=D[k])
    ctx.raises(ValueError, 'unknown-gate-refused', p.spectrogram, gen.pick(rng, ['XFROG', 'shg', '']))
    ctx.event('located pulses')


STRATA = [('mean', mean, 2), ('autocorrelation', autocorrelation, 2), ('xfrog', xfrog, 2),
          ('frog', frog, 1), ('where', where, 1)]
