"""C02 AT and AW are one field seen through one centred Fourier transform."""
import numpy as np

from mon import gen, ref

RULE = ('random fields (smooth, noisy, single line, single sample, edge-heavy) '
        'of random size and type written in one domain and read in the other; '
        'compared with an explicit transform matrix built from the reported '
        'time and frequency grids.')
QUICK, THOROUGH = 4000, 120000
MIN_CHECKS = 15000
BUDGET = 100000
FILES = ['src/pynlo/light/PulseBase.py', 'src/pynlo/util/pynlo_ffts.py']


def odd_types(rng, A):
    """The same field, in some array form a caller may pass."""
    k = int(rng.integers(6))
    if k == 0:
        return list(A), 1e-12
    if k == 1:
        B = np.zeros(2 * len(A), complex)
        B[::2] = A
        return B[::2], 1e-12
    if k == 2:
        B = A.copy()
        B.setflags(write=False)
        return B, 1e-12
    if k == 3:
        return A[::-1].copy()[::-1], 1e-12
    if k == 4:
        return tuple(A), 1e-12
    return A, 1e-12


def matrix(ctx):
    rng = ctx.rng
    n, tw, wl = gen.grid(rng, [2, 4, 6, 16, 20, 32, 50, 64, 96, 100, 128, 130], positive=False)
    p = gen.bare_pulse(rng, n, tw, wl)
    A, kind = gen.field(rng, n, tw)
    ctx.note(n=n, tw=tw, wl=wl, field=kind)
    # all of the matrix, or for large grids some rows and columns of it
    at = slice(None) if n <= 2048 else np.sort(rng.choice(n, 64, replace=False))
    K = np.exp(-1j * np.outer(p.T_ps[at], p.V_THz))         # t rows, w columns
    L = K if n <= 2048 else np.exp(-1j * np.outer(p.T_ps, p.V_THz[at]))
    X, _ = odd_types(rng, A)
    if rng.random() < .5:
        p.set_AT(np.asarray(X) if isinstance(X, (list, tuple)) else X)
        AT, AW = A[at], L.conj().T @ A / n
        ctx.event('time-domain writes')
    else:
        p.set_AW(X)
        AW, AT = A[at], K @ A
        ctx.event('frequency-domain writes')
    ctx.close(p.AT[at], AT, 'time-field', rtol=1e-9, scale=np.max(np.abs(p.AT)))
    ctx.close(p.AW[at], AW, 'freq-field', rtol=1e-9, scale=np.max(np.abs(p.AW)))
    ctx.close(np.sum(np.abs(p.AT) ** 2), n * np.sum(np.abs(p.AW) ** 2), 'parseval', rtol=1e-10)
    ctx.check(np.asarray(p.AT).dtype == np.complex128 and np.asarray(p.AW).dtype == np.complex128,
              'double-precision')


def roundtrip(ctx):
    rng = ctx.rng
    n = gen.pick(rng, gen.EVEN_BIG + [2, 15, 63, 101, 255])
    tw, wl = gen.logu(rng, .1, 100), float(rng.uniform(300, 4000))
    p = gen.bare_pulse(rng, n, tw, wl)
    A, kind = gen.field(rng, n, tw, gen.pick(rng, ['noise', 'gauss', 'delta', 'ramp', 'edge']))
    A = A * 10.0 ** (rng.integers(-15, 15) if rng.random() < .8 else rng.integers(-140, 140))
    ctx.note(n=n, field=kind)
    for _ in range(int(rng.integers(1, 6))):
        if rng.random() < .5:
            p.set_AT(A)
            ctx.close(p.AT, A, 'time-roundtrip', rtol=1e-12)
        else:
            p.set_AW(A)
            ctx.close(p.AW, A, 'freq-roundtrip', rtol=1e-14)
        if rng.random() < .5:
            p.set_AW(p.AW)
            p.set_AT(p.AT)
            p.set_AW(p.AW)
        ctx.event('round trips')
    if rng.random() < .5:
        a0 = p.AT
        w0 = p.AW
        for _ in range(3):
            p.set_AT(p.AT)
        ctx.close(p.AT, a0, 'time-roundtrip', rtol=1e-12)
        ctx.close(p.AW, w0, 'freq-roundtrip', rtol=1e-12)


def isolation(ctx):
    """Arrays handed in or out are not shared with the pulse."""
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, positive=False)
    ctx.note(**info)
    ref_T, ref_W = p.AT.copy(), p.AW.copy()
    for _ in range(3):
        x = p.AT if rng.random() < .5 else p.AW
        x[...] = rng.normal(size=x.shape)
        ctx.event('edits of returned arrays')
        ctx.close(p.AT, ref_T, 'read-isolated', rtol=1e-12)
        ctx.close(p.AW, ref_W, 'read-isolated', rtol=1e-12)
    B, kind = gen.field(rng, info['n'], info['tw'])
    src = B.copy()
    dom = rng.random() < .5
    (p.set_AW if dom else p.set_AT)(src)
    ctx.close(src, B, 'argument-unchanged', rtol=0, atol=0)
    src[...] = 0
    ctx.event('edits of passed arrays')
    ctx.close(p.AW if dom else p.AT, B, 'write-isolated', rtol=1e-12)
    # two pulses never share a field
    q = gen.bare_pulse(rng, info['n'], info['tw'], info['wl'])
    q.set_AW(p.AW)
    keep = q.AW
    p.set_AW(np.zeros(info['n']))
    ctx.close(q.AW, keep, 'pulses-independent', rtol=1e-13)


def linear(ctx):
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, positive=False)
    n = info['n']
    B, _ = gen.field(rng, n, info['tw'])
    a, b = complex(*rng.normal(size=2)), complex(*rng.normal(size=2))
    ctx.note(**info)
    p.set_AT(A)
    FA = p.AW
    p.set_AT(B)
    FB = p.AW
    p.set_AT(a * A + b * B)
    sc = float(np.max(np.abs(a * FA)) + np.max(np.abs(b * FB)))
    ctx.close(p.AW, a * FA + b * FB, 'linear', rtol=1e-11, scale=sc)
    # one spectral line at +k rotates as exp(-i w_k t)
    k = int(rng.integers(n))
    X = np.zeros(n)
    X[k] = 2.5
    p.set_AW(X)
    ctx.close(p.AT, 2.5 * np.exp(-1j * p.V_THz[k] * p.T_ps), 'line-convention', rtol=1e-9)
    # one sample at t_j has the phase exp(+i w t_j)
    X = np.zeros(n)
    X[k] = 1.5
    p.set_AT(X)
    ctx.close(p.AW, 1.5 / n * np.exp(1j * p.V_THz * p.T_ps[k]), 'sample-convention', rtol=1e-9)


def helpers(ctx):
    """The package's transform helpers, also along one axis of a 2-D array."""
    from pynlo.util import FFT_t, IFFT_t
    rng = ctx.rng
    n, m = gen.pick(rng, [2, 8, 16, 20, 64, 100]), int(rng.integers(1, 6))
    X = rng.normal(size=(n, m)) + 1j * rng.normal(size=(n, m))
    keep = X.copy()
    ctx.note(n=n, m=m)
    K = ref.dft_matrix(n)
    ctx.close(IFFT_t(X), K @ X, 'helper-to-time', rtol=1e-11)
    ctx.close(FFT_t(X), K.conj().T @ X / n, 'helper-to-freq', rtol=1e-11)
    ctx.close(IFFT_t(X.T, 1), (K @ X).T, 'helper-axis', rtol=1e-11)
    ctx.close(FFT_t(X.T, 1), (K.conj().T @ X / n).T, 'helper-axis', rtol=1e-11)
    ctx.close(FFT_t(IFFT_t(X[:, 0])), X[:, 0], 'helper-roundtrip', rtol=1e-11)
    ctx.close(X, keep, 'argument-unchanged', rtol=0)


def resized(ctx):
    """A field written after a size change is the pulse's field."""
    rng = ctx.rng
    p, A, info = gen.loaded_pulse(rng, positive=False)
    trace = []
    for _ in range(int(rng.integers(1, 4))):
        n = gen.pick(rng, gen.EVEN)
        p.set_NPTS(n)
        tw = gen.logu(rng, .5, 50)
        if rng.random() < .5:
            p.set_time_window_ps(tw)
        B, kind = gen.field(rng, n, tw)
        if rng.random() < .5:
            p.set_AT(B)
            ctx.close(p.AT, B, 'resized-field', rtol=1e-11)
            ctx.close(p.AW, ref.to_freq(B), 'resized-field', rtol=1e-11)
        else:
            p.set_AW(B)
            ctx.close(p.AW, B, 'resized-field', rtol=1e-12)
            ctx.close(p.AT, ref.to_time(B), 'resized-field', rtol=1e-11)
        trace.append((n, kind))
    ctx.note(trace=trace, **info)


def unready(ctx):
    """Before a field exists, reading it is refused rather than invented."""
    from pynlo.light.PulseBase import Pulse
    rng = ctx.rng
    p = Pulse()
    n, tw, wl = gen.grid(rng)
    ctx.note(n=n)
    p.set_NPTS(n)
    p.set_time_window_ps(tw)
    p.set_center_wavelength_nm(wl)
    ctx.raises(Exception, 'unset-field-refused', lambda: p.AW)
    ctx.raises(Exception, 'unset-field-refused', lambda: p.AT)
    bad = int(n + 1 + rng.integers(5))
    ctx.raises(Exception, 'wrong-size-refused', p.set_AW, np.ones(bad, complex))
    A, _ = gen.field(rng, n, tw)
    p.set_AW(A)
    ctx.raises(Exception, 'wrong-size-refused', p.set_AW, np.ones(bad, complex))
    ctx.close(p.AW, A, 'refused-write-keeps-field', rtol=1e-13)


STRATA = [('matrix', matrix, 4), ('roundtrip', roundtrip, 3), ('isolation', isolation, 2),
          ('linear', linear, 2), ('helpers', helpers, 1), ('resized', resized, 2),
          ('unready', unready, 1)]
