"""C06: the short-time transform inverts perfectly."""
import numpy as np
from ..core import Skip
from .. import ref as R

TECH = "bounded exhaustive enumeration of transform configurations; each inversion decided on the full impulse basis (the map is linear) plus dense signals"
RULE = ("every (N, n_fft, win_len, hop, window, pad type, modulation, window power, precision) in the box x every impulse and dense signals; "
        "istft additionally on every unit cell (real and imaginary) of the transform plane against the overlap-add formula; "
        "states = distinct (configuration, transform) pairs")
BOUNDS = dict(quick="N <= 13, n_fft <= 12 (1..8, 12), win_len <= n_fft, hop <= n_fft, 5 windows, 5 pads, win_exp 0..3", thorough="N <= 24, n_fft 1..14, 16, every win_len, every hop")
ASSUMES = ["a sample counts as invertible when the summed window power covering it is at least 1e-6 (single 1e-2) of the largest; others are not judged"]


def nffts(q):
    return (1, 2, 3, 4, 5, 8, 12) if q else tuple(range(1, 15)) + (16,)


def winlens(n_fft, q):
    return sorted({n_fft, max(1, n_fft - 1), max(1, n_fft - 3), (n_fft + 1) // 2}) if q else range(1, n_fft + 1)


def hops(n_fft, q):
    return sorted({1, 2, 3, max(1, n_fft // 2), n_fft}) if q else sorted({*range(1, n_fft // 2 + 2), n_fft})


def gen(tier):
    q = tier == 'quick'
    for N in ((1, 2, 3, 7, 8, 13) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 24)):
        for n_fft in nffts(q):
            for hop in hops(n_fft, q):
                if hop <= max(N, 2):
                    yield dict(h='roundtrip', N=N, n_fft=n_fft, hop=hop)
                    yield dict(h='defaults', N=N, n_fft=n_fft, hop=hop)
    for n_fft in nffts(q):
        for hop in hops(n_fft, q):
            yield dict(h='formula', n_fft=n_fft, hop=hop)
    for n_fft in nffts(q) + (16, 32):
        for hop in sorted({1, max(1, n_fft // 2), n_fft - 1 or 1, n_fft}):
            for dt in ('float64', 'float32'):
                yield dict(h='steep', n_fft=n_fft, hop=hop, dt=dt)
    for N in ((45, 64) if q else (45, 46, 64, 100, 129)):
        for hop in (1, 2, 5):
            yield dict(h='bare', N=N, hop=hop)


def h_steep(ctx, c):
    """windows with weak tails: each sample's recovery is as accurate as its coverage allows"""
    from ssqueezepy import stft, istft
    n_fft, hop, dt = c['n_fft'], c['hop'], c['dt']
    eps, tiny = np.finfo(dt).eps, np.finfo(dt).tiny
    N = 2 * n_fft + 3
    n = np.arange(N)
    x = 1. + np.cos(1.7 * n + .3 * n * n)
    ncol = (N - 1) // hop + 1
    k = np.abs(np.arange(n_fft) - n_fft // 2)
    for rate in (1., 3., 6., 12., 20.):         # decades across half of the window
        v = 10. ** (-rate * (k / max(k.max(), 1)) ** 2)
        for we in (1, 0, 2):
            den = cover(v, hop, ncol, n_fft, N, we + 1)
            # rounding in a frame, weighted as the sum is, relative to what the sample is divided by
            err = cover(v, hop, ncol, n_fft, N, we) * eps * 20 * np.abs(x).max() / np.maximum(den, tiny)
            m = (den > 4 * tiny) & (err < 1e-2)
            for mod in (True, False):
                kw = dict(window=v, n_fft=n_fft, hop_len=hop, modulated=mod)
                S = ctx.call(stft, x, dtype=dt, **kw)
                got = ctx.call(istft, S, N=N, win_exp=we, **kw)
                bad = ~(np.abs(got - x) <= err)[m]
                ctx.ok(not bad.any(), lambda: f'window spanning {rate} decades, win_exp={we}: samples {np.flatnonzero(m)[bad][:5]} off by {np.abs(got - x)[m][bad][:5]}, '
                       f'rounding explains {err[m][bad][:5]}, coverage {den[m][bad][:5]}')
                ctx.values += int(m.sum())
                ctx.count('weakly_covered_samples', int((m & (den < eps)).sum()))
                ctx.state([rate, we, mod, S])


def windows(win_len):
    n = np.arange(win_len)
    w = dict(hann='hann', boxcar='boxcar', asym=1. + .4 * np.sin(1.3 * n) + .05 * n, hamming='hamming')
    if win_len > 8:
        w['dpss'] = None
    return w


def wvals(w, win_len, n_fft):
    import scipy.signal as sig
    if w is None:
        v = sig.windows.dpss(win_len, max(4, win_len // 8), sym=False)
    elif isinstance(w, str):
        v = sig.get_window(w, win_len, fftbins=True)
    else:
        v = w
    pl = (n_fft - win_len) // 2
    return np.pad(v, [pl, n_fft - win_len - pl])


def cover(v, hop, ncol, n_fft, N, p):
    wn = np.zeros(N + 2 * n_fft + hop * ncol)
    for i in range(ncol):
        wn[i * hop:i * hop + n_fft] += v ** p
    return wn[n_fft // 2:n_fft // 2 + N]


def judge(ctx, got, x, v, hop, ncol, n_fft, p, what, single):
    wn = np.abs(cover(v, hop, ncol, n_fft, len(x), p))
    m = wn > (1e-2 if single else 1e-6) * np.abs(v ** p).max()
    ctx.count('uncovered_samples', int((~m).sum()))
    ctx.ok(got.shape == x.shape, f'{what}: shape {got.shape}')
    ctx.eq(got[m], x[m], what, atol=(1e-4 if single else 1e-8) * max(np.abs(x).max(), 1))
    return m


def h_roundtrip(ctx, c):
    from ssqueezepy import stft, istft
    N, n_fft, hop = c['N'], c['n_fft'], c['hop']
    n = np.arange(N)
    basis = [np.eye(N)[k] for k in range(N)] + [1. + np.cos(1.7 * n + .3 * n * n)]
    ncol = (N - 1) // hop + 1
    for wl in winlens(n_fft, ctx.quick):
        for wn, w in windows(wl).items():
            v = wvals(w, wl, n_fft)
            for mod in (True, False):
                for dt in ('float64', 'float32'):
                    single = dt == 'float32'
                    for pad in ('reflect', 'zero', 'wrap', 'symmetric', 'replicate'):
                        main = pad == 'reflect' or (wn == 'asym' and not single)
                        if not main:
                            continue
                        kw = dict(window=w, n_fft=n_fft, win_len=wl, hop_len=hop, modulated=mod)
                        for x in (basis if wn == 'asym' and not single else basis[-1:]):
                            S = ctx.call(stft, x, padtype=pad, dtype=dt, **kw)
                            for we in ((1, 0, 2, 3) if pad == 'reflect' else (1,)):
                                got = ctx.call(istft, S, N=N, win_exp=we, **kw)
                                judge(ctx, got, x, v, hop, ncol, n_fft, we + 1, f'{wn}({wl}) mod={mod} {dt} {pad} win_exp={we}', single)
                                ctx.ok(str(got.dtype) == dt, f'dtype {got.dtype} of inverse of {dt} transform')
                        ctx.state([wn, wl, mod, dt, pad, S])


def h_defaults(ctx, c):
    """default arguments of the inverse agree with explicit ones"""
    from ssqueezepy import stft, istft
    N, n_fft, hop = c['N'], c['n_fft'], c['hop']
    n = np.arange(N)
    x = 1. + np.cos(1.7 * n + .3 * n * n)
    ncol = (N - 1) // hop + 1
    for wn, w in windows(n_fft).items():
        v = wvals(w, n_fft, n_fft)
        S = ctx.call(stft, x, window=w, n_fft=n_fft, hop_len=hop, dtype='float64')
        kw = dict(window=w, hop_len=hop)
        for k in ([dict(n_fft=n_fft), dict(n_fft=n_fft, win_len=n_fft)] + ([dict()] if n_fft % 2 == 0 else [])):
            got = ctx.call(istft, S, **kw, **k)
            ctx.ok(got.shape == (hop * ncol,), 'largest possible length by default')
            judge(ctx, got[:N], x, v, hop, ncol, n_fft, 2, f'{wn} {k}', False)
            if N > 1:
                got = ctx.call(istft, S, N=N - 1, **kw, **k)
                ctx.ok(got.shape == (N - 1,), 'length given')
                if (N - 2) // hop + 1 == ncol:
                    judge(ctx, got, x[:-1], v, hop, ncol, n_fft, 2, f'{wn} {k} N-1', False)
        ctx.state(S)


def h_bare(ctx, c):
    """no arguments but hop: defaults of both directions"""
    from ssqueezepy import stft, istft
    N, hop = c['N'], c['hop']
    n = np.arange(N)
    n_fft = N // hop
    for x in [np.eye(N)[k] for k in range(N)] + [np.cos(.2 * n) + .3]:
        for dt in ('float64', 'float32'):
            S = ctx.call(stft, x, hop_len=hop, dtype=dt)
            ctx.ok(S.shape == (n_fft // 2 + 1, (N - 1) // hop + 1), 'default shape')
            got = ctx.call(istft, S, N=N, hop_len=hop, n_fft=n_fft if n_fft % 2 else None)
            judge(ctx, got, x, wvals(None, n_fft, n_fft), hop, S.shape[1], n_fft, 2, f'bare {dt}', dt == 'float32')
            ctx.state([dt, S])


def h_formula(ctx, c):
    from ssqueezepy import istft
    n_fft, hop = c['n_fft'], c['hop']
    nf = n_fft // 2 + 1
    for wl in sorted({n_fft, (n_fft + 1) // 2}):
        for wn, w in windows(wl).items():
            v = wvals(w, wl, n_fft)
            for ncol in (1, 2, 3):
                for mod in (True, False):
                    for i in range(nf):
                        for j in range(ncol):
                            for u in (1., 1j):
                                S = np.zeros((nf, ncol), 'complex128')
                                S[i, j] = u
                                fr = np.fft.irfft(S, n=n_fft, axis=0) if n_fft > 1 else S.real.copy()
                                if mod:
                                    fr = np.roll(fr, n_fft // 2, axis=0)
                                N = hop * ncol
                                for we in ((1, 0, 2, 3) if wn == 'asym' else (1,)):
                                    num = np.zeros(N + 2 * n_fft + 9)
                                    for k in range(ncol):
                                        num[k * hop:k * hop + n_fft] += fr[:, k] * v ** we
                                    num = num[n_fft // 2:n_fft // 2 + N]
                                    den = cover(v, hop, ncol, n_fft, N, we + 1)
                                    m = np.abs(den) > 1e-6 * np.abs(v).max() ** (we + 1)
                                    got = ctx.call(istft, S, window=w, n_fft=n_fft, win_len=wl, hop_len=hop, modulated=mod, win_exp=we)
                                    ctx.ok(got.shape == (N,), 'shape')
                                    ctx.eq(got[m], (num[m] / den[m]), f'{wn}({wl}) mod={mod} win_exp={we} cell {i},{j} {u}', atol=1e-9)
                                    ctx.state(got)
