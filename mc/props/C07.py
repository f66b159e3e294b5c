"""C07: the short-time transform equals its definition."""
import numpy as np
from .. import ref as R
from ..util import parallel
from .C06 import nffts, winlens, hops, windows, wvals

TECH = "bounded exhaustive enumeration of configurations, decided on the full impulse basis (the transform is linear) against the explicit sum"
RULE = ("every (N, n_fft, win_len, hop, window, pad type, modulation, precision, sampling rate) in the box x all impulses (batched and single) and dense signals; "
        "every framing (length, segment, overlap, modulation, threads, dtype) in the box; states = distinct results")
BOUNDS = dict(quick="N <= 13, n_fft <= 12, 5 windows, 5 pads; framing lengths <= 12", thorough="N <= 24, n_fft 1..14,16, every win_len and hop; framing lengths <= 20")
ASSUMES = ["the time-derivative of the sampled window is that of its trigonometric interpolant (documented: frequency-domain differentiation)"]


def gen(tier):
    q = tier == 'quick'
    for N in ((1, 2, 3, 7, 8, 13) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 24)):
        for n_fft in nffts(q):
            for hop in hops(n_fft, q) + ([n_fft + 1, 2 * n_fft + 1] if n_fft < 9 else []):
                yield dict(h='stft', N=N, n_fft=n_fft, hop=hop)
    for L in range(1, 13 if q else 21):
        for seg in range(1, L + 1):
            yield dict(h='frames', L=L, seg=seg)
    for N in ((45, 64, 97) if q else (45, 46, 64, 65, 97, 128, 200)):
        for hop in (1, 2, 5):
            yield dict(h='bare', N=N, hop=hop)
    yield dict(h='cap')


def dwindow(v):
    """derivative of the trigonometric interpolant, by its sine sum (Nyquist contributes nothing)"""
    n = len(v)
    m = np.arange(n)
    V = np.array([(v * np.exp(-2j * np.pi * k * m / n)).sum() for k in range(n)])
    out = np.zeros(n)
    for k in range(1, (n - 1) // 2 + 1):
        w = 2 * np.pi * k / n
        out += (2 / n) * (V[k] * 1j * w * np.exp(1j * w * m)).real
    return out


def kernel(v, n_fft, mod):
    k = np.arange(n_fft // 2 + 1)[:, None]
    m = np.arange(n_fft)[None] - (n_fft // 2 if mod else 0)
    return v[None] * np.exp(-2j * np.pi * k * m / n_fft)


def frames(x, pad, n_fft, hop):
    N = x.shape[-1]
    xp, up, n1, n2 = R.pad(x, pad, N + n_fft - 1)
    assert n1 == n_fft // 2
    ncol = (N - 1) // hop + 1
    return np.stack([xp[..., i * hop:i * hop + n_fft] for i in range(ncol)], -1)   # [..., n_fft, ncol]


def h_stft(ctx, c):
    from ssqueezepy import stft
    N, n_fft, hop = c['N'], c['n_fft'], c['hop']
    n = np.arange(N)
    X = np.concatenate([np.eye(N), [1. + np.cos(1.7 * n + .3 * n * n)]])
    for pad in ('reflect', 'zero', 'wrap', 'symmetric', 'replicate'):
        F = frames(X, pad, n_fft, hop)
        for wl in winlens(n_fft, ctx.quick):
            for wn, w in windows(wl).items():
                if pad != 'reflect' and wn not in ('asym', 'hann'):
                    continue
                v = wvals(w, wl, n_fft)
                d = dwindow(v)
                for mod in (True, False):
                    K = kernel(v, n_fft, mod)
                    KD = kernel(d, n_fft, mod)
                    want = np.einsum('km,bmc->bkc', K, F)
                    wantD = np.einsum('km,bmc->bkc', KD, F)
                    for dt in ('float64', 'float32'):
                        single = dt == 'float32'
                        tol = 2e-6 if single else 1e-12
                        sc, scD = np.abs(v).sum(), np.abs(d).sum() + .1 * np.abs(v).sum()
                        kw = dict(window=w, n_fft=n_fft, win_len=wl, hop_len=hop, padtype=pad, modulated=mod, dtype=dt)
                        what = f'{wn}({wl}) {pad} mod={mod} {dt} '
                        S = ctx.call(stft, X, **kw)
                        ctx.eq(S, want, what + 'batched', rtol=tol, scale=sc, dtype='complex64' if single else 'complex128')
                        S = ctx.call(stft, X[-1:], **kw)
                        ctx.eq(S, want[-1:], what + 'batch of one', rtol=tol, scale=sc)
                        if wn != 'boxcar' or pad == 'reflect':
                            for fs, kt in ((1., {}), (8., dict(fs=8.))) + (((8., dict(t=n / 8.)),) if N > 1 else ()):
                                S, D = ctx.call(stft, X, derivative=True, **kw, **kt)
                                ctx.eq(S, want, what + f'{kt.keys()}', rtol=tol, scale=sc)
                                ctx.eq(D, wantD * fs, what + f'derivative, {kt.keys()}', rtol=tol, scale=scD * fs * 4)
                        if pad == 'reflect' or not single:
                            for k in (0, N - 1, N):
                                S, D = ctx.call(stft, X[k], derivative=True, **kw)
                                ctx.eq(S, want[k], what + f'signal {k}', rtol=tol, scale=sc)
                                ctx.eq(D, wantD[k], what + f'derivative, signal {k}', rtol=tol, scale=scD * 4)
                                ctx.ok(S.shape == (n_fft // 2 + 1, (N - 1) // hop + 1), 'shape')
                        ctx.state([c, pad, wl, wn, mod, S])


def h_frames(ctx, c):
    """framing, overlap-add and normalisation against index arithmetic, and as inverses of each other"""
    from ssqueezepy.utils import buffer, unbuffer, window_norm
    L, seg = c['L'], c['seg']
    base = np.arange(L) + 1
    for ov in range(0, seg):
        hop = seg - ov
        ns = (L - seg) // hop + 1
        for mod in (False, True):
            m = (np.arange(seg) + seg // 2) % seg if mod else np.arange(seg)
            idx = m[:, None] + hop * np.arange(ns)[None]
            for dt in ('float64', 'float32', 'complex128', 'int64'):
                for x in (base.astype(dt), base[None].astype(dt), np.stack([base, base[::-1] * 2]).astype(dt), np.arange(2 * L).astype(dt)[::2], base[::-1].astype(dt)[::-1]):
                    for par in (False, True, None):
                        with parallel(par is True):
                            got = ctx.call(buffer, x, seg, ov, modulated=mod, parallel=par)
                        ctx.same(np.ascontiguousarray(got), x[..., idx], f'buffer ov={ov} mod={mod} {dt} par={par}')
            ctx.state(idx)
        N = L - seg + 1            # unbuffer's unpadded length
        win = 1. + .3 * np.sin(np.arange(seg))
        for we in (0, 1, 2, 3):
            for dt in ('float64', 'float32'):
                x = base.astype(dt)
                fr = x[(np.arange(seg)[:, None] + hop * np.arange(ns)[None])] * win[:, None].astype(dt)
                w_ = win.astype(dt)
                f0, w0 = fr.copy(), w_.copy()
                got = ctx.call(unbuffer, fr, w_, hop, seg, N, we)
                wn = ctx.call(window_norm, w_, hop, seg, N, we)
                full = ctx.call(unbuffer, fr, w_, hop, seg, None, we)
                ctx.same(fr, f0, 'frames kept')
                ctx.same(w_, w0, 'window kept')
                num, den = np.zeros(L), np.zeros(L)
                for i in range(ns):
                    num[i * hop:i * hop + seg] += f0[:, i] * win ** we
                    den[i * hop:i * hop + seg] += win ** (we + 1)
                ctx.eq(got, num, f'overlap-add ov={ov} win_exp={we}', rtol=1e-5 if dt == 'float32' else 1e-13, dtype=dt)
                ctx.eq(wn, den, f'window norm ov={ov} win_exp={we}', rtol=1e-5 if dt == 'float32' else 1e-13)
                k = (ns - 1) * hop + seg
                ctx.eq(full[:k], num[:k], f'overlap-add of greatest length ov={ov} win_exp={we}', rtol=1e-5 if dt == 'float32' else 1e-13, dtype=dt)
                ctx.ok(len(full) >= L and not full[k:].any(), 'nothing beyond the last frame')
                cov = den > 0
                ctx.eq((got[cov] / wn[cov]), x[cov], 'inverse of framing', rtol=1e-5 if dt == 'float32' else 1e-12)
                ctx.state([got, wn])


def h_bare(ctx, c):
    from ssqueezepy import stft
    N, hop = c['N'], c['hop']
    n = np.arange(N)
    n_fft = N // hop
    if n_fft <= 8:
        return
    v = wvals(None, n_fft, n_fft)
    X = np.concatenate([np.eye(N), [np.cos(.3 * n)]])
    want = np.einsum('km,bmc->bkc', kernel(v, n_fft, True), frames(X, 'reflect', n_fft, hop))
    S = ctx.call(stft, X, hop_len=hop, dtype='float64')
    ctx.eq(S, want, 'defaults', rtol=1e-11)
    S = ctx.call(stft, X, hop_len=hop)
    ctx.eq(S, want, 'defaults', rtol=1e-6, dtype='complex64')
    for win in ('hann', np.hanning(12)):
        wl = 12 if not isinstance(win, str) else n_fft
        if wl > n_fft:
            continue
        want = np.einsum('km,bmc->bkc', kernel(wvals(win, wl, n_fft), n_fft, True), frames(X, 'reflect', n_fft, hop))
        ctx.eq(ctx.call(stft, X, win, hop_len=hop, dtype='float64'), want, f'window length defaults', rtol=1e-11)
    ctx.state(S)


def h_cap(ctx, c):
    from ssqueezepy import stft
    for N, want in ((1030, 512), (512, 512), (511, 511)):
        S = ctx.call(stft, np.cos(np.arange(N)), hop_len=1)
        ctx.ok(S.shape == (want // 2 + 1, N), f'default n_fft for {N}: {S.shape}')
        ctx.state(list(S.shape))
    for bad in (dict(window=3), dict(win_len=20, n_fft=10), dict(window=np.hanning(20), n_fft=10)):
        try:
            ctx.call(stft, np.cos(np.arange(50)), **bad)
        except ValueError:
            continue
        ctx.fail(f'{bad} accepted')
