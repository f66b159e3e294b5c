"""C21: frequencies returned with a synchrosqueezed transform; conversions between scales and frequencies."""
import itertools, warnings
import numpy as np
from ..core import Skip, Fail
from ..util import signals, isolate_wisdom
from .. import ref

TECH = "exhaustive enumeration of lengths x scale layouts x frequency layouts x range modes x wavelets x padding x rates x flips on the real code; every returned frequency vector is compared with the range and layout definitions evaluated on closed-form wavelets"
RULE = ("all lengths x wavelets x scale vectors/strings x requested layout x range mode x padded or not x rate x flip; all explicit vectors of the lattice; all windows lengths for the STFT; all scale sets x wavelets for the conversions; "
        "states = distinct frequency vectors")
BOUNDS = dict(quick="N in {16,24,33,64,100}; 8 wavelets; 7 scale vectors; conversions: N in {8..40,64,65,100}",
              thorough="N in {12..40,48,63,64,65,100,128,200}; 11 wavelets; 9 scale vectors; conversions: N in {6..130,200,256}")
ASSUMES = ["where the peak is tied on the grid (to single precision for single precision wavelets) either bin is accepted",
           "piecewise layouts whose two pieces coincide on the grid may be rejected explicitly",
           "ranges given as a tuple, or 'maximal', are not combined with the piecewise layout (rejected explicitly, checked)"]
CASE_LIMIT_S = 300

WV = [('gmw', dict(dtype='float64')), ('gmw', dict(beta=8., dtype='float64')), ('gmw', dict(order=1, dtype='float64')), ('gmw', {}), ('morlet', dict(dtype='float64')), ('bump', dict(dtype='float64')),
      ('bump', dict(om=.3, dtype='float64')), ('cmhat', dict(dtype='float64')), ('hhhat', dict(dtype='float64')), ('morlet', dict(mu=5., dtype='float64')), ('morlet', {})]


def wvs(tier):
    return WV[:8] if tier == 'quick' else WV


def setup(ctx):
    isolate_wisdom()


def SCV(kind):
    e = np.arange
    return {'log': 2. ** (1 + e(30) / 8), 'log4': 2. ** (1 + e(16) / 4), 'lin': np.linspace(2., 20., 24), 'few': 2. ** (2 + e(3) / 2), 'wide': 2. ** (-1 + e(44) / 4), 'high': 2. ** (e(20) / 8 - 2),
            'pw': 2. ** np.hstack([1 + e(18) / 8, 1 + 17 / 8 + e(1, 9) / 2]), 'pw2': 2. ** np.hstack([1 + e(12) / 4, 1 + 11 / 4 + e(1, 4)]), 'pw_last': 2. ** np.hstack([1 + e(18) / 8, [1 + 17 / 8 + 1]])}.get(kind, kind)


def gen(tier):
    q = tier == 'quick'
    Ns = (16, 24, 33, 64, 100) if q else tuple(range(12, 41)) + (48, 63, 64, 65, 100, 128, 200)
    vecs = ('log', 'log4', 'lin', 'few', 'wide', 'pw', 'pw2') if q else ('log', 'log4', 'lin', 'few', 'wide', 'high', 'pw', 'pw2', 'pw_last')
    for i in range(len(wvs(tier))):
        for N in Ns:
            for sc in vecs + ('log_', 'linear_', 'log-piecewise_', 'log:maximal_'):
                if sc.endswith('_') and (N < 33 or not q and N % 3 and N < 48):
                    continue
                for pad in (True, False):
                    yield dict(h='cwt', wv=i, N=N, sc=sc, pad=pad)
        for N in (list(range(8, 41)) + [64, 65, 100] if q else list(range(6, 131)) + [200, 256]):
            yield dict(h='s2f', wv=i, N=N)
        for N in ((16, 33, 64) if q else (16, 24, 33, 64, 100, 128)):
            for kind in ('peak', 'energy', 'peak-ct'):
                yield dict(h='f2s', wv=i, N=N, kind=kind)
    for N in Ns:
        yield dict(h='stft', N=N)
        yield dict(h='explicit', N=N)
        yield dict(h='reject', N=N)


# --- oracles ----------------------------------------------------------------------------------------------------
def amp(wv, s, M):
    """(positive and negative) grid frequencies in cycles/sample in ascending order, and amplitude of the wavelet there"""
    name, o = wv
    p = dict(ref.DEFAULTS[name], **o)
    p.pop('dtype', None)
    k = np.arange(M) - (M - 1) // 2
    return k / M, np.abs(ref.WAVELETS[name](s * 2 * np.pi * k / M, **p))


_pk = {}


def ctpeak(wv):
    key = str(wv)
    if key not in _pk:
        name, o = wv
        p = dict(ref.DEFAULTS[name], **o)
        p.pop('dtype', None)
        w = np.arange(0, 40, 1e-3)
        _pk[key] = w[np.argmax(np.abs(ref.WAVELETS[name](w, **p)))]
    return _pk[key]


def single(wv):
    return wv[1].get('dtype') != 'float64'


def centre(ctx, wv, s, M, kind, got, what):
    """got: cycles/sample"""
    f, a = amp(wv, s, M)
    sg = single(wv)
    th = 1e-36 if sg else 1e-290
    if a.max() < th * 1e3:
        if a.max() < th * 1e-9 or a.max() == 0:
            # wavelet is zero throughout the grid: nearest to its peak
            want = np.clip(ctpeak(wv) / s / 2 / np.pi, 1 / M, (M // 2) / M)
            ctx.ok(abs(got - want) < 2e-3 / s + 1e-9, f"{what}: unresolved wavelet, frequency {got}, nearest to its peak {want}")
        return
    if kind == 'peak':
        j = int(np.argmin(np.abs(f - got)))
        ctx.ok(abs(f[j] - got) < (1e-6 if sg else 1e-12), f"{what}: frequency {got} is not on the grid of length {M}")
        ctx.ok(a[j] >= a.max() * (1 - (1e-3 if sg else 1e-9)), f"{what}: centre frequency {got} at scale {s}; wavelet peaks at {f[np.argmax(a)]}")
    else:
        e = (a / (a.max() or 1)) ** 2
        if a.max() < 2e-162 or (sg and a.max() < 1e-18):   # squares underflow
            return
        t = lambda v: v.sum() - .5 * (v[0] + v[-1])
        want = t(e * f) / t(e)
        ctx.ok(abs(got - want) <= (2e-4 if sg else 1e-9) * max(want, 1e-2), f"{what}: energy centre {got} at scale {s}; definition {want}")


def oracle_centre(wv, s, M, kind):
    f, a = amp(wv, s, M)
    if a.max() < (1e-22 if single(wv) else 2e-162):
        return np.clip(ctpeak(wv) / s / 2 / np.pi, 1 / M, (M // 2) / M)
    if kind == 'peak':
        return f[np.argmax(a)]
    e = (a / a.max()) ** 2
    t = lambda v: v.sum() - .5 * (v[0] + v[-1])
    return t(e * f) / t(e)


def transition(sc):
    d = np.diff(np.log2(sc))
    big = np.nonzero(d > 1.5 * d[0])[0]
    return None if not len(big) else int(big[0]) + 1


def layout_of(sc, kind):
    """layout of the scales themselves"""
    if kind in ('lin', 'linear_'):
        return 'linear'
    t = transition(sc)
    return 'log' if t is None else 'log-piecewise'


def check(ctx, f, wv, sc, N, pad, lay, mr, fs, what):
    """f: ascending frequencies"""
    na = len(sc)
    f = np.asarray(f, dtype='float64')
    ctx.ok(f.shape == (na,), f"{what}: {f.shape} frequencies for {na} rows")
    ctx.ok(np.all(np.isfinite(f)) and np.all(f > 0), f"{what}: frequencies are not all positive: {f}")
    ctx.ok(f[-1] <= fs / 2 * (1 + 1e-6) or isinstance(mr, (tuple, list)), f"{what}: {f[-1]} above Nyquist {fs / 2}")
    M = ref.p2up(N)[0] if pad else N
    eps = 1e-9
    if isinstance(mr, (tuple, list)):
        ends = mr
    elif mr == 'maximal':
        ends = (fs / N, fs / 2)
    else:
        ends = None
        centre(ctx, wv, sc[-1], M, mr, f[0] / fs, what + ', lowest')
        centre(ctx, wv, sc[0], M, mr, f[-1] / fs, what + ', highest')
    if ends is not None:
        ctx.ok(abs(f[0] - ends[0]) <= eps * ends[0] and abs(f[-1] - ends[1]) <= eps * ends[1], f"{what}: spans {f[0]}..{f[-1]}, requested {ends}")
    d = np.diff(f)
    if f[-1] >= f[0]:
        ctx.ok(np.all(d >= -1e-12 * f[-1]), f"{what}: frequencies are not monotone: {f}")
    t = transition(sc) if lay == 'log-piecewise' else None
    if t is not None and t == na - 1:
        t = None
    r = np.arange(na) / (na - 1)
    if lay == 'linear':
        want = f[0] + (f[-1] - f[0]) * r
    elif t is None:
        want = f[0] * (f[-1] / f[0]) ** r
    else:
        m = na - t - 1          # rows of the low frequency piece
        f1 = f[m]
        centre(ctx, wv, sc[t], M, mr, f1 / fs, what + ', at transition')
        lo = f[0] * (f1 / f[0]) ** (np.arange(m + 1) / max(m, 1))
        hi = f1 * (f[-1] / f1) ** (np.arange(t + 1) / t)
        want = np.r_[lo[:-1], hi]
    ctx.ok(np.all(np.abs(f - want) <= 1e-9 * want), f"{what}: not in '{lay}' layout; first at {np.argmax(np.abs(f - want) > 1e-9 * want)}: {f} vs {want}")
    ctx.values += na
    ctx.state(f / fs)


def degenerate(wv, sc, N, pad, mr):
    """pieces of the frequency layout cannot be told apart on the grid"""
    M = ref.p2up(N)[0] if pad else N
    t = transition(sc)
    if t is None or t == len(sc) - 1:
        return False
    if single(wv) and any(amp(wv, s, M)[1].max() < 1e-25 for s in (sc[-1], sc[t], sc[0])):
        return True     # not resolved in single precision
    f0, f1, f2 = (oracle_centre(wv, s, M, mr) for s in (sc[-1], sc[t], sc[0]))
    if not f0 < f1 * (1 - 1e-9) or not f1 < f2 * (1 - 1e-9):
        return True
    a, b = np.log(f1 / f0) / (len(sc) - t - 1), np.log(f2 / f1) / t
    # low frequency piece must be the coarser one for the layout to mirror that of scales
    return not a > b * (1 + 1e-3)


# --- transforms -------------------------------------------------------------------------------------------------
def h_cwt(ctx, c):
    from ssqueezepy import ssq_cwt, ssqueeze, Wavelet
    from ssqueezepy.utils import process_scales
    wv, N, kind, pad = (WV)[c['wv']], c['N'], c['sc'], c['pad']
    x = signals(N)['chirp']
    W = ctx.call(Wavelet, wv)
    padt = 'reflect' if pad else None
    sc = SCV(kind)
    kw = {}
    if kind.endswith('_'):
        sc = kind[:-1]
        kw = dict(nv=8)
    try:
        base = ctx.call(ssq_cwt, x, W, scales=sc, padtype=padt, maprange='maximal', ssq_freqs='log', **kw)
    except (ValueError, AssertionError, Exception) as e:
        if kind.endswith('_') and ('suffciently-integer' in str(e) or isinstance(e, IndexError) and wv[1].get('om') == .3):
            raise Skip("no such scales at this length")
        raise
    S = np.asarray(base[3], dtype='float64').squeeze()
    lay0 = layout_of(S, kind)
    na = len(S)
    for fs in (1., 400., 1 / 3):
        for mr in ('peak', 'energy', 'maximal', (.02 * fs, .45 * fs), [.05 * fs, .3 * fs], (.1 * fs, .8 * fs)):
            for lay in (None, 'log', 'linear', 'log-piecewise'):
                eff = lay0 if lay is None else lay
                what = f"{wv} N={N} scales={kind} maprange={mr} ssq_freqs={lay} pad={pad} fs={fs}"
                named = 'log-piecewise' if lay is None and kind == 'log-piecewise_' else eff
                if named == 'log-piecewise' and (mr == 'maximal' or not isinstance(mr, str)):
                    ctx.step()
                    try:
                        ssq_cwt(x, W, scales=sc, padtype=padt, maprange=mr, ssq_freqs=lay, fs=fs, **kw)
                    except ValueError:
                        continue
                    ctx.fail(f"{what}: unsupported combination accepted")
                for fl in (True, False):
                    if fl and fs == 400. and ctx.quick:
                        continue
                    try:
                        T, Wx, f, s = ctx.call(ssq_cwt, x, W, scales=sc, padtype=padt, maprange=mr, ssq_freqs=lay, fs=fs, flipud=fl, **kw)
                    except Exception as e:
                        if eff == 'log-piecewise' and ('transition' in str(e) or isinstance(e, AssertionError)) and degenerate(wv, S, N, pad, mr):
                            ctx.count('explicitly rejected')
                            continue
                        raise
                    ctx.ok(T.shape == (na, N), f"{what}: shape {T.shape}")
                    check(ctx, f[::-1] if fl else f, wv, S, N, pad, eff, mr, fs, what + f" flipud={fl}")
    # the squeezing step alone agrees, scales in both shapes
    Wx = base[1]
    w = np.full(Wx.shape, .2)
    for mr in ('peak', 'energy', 'maximal', (.02, .45)):
        for lay in ('log', 'linear'):
            for sh in (np.asarray(base[3]).squeeze(), np.asarray(base[3]).reshape(-1, 1)):
                T, f = ctx.call(ssqueeze, Wx.copy(), w.astype(Wx.real.dtype), ssq_freqs=lay, scales=sh, wavelet=W, maprange=mr, was_padded=pad)
                check(ctx, f, wv, S, N, pad, lay, mr, 1., f"ssqueeze {wv} N={N} scales={kind} maprange={mr} ssq_freqs={lay}")


def h_explicit(ctx, c):
    from ssqueezepy import ssq_cwt, ssq_stft, ssqueeze
    N = c['N']
    x = signals(N)['tones']
    vecs = {f'{k}{M}': v for M in (3, 5, 24, 30, 61) for k, v in (('log', np.geomspace(.02, .4, M)), ('lin', np.linspace(.01, .45, M)), ('lin0', np.linspace(0, .5, M)))}
    vecs['pw'] = .02 * 2. ** np.hstack([np.arange(6) / 2, 2.5 + np.arange(1, 9) / 8])
    for nm, v in vecs.items():
        for dt in ('float64', 'float32'):
            for fs in (1., 50.):
                f = (v * fs).astype(dt)
                f0 = f.copy()
                for fl in (True, False):
                    if nm[:4] != 'lin0':
                        for wv in ('gmw', ('gmw', dict(dtype='float64'))):
                            for sc in ('log', 'lin', 'pw'):
                                out = ctx.call(ssq_cwt, x, wv, scales=SCV(sc), ssq_freqs=f, fs=fs, flipud=fl)
                                ctx.same(out[2], f0[::-1] if fl else f0, f"explicit {nm} {dt} not used as given (flipud={fl})")
                                ctx.ok(out[0].shape == (len(v), N), f"{out[0].shape} for {len(v)} frequencies")
                    if nm[:3] == 'lin':
                        out = ctx.call(ssq_stft, x, n_fft=18, ssq_freqs=f, fs=fs, flipud=fl, dtype=dt)
                        ctx.same(out[2], f0[::-1] if fl else f0, f"ssq_stft explicit {nm} {dt} not used as given (flipud={fl})")
                        ctx.ok(out[0].shape == (len(v), N), f"{out[0].shape} for {len(v)} frequencies")
                    ctx.same(f, f0, "given frequencies were changed")
                    ctx.state((nm, dt, fs, fl, N))


def h_stft(ctx, c):
    from ssqueezepy import ssq_stft, ssqueeze, stft
    N = c['N']
    x = signals(N)['chirp']
    for nf in (9, 10, 11, 16, N, N + 1) if ctx.quick else (9, 10, 11, 12, 15, 16, 17, 24, N - 1, N, N + 1, 2 * N):
        for hop in (1, 2):
            for fs in (1., 250., .1):
                for dt in ('float64', 'float32'):
                    rows = nf // 2 + 1
                    want = np.arange(rows) / (rows - 1) * fs / 2
                    tol = 1e-12 if dt == 'float64' else 3e-7
                    for fl in (False, True):
                        T, S, f, Sfs, *_ = ctx.call(ssq_stft, x, n_fft=nf, win_len=min(nf, 9), hop_len=hop, fs=fs, flipud=fl, dtype=dt)
                        ctx.eq(f[::-1] if fl else f, want, f"ssq_stft frequencies n_fft={nf} fs={fs}", rtol=tol)
                        ctx.eq(Sfs, want, f"STFT frequencies n_fft={nf} fs={fs}", rtol=tol, dtype=dt)
                        ctx.ok(np.asarray(T).shape[0] == rows, "rows")
                        ctx.ok(np.all(np.diff(np.asarray(Sfs)) > 0) and Sfs[0] == 0, "frequencies are not increasing from zero")
                    ctx.state((nf, fs, dt, f))
                    for lay in (None, 'linear'):
                        w = np.full(S.shape, .1 * fs, dtype=dt)
                        T, f = ctx.call(ssqueeze, S.copy(), w, ssq_freqs=lay, transform='stft', fs=fs)
                        ctx.eq(f, want, f"ssqueeze STFT frequencies, ssq_freqs={lay}", rtol=tol)
                        T, f = ctx.call(ssqueeze, S.copy(), w, ssq_freqs=lay, transform='stft', fs=fs, Sfs=want)
                        ctx.eq(f, want, f"ssqueeze STFT frequencies, ssq_freqs={lay}, Sfs given", rtol=tol)


def h_reject(ctx, c):
    from ssqueezepy import ssq_cwt, ssq_stft, ssqueeze, cwt, stft
    N = c['N']
    x = signals(N)['chirp']
    sc = SCV('log')
    W = np.asarray(cwt(x, scales=sc)[0])
    w = np.full(W.shape, .1, dtype='float32')

    def bad(f, what, exc=(ValueError, TypeError)):
        ctx.step()
        try:
            f()
        except exc:
            return ctx.ok(True, '')
        ctx.fail(f"{what} was accepted")
    for mr in ('foo', 'MAXIMAL', 5., ('a', 'b'), (.1, None), dict()):
        bad(lambda: ssq_cwt(x, scales=sc, maprange=mr), f"maprange={mr!r}")
        bad(lambda: ssqueeze(W, w, scales=sc, wavelet='gmw', maprange=mr), f"ssqueeze maprange={mr!r}")
    for fr in ('foo', 'log:maximal', 'lin', 'LINEAR', 'log-linear', ''):
        bad(lambda: ssq_cwt(x, scales=sc, ssq_freqs=fr), f"ssq_freqs={fr!r}")
        bad(lambda: ssqueeze(W, w, scales=sc, wavelet='gmw', ssq_freqs=fr), f"ssqueeze ssq_freqs={fr!r}")
    for mr in ('peak', 'energy'):
        bad(lambda: ssqueeze(W, w, scales=sc, maprange=mr), f"maprange={mr} without wavelet")
    S = np.asarray(stft(x, n_fft=18))
    ws = np.full(S.shape, .1)
    for fr in ('log', 'log-piecewise', 'foo'):
        bad(lambda: ssqueeze(S, ws, transform='stft', ssq_freqs=fr), f"STFT ssq_freqs={fr}")
    bad(lambda: ssq_stft(x, n_fft=18, ssq_freqs=np.geomspace(.01, .5, 10)), "log frequencies for STFT")
    bad(lambda: ssqueeze(W, w, wavelet='gmw'), "no scales")
    bad(lambda: ssqueeze(W, -w, scales=sc, wavelet='gmw'), "negative frequencies in `w`")
    ctx.state(('reject', N))


# --- conversions ------------------------------------------------------------------------------------------------
def h_s2f(ctx, c):
    from ssqueezepy.experimental import scale_to_freq
    from ssqueezepy import Wavelet
    wv, N = WV[c['wv']], c['N']
    L = ctx.call(Wavelet, wv)
    sets = [2. ** (1 + np.arange(24) / 8), np.linspace(1.5, 30., 20), 2. ** (np.arange(60) / 4 - 2), 2. ** (8 + np.arange(12) / 2), 2. ** (-4 + np.arange(9) / 4), np.array([3.]), np.array([5000.]), np.array([.2]),
            np.array([2., 3.]), np.array([2, 4, 8, 16])]
    for S in sets:
        for pad in ('reflect', None, 'zero') if ctx.quick else ('reflect', None, 'zero', 'wrap'):
            M = N if pad is None else ref.p2up(N)[0]
            top = (M // 2) / M
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f = ctx.call(scale_to_freq, S, L, N, padtype=pad)
                what = f"scale_to_freq({S[0]:g}..{S[-1]:g}, {wv}, N={N}, padtype={pad})"
                ctx.ok(np.asarray(f).shape == S.shape, f"{what}: shape {np.asarray(f).shape}")
                ctx.ok(np.all(f > 0) and np.all(f <= .5), f"{what}: out of range: {f}")
                for s, g in zip(S.astype('float64'), f):
                    fr, a = amp(wv, s, M)
                    j = int(round(g * M))
                    ctx.ok(abs(g * M - j) < 1e-9, f"{what}: {g} not on the grid")
                    pos = fr >= 0
                    if a.max() < 1e-25 or a[~pos].max(initial=0) > .999 * a[pos].max() or a[fr == 0].max() > .999 * a.max():
                        if a.max() < (1e-60 if single(wv) else 1e-320) or a[fr == 0].max() > 1.001 * a[fr > 0].max():
                            # unresolved: nearest to the peak
                            wc = np.clip(ctpeak(wv) / s / 2 / np.pi * M, 1, M // 2)
                            ctx.ok(abs(g * M - wc) <= .5 + 1e-3 * wc, f"{what}: scale {s}: unresolved wavelet peaking at bin {wc} given {g}")
                        continue
                    A = a[int(np.argmin(np.abs(fr - g)))]
                    ctx.ok(A >= a[pos].max() * (1 - (1e-3 if single(wv) else 1e-9)), f"{what}: scale {s} given {g}, wavelet peaks at {fr[np.argmax(a)]}")
                o = np.argsort(S)
                if not single(wv) and not wv[1].get("order"):
                    ctx.ok(np.all(np.diff(f[o]) <= 1e-12), f"{what}: does not decrease with scale: {f[o]}")
                g = ctx.call(scale_to_freq, S[::-1], L, N, 50., pad)
                ctx.eq(g[::-1], f * 50., f"{what}: reversed, fs=50", rtol=1e-12)
                g = ctx.call(scale_to_freq, S.reshape(-1, 1), L, N, padtype=pad)
                ctx.eq(g, f, f"{what}: column", rtol=1e-12)
                g = ctx.call(scale_to_freq, float(S[0]), wv, N, padtype=pad)
                ctx.eq(np.asarray(g).ravel(), f[:1], f"{what}: one scale, wavelet by name", rtol=1e-12)
                ctx.state((c['wv'], N, str(pad), f))


def h_f2s(ctx, c):
    from ssqueezepy.experimental import freq_to_scale
    from ssqueezepy import Wavelet
    from ssqueezepy.utils import cwt_scalebounds
    wv, N, kind = WV[c['wv']], c['N'], c['kind']
    L = ctx.call(Wavelet, wv)
    try:
        lo, hi = cwt_scalebounds(L, N, preset='maximal', use_padded_N=False)
        assert 0 < lo < hi
    except (IndexError, AssertionError):
        raise Skip("no range of scales resolves this wavelet at this length")
    for M in (4, 9):
        for a, b in ((.1, .4), (.06, .5), (.2, .3)):
            for fs in (1, 20.):
                for base in (2, np.e, 10):
                    for n in (None, 25):
                        fr = np.geomspace(a, b, M) * fs
                        fr[-1] = b * fs
                        s = ctx.call(freq_to_scale, fr, L, N, fs=fs, n_search_scales=n, kind=kind, base=base)
                        what = f"freq_to_scale({a}..{b}, {wv}, N={N}, fs={fs}, kind={kind}, base={base}, n={n})"
                        ctx.ok(s.shape == (M,) and np.all(s > 0), f"{what}: {s}")
                        ctx.ok(np.all(np.diff(s) <= 1e-9 * s[0]), f"{what}: scales do not decrease as frequency grows: {s}")
                        ctx.ok(np.allclose(np.diff(np.log(s)), np.log(s[-1] / s[0]) / (M - 1), atol=1e-9), f"{what}: not exponential")
                        # ends: no searched scale is closer
                        cand = np.geomspace(lo, hi, n or 10 * M)
                        if kind == 'peak-ct':
                            fc = np.full(len(cand), min(ctpeak(wv), np.pi) / 2 / np.pi)
                        else:
                            fc = np.clip([oracle_centre(wv, q, N, kind) for q in cand], 0, .5)
                        for want, got in ((fr[0] / fs, s[0]), (fr[-1] / fs, s[-1])):
                            j = int(np.argmin(np.abs(cand - got)))
                            ctx.ok(abs(cand[j] - got) < 1e-6 * got, f"{what}: {got} is not a searched scale")
                            d = np.abs(fc - want)
                            ctx.ok(d[j] <= d.min() + (1e-3 if single(wv) else 1e-6) + (1e-3 if kind == 'peak-ct' else 0), f"{what}: scale {got} has centre {fc[j]}, but {cand[np.argmin(d)]} is closer to {want}")
                        ctx.state((c['wv'], N, kind, s))
