"""C25: a warning is given exactly when what it warns of is the case."""
import contextlib, logging, itertools
import numpy as np
from .. import ref

TECH = "bounded exhaustive enumeration of calls on both sides of each warning's condition; the log is recorded and compared with the condition evaluated independently"
RULE = ("all windows over a small alphabet x hop x FFT length x precision; every position of every non-finite value; all lengths and frequencies of the test signals around the aliasing limit; all combinations of options "
        "with a warning; every routine in ordinary use; states = distinct (call, warnings) outcomes")
BOUNDS = dict(quick="windows of up to 5 samples over {0, 1e-3, 1}, hop to 7; signals to 12 samples; ordinary use N 4..70", thorough="windows of up to 7 samples; signals to 24 samples; ordinary use N 4..200")
ASSUMES = ["warnings are recognised by their subject, not their wording", "conditions within a relative 1e-6 of their threshold are left out", "the advice on float32 precision of the last hop is a guess by its own account: judged only for overlap energies below 5e-4 or above 1e-2"]

KINDS = dict(nola=r'nola|invertible', imprecise='imprecision', nan='nan or inf|nan|inf values', both='override `fs`|will override `fs`', cache='cache_wavelet', average='`average`', difforder='difforder', centre='not centered', alias='alias',
             preset='preset', smart='`smart`', winlen='len\\(window\\) != win_len', energy="norm='energy'", module='not found in gdefaults', eps='below eps')


class Log(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.msgs = []

    def emit(self, r):
        self.msgs.append(r.getMessage())


@contextlib.contextmanager
def logged():
    root = logging.getLogger()
    h = Log()
    off, lvl, hs = logging.root.manager.disable, root.level, root.handlers[:]
    logging.disable(logging.NOTSET)
    root.handlers[:] = [h]
    root.setLevel(logging.WARNING)
    try:
        yield h.msgs
    finally:
        root.handlers[:] = hs
        root.setLevel(lvl)
        logging.disable(off)


def warned(msgs, kind):
    import re
    return [m for m in msgs if re.search(KINDS[kind], m.lower()) and not m.startswith('NOTE')]


def judge(ctx, msgs, expect, what):
    """`expect`: {kind: True / False / None (free)}; kinds not listed mustn't be given"""
    ms = [m for m in msgs if not m.startswith('NOTE')]
    for k, v in expect.items():
        hit = warned(ms, k)
        ctx.ok(v is None or bool(hit) == bool(v), f"{what}: {'no ' if v else ''}warning of kind '{k}': {ms}")
        ms = [m for m in ms if m not in hit]
    ctx.ok(not ms, f"{what}: unfounded warning {ms}")


def gen(tier):
    q = tier == 'quick'
    L = 5 if q else 7
    for n in range(1, L + 1):
        for first in range(3):
            yield dict(h='nola', n=n, first=first)
    for wn in ('hann', 'boxcar', 'hamming', 'blackman', 'bartlett', 'nuttall', None):
        yield dict(h='nola_named', wn=wn or '')
    for N in (5, 8) if q else (5, 8, 13, 24):
        for fn in ('cwt', 'ssq_cwt', 'cwt_order'):
            for dim in (1, 2):
                if fn == 'ssq_cwt' and N < 8:  # too few frequencies: warned of
                    continue
                yield dict(h='nonfinite', N=N, fn=fn, dim=dim)
    for fn in ('cwt', 'cwt_order', 'ssq_cwt', 'stft', 'ssq_stft', 'ssqueeze', 'ssq_num'):
        yield dict(h='both', fn=fn)
    for vec in (True, False):
        for kind in ('str', 'tuple', 'inst'):
            yield dict(h='cache', vec=vec, kind=kind)
    yield dict(h='orders')
    yield dict(h='difforder')
    yield dict(h='centre')
    yield dict(h='smart')
    yield dict(h='winlen')
    yield dict(h='energy')
    yield dict(h='presets')
    for sig in ('sine', 'cosine', 'lchirp', 'echirp', 'echirp_pc', 'hchirp', 'par_lchirp', 'par_echirp', 'par_hchirp'):
        yield dict(h='alias', sig=sig)
    for lo in range(4, 70 if q else 200, 6):
        for wav in ('gmw', 'morlet', 'bump', 'cmhat', 'hhhat'):
            yield dict(h='ordinary', lo=lo, wav=wav)


# --- inversion of the short-time transform ---------------------------------------------------------------------------
def covered(win, hop):
    """least overlap-added energy over sample positions"""
    if hop > len(win):
        return 0.
    return min(float(np.sum(np.asarray(win, dtype='float64')[r::hop] ** 2)) for r in range(hop))


def check_nola(ctx, w, window, wl, nf, hop, dt, N, what):
    from ssqueezepy import stft, istft, issq_stft
    c = covered(w, hop)
    # full-period coverage is judged on the window's own steps: `scipy.signal.check_NOLA`
    exp = dict(nola=c == 0 if (c == 0 or c > 1e-8) else None, imprecise=False if dt != 'float32' or c > 1e-2 or hop > len(w) else True if c < 5e-4 else None)
    kw = dict(window=window, n_fft=nf, hop_len=hop)
    if wl is not None:
        kw['win_len'] = wl
    if window is not None and not isinstance(window, str) and wl is not None and wl != len(window):
        exp['winlen'] = True
    x = np.cos(np.arange(N) * 1.3).astype(dt)
    with logged() as m:
        ctx.call(stft, x, dtype=dt, **kw)
    judge(ctx, m, exp, 'stft ' + what)
    Sx = np.zeros((nf // 2 + 1, (N - 1) // hop + 1), dtype='complex64' if dt == 'float32' else 'complex128')
    with logged() as m, np.errstate(all='ignore'):
        ctx.call(istft, Sx, N=N, **kw)
    judge(ctx, m, exp, 'istft ' + what)
    if hop == 1 and np.max(np.abs(w)) > 0 and w[len(w) // 2] != 0:
        off = [abs(i - len(w) // 2) > 1 for i in np.flatnonzero(w == np.max(w))]
        with logged() as m:
            ctx.call(issq_stft, Sx, window=window, n_fft=nf, **({} if wl is None else dict(win_len=wl)))
        judge(ctx, m, {**exp, 'centre': off[0] if all(o == off[0] for o in off) else None}, 'issq_stft ' + what)
    ctx.state((what, str(exp)))


def pad_to(w, nf):
    l = (nf - len(w)) // 2
    return np.pad(np.asarray(w, dtype='float64'), [l, nf - len(w) - l])


def h_nola(ctx, c):
    vals = (0., 1e-3, 1.)
    n = c['n']
    for rest in itertools.product(vals, repeat=n - 1):
        w = np.array((vals[c['first']],) + rest)
        for nf in (n, n + 1, n + 2):
            for hop in range(1, nf + 2):
                for dt in ('float32', 'float64'):
                    check_nola(ctx, pad_to(w, nf), w.astype(dt), None, nf, hop, dt, 9, f"window {w} n_fft={nf} hop={hop} {dt}")


def h_nola_named(ctx, c):
    import scipy.signal as sig
    wn = c['wn'] or None
    for nf in (4, 8, 9, 16, 33):
        for wl in {None, nf, nf // 2, 1}:
            k = nf if wl is None else wl
            if wn is None and k < 9:
                continue
            w = sig.windows.dpss(k, max(4, k // 8), sym=False) if wn is None else sig.get_window(wn, k)
            for hop in sorted({1, 2, 3, k // 2 or 1, k - 1 or 1, k, k + 1, nf, nf + 1}):
                for dt in ('float32', 'float64'):
                    check_nola(ctx, pad_to(w, nf), wn, wl, nf, hop, dt, 2 * nf + 3, f"{wn} win_len={wl} n_fft={nf} hop={hop} {dt}")


# --- values ----------------------------------------------------------------------------------------------------------
def h_nonfinite(ctx, c):
    from ssqueezepy import cwt, ssq_cwt
    N = c['N']
    sc = 2. ** (np.arange(8, 17) / 4)
    f = {'cwt': lambda x, **k: cwt(x, 'gmw', scales=sc, **k), 'ssq_cwt': lambda x, **k: ssq_cwt(x, 'gmw', scales=sc, **k), 'cwt_order': lambda x, **k: cwt(x, 'gmw', scales=sc, order=(0, 1), **k)}[c['fn']]
    base = np.cos(np.arange(N) * 1.1)
    if c['dim'] == 2:
        base = np.stack([base, base[::-1] + .1, 3 * base])
    if c['fn'] == 'cwt_order' and c['dim'] == 2:
        base = base[:2]
    pos = list(np.ndindex(base.shape))
    cases = [()] + [((p, v),) for p in pos for v in (np.nan, np.inf, -np.inf)]
    cases += [((pos[0], np.inf), (pos[-1], -np.inf)), ((pos[-1], np.nan), (pos[1], -np.inf))]
    for hits in cases:
        x = base.copy()
        for p, v in hits:
            x[p] = v
        for nc in (None, True, False):
            if nc is False and hits:
                continue
            with logged() as m:
                ctx.call(f, x, nan_checks=nc)
            judge(ctx, m, dict(nan=bool(hits)), f"{c['fn']} with {hits} nan_checks={nc}")
            ctx.state((c['fn'], c['dim'], hits, nc))
        for big in (1e30, -1e30, 0., 1.5e308, -1.5e308):
            if not hits:
                y = base.copy()
                y[pos[len(pos) // 2]] = big
                y[pos[len(pos) // 2 - 1]] = big
                with logged() as m, np.errstate(all='ignore'):
                    ctx.call(f, y)
                judge(ctx, m, {}, f"{c['fn']} with value {big}")


# --- options ---------------------------------------------------------------------------------------------------------
def h_both(ctx, c):
    from ssqueezepy import cwt, ssq_cwt, stft, ssq_stft, ssqueeze
    N = 16
    x = np.cos(np.arange(N) * 1.1)
    sc = 2. ** (np.arange(8, 17) / 4)
    W = np.outer(np.ones(9), np.exp(1j * np.arange(N)))
    w = np.abs(W.real) * .3 + .05
    F = {'cwt': lambda **k: cwt(x, scales=sc, **k), 'cwt_order': lambda **k: cwt(x, scales=sc, order=(0, 1), **k), 'ssq_cwt': lambda **k: ssq_cwt(x, scales=sc, **k), 'stft': lambda **k: stft(x, n_fft=16, **k), 'ssq_stft': lambda **k: ssq_stft(x, n_fft=16, **k),
         'ssqueeze': lambda **k: ssqueeze(W, w, 'log', sc, wavelet='gmw', transform='cwt', **k), 'ssq_num': lambda **k: ssq_cwt(x, scales=sc, difftype='numeric', get_w=True, **k)}[c['fn']]
    for fs in (None, 1., 2.5, 400):
        for t in (None, np.arange(N) / 4., 3. + np.arange(N)):
            with logged() as m:
                ctx.call(F, fs=fs, t=t)
            judge(ctx, m, dict(both=fs is not None and t is not None), f"{c['fn']} fs={fs} t={None if t is None else t[:2]}")
            ctx.state((c['fn'], fs, t is None))


def h_cache(ctx, c):
    from ssqueezepy import cwt, ssq_cwt, Wavelet
    x = np.cos(np.arange(16) * 1.1)
    sc = 2. ** (np.arange(8, 17) / 4)
    wav = {'str': 'gmw', 'tuple': ('morlet', {'mu': 7.}), 'inst': Wavelet('gmw')}[c['kind']]
    for fn in (cwt, ssq_cwt):
        for cw in (None, True, False):
            with logged() as m:
                ctx.call(fn, x, wav, scales=sc, vectorized=c['vec'], cache_wavelet=cw)
            judge(ctx, m, dict(cache=cw is True and (not c['vec'] or c['kind'] != 'inst' and (fn is cwt or None))), f"{fn.__name__} {c['kind']} vectorized={c['vec']} cache_wavelet={cw}")
            ctx.state((fn.__name__, c['kind'], c['vec'], cw))


def h_orders(ctx, c):
    from ssqueezepy import cwt
    x = np.cos(np.arange(16) * 1.1)
    sc = 2. ** (np.arange(8, 17) / 4)
    for order in (1, 2, (1,), [2], (0,), (0, 1), [0, 2], range(2), range(1, 2), (0, 1, 2)):
        for av in (True, False):
            single = not isinstance(order, (tuple, list, range)) or len(order) == 1
            with logged() as m:
                ctx.call(cwt, x, scales=sc, order=order, average=av)
            judge(ctx, m, dict(average=single and av), f"cwt order={order} average={av}")
            ctx.state((str(order), av))


def h_difforder(ctx, c):
    from ssqueezepy import ssq_cwt
    x = np.cos(np.arange(16) * 1.1)
    sc = 2. ** (np.arange(8, 17) / 4)
    for dt in ('trig', 'phase', 'numeric'):
        for do in (None, 1, 2, 4):
            with logged() as m:
                ctx.call(ssq_cwt, x, scales=sc, difftype=dt, difforder=do, get_w=True)
            judge(ctx, m, dict(difforder=do is not None and dt != 'numeric'), f"ssq_cwt difftype={dt} difforder={do}")
            ctx.state((dt, do))


def h_centre(ctx, c):
    from ssqueezepy import issq_stft
    for n in (4, 5, 8, 9):
        T = np.ones((n // 2 + 1, 6), dtype='complex128')
        for pk in range(n):
            for dt in ('float64', 'float32'):
                w = np.full(n, .5, dtype=dt)
                w[pk] = 1.
                with logged() as m:
                    ctx.call(issq_stft, T, w, n_fft=n)
                judge(ctx, m, dict(centre=abs(pk - n // 2) > 1), f"issq_stft window of {n} peaking at {pk}")
                ctx.state((n, pk, dt))


def h_smart(ctx, c):
    from ssqueezepy.algos import find_closest
    a, v = np.array([[.1, .5], [2., 1.]]), np.array([.25, .5, 1., 2.])
    for smart in (None, True, False):
        for par in (None, True, False):
            for ls in (True, False):
                with logged() as m:
                    ctx.call(find_closest, a, v, logscale=ls, parallel=par, smart=smart)
                judge(ctx, m, dict(smart=bool(smart and par)), f"find_closest smart={smart} parallel={par}")
                ctx.state((smart, par, ls))


def h_winlen(ctx, c):
    from ssqueezepy.utils import stft_utils
    from ssqueezepy._stft import get_window
    for n in range(1, 9):
        for wl in range(1, 9):
            for nf in (None, 8, 9):
                w = np.hanning(n + 2)[1:-1]
                for der in (False, True):
                    with logged() as m:
                        ctx.call(get_window, w, wl, n_fft=nf, derivative=der)
                    judge(ctx, m, dict(winlen=n != wl), f"get_window of {n} with win_len={wl}")
        ctx.state(n)


def h_energy(ctx, c):
    from ssqueezepy import Wavelet
    for norm in ('energy', 'bandpass'):
        for order in (0, 1):
            for dt in ('float32', 'float64', None):
                for via in ('opts', 'arg'):
                    opts = dict(norm=norm, order=order)
                    if via == 'opts' and dt:
                        opts['dtype'] = dt
                    with logged() as m:
                        W = ctx.call(Wavelet, ('gmw', opts), dtype=dt if via == 'arg' else None)
                    use32 = dt == 'float32'
                    judge(ctx, m, dict(energy=norm == 'energy' and use32), f"Wavelet gmw {opts} dtype={dt if via == 'arg' else None}")
                    ctx.state((norm, order, dt, via))


def h_presets(ctx, c):
    from ssqueezepy.utils import cwt_scalebounds
    for preset in ('maximal', 'minimal', 'naive', None):
        for cut in ({}, dict(cutoff=-.5), dict(min_cutoff=.6), dict(max_cutoff=.8), dict(min_cutoff=.6, max_cutoff=.8)):
            for b in ({}, dict(bin_loc=2), dict(bin_amp=1.), dict(bin_loc=2, bin_amp=1.)):
                with logged() as m:
                    try:
                        cwt_scalebounds('gmw', 128, preset=preset, **cut, **b)
                    except (ValueError, TypeError, AssertionError):
                        continue
                judge(ctx, m, dict(preset=preset is not None and bool(cut) or preset == 'minimal' and bool(b)), f"cwt_scalebounds preset={preset} {cut} {b}")
                ctx.state((preset, str(cut), str(b)))


# --- aliasing of test signals ----------------------------------------------------------------------------------------
def phases(t, c, d):
    """phase of each test signal from its documented definition"""
    def lchirp(f0, f1):
        k = (f1 - f0) / (d - c)
        return 2 * np.pi * (f0 * (t - c) + k * (t - c) ** 2 / 2)

    def echirp(f0, f1):
        u = (t - c) / (d - c)
        return 2 * np.pi * f0 * (d - c) * ((f1 / f0) ** u - 1) / np.log(f1 / f0)

    def echirp_pc(f0, f1):
        A = (f1 - f0) / (np.exp(d) - np.exp(c))
        return 2 * np.pi * (A * (np.exp(t) - np.exp(c)) + (f0 - A * np.exp(c)) * (t - c))

    def hchirp(f0, f1):  # f = A / (B - t)^2 with f(c) = f0, f(d) = f1
        r = np.sqrt(f1 / f0)
        B = (r * d - c) / (r - 1)
        A = f0 * (B - c) ** 2
        return 2 * np.pi * A * (1 / (B - t) - 1 / (B - c))
    tone = lambda f: 2 * np.pi * f * t
    return dict(sine=tone, cosine=tone, lchirp=lchirp, echirp=echirp, echirp_pc=echirp_pc, hchirp=hchirp)


def h_alias(ctx, c):
    from ssqueezepy import TestSignals
    sig = c['sig']
    base = sig.removeprefix('par_')
    for N in (32, 64, 65):
        for tmin, tmax in ((0, 1), (0, 2.), (.5, 1.5)):
            for top in (.25, .45, .501, .51, .55, .75, 1., 1.5):
                fmax = top * N / (tmax - tmin)
                if sig in ('sine', 'cosine'):
                    kw, pairs = dict(f=fmax), [(fmax,)]
                elif sig.startswith('par_'):
                    kw = dict(fmin1=fmax / 6, fmax1=fmax / 2, fmin2=fmax / 3, fmax2=fmax)
                    pairs = [(fmax / 6, fmax / 2), (fmax / 3, fmax)]
                else:
                    kw, pairs = dict(fmin=fmax / 6, fmax=fmax), [(fmax / 6, fmax)]
                for on in (True, False):
                    ts = TestSignals(N=N, warn_alias=on)
                    with logged() as m:
                        x, t = ctx.call(getattr(ts, sig), N, tmin=tmin, tmax=tmax, **kw)
                    tt = np.asarray(t, dtype='float64')  # decided by C22
                    over = [np.diff(phases(tt, tmin, tmax)[base](*p_)).max() - np.pi - .02 for p_ in pairs]
                    exp = None if not over or min(map(abs, over)) < 1e-3 else bool(on and max(over) > 0)
                    judge(ctx, m, dict(alias=exp), f"{sig} N={N} tmin={tmin} tmax={tmax} {kw} warn_alias={on} (largest phase steps over the limit: {over})")
                    ctx.ok(all(base in w for w in m), f"{sig}: warning names another signal: {m}")
                    ctx.state((sig, N, tmin, tmax, top, on, exp))


# --- ordinary use ----------------------------------------------------------------------------------------------------
def h_ordinary(ctx, c):
    """defaults never warn"""
    from ssqueezepy import cwt, icwt, ssq_cwt, issq_cwt, stft, istft, ssq_stft, issq_stft, extract_ridges, Wavelet, TestSignals
    for N in range(c['lo'], c['lo'] + 6):
        x = np.cos(np.arange(N) * .8)
        W = None
        for y in (x, np.stack([x, x[::-1]])):
            try:
                cwt(y, c['wav'])
            except ValueError:  # too short for this wavelet, see C15
                continue
            with logged() as m:
                W, sc = ctx.call(cwt, y, c['wav'])
                ctx.call(icwt, W, c['wav'], scales=sc)
                T, _, f, _ = ctx.call(ssq_cwt, y, c['wav'])[:4]
                ctx.call(issq_cwt, T, c['wav'])
            judge(ctx, m, {}, f"CWT {c['wav']} N={N} ndim={y.ndim}")
            if N >= 16 and c['wav'] == 'gmw':
                with logged() as m:
                    S_ = ctx.call(stft, y)
                    T = ctx.call(ssq_stft, y)[0]
                    if y.ndim == 1:
                        ctx.call(istft, S_, N=N, n_fft=min(N, 512))
                        ctx.call(issq_stft, T, n_fft=min(N, 512))
                judge(ctx, m, {}, f"STFT N={N} ndim={y.ndim}")
        if W is None:
            continue
        with logged() as m:
            R = ctx.call(extract_ridges, np.atleast_2d(W if W.ndim == 2 else W[0]), np.asarray(sc).ravel(), n_ridges=2)
            w = ctx.call(Wavelet, c['wav'])
        judge(ctx, m, {}, f"ridges / wavelet {c['wav']} N={N}")
        ctx.state((N, c['wav']))
