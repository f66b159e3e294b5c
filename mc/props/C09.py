"""C09: synchrosqueezed inversion and component partition are exact."""
import itertools
import numpy as np
from ..core import Skip
from ..util import signals, isolate_wisdom
from .. import ref as R
from .C08 import LAYOUTS, WAVS, wav, consts

TECH = "bounded exhaustive enumeration of curve/width columns (every centre x width, every pair and triple of them) against a direct partition of the rows"
RULE = ("columns: every (centre, width) in range, below, above and absent, for one curve, every pair for two curves, every triple for three; every form of the "
        "arrays; both transforms; forward/inverse compositions for every layout; states = distinct component sets")
BOUNDS = dict(quick="4-6 rows: 1 curve all, 2 curves all pairs on 4 rows, 3 curves on 3 rows; compositions N in {24,33}", thorough="2 curves on 3-8 rows, 3 curves on 3-4 rows; N in {17,24,33,48,64}")
ASSUMES = ["widths are non-negative integers; centre -1 marks an absent curve", "admissibility by quadrature (1e-5)",
           "short-time inversion weighs all rows alike (as documented by its formula), so its reference is the row sum, not the signal"]


def gen(tier):
    q = tier == 'quick'
    for rows in ((1, 2, 4, 6) if q else range(1, 10)):
        for tr in ('cwt', 'stft'):
            for cd in ('complex128', 'complex64'):
                yield dict(h='one', rows=rows, tr=tr, cd=cd)
    for rows in ((2, 4) if q else (2, 3, 4, 5, 6, 8)):
        for tr in ('cwt', 'stft'):
            for part in range(8):
                yield dict(h='curves', rows=rows, k=2, tr=tr, part=part)
    for rows in ((2, 3) if q else (2, 3, 4)):
        for part in range(8 if q else 32):
            yield dict(h='curves', rows=rows, k=3, tr='cwt', part=part, of=8 if q else 32)
    for w in WAVS:
        for form in ('name', 'tuple', 'obj'):
            yield dict(h='norm', w=w, form=form)
    for N in ((24, 33) if q else (17, 24, 33, 48, 64)):
        for lay in LAYOUTS:
            for w in ('gmw', 'morlet', 'bump', 'gmw_10_3'):
                for dt in ('float64', 'float32'):
                    yield dict(h='compose', N=N, lay=lay, w=w, dt=dt)
        for n_fft in (9, 10, 16):
            for wl in (n_fft, n_fft - 3):
                for win in ('hann', 'arr', 'dpss'):
                    for dt in ('float64', 'float32'):
                        yield dict(h='compose_stft', N=N, n_fft=n_fft, wl=wl, win=win, dt=dt)
    for rows in ((2, 3, 5) if q else (2, 3, 4, 5, 8)):
        for B in (1, 2, rows, rows + 1):
            for cd in ('complex128', 'complex64'):
                yield dict(h='batch', rows=rows, B=B, cd=cd)
    yield dict(h='reject')


def setup(ctx):
    isolate_wisdom()


def plane(rows, cols, cd):
    i, j = np.meshgrid(np.arange(rows), np.arange(cols), indexing='ij')
    return (2. ** i + .01 * (j % 7) + 1j * (1 + i + j % 3)).astype(cd)


def model(T, cc, cw):
    rows, cols = T.shape
    k = cc.shape[1]
    r = np.arange(rows)[:, None]
    out, cov = [], np.zeros(T.shape, bool)
    for i in range(k):
        m = (r >= cc[:, i] - cw[:, i]) & (r <= cc[:, i] + cw[:, i]) & (cc[:, i] != -1)
        out.append((T.real * m).sum(0))
        cov |= m
    out.append((T.real * ~cov).sum(0))
    return np.array(out, 'float64')


def symbols(rows):
    return [(c, w) for c in range(-4, rows + 3) for w in range(0, rows + 3)]


def invert(ctx, T, tr, cc, cw):
    from ssqueezepy import issq_cwt, issq_stft
    if tr == 'cwt':
        f = 2 / consts('morlet', True)[0]
        return ctx.call(issq_cwt, T, 'morlet', cc, cw), f
    n_fft = max(2 * (len(T) - 1), 1)
    win = 1. + np.hanning(n_fft + 2)[1:-1] if n_fft > 1 else np.array([1.5])
    return ctx.call(issq_stft, T, win, cc, cw, n_fft=n_fft), 2 / win[n_fft // 2]


def h_one(ctx, c):
    rows, cd = c['rows'], c['cd']
    tol = 2e-6 if cd == 'complex64' else 1e-6
    S = symbols(rows)
    T = plane(rows, len(S), cd)
    cc, cw = (np.array([s[k] for s in S]) for k in (0, 1))
    T0 = T.copy()
    want = model(T, cc[:, None], cw[:, None])
    for dt in ('int64', 'int32', 'float64', 'int16'):
        for form in ('1d', 'col', 'F', 'view'):
            f = {'1d': lambda a: a.astype(dt), 'col': lambda a: a.astype(dt)[:, None], 'F': lambda a: np.asfortranarray(a.astype(dt)[:, None]),
                 'view': lambda a: np.repeat(a, 2).astype(dt)[::2]}[form]
            a, b = f(cc), f(cw)
            got, fac = invert(ctx, T, c['tr'], a, b)
            ctx.eq(got, want * fac, f'{dt} {form}', rtol=tol)
            ctx.same(T, T0, 'transform kept')
            ctx.same(a, f(cc), 'centres kept')
            ctx.same(b, f(cw), 'widths kept')
    full, fac = invert(ctx, T, c['tr'], None, None)
    ctx.eq(full, T.real.sum(0) * fac, 'full inversion', rtol=tol)
    ctx.eq(got.sum(0), full, 'component + remainder = full', rtol=tol)
    ctx.same(T, T0, 'transform kept')
    ctx.state(got)
    # one column at a time
    for j in range(len(S)):
        got, fac = invert(ctx, T[:, j:j + 1], c['tr'], cc[j:j + 1], cw[j:j + 1])
        ctx.eq(got, want[:, j:j + 1] * fac, f'single column {S[j]}', rtol=tol, scale=np.abs(want).max())
        ctx.state(got)


def h_batch(ctx, c):
    from ssqueezepy import issq_cwt, issq_stft
    rows, B = c['rows'], c['B']
    for cols in (rows, 7):
        T = np.stack([plane(rows, cols, c['cd']) * (i + 1) + i for i in range(B)])
        T0 = T.copy()
        for tr in ('cwt', 'stft'):
            want = np.stack([invert(ctx, t, tr, None, None)[0] for t in T])
            if tr == 'cwt':
                got = ctx.call(issq_cwt, T, 'morlet')
            else:
                nf = 2 * (rows - 1)
                got = ctx.call(issq_stft, T, 1. + np.hanning(nf + 2)[1:-1])
            ctx.eq(got, want, f'{tr}: batched inversion', rtol=3e-6 if c['cd'] == 'complex64' else 1e-12)
            ctx.ok(got.dtype == T.real.dtype, f'{tr}: {got.dtype}')
            ctx.same(T, T0, 'transform kept')
            ctx.state(got)
        try:
            issq_cwt(T, 'morlet', np.ones((cols, 1), int), np.ones((cols, 1), int))
        except (NotImplementedError, ValueError):
            continue
        ctx.fail('component inversion of batched transform accepted')


def h_curves(ctx, c):
    rows, k = c['rows'], c['k']
    S = symbols(rows)
    combos = list(itertools.product(S, repeat=k))[c['part']::c.get('of', 8)]
    cc = np.array([[s[0] for s in m] for m in combos])
    cw = np.array([[s[1] for s in m] for m in combos])
    T = plane(rows, len(combos), 'complex128')
    want = model(T, cc, cw)
    cc0, cw0 = cc.copy(), cw.copy()
    got, fac = invert(ctx, T, c['tr'], cc, cw)
    ctx.eq(got, want * fac, f'{k} curves', rtol=1e-6)
    ctx.same(cc, cc0, 'centres kept')
    ctx.same(cw, cw0, 'widths kept')
    full, _ = invert(ctx, T, c['tr'], None, None)
    # disjoint bands add up to the full inversion
    dis = np.ones(len(combos), bool)
    for i in range(k):
        for j in range(i):
            ov = (np.abs(cc[:, i] - cc[:, j]) <= cw[:, i] + cw[:, j]) & (cc[:, i] != -1) & (cc[:, j] != -1)
            dis &= ~ov
    ctx.ok(dis.any(), 'disjoint columns exist')
    ctx.eq(got.sum(0)[dis], full[dis], 'partition', rtol=1e-9)
    ctx.count('columns', len(combos))
    ctx.count('disjoint_columns', int(dis.sum()))
    for col in range(0, len(combos), 97):
        ctx.state(got[:, col])


def h_norm(ctx, c):
    from ssqueezepy import issq_cwt, Wavelet
    T = plane(5, 6, 'complex128')
    for dt in ('float64', 'float32'):
        w = wav(c['w'], dt)
        w = {'name': w[0], 'tuple': w, 'obj': Wavelet(w)}[c['form']]
        if c['form'] == 'name' and c['w'] == 'gmw_10_3':
            continue
        f = 2 / consts(c['w'], True)[0]
        ctx.eq(ctx.call(issq_cwt, T, w), T.real.sum(0) * f, 'full', rtol=1e-5)
        cc, cw = np.full(6, 2), np.ones(6, int)
        ctx.eq(ctx.call(issq_cwt, T, w, cc, cw), model(T, cc[:, None], cw[:, None]) * f, 'components', rtol=1e-5)
        ctx.state([c['w'], f])


def h_compose(ctx, c):
    from ssqueezepy import ssq_cwt, cwt, icwt, issq_cwt
    sc = LAYOUTS[c['lay']].astype(c['dt'])
    single = c['dt'] == 'float32'
    w = wav(c['w'], c['dt'])
    tol = 2e-4 if single else 1e-7
    N = c['N']
    coincide = False
    if c['lay'].startswith('pw'):
        from ssqueezepy.experimental import scale_to_freq
        coincide = bool(np.any(np.diff(scale_to_freq(sc, w, N)) >= 0))
    for nm, x in signals(N).items():
        W, s = cwt(x, w, scales=sc)
        want = ctx.call(icwt, W, w, scales=sc)
        scale = np.abs(want).max()
        M = np.abs(W).max() * 1e-3
        for flip in (False, True):
            for sf in (None, 'log', 'linear', 'short', 'tuple'):
                f = np.linspace(.01, .45, len(sc) // 2 + 2).astype(c['dt']) if sf == 'short' else None if sf == 'tuple' else sf
                if c['lay'].startswith('pw') and sf == 'tuple':
                    continue
                try:
                    T = ctx.call(ssq_cwt, x, w, scales=sc, gamma=0., ssq_freqs=f, flipud=flip, maprange=(.02, .4) if sf == 'tuple' else 'peak')[0]
                except Exception:
                    if coincide and sf is None:      # layout of frequencies is undetermined where scales share a centre frequency
                        continue
                    raise
                got = ctx.call(issq_cwt, T, w)
                ctx.eq(got, want, f'{nm}: issq(ssq) = icwt(cwt), flipud={flip} ssq_freqs={sf}', rtol=tol, scale=scale)
                if sf is None and len(T) >= 6:
                    cc = np.full((N, 2), 1)
                    cc[:, 1] = len(T) - 2
                    cw = np.full((N, 2), 1)
                    parts = ctx.call(issq_cwt, T, w, cc, cw)
                    ctx.eq(parts.sum(0), want, f'{nm}: components add up', rtol=tol, scale=scale)
        ctx.state(got)


def h_compose_stft(ctx, c):
    from ssqueezepy import ssq_stft, stft, issq_stft
    N, n_fft, wl = c['N'], c['n_fft'], c['wl']
    win = {'hann': 'hann', 'arr': 1. + np.hanning(wl), 'dpss': None}[c['win']]
    if win is None and wl <= 8:
        raise Skip('dpss window needs more than 8 samples')
    from .C06 import wvals
    v = wvals(win, wl, n_fft)
    single = c['dt'] == 'float32'
    kw = dict(window=win, n_fft=n_fft, win_len=wl)
    for nm, x in signals(N).items():
        S = stft(x, dtype=c['dt'], **kw)
        want = S.real.sum(0) / n_fft * 2 / v[n_fft // 2]
        # spacing of frequencies is 1/(2*(rows-1)) = 1/n_fft for even n_fft
        if n_fft % 2:
            want = want * n_fft / (2 * (len(S) - 1))
        for flip in (False, True):
            for fs in (1., 100.):
                T = ctx.call(ssq_stft, x, gamma=0., flipud=flip, fs=fs, dtype=c['dt'], **kw)[0]
                got = ctx.call(issq_stft, T, **kw)
                ctx.eq(got, want, f'{nm}: issq(ssq) = scaled row sum, flipud={flip} fs={fs}', rtol=1e-4 if single else 1e-9, scale=np.abs(S).max())
                if n_fft % 2 == 0:
                    got = ctx.call(issq_stft, T, window=win, **({} if wl == n_fft else dict(win_len=wl)))
                    ctx.eq(got, want, f'{nm}: default n_fft', rtol=1e-4 if single else 1e-9, scale=np.abs(S).max())
        if n_fft % 2 == 0:      # exact signal from rows: count interior rows twice
            y = (2 * S.real.sum(0) - S.real[0] - S.real[-1]) / n_fft / v[n_fft // 2]
            ctx.eq(y, x, 'row sums determine the signal', rtol=1e-4 if single else 1e-9, scale=1.)
        ctx.state(got)


def h_reject(ctx, c):
    from ssqueezepy import issq_stft
    T = plane(5, 6, 'complex128')
    for kw in (dict(modulated=False), dict(hop_len=2)):
        try:
            ctx.call(issq_stft, T, 'hann', **kw)
        except ValueError:
            ctx.ok(True, '')
            continue
        ctx.fail(f'{kw} accepted')
