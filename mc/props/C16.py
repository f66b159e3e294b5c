"""C16: every extracted ridge is a minimum-penalty path of the band-removed energy map."""
import itertools
import numpy as np
from ..core import Skip
from ..util import env

TECH = "bounded exhaustive enumeration of energy maps x configurations on the real code; oracle = explicit minimum over all index paths (F^T of them) of the documented cost"
RULE = ("all energy maps up to the size bound over a small alphabet (incl. silent columns, ties, wide and tall) x penalties x layouts x bandwidths x ridge counts; each ridge judged on the map left by the "
        "ridges actually returned before it; states = distinct (map, ridges)")
BOUNDS = dict(quick="all 2- and 3-letter maps with F*T<=9 (2-letter: <=12) x 3 penalties x 3 layouts x bw 0..F+1 x up to 3 ridges; larger maps to 60x9/9x60/3x200 by dynamic programming", thorough="all 3-letter maps with F*T<=12, 2-letter <=16, 4 precisions, 5 penalties")
ASSUMES = ["ties may be resolved either way: the cost of the returned path is compared with the minimum cost, not the indices", "bandwidth removes [ridge-bw, ridge+bw) as implemented and pinned", "numpy float64 arithmetic of the oracle"]
CASE_LIMIT_S = 800

LET = {2: (0.5, 3.), 3: (0., 1., 4.), 4: (0., .5, 2., 7.)}
LAYOUT = {'log': ('cwt', lambda F: 2. ** (np.arange(F) + 1)), 'lin': ('stft', lambda F: np.arange(F) * .25), 'irr': ('cwt', lambda F: np.cumsum(1. + (np.arange(F) * 7 % 5))),
          'desc': ('stft', lambda F: 3. - np.arange(F) ** 1.5 * .3)}


def gen(tier):
    q = tier == 'quick'
    sizes = []
    for F in range(1, 13):
        for T in range(1, 13):
            for L, cap in ((2, 10 if q else 14), (3, 6 if q else 9)):
                if F * T <= cap and (F <= 5 or T <= 2) and F ** T <= 20000:
                    sizes.append((F, T, L))
    for F, T, L in sizes:
        total = L ** (F * T)
        for lay in LAYOUT:
            for pen in ((0., .3, 4.) if q else (0., .05, .3, 4., 40.)):
                for prec in (('c16',) if q and lay != 'log' else ('c16', 'f8') if q else ('c16', 'c8', 'f8', 'f4')):
                    for nr, bw in combos(F, q):
                        step = 20000
                        for a in range(0, total, step):
                            yield dict(h='maps', F=F, T=T, L=L, lay=lay, pen=pen, prec=prec, nr=nr, bw=bw, a=a, b=min(total, a + step))
    for F, T in ((60, 9), (9, 60), (25, 25), (1, 30), (30, 1), (200, 3), (3, 200)) if q else ((60, 9), (9, 60), (25, 25), (1, 30), (30, 1), (200, 3), (3, 200), (150, 150), (300, 40)):
        for lay in LAYOUT:
            for pen in (0., .5, 2., 20., 1e5):
                for kind in ('tones', 'crossing', 'edge', 'silent', 'flat', 'rank', 'step'):
                    yield dict(h='large', F=F, T=T, lay=lay, pen=pen, kind=kind)
    for tr in ('cwt', 'ssq_cwt', 'stft', 'ssq_stft'):
        for N in (48, 100):
            yield dict(h='real', tr=tr, N=N)


def combos(F, q):
    out = [(1, 0)]
    for bw in range(0, F + 2):
        if not q or bw in (0, 1, 2, F + 1):
            out.append((2, bw))
    out.append((3, 1))
    return sorted(set(out))


_P = {}


def paths(F, T):
    if (F, T) not in _P:
        _P[(F, T)] = np.array(list(itertools.product(range(F), repeat=T)), dtype=int).reshape(-1, T)
    return _P[(F, T)]


def costs(E, scales, pen, kind, eps):
    """E (M, F, T) -> normalised negative log energy, penalty matrix"""
    mx = E.max(axis=1, keepdims=True)
    mx = np.where(mx == 0, 1, mx)
    e = -np.log(E / mx + eps)
    s = np.log(scales) if kind == 'cwt' else scales
    return e, pen * (s[:, None] - s[None, :]) ** 2


def path_cost(e, pm, idx):
    """e (M,F,T), idx (M,T)"""
    M, F, T = e.shape
    c = e[np.arange(M)[:, None], idx, np.arange(T)].sum(1)
    if T > 1:
        c = c + pm[idx[:, 1:], idx[:, :-1]].sum(1)
    return c


def best_all(e, pm):
    M, F, T = e.shape
    P = paths(F, T)
    pc = pm[P[:, 1:], P[:, :-1]].sum(1) if T > 1 else np.zeros(len(P))
    best = np.full(M, np.inf)
    for a in range(0, len(P), 256):
        c = np.zeros((M, len(P[a:a + 256])))
        for t in range(T):
            c += e[:, P[a:a + 256, t], t]
        best = np.minimum(best, (c + pc[a:a + 256]).min(1))
    return best


def best_dp(e, pm):
    c = e[:, :, 0]
    for t in range(1, e.shape[2]):
        c = (c[:, None, :] + pm[None]).min(2) + e[:, :, t]
    return c.min(1)


def judge(ctx, Tf, R, RF, RE, scales, pen, kind, bw, what, all_paths=True):
    """Tf (M,F,T); R (M,T,nr)"""
    M, F, T = Tf.shape
    nr = R.shape[2]
    eps = np.finfo('float64' if Tf.dtype == np.complex128 else 'float32').eps
    rt = 1e-9 if Tf.dtype == np.complex128 else 2e-5
    E = np.abs(Tf.astype('complex128')) ** 2
    ctx.ok(((R >= 0) & (R < F)).all(), lambda: f'{what}: ridge index out of range [0, {F})')
    for r in range(nr):
        e, pm = costs(E, scales, pen, kind, eps)
        want = (best_all if all_paths else best_dp)(e, pm)
        got = path_cost(e, pm, R[:, :, r])
        tol = rt * ((1 + np.abs(e).max(axis=(1, 2))) * T + np.abs(want) + pm.max() * T) + 1e-12
        bad = ~(got <= want + tol)
        ctx.traces += M
        if bad.any():
            m = int(np.argmax(bad))
            ctx.fail(f'{what}: ridge {r} {R[m, :, r].tolist()} of map {np.abs(Tf[m]).round(4).tolist()[:6]} costs {got[m]:.6g}, minimum over all paths is {want[m]:.6g}')
        if RF is not None:
            ctx.eq(RF[:, :, r], scales[R[:, :, r]], f'{what}: ridge_f', rtol=1e-6)
            ctx.eq(RE[:, :, r], E[np.arange(M)[:, None], R[:, :, r], np.arange(T)], f'{what}: ridge_e', rtol=1e-5)
        rows = np.arange(F)[None, :, None]
        rr = R[:, None, :, r]
        E = np.where((rows >= rr - bw) & (rows < rr + bw), 0, E)


DT = dict(c16='complex128', c8='complex64', f8='float64', f4='float32')


def h_maps(ctx, c):
    from ssqueezepy import extract_ridges
    F, T, L = c['F'], c['T'], c['L']
    kind, mk = LAYOUT[c['lay']]
    scales = mk(F)
    ids = np.arange(c['a'], c['b'])
    digs = (ids[:, None] // L ** np.arange(F * T)) % L
    A = np.array(LET[L])[digs].reshape(-1, F, T)
    if c['prec'][0] == 'c':
        A = A * np.exp(1j * (np.arange(F)[:, None] * 1.3 + np.arange(T) * .7))
    A = A.astype(DT[c['prec']])
    kw = dict(penalty=c['pen'], n_ridges=c['nr'], bw=c['bw'], transform=kind)
    M = len(A)
    R = np.empty((M, T, c['nr']), int)
    RF, RE = np.empty(R.shape), np.empty(R.shape)
    par = (c['F'] * 3 + c['T'] + c['nr'] + c['bw']) % 4 == 0 and M <= 2000
    for m in range(M):
        o = extract_ridges(A[m], scales, get_params=True, parallel=False, **kw)
        ctx.step()
        if m < 50 or m == M - 1:
            if o[0].shape != (T, c['nr']) or o[0].dtype.kind != 'i':
                ctx.fail(f'ridge_idxs has shape {o[0].shape} {o[0].dtype}')
        R[m], RF[m], RE[m] = o
        if par and m % 3 == 0:
            p = ctx.call(extract_ridges, A[m], scales, get_params=True, parallel=True, **kw)
            for i in range(3):
                ctx.same(p[i], o[i], 'parallel vs serial output %d' % i)
        if m % 97 == 0:
            ctx.same(ctx.call(extract_ridges, A[m], scales.reshape(-1, 1), parallel=False, **kw), o[0], 'column scales, no params')
            for g in (1 / 1024, 4096.):
                q = ctx.call(extract_ridges, A[m] * np.asarray(g, dtype=A.real.dtype), scales, parallel=False, **kw)
                ctx.same(q, o[0], f'scaled by {g}')
    ctx.state((c['F'], c['T'], c['lay'], c['pen'], c['nr'], c['bw'], c['a'], R.tolist()))
    judge(ctx, A, R, RF, RE, scales, c['pen'], kind, c['bw'], 'ridges')


def h_large(ctx, c):
    from ssqueezepy import extract_ridges
    F, T = c['F'], c['T']
    kind, mk = LAYOUT[c['lay']]
    scales = np.linspace(1, 9, F) if kind == 'cwt' and c['lay'] == 'log' else np.cumsum(.1 + (np.arange(F) * 7 % 5)) if c['lay'] == 'irr' else np.linspace(0, .5, F) * (1 if c['lay'] == 'lin' else -1)
    if c['lay'] == 'log':
        scales = 2. ** np.linspace(1, 6, F)
    f, t = np.arange(F)[:, None], np.arange(T)[None, :]
    b = lambda pos, w: np.exp(-((f - pos) / w) ** 2)
    A = {'tones': b(F * .3, F / 20 + .6) + .7 * b(F * .7, F / 20 + .6), 'crossing': b(F * (.1 + .8 * t / T), 1.5) + .9 * b(F * (.9 - .8 * t / T), 1.5),
         'edge': b(0, 1.2) + .8 * b(F - 1, 1.2) + .01 * (f * 3 + t) % .013, 'silent': b(F * .4 + 2 * np.sin(t / 3.), 1.) * (t % 4 != 1), 'flat': np.ones((F, T)),
         'step': 1. * (f == np.where(t < T / 2, 0, F - 1)), 'rank': ((f * 31 + t * 17) % 101 + 1.) / 101}[c['kind']] * (1 + 0 * t)
    for dt in ('complex128', 'complex64', 'float64', 'float32'):
        X = (A * np.exp(1j * (f + .3 * t)) if dt[0] == 'c' else A).astype(dt)
        for nr, bw in ((1, 15), (2, 2), (3, 5)):
            kw = dict(penalty=c['pen'], n_ridges=nr, bw=bw, transform=kind)
            o = ctx.call(extract_ridges, X, scales, get_params=True, parallel=False, **kw)
            p = ctx.call(extract_ridges, X, scales, get_params=True, parallel=True, **kw)
            for i in range(3):
                ctx.same(p[i], o[i], 'parallel vs serial output %d' % i)
            judge(ctx, X[None], o[0][None], o[1][None], o[2][None], scales, c['pen'], kind, bw, f"{c['kind']} {dt} nr={nr} bw={bw}", all_paths=False)
            ctx.state((c['F'], c['kind'], c['pen'], dt, nr, o[0].tolist()))
            for g in (1 / 4096., 1024.):
                if dt[-1] in '8' or dt in ('complex128', 'float64'):
                    ctx.same(ctx.call(extract_ridges, X * g, scales, parallel=False, **kw), o[0], f'scaled by {g}')
        for args in (dict(), dict(bw=15, n_ridges=1, penalty=2.)):
            ctx.same(ctx.call(extract_ridges, X, scales, transform=kind, **args), ctx.call(extract_ridges, X, scales, 2., 1, 15, kind, False, False), 'defaults')


def h_real(ctx, c):
    from ssqueezepy import extract_ridges, cwt, ssq_cwt, stft, ssq_stft
    N = c['N']
    n = np.arange(N)
    x = np.cos(.3 * n) + .8 * np.cos(1.2 * n + .002 * n ** 2) + .01
    with env(SSQ_PARALLEL='0'):
        if c['tr'] == 'cwt':
            T, s = cwt(x, scales='log:maximal', nv=6)
        elif c['tr'] == 'ssq_cwt':
            T, _, s, *_ = ssq_cwt(x, scales='log:maximal', nv=6)
        elif c['tr'] == 'stft':
            T, s = stft(x, n_fft=24), np.linspace(0, .5, 13)
        else:
            T, _, s, *_ = ssq_stft(x, n_fft=24)
    s = np.asarray(s, dtype='float64').ravel()
    kind = 'cwt' if 'cwt' in c['tr'] else 'stft'
    for pen in (.5, 20.):
        for nr, bw in ((1, 4), (2, 2), (3, 25)):
            o = ctx.call(extract_ridges, T, s, penalty=pen, n_ridges=nr, bw=bw, transform=kind, get_params=True)
            judge(ctx, np.asarray(T)[None], o[0][None], o[1][None], o[2][None], s, pen, kind, bw, c['tr'], all_paths=False)
            ctx.state((c['tr'], N, pen, nr, o[0].tolist()))
