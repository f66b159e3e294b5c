"""C03: multi-threaded kernels are schedule independent (footprint/DPOR exploration of the kernels' source + compiled runs)."""
import itertools
import numpy as np
from ..core import Skip
from ..util import parallel, isolate_wisdom
from .. import sched

TECH = "dynamic partial-order schedule exploration of the multi-threaded kernels' source; compiled kernels for every worker count"
RULE = ("every kernel invocation of the input lattice: footprints of all iterations, all interleavings (<=2 preemptions) of conflicting "
        "iterations; plus the compiled kernel with 1..4 workers compared bitwise with the serial one; states = distinct final memories")
BOUNDS = dict(quick="all index maps on 2x3 and 3x2 arrays, all 5-valued frequency fields on 2x2, ridges on 3x4 over {1,2,4}", thorough="3x3 maps, 3x2 frequency fields, ridge maps 3x5 and 4x4")
ASSUMES = ["workers interleave at array-element accesses (sequential consistency)", "whole-array expressions are parallelised elementwise by numba",
           "prange iterations run in contiguous chunks per worker, loops joined at their end"]
WORKERS = 8


def gen(tier):
    q = tier == 'quick'
    yield dict(h='inventory')
    for shape in ((2, 3), (3, 2)) + (() if q else ((3, 3),)):
        for first in range(shape[0] ** 2):
            yield dict(h='indexed_sum', shape=shape, first=first)
    for kind in ('log', 'log-piecewise', 'linear', 'stft'):
        for flip in (False, True):
            for get_w in (False, True):
                for first in range(25):
                    yield dict(h='squeeze', kind=kind, flip=flip, get_w=get_w, first=first, rows=2 if q else 3)
    for kind in ('log', 'log-piecewise', 'linear'):
        for shape in ((1, 1), (2, 3), (3, 2), (4, 4)):
            yield dict(h='closest', kind=kind, shape=shape)
    for shape in ((1, 1), (2, 2), (3, 2), (2, 4), (1, 3), (5, 1), (3, 3), (3, 7)):
        for dt in ('64', '128'):
            yield dict(h='elementwise', shape=shape, dt=dt)
    for L in (4, 5, 7):
        for seg in (1, 2, 3, 4):
            for ov in range(seg):
                for mod in (False, True):
                    yield dict(h='buffer', L=L, seg=seg, ov=ov, mod=mod)
    for shape in ((2, 4), (3, 3), (4, 2)) + (() if q else ((3, 5), (4, 4))):
        for first in range(9):
            yield dict(h='ridge', shape=shape, first=first)
    for N in (7, 33, 64):
        for name in ('gmw', 'gmw_l2', 'gmw_k', 'gmw_l2k', 'morlet', 'bump', 'cmhat', 'hhhat'):
            yield dict(h='wavelet', N=N, name=name)
    for n in (1, 2, 3, 5, 8, 17):
        for m in (4, 5, 9):
            for kind in ('log', 'log-piecewise', 'linear', 'stft'):
                yield dict(h='jit', n=n, m=m, kind=kind)


EX = None
USED = set()


def setup(ctx):
    global EX
    isolate_wisdom()
    import ssqueezepy  # noqa
    EX = sched.Explorer(preemptions=2)


def finish(ctx):
    if EX:
        EX.stats['accesses'] = sched.MON.accesses
        for k, v in EX.stats.items():
            ctx.count(k, v)


def _threads():
    import numba
    return range(1, numba.config.NUMBA_NUM_THREADS + 1)


def explore(ctx, f, serial, what):
    """f() runs the kernel in parallel mode and returns arrays; serial() the reference"""
    want = [np.asarray(w) for w in serial()]
    try:
        with sched.exploring(EX, USED):
            before = dict(EX.stats)
            got = ctx.call(f)
    except sched.Race as e:
        ctx.fail(f"{what}: {e}")
    d = EX.stats
    ctx.step(d['iterations'] - before['iterations'] + d['schedules'] - before['schedules'])
    for g, w in zip(got, want):
        ctx.eq(g, w, f'{what}: in-order parallel body vs serial routine', rtol=2e-5 if str(w.dtype) in ('float32', 'complex64') else 1e-9)
    ctx.state([what, *[np.asarray(g) for g in got]])
    return got


def compiled(ctx, f, serial, what):
    import numba
    want = [np.asarray(w) for w in serial()]
    for n in _threads():
        numba.set_num_threads(n)
        try:
            got = ctx.call(f)
            for g, w in zip(got, want):
                # same operations in the same order per cell: only code generation (fma) may differ
                ctx.eq(g, w, f'{what}: {n} workers vs serial', rtol=1e-12 if np.asarray(w).dtype.itemsize >= 8 and 'complex64' != str(np.asarray(w).dtype) else 2e-5)
        finally:
            numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)


def h_inventory(ctx, c):
    """every parallel kernel of the library is one the lattice drives or is a whole-array expression"""
    ds = sched.parallel_dispatchers()
    n = 0
    for d in ds:
        try:
            n += sched.rewrite(d, EX.pfor)[1] > 0
        except Exception:
            pass
    ctx.count('parallel_kernels', len(ds))
    ctx.count('parallel_kernels_with_explicit_loops', n)
    ctx.ok(True, '')


def h_indexed_sum(ctx, c):
    from ssqueezepy.algos import indexed_sum
    M, N = c['shape']
    a = (np.arange(M * N).reshape(M, N) + 1.) * (1 + .5j)
    rest = M * N - 2
    for tail in itertools.product(range(M), repeat=rest):
        k = np.array([c['first'] // M, c['first'] % M, *tail], dtype=np.int32).reshape(M, N)
        explore(ctx, lambda: [indexed_sum(a, k, parallel=True)], lambda: [indexed_sum(a, k, parallel=False)], f'indexed_sum k={k.tolist()}')
    compiled(ctx, lambda: [indexed_sum(a, k, parallel=True)], lambda: [indexed_sum(a, k, parallel=False)], 'indexed_sum')


def _freqs(kind, m=4):
    if kind == 'log':
        return .05 * 2. ** (np.arange(m) * .75)
    if kind == 'log-piecewise':
        return .02 * 2. ** (np.array([0, 2., 4., 5., 6., 7.]) / 2)
    return np.linspace(.05, .45, m)


def _squeeze_args(kind, get_w, W, w, flip):
    from ssqueezepy import ssqueezing
    M = len(W)
    D = 2j * np.pi * w * W
    D = np.where(np.isfinite(D), D, 0)
    Wz = np.where(np.isinf(w), 0, W)
    if kind == 'stft':
        Sfs = np.linspace(0, .5, M)
        if not get_w:
            # |Sfs - Im(dS/S)/2pi| == w
            D = np.where(np.isinf(w), 0, 2j * np.pi * (Sfs[:, None] + w) * W)
        kw = dict(ssq_freqs=Sfs, Sfs=Sfs, transform='stft')
    else:
        f = _freqs(kind, M)
        sc = 2. ** (np.arange(len(f)) / 4 + 1) if kind != 'linear' else np.linspace(2, 4, len(f))
        if kind == 'log-piecewise':
            sc = (1. / f)[::-1]
        kw = dict(ssq_freqs=f, scales=sc, transform='cwt')
    kw.update(flipud=flip, gamma=1e-6)
    if get_w:
        kw.update(w=w)
    else:
        kw.update(w=None, dWx=D)
    return Wz, kw, ssqueezing.ssqueeze


def h_squeeze(ctx, c):
    rows = 6 if c['kind'] == 'log-piecewise' else 4
    alpha = [.03, .07, .19, .44, np.inf]
    var = min(c['rows'], 2 if c['kind'] == 'log-piecewise' else 3)
    W0 = ((np.arange(rows * 2).reshape(rows, 2) + 1.) * (1 - .25j))
    for tail in itertools.product(alpha, repeat=2 * var - 2):
        w = np.full((rows, 2), .1)
        w.ravel()[:2 * var] = [alpha[c['first'] // 5], alpha[c['first'] % 5], *tail]
        W, kw, f = _squeeze_args(c['kind'], c['get_w'], W0, w, c['flip'])

        def run(par):
            with parallel(par):
                return [f(W.copy(), **{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})[0]]
        explore(ctx, lambda: run(True), lambda: run(False), f"ssqueeze {c['kind']} w={w.tolist()}")


def h_closest(ctx, c):
    from ssqueezepy.algos import find_closest
    v = _freqs(c['kind'], 6)
    M, N = c['shape']
    a = (.011 * 1.5 ** (np.arange(M * N) % 11)).reshape(M, N)
    for dt in ('float64', 'float32'):
        aa = a.astype(dt)
        f = lambda par: [find_closest(aa, v, logscale=c['kind'] != 'linear', parallel=par, smart=False)]
        explore(ctx, lambda: f(True), lambda: f(False), f"find_closest {c['kind']}")
        compiled(ctx, lambda: f(True), lambda: f(False), f"find_closest {c['kind']}")


def h_elementwise(ctx, c):
    from ssqueezepy import phase_cwt, phase_stft, algos
    M, N = c['shape']
    cd, fd = 'complex' + c['dt'], 'float' + str(int(c['dt']) // 2)
    W = ((np.arange(M * N).reshape(M, N) % 3) * (1 + .5j)).astype(cd)
    D = ((np.arange(M * N).reshape(M, N) + 1) * (.3 + 1j)).astype(cd)
    Sfs = np.linspace(0, .5, M).astype(fd)
    for g in (1e-3, 1.2):
        for nm, f in (('phase_cwt', lambda p: [phase_cwt(W, D, gamma=g, parallel=p)]), ('phase_stft', lambda p: [phase_stft(W, D, Sfs, gamma=g, parallel=p)])):
            def run(p):
                with parallel(p):
                    return f(p)
            explore(ctx, lambda: run(True), lambda: run(False), nm)
            compiled(ctx, lambda: run(True), lambda: run(False), nm)

        def rep(p):
            x = np.arange(1, M * N + 1, dtype=fd).reshape(M, N)
            algos.replace_under_abs(x, ref=W, value=g, replacement=-7., parallel=p)
            return [x]
        explore(ctx, lambda: rep(True), lambda: rep(False), 'replace_under_abs')
        compiled(ctx, lambda: rep(True), lambda: rep(False), 'replace_under_abs')

    # denormals: every pattern of {zero, denormal, -denormal, normal} on up to 4 elements, then sizes up to 17 all denormal
    small, normal = (1e-310, 5.) if fd == 'float64' else (1e-40, 5.)
    if M * N <= 9:
        for n in range(1, 5):
            for pat in itertools.product((0., small, -small, normal), repeat=n):
                if M * N != 9 and n > 2:
                    continue

                def zd(p):
                    x = np.array(pat, dtype=fd)
                    algos.zero_denormals(x, parallel=p)
                    return [x != 0, x]  # a kept denormal is below any tolerance: compare the support exactly
                if n <= 2 or M * N == 9 and n == 3:
                    explore(ctx, lambda: zd(True), lambda: zd(False), f'zero_denormals {pat}')
                compiled(ctx, lambda: zd(True), lambda: zd(False), f'zero_denormals {pat}')
    for shape in ((M, N), (M * N,), (2 * M * N + 1,)):
        for nm, v in (('all', 1), ('last', 0)):
            def zd(p):
                x = np.full(shape, small if v else normal, dtype=fd)
                x.ravel()[-1] = -small
                algos.zero_denormals(x, parallel=p)
                return [x != 0, x]
            explore(ctx, lambda: zd(True), lambda: zd(False), f'zero_denormals {shape} {nm}')
            compiled(ctx, lambda: zd(True), lambda: zd(False), f'zero_denormals {shape} {nm}')


def h_buffer(ctx, c):
    from ssqueezepy.utils import buffer
    if c['seg'] > c['L']:
        raise Skip
    x = np.arange(c['L']) * 1.

    def run(p):
        with parallel(p):
            return [buffer(x, c['seg'], c['ov'], c['mod'], parallel=p)]
    explore(ctx, lambda: run(True), lambda: run(False), 'buffer')
    compiled(ctx, lambda: run(True), lambda: run(False), 'buffer')
    X = np.stack([x, -x])

    def run2(p):
        with parallel(p):
            return [buffer(X, c['seg'], c['ov'], c['mod'], parallel=p)]
    explore(ctx, lambda: run2(True), lambda: run2(False), 'buffer 2D')


def h_ridge(ctx, c):
    from ssqueezepy import extract_ridges
    F, T = c['shape']
    sc = 2. ** (np.arange(F) / 2 + 1)
    alpha = [1., 2., 4.]
    free = min(F * T, 6)
    for n, tail in enumerate(itertools.product(alpha, repeat=free - 2)):
        E = np.ones(F * T)
        E[:free] = [alpha[c['first'] // 3], alpha[c['first'] % 3], *tail]
        E = np.sqrt(E.reshape(F, T)).astype('complex128')
        for pen in (0., .5):
            f = lambda p: list(extract_ridges(E, sc, penalty=pen, n_ridges=2, bw=1, get_params=True, parallel=p))
            explore(ctx, lambda: f(True), lambda: f(False), f'extract_ridges penalty={pen} E={E.real.tolist()}')
            if n % 27 == 0:
                compiled(ctx, lambda: f(True), lambda: f(False), 'extract_ridges')


def h_wavelet(ctx, c):
    from ssqueezepy import Wavelet
    spec = dict(gmw=('gmw', {}), gmw_l2=('gmw', dict(norm='energy')), gmw_k=('gmw', dict(order=2)), gmw_l2k=('gmw', dict(norm='energy', order=1))).get(
        c['name'], (c['name'], {}))
    for dt in ('float64', 'float32'):
        def run(p):
            with parallel(p):
                w = Wavelet((spec[0], dict(spec[1], dtype=dt)))
                return [w(scale=np.array([2., 3., 7.]), N=c['N']), w(scale=5., N=c['N'])]
        explore(ctx, lambda: run(True), lambda: run(False), c['name'])
        compiled(ctx, lambda: run(True), lambda: run(False), c['name'])


def h_jit(ctx, c):
    """compiled squeezing with every number of workers"""
    n, m, kind = c['n'], c['m'], c['kind']
    if kind == 'log-piecewise':
        m = 6
    i, j = np.mgrid[:m, :n]
    W = (1 + i + .1 * j) * np.exp(1j * (i + j))
    w = .03 * 1.37 ** ((3 * i + 5 * j) % 11)
    w[(i + j) % 5 == 0] = np.inf
    for gw in (True, False):
        for flip in (False, True):
            for cd in ('complex128', 'complex64'):
                Wz, kw, f = _squeeze_args(kind, gw, W, w, flip)
                for k in ('w', 'dWx'):
                    if kw.get(k) is not None:
                        kw[k] = kw[k].astype(cd if k == 'dWx' else ('float64' if cd == 'complex128' else 'float32'))

                def run(p):
                    with parallel(p):
                        return [f(Wz.astype(cd), **{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})[0]]
                compiled(ctx, lambda: run(True), lambda: run(False), f'ssqueeze {kind} get_w={gw}')
    ctx.state([kind, n, m])
