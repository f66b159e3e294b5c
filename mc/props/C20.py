"""C20: array primitives equal their brute-force definitions."""
import itertools
from math import comb
import numpy as np
from ..core import Skip
from ..util import parallel, env
from .C04 import layouts

TECH = "bounded exhaustive enumeration of small arrays over special-value alphabets against element-by-element evaluation of each definition"
RULE = ("lookup: every symbol (each value, every midpoint and its neighbourhood, beyond both ends, zero, infinite) x every table layout, sorted or not, with fewer and more rows than the table; "
        "sums: all index matrices of the bounded shapes; replacements: all value tuples over {0, -0, denormal, tiny, threshold and neighbours, +-1, inf, -inf, NaN} x reference x shape x dtype x "
        "memory layout x thread setting; states = distinct outputs")
BOUNDS = dict(quick="tables of 2-6 values; index matrices up to 3x2; value tuples of length 3, 0-3 dimensions", thorough="tables of 2-8 values; index matrices up to 4x2 and 3x3; value tuples of length 4")
ASSUMES = ["exact ties may go to either neighbour", "the nearest of an infinite value is the end it lies beyond (uniform lookups); NaN has no nearest", "maximum search: single maximum; first-occurrence search: monotone from its start",
           "uniform lookups take ascending tables"]

DT = ('float64', 'float32', 'complex128', 'complex64')


def gen(tier):
    q = tier == 'quick'
    for lay in list(layouts()) + ['uns', 'dup', 'two', 'neg'] + ([] if q else ['long']):
        for dt in ('float64', 'float32'):
            yield dict(h='closest', lay=lay, dt=dt)
    for shape in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)) + (() if q else ((4, 1), (4, 2), (3, 3))):
        yield dict(h='isum', shape=list(shape))
    for fn in ('inf_or_nan', 'inf', 'nan', 'value', 'under'):
        for dt in DT:
            for par in (False, True):
                yield dict(h='replace', fn=fn, dt=dt, par=par, L=3 if q else 4)
    for dt in ('float64', 'float32'):
        for par in (False, True, None):
            yield dict(h='denormals', dt=dt, par=par)
    yield dict(h='neglect', L=4 if q else 6)
    for start in (0, .5, 3):
        for step in (1e-3, 1e-2, .25):
            yield dict(h='maximum', start=start, step=step)
            yield dict(h='first', start=start, step=step)
    yield dict(h='ncomb')
    for n in range(2, 6 if q else 8):
        yield dict(h='windows', n=n)
    for n in (8, 9, 16, 17, 32, 33) + (() if q else (64, 65, 128, 129)):
        yield dict(h='windows', n=n, named=True)
    for shape in ((1,), (4,), (1, 1), (2, 2), (2, 3), (3, 2), (1, 4)) + (() if q else ((3, 3), (2, 2, 2))):
        for dt in DT:
            yield dict(h='stats', shape=list(shape), dt=dt)
    yield dict(h='waves')


# --- lookup ------------------------------------------------------------------------------------------------------
def table(lay):
    if lay == 'uns':
        return np.array([3., -1., 2., 10., .5]), 'any'
    if lay == 'dup':
        return np.array([1., 2., 2., 4., 1.]), 'any'
    if lay == 'two':
        return np.array([1., 3.]), 'both'
    if lay == 'neg':
        return -2 + .5 * np.arange(6), 'lin'
    if lay == 'long':
        return .01 * 2. ** (np.arange(8) / 3), 'log'
    v = layouts()[lay]
    return v, 'lin' if lay.startswith('lin') else 'log'


def h_closest(ctx, c):
    from ssqueezepy.algos import find_closest, find_closest_smart, find_closest_brute
    v, kind = table(c['lay'])
    v = v.astype(c['dt'])
    s = np.sort(v)
    e = 1e-3 if c['dt'] == 'float32' else 1e-6
    d = max(np.diff(s).max(), .1)
    pts = list(s) + [m + k * e * d for m in (s[1:] + s[:-1]) / 2 for k in (-1, 0, 1)] + [s[0] - .3 * d, s[0] - 5 * d, s[-1] + .3 * d, s[-1] + 5 * d, 0.]
    with np.errstate(all='ignore'):
        pts += [2. ** m * (1 + k * e) for m in (np.log2(np.abs(s[1:]) + 1e-9) + np.log2(np.abs(s[:-1]) + 1e-9)) / 2 for k in (-1, 0, 1)]
    pts = np.array(pts).astype(c['dt'])
    for logscale in (False, True):
        if logscale and v.min() <= 0:
            continue
        P = pts[pts >= 0] if logscale else pts
        with np.errstate(all='ignore'):
            f = (lambda z: np.log2(z.astype('float64'))) if logscale else (lambda z: z.astype('float64'))
            fa = np.clip(f(P), f(s)[0], f(s)[-1])       # nearest of what lies beyond is the end
            dist = np.abs(fa[:, None] - f(v)[None])
        best = dist.min(1)
        tolr = 2e-6 if c['dt'] == 'float32' else 1e-12
        slack = tolr * (1 + np.abs(f(v)).max())
        for shape in ((1, -1), (-1, 1), (2, -1), (-1, 2), (3, -1)):
            rows = np.tile(P, 6)[:len(P) * 6 // 6 * 6].reshape(shape)
            idx_of = np.tile(np.arange(len(P)), 6).reshape(shape)
            modes = [('smart', dict(smart=True)), ('default', {}), ('smart over parallel', dict(smart=True, parallel=True))]
            if not logscale:
                modes += [('brute', None), ('smart fn', 'smart')]
            if kind in ('both',) or kind == ('log' if logscale else 'lin'):
                modes += [('uniform', dict(parallel=False)), ('uniform parallel', dict(parallel=True)), ('uniform not smart', dict(smart=False))]
            for nm, kw in modes:
                a = rows.copy()
                v0 = v.copy()
                if kw is None:
                    out = ctx.call(find_closest_brute, a, v)
                elif kw == 'smart':
                    out = ctx.call(find_closest_smart, a, v)
                else:
                    out = ctx.call(find_closest, a, v, logscale=logscale, **kw)
                ctx.ok(out.shape == rows.shape and out.dtype.kind == 'i', 'index array')
                ctx.ok(out.min() >= 0 and out.max() < len(v), f'{nm}: index outside the table {out.min()} {out.max()} of {len(v)}')
                bad = dist[idx_of, out] > best[idx_of] + slack
                ctx.values += bad.size
                ctx.ok(not bad.any(), lambda: f'{nm} logscale={logscale} shape={rows.shape}: {rows[bad][0]} -> {v[out[bad][0]]} in {v}')
                ctx.same(a, rows, 'queries kept')
                ctx.same(v, v0, 'table kept')
                ctx.state(out)
                if 'uniform' in nm:
                    inf = np.array([[np.inf, P[0]], [P[1], np.inf], [np.inf, np.inf]], c['dt'])
                    o = ctx.call(find_closest, inf, v, logscale=logscale, **kw)
                    ctx.ok(np.all(o[np.isinf(inf)] == len(v) - 1), f'{nm}: infinite value -> {o[np.isinf(inf)]}')
                    if not logscale:
                        o = ctx.call(find_closest, -inf, v, **kw)
                        ctx.ok(np.all(o[np.isinf(inf)] == 0), f'{nm}: -infinite value')
    with env(SSQ_PARALLEL='1'):
        ctx.ok(find_closest(pts[:, None], v).shape == (len(pts), 1), 'parallel setting')


# --- indexed sum -------------------------------------------------------------------------------------------------
def h_isum(ctx, c):
    from ssqueezepy.algos import indexed_sum
    M, N = c['shape']
    i, j = np.mgrid[:M, :N]
    A = 2. ** (i + 3 * j) + 1j * (1 + i * 10 + j)
    every = list(itertools.product(range(M), repeat=M * N))
    for n, k in enumerate(every):
        k = np.array(k).reshape(M, N)
        want = np.zeros((M, N), complex)
        for a in range(M):
            for b in range(N):
                want[k[a, b], b] += A[a, b]
        for m, (dt, kd, par, order) in enumerate(itertools.product(DT, ('int64', 'int32'), (False, True, None), 'CF')):
            if len(every) > 100 and (m + n) % 11:       # every combination occurs, spread over the index matrices
                continue
            a = np.array(A if 'complex' in dt else A.real, dtype=dt, order=order)
            kk = np.array(k, dtype=kd, order=order)
            a0, k0 = a.copy(), kk.copy()
            with parallel(bool(n % 2)):
                got = ctx.call(indexed_sum, a, kk, parallel=par)
            ctx.eq(got, want if 'complex' in dt else want.real, f'{dt} {kd} {par} {k.tolist()}', rtol=1e-6, dtype=dt)
            ctx.same(a, a0, 'input kept')
            ctx.same(kk, k0, 'indices kept')
        ctx.state(k)


# --- replacements ------------------------------------------------------------------------------------------------
def h_replace(ctx, c):
    from ssqueezepy import algos
    dt, L = c['dt'], c['L']
    cplx = 'complex' in dt
    th = .25
    A = [0., -0., 1e-310, th, np.nextafter(np.float32(th), np.float32(0)), np.nextafter(np.float32(th), np.float32(1)), -th, -.2, 1., -np.inf, np.inf, np.nan]
    if cplx:
        A += [complex(0, th), complex(th, th / 100), complex(np.nan, 1), complex(1, np.nan), complex(0, np.inf), complex(.15, .2), complex(-.1, -.2)]
    A = np.array(A).astype(dt)
    ab = np.abs(A)
    sel = dict(inf_or_nan=~np.isfinite(A), inf=np.isinf(A), nan=np.isnan(A), value=None, under=None)[c['fn']]
    idx = np.array(list(itertools.product(range(len(A)), repeat=2 if cplx else min(L, 3) if ctx.quick else L)))
    if L == 4 and not cplx:
        idx = idx[:, :4]
    base = A[idx]
    name = 'replace_under_abs' if c['fn'] == 'under' else 'replace_at_' + c['fn']
    fn = getattr(algos, name)
    under = c['fn'] == 'under'
    kws = [{}]
    if c['fn'] == 'value':
        kws = [dict(value=v) for v in (0., th, np.inf, -np.inf, 1.)] + [{}]
    if under:
        kws = [dict(value=v, parallel=p) for v in (0., th, 1., np.inf) for p in (c['par'], None)]
    n = base.size
    shapes = [base.shape] if under else [(n,), base.shape, (base.shape[0], 1, base.shape[1]), (1, n, 1), (n, 1)]
    with parallel(c['par']):
        for kw in kws:
            v = kw.get('value', 0.)
            with np.errstate(all='ignore'):
                m = sel[idx] if sel is not None else ((ab < np.asarray(v, ab.dtype)) if under else (A == v))[idx]
            for rep in (None, 7., np.inf, -1.):
                k2 = dict(kw, **({} if rep is None else dict(replacement=rep)))
                r = 0. if rep is None else rep
                for shape in shapes:
                    for lay in ('C', 'F', 'strided'):
                        for ref in (False, True):
                            x = (base if not ref else np.arange(1., n + 1).astype(dt)).reshape(shape)
                            mm = m.reshape(shape)
                            want = np.where(mm, np.asarray(r, dt), x)
                            mk = {'C': np.array, 'F': np.asfortranarray, 'strided': lambda z: np.repeat(z, 2, 0)[::2]}[lay]
                            a = mk(x.copy())
                            kr = {}
                            if ref:
                                rr = mk(base.reshape(shape).copy())
                                kr['ref'] = rr
                            out = ctx.call(fn, a, **kr, **k2)
                            if not under:
                                ctx.same(out, want, f'{name} returned {k2} {lay} ref={ref}')
                            ctx.same(a, want, f'{name} in place {k2} {lay} ref={ref}')
                            if ref:
                                ctx.same(rr, base.reshape(shape), 'reference kept')
                ctx.state([name, dt, v, r])
    if not under and not c['par']:
        for z in (np.asarray(np.nan if not c['fn'] == 'value' else 0.).astype(dt),):
            out = fn(z.copy())
            ctx.ok(out.shape == (), '0-dimensional')
        for bad in ([1., np.nan], 3., None):
            try:
                fn(bad)
            except (TypeError, AttributeError):
                continue
            ctx.fail(f'{name} accepted {bad!r}')
        try:
            fn(np.ones((1, 1, 1, 1)))
        except ValueError:
            return
        ctx.fail('4-dimensional input accepted')


def h_denormals(ctx, c):
    from ssqueezepy.algos import zero_denormals
    fi = np.finfo(c['dt'])
    t = fi.tiny
    A = np.array([0., fi.smallest_subnormal, t / 2, t, t * 1e6, 1., np.inf, np.nan]).astype(c['dt'])
    A = np.concatenate([A, -A])
    must = np.abs(A) < t              # denormals must be gone
    keep = ~(np.abs(A) < t * 2e3)     # ordinary values must stay
    idx = np.array(list(itertools.product(range(len(A)), repeat=2)))
    for shape in ((-1,), (-1, 1), (-1, 2), (2, -1), (2, 4, -1)):
        for lay in ('C', 'F', 'strided', 'reversed', 'transposed'):
            ix = idx.ravel().reshape(shape)
            mk = {'C': lambda z: z.copy(), 'F': lambda z: np.asfortranarray(z), 'strided': lambda z: np.repeat(z, 2, -1)[..., ::2], 'reversed': lambda z: z[::-1].copy()[::-1],
                  'transposed': lambda z: z.T.copy().T}[lay]
            a = mk(A[ix])
            with parallel(c['par'] is not None):
                ctx.call(zero_denormals, a, **({} if c['par'] is None else dict(parallel=c['par'])))
            ctx.ok(np.all(a[must[ix]] == 0), f'{lay} {shape}: denormals left')
            k = keep[ix]
            ctx.same(a[k], A[ix][k], f'{lay} {shape}: ordinary values')
            rest = ~(must[ix] | k)
            ctx.ok(np.all((a[rest] == 0) | (a[rest] == A[ix][rest])), 'tiny values kept or zeroed')
            ctx.values += a.size
            ctx.state(a)


def h_neglect(ctx, c):
    from ssqueezepy.algos import _min_neglect_idx
    th = 1e-12
    A = [0., th / 2, th, 2 * th, 1.]
    for L in range(1, c['L'] + 1):
        for t in itertools.product(A, repeat=L):
            for thr, kw in ((th, {}), (.5, dict(th=.5)), (1e-13, dict(th=1e-13))):
                want = next((i for i, x in enumerate(t) if x < thr), L - 1)
                got = ctx.call(_min_neglect_idx, np.array(t), **kw)
                ctx.ok(got == want, f'{t} th={thr}: {got} != {want}')
            ctx.values += 3
        ctx.state(L)


# --- searches ----------------------------------------------------------------------------------------------------
def h_maximum(ctx, c):
    from ssqueezepy.algos import find_maximum
    st, step = c['start'], c['step']
    n = 1000 if step < .1 else 100
    inc = int(n * step)
    if inc < 1:
        raise Skip('empty search window')
    for steps in (n, float(n)):
        for p in (st, st + 1.5 * step, st + inc - step, st + inc, st + inc + step, st + 2.5 * inc, st + 7 * inc):
            for w in (.5, 40.):
                for sign in (1, -1):
                    for complexv in (False, True):
                        fn = lambda z: sign * (3 - np.abs(z - p) / w) * (1j if complexv else 1) * (np.abs(z - p) < 3 * w) + 0
                        grid = np.concatenate([np.linspace(st + inc * k, st + inc * (k + 1), n, endpoint=False) for k in range(12)])
                        v = np.abs(fn(grid))
                        if w == .5 and v[:n].max() == 0:
                            continue          # flat start: maximum not approached by non-decreasing values
                        # single maximum reached without a flat or falling window before it
                        win = v.reshape(12, n).max(1)
                        k = int(win.argmax())
                        if np.any(np.diff(win[:k + 1]) <= 0):
                            continue
                        x, m = ctx.call(find_maximum, fn, step_size=step, steps_per_search=steps, step_start=st, step_limit=1e4)
                        ctx.eq(m, v.max(), 'maximum', rtol=1e-12)
                        ctx.eq(x, grid[v.argmax()], f'location of maximum {p}', rtol=1e-12)
                        ctx.state([x, m])
    try:
        ctx.step()
        find_maximum(lambda z: z * 1., step_size=step, steps_per_search=n, step_start=st, step_limit=5 * inc)
    except ValueError:
        return
    ctx.fail('no failure for a function without a maximum')


def h_first(ctx, c):
    from ssqueezepy.algos import find_first_occurrence
    st, step = c['start'], c['step']
    n = 1000 if step < .1 else 100
    inc = int(n * step)
    if inc < 1:
        raise Skip('empty search window')
    for rate in (1., .2, -1., -.2):
        for base in (5., 50.):
            for k in (0, 1, n // 2, n - 1, n, n + 1, 3 * n + 7):
                fn = lambda z: base + rate * (z - st)
                target = st + k * step
                val = fn(target)
                if val < 0 or fn(target + inc) < 0:
                    continue
                x, o = ctx.call(find_first_occurrence, fn, val, step_size=step, steps_per_search=n, step_start=st, step_limit=1e4)
                # grid points of one window are inc/n apart
                ctx.ok(abs(x - target) <= 1.01 * step, f'{x} for {target}')
                ctx.eq(o, fn(x), 'value there', rtol=1e-12)
                ctx.state([x, o])
    try:
        ctx.step()
        find_first_occurrence(lambda z: np.exp(-z), 5., step_size=step, steps_per_search=n, step_start=st, step_limit=5 * inc)
    except ValueError:
        return
    ctx.fail('no failure for an unreachable value')


def h_ncomb(ctx, c):
    from ssqueezepy.algos import nCk
    for n in range(0, 40):
        for k in range(0, n + 1):
            ctx.eq(ctx.call(nCk, n, k), comb(n, k), f'{n} over {k}', rtol=1e-12)
        ctx.state(n)


def h_stats(ctx, c):
    """deviation, threshold, error and location statistics of all arrays over a small alphabet"""
    from ssqueezepy.utils import mad, est_riskshrink_thresh
    from ssqueezepy.toolkit import mad_rms, where_amax
    shape, cx = tuple(c['shape']), c['dt'][0] == 'c'
    n = int(np.prod(shape))
    A = [0., 1., -2., 5.] if n <= 4 else [0., 1., -2.]
    if cx:
        A = [A[0], A[1] * 1j, A[2]] + ([3 + 4j] if n <= 4 else [])
    rt = 1e-5 if c['dt'] in ('float32', 'complex64') else 1e-12
    for vals in itertools.product(A, repeat=n) if n <= 6 else itertools.product(A[:2], repeat=n):
        x = np.array(vals, dtype=c['dt']).reshape(shape)
        for axis in (None,) + tuple(range(-len(shape), len(shape))):
            got = ctx.call(mad, x, *(() if axis is None else (axis,)))
            if axis is None:
                m = sum(vals) / n
                want = sum(abs(v - m) for v in vals) / n
            else:
                def dev(col):
                    m = sum(col) / len(col)
                    return sum(abs(v - m) for v in col) / len(col)
                want = np.apply_along_axis(dev, axis, x.astype('complex128')).real
            ctx.eq(got, want, f'mean absolute deviation along {axis}', rtol=rt, scale=1.)
        top = max(abs(v) for v in vals)
        got = ctx.call(where_amax, x)
        want = [i for i in itertools.product(*map(range, shape)) if abs(x[i]) == np.abs(x).max()]
        ctx.ok(list(zip(*[g.tolist() for g in got])) == want, f'locations of maximum {got}')
        ctx.ok(abs(abs(x[want[0]]) - top) <= 1e-6 * max(top, 1), 'maximum')
        if len(shape) == 2:
            for nv in (1, 2, 5):
                rows = np.abs(x[:nv]).astype('float64')
                want = 1.4826 * np.sqrt(2 * np.log(shape[1])) * np.abs(rows - rows.mean()).mean()
                ctx.eq(ctx.call(est_riskshrink_thresh, x, nv), want, 'threshold', rtol=rt, scale=1.)
        if not cx and any(vals):
            y = x[::-1] + 1
            want = np.abs(x - y).mean(dtype='float64') / np.sqrt((x.astype('float64') ** 2).mean())
            ctx.eq(ctx.call(mad_rms, x, y), want, 'reconstruction error', rtol=rt)
    ctx.state(c)


def h_windows(ctx, c):
    """widths and areas of windows: integrals over the sample times -n/2, -n/2 + 1, ... and over the ascending DFT frequencies"""
    from ssqueezepy.utils.stft_utils import window_resolution, window_area
    import scipy.signal as sig
    n = c['n']
    t = np.arange(n) - n / 2
    w = np.sort(np.where(np.arange(n) < (n + 1) // 2, np.arange(n), np.arange(n) - n)) * 2 * np.pi / n
    F = np.exp(-1j * np.outer(w, np.arange(n)))
    trap = lambda y, x: sum((y[k] + y[k + 1]) / 2 * (x[k + 1] - x[k]) for k in range(n - 1))
    if c.get('named'):
        wins = [np.maximum(sig.get_window(k, n), 0) for k in ('hann', 'hamming', 'boxcar', 'blackman')] + [np.exp(-.5 * ((np.arange(n) - n // 2) / s) ** 2) for s in (.3, .6, 1., 2.)]
        wins += [np.eye(n)[k] for k in (0, 1, n // 2, n - 1)] + [(-1.) ** np.arange(n) * .4 + .6]
    else:
        wins = [np.array(v) for v in itertools.product((0., .5, 1.), repeat=n)]
    for v in wins:
        a, A = v ** 2, np.abs(F @ v) ** 2
        at, aw = trap(a, t), trap(A, w)
        if at < 1e-9 or aw < 1e-9:
            continue
        st, sw = np.sqrt(trap(a * t * t, t) / at), np.sqrt(max(trap(A * w * w, w), 0) / aw)
        got = ctx.call(window_resolution, v)
        ctx.eq(np.array(got), np.array([sw, st, sw * st]), f'window_resolution({v})', rtol=1e-7, atol=1e-9)
        ctx.eq(np.array(ctx.call(window_area, v)), np.array(at), f'window_area({v})', rtol=1e-9)
        ctx.eq(np.array(ctx.call(window_area, v, time=False, frequency=True)), np.array(aw), f'window_area({v}), frequency', rtol=1e-9)
        ctx.eq(np.array(ctx.call(window_area, v, time=True, frequency=True)), np.array([at, aw]), f'window_area({v}), both', rtol=1e-9)
        ctx.state(v)


def h_waves(ctx, c):
    from ssqueezepy.toolkit import cos_f, sin_f
    for freqs in itertools.chain(*[itertools.product((0, 1, 4, 2.5), repeat=k) for k in (1, 2, 3)]):
        for N in (1, 2, 7, 16):
            for phi in (0, .25, -1.):
                for end in (False, True):
                    t = np.array([k + j / ((N - 1 or 1) if end else N) for k in range(len(freqs)) for j in range(N)])
                    f = np.repeat(np.array(freqs, float), N)
                    for fn, g in ((cos_f, np.cos), (sin_f, np.sin)):
                        got = ctx.call(fn, list(freqs), N=N, phi=phi, endpoint=end)
                        ctx.eq(got, g(2 * np.pi * f * (t + phi)), f'{fn.__name__} {freqs}', rtol=0, atol=1e-9)
    ctx.state(c)
