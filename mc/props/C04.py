"""C04: squeezing moves every coefficient to the nearest bin exactly once."""
import itertools
import numpy as np
from ..core import Skip
from ..util import parallel, signals, isolate_wisdom

TECH = "bounded exhaustive enumeration of coefficient/frequency columns over a tie- and boundary-rich alphabet vs a brute-force nearest-bin model"
RULE = ("columns: every pair of rows x every pair of symbols (exact bin, just below/above every midpoint, below/above range, zero, infinite; magnitude "
        "below/at/above threshold), plus the full symbol product for 4 rows; each column is one state of the squeeze; every layout, path, flip, thread "
        "setting, precision, squeezing mode; end-to-end runs replayed through the model")
BOUNDS = dict(quick="pair products on 4-6 rows, full frequency product on 4 rows; end-to-end N in {24,33}",
              thorough="full (frequency x magnitude) product on 3 rows and frequency product on 4-5 rows; end-to-end N in {16,24,33,64}")
ASSUMES = ["values within 1e-6 (single: 1e-3) bin widths of a midpoint may go to either neighbour", "bins ascending; scales' density an integer number per octave in log layouts"]


def layouts():
    f = .02
    out = {}
    for M in (4, 5):
        out[f'log{M}'] = f * 2. ** (np.arange(M) / 2)
        out[f'lin{M}'] = .05 + .1 * np.arange(M)
    out['log_frac'] = .013 * 2. ** (np.arange(6) * .37)
    for t in (2, 3, 4):
        e = np.hstack([np.arange(t) * 2., (t - 1) * 2 + np.arange(1, 8 - t)]) / 2   # wide pieces first (low frequencies are downsampled)
        out[f'pw{t}'] = f * 2. ** e
    out['pw_rev'] = f * 2. ** (np.array([0, 1, 2, 4, 6, 8]) / 4)
    out['lin0'] = np.linspace(0, .5, 6)
    return out


def scales_for(na, kind):
    if kind == 'log':
        return 2. ** (np.arange(na) / 4 + 1)
    if kind == 'linear':
        return np.linspace(2., 2. + .5 * (na - 1), na)
    if kind == 'log-piecewise':
        k = na // 2
        return 2. ** np.hstack([1 + np.arange(k) / 4, 1 + (k - 1) / 4 + np.arange(1, na - k + 1) / 2])
    raise KeyError(kind)


def const_model(sc, kind):
    if kind == 'linear':
        return (sc[1] - sc[0]) / sc
    d = np.log(sc[1:] / sc[:-1])
    return np.hstack([d[:1], d])         # ln(2)/nv, nv = density on the scale's own piece


def nearest(w, v, log):
    """brute force nearest bin and relative distance to a tie"""
    with np.errstate(all='ignore'):
        q, b = (np.log2(w), np.log2(v)) if log else (w, v)
        q = np.clip(q, b[0], b[-1])
        d = np.abs(q[..., None] - b)
    k = d.argmin(-1)
    s = np.sort(d, -1)
    amb = np.abs(s[..., 1] - s[..., 0]) / np.diff(b).max()
    return k, amb


def symbols(v, log, single):
    e = 2e-3 if single else 1e-5
    b = np.log2(v) if log else v
    S = list(b)
    for i in range(len(b) - 1):
        m, h = (b[i] + b[i + 1]) / 2, (b[i + 1] - b[i]) * e
        S += [m - h, m + h]
    d0, d1 = b[1] - b[0], b[-1] - b[-2]
    S += [b[0] - .4 * d0, b[0] - 3.6 * d0, b[-1] + .4 * d1, b[-1] + 3.6 * d1]
    S = np.array(S)
    S = 2. ** S if log else np.abs(S)
    return np.hstack([S, 0., np.inf])


def gen(tier):
    q = tier == 'quick'
    for lay in layouts():
        kinds = ('stft',) if lay == 'lin0' else ('log', 'linear', 'log-piecewise')
        for kind in kinds:
            for path in ('w', 'fast'):
                for flip in (False, True):
                    for par in (False, True):
                        for cd in ('complex128', 'complex64'):
                            yield dict(h='pairs', lay=lay, kind=kind, path=path, flip=flip, par=par, cd=cd)
    for lay in ('log4', 'lin4') + (() if q else ('log5', 'lin5', 'pw3')):
        for path in ('w', 'fast'):
            for flip in (False, True):
                for part in range(2 if q else 16):
                    yield dict(h='product', lay=lay, path=path, flip=flip, part=part, of=2 if q else 16)
    if not q:
        for lay in layouts():
            for path in ('w', 'fast'):
                yield dict(h='triples', lay=lay, path=path)
    for lay in layouts():
        for na in (4, 5, 6, 9):
            for path in ('w', 'fast'):
                for flip in (False, True):
                    for sq in ('sum', 'abs', 'lebesgue', 'conj'):
                        for batch in (False, True):
                            yield dict(h='modes', lay=lay, na=na, path=path, flip=flip, sq=sq, batch=batch)
    for lay in layouts():
        for path in ('w', 'fast'):
            yield dict(h='tie', lay=lay, path=path)
        for kind in ('stft',) if lay == 'lin0' else ('log', 'linear', 'log-piecewise'):
            for path in ('w', 'fast'):
                for flip in (False, True):
                    for par in (False, True):
                        for cd in ('complex128', 'complex64'):
                            yield dict(h='undef', lay=lay, kind=kind, path=path, flip=flip, par=par, cd=cd)
    for lay in layouts():
        for na in (1, 2, 3, 7):
            for path in ('w', 'fast') + (('fast_stft',) if lay[:3] == 'lin' else ()):
                for con in ('one', 'int', 'float', '1d', '2d', 'float32'):
                    for par in (False, True):
                        yield dict(h='direct', lay=lay, na=na, path=path, con=con, par=par)
    for N in ((24, 33) if q else (16, 24, 33, 64)):
        for spec in ('gmw', 'morlet'):
            for sc in ('log', 'lin', 'pw'):
                for sf in (None, 'log', 'linear', 'explicit', 'explicit_short', 'tuple', 'maximal'):
                    for flip in (False, True):
                        for pad in ('reflect', None):
                            for dt in ('float64',) if q else ('float64', 'float32'):
                                yield dict(h='ssq_cwt', N=N, spec=spec, sc=sc, sf=sf, flip=flip, pad=pad, dt=dt)
        for n_fft in (9, 12, None):
            for hop in (1, 2):
                for mod in (True, False):
                    for flip in (False, True):
                        for fs in (1., 50.):
                            for sf in (None, 'explicit', 'explicit_short'):
                                yield dict(h='ssq_stft', N=N, n_fft=n_fft, hop=hop, mod=mod, flip=flip, fs=fs, sf=sf)


def setup(ctx):
    isolate_wisdom()


G = 0.5      # threshold


def args_for(w, mag, path, cd, sfs=None):
    """W, (w | dW) for a matrix of frequencies and magnitudes"""
    M, n = w.shape
    i, j = np.mgrid[:M, :n]
    ph = np.exp(1j * (.7 * i + 1.3 * (j % 7)))
    W = mag * np.where(mag == G, 1., ph)                     # exactly the threshold: keep |W| exact
    W = W.astype(cd)
    if path == 'w':
        ww = np.where(np.abs(mag) > G, w, np.inf)
        return W, dict(w=ww.astype('float64' if cd == 'complex128' else 'float32'), dWx=None)
    wf = np.where(np.isinf(w), 0., w)
    sign = np.where((i + j) % 2, 1., -1.)
    D = 2j * np.pi * (wf * sign if sfs is None else sfs[:, None] + wf * sign) * W
    return W, dict(w=None, dWx=D.astype(cd))


def model(W, w, mag, v, log, const, flip, nrows, single, path):
    k, amb = nearest(np.where(np.isinf(w), v[0], w), v, log)
    act = (np.abs(mag) > G)
    if path == 'w':
        act &= ~np.isinf(w)
    T = np.zeros((nrows, W.shape[1]), dtype=W.dtype if W.dtype.kind == 'f' or W.dtype.itemsize == 16 else 'complex128')
    for i in range(len(W)):
        kk = nrows - 1 - k[i] if flip else k[i]
        np.add.at(T, (kk[act[i]], np.flatnonzero(act[i])), (W[i] * const[i])[act[i]])
    bad = ((amb < (1e-3 if single else 1e-6)) & act).any(0)
    return T, bad


def run(ctx, W, w, mag, v, log, kind, path, flip, par, cd, squeezing='sum', batch=False, na=None):
    from ssqueezepy.ssqueezing import ssqueeze
    single = cd == 'complex64'
    sfs = np.linspace(0, .5, len(W)) if kind == 'stft' else None
    Wc, kw = args_for(w, mag, path, cd, sfs)
    if path == 'fast':
        w = np.where(np.isinf(w), 0., w)
    if kind == 'stft':
        const = np.full(len(W), v[1] - v[0])
        kw.update(transform='stft', Sfs=sfs.astype('float32' if single else 'float64'))
    else:
        sc = scales_for(len(W), kind)
        const = const_model(sc, kind)
        kw.update(scales=sc, transform='cwt')
    fn = dict(sum='sum', abs='abs', lebesgue='lebesgue', conj=_conj)[squeezing]
    Wm = dict(sum=lambda z: z, abs=np.abs, lebesgue=lambda z: np.ones_like(z) / len(z), conj=np.conj)[squeezing](Wc)
    want, bad = model(Wm, w, mag, v, log, const, flip, len(v), single, path)
    a = Wc.copy()
    if batch:
        a = np.stack([a, a[:, ::-1]])
        kw = {k: (np.stack([q, q[:, ::-1]]) if k in ('w', 'dWx') and q is not None else q) for k, q in kw.items()}
    with parallel(par):
        T, f = ctx.call(ssqueeze, a, ssq_freqs=v.copy(), gamma=G, flipud=flip, squeezing=fn, **kw)
    ctx.eq(f, v[::-1] if flip else v, 'frequencies of rows', rtol=0)
    if batch:
        ctx.eq(T[1], T[0][:, ::-1], 'batched input is independent', rtol=1e-6 if single else 1e-12)
        T = T[0]
    ok = ~bad
    ctx.count('columns', int(ok.sum()))
    ctx.eq(T[:, ok], want[:, ok], f'squeezed coefficients ({kind}, {path})', rtol=2e-5 if single else 1e-9, scale=1.)
    mass = (Wm * const[:, None] * ((np.abs(mag) > G) & ~np.isinf(w))).sum(0)
    ctx.eq(T.sum(0), mass, 'mass of every column', rtol=2e-5 if single else 1e-9, scale=1.)


def _conj(W):
    return W.conj()


def columns_pairs(S, M, mags):
    base_w, base_m = S[1], 1.
    sym = list(itertools.product(range(len(S)), range(len(mags))))
    si = np.array(sym)
    cols_w, cols_m = [], []
    for a, b in itertools.combinations(range(M), 2):
        n = len(sym)
        A, B = np.repeat(np.arange(n), n), np.tile(np.arange(n), n)
        w = np.full((M, n * n), base_w)
        m = np.full((M, n * n), base_m)
        w[a], m[a] = S[si[A, 0]], mags[si[A, 1]]
        w[b], m[b] = S[si[B, 0]], mags[si[B, 1]]
        cols_w.append(w)
        cols_m.append(m)
    return np.hstack(cols_w), np.hstack(cols_m)


MAGS = np.array([1., G, .4])


def h_pairs(ctx, c):
    v = layouts()[c['lay']]
    log = c['lay'][:3] != 'lin'
    S = symbols(v, log, c['cd'] == 'complex64')
    w, m = columns_pairs(S, len(v), MAGS if not ctx.quick or c['cd'] == 'complex128' else MAGS[:1])
    run(ctx, m, w, m, v, log, c['kind'], c['path'], c['flip'], c['par'], c['cd'])
    ctx.state(c)


def h_undef(ctx, c):
    """coefficients without a frequency (zero, overflown or missing values) stay behind, and leave the others alone"""
    from ssqueezepy.ssqueezing import ssqueeze
    v = layouts()[c['lay']]
    M, single = len(v), c['cd'] == 'complex64'
    nan, inf = np.nan, np.inf
    if c['path'] == 'w':
        spec = [(1., nan), (1j, nan), (1., inf), (nan, inf), (inf, inf), (nan + 1j * nan, nan)]
    else:
        spec = [(a, b) for a in (1., 1j) for b in (nan, inf, complex(nan, nan), complex(0, inf), complex(1, nan))]
        spec = [(a, b) for a, b in spec if not np.isfinite((np.complex128(b) / a).imag)]
        spec += [(nan, 1.), (complex(nan, nan), 1.), (nan, nan), (1e-310, 1e300j)]
    cols = list(itertools.product(range(M), range(len(spec)))) + [(a, b) for a in range(M) for b in range(len(spec))]
    n = len(cols)
    w = np.tile(v[::-1][:, None], (1, n))
    Wc, kw = args_for(w, np.ones_like(w), c['path'], c['cd'], np.linspace(0, .5, M) if c['kind'] == 'stft' else None)
    key = 'w' if c['path'] == 'w' else 'dWx'
    Z, kz = Wc.copy(), {k: None if q is None else q.copy() for k, q in kw.items()}
    with np.errstate(all='ignore'):
        for j, (r, s) in enumerate(cols):
            rows = [r] if j < n // 2 else [r, (r + 1) % M]
            for rr in rows:
                Wc[rr, j], kw[key][rr, j] = spec[s]
                Z[rr, j] = 0
                if c['path'] == 'w':
                    kz[key][rr, j] = inf
    extra = dict(transform='stft', Sfs=np.linspace(0, .5, M).astype('float32' if single else 'float64')) if c['kind'] == 'stft' else \
        dict(transform='cwt', scales=scales_for(M, c['kind']))
    with parallel(c['par']):
        got = ctx.call(ssqueeze, Wc, ssq_freqs=v.copy(), gamma=0., flipud=c['flip'], **kw, **extra)[0]
        want = ctx.call(ssqueeze, Z, ssq_freqs=v.copy(), gamma=0., flipud=c['flip'], **kz, **extra)[0]
    ctx.eq(got, want, 'coefficients without a frequency', rtol=0)
    ctx.state(got)
    if c['path'] == 'fast':      # magnitudes whose square is not representable have a frequency all the same
        Wb, kb = args_for(np.tile(v[:, None], (1, 2)), np.ones((M, 2)), 'fast', c['cd'], np.linspace(0, .5, M) if c['kind'] == 'stft' else None)
        kb['dWx'][1] = [1e30j, -1e30j]           # far beyond the range: the last bin
        with parallel(c['par']):
            got = ctx.call(ssqueeze, Wb, ssq_freqs=v.copy(), gamma=0., flipud=c['flip'], **kb, **extra)[0]
            kb['dWx'][1] = 2j * np.pi * Wb[1] * (v[-1] * 1.5 + (extra['Sfs'][1] if c['kind'] == 'stft' else 0))
            want = ctx.call(ssqueeze, Wb, ssq_freqs=v.copy(), gamma=0., flipud=c['flip'], **kb, **extra)[0]
        ctx.eq(got, want, 'coefficients far beyond the range', rtol=1e-6)
        tiny = 2. ** -90 if single else 2. ** -600
        for f in (tiny, 1 / tiny):
            w = v[(np.arange(M)[:, None] + np.arange(M)) % M]
            W1, k1 = args_for(w, np.ones_like(w), 'fast', c['cd'], np.linspace(0, .5, M) if c['kind'] == 'stft' else None)
            with parallel(c['par']):
                a = ctx.call(ssqueeze, W1, ssq_freqs=v.copy(), gamma=0., flipud=c['flip'], **k1, **extra)[0]
                b = ctx.call(ssqueeze, W1 * W1.dtype.type(f), ssq_freqs=v.copy(), gamma=0., flipud=c['flip'], w=None, dWx=k1['dWx'] * W1.dtype.type(f), **extra)[0]
            ctx.eq(b / f, a, f'squeezing of coefficients scaled by {f}', rtol=1e-5 if single else 1e-12)


def h_product(ctx, c):
    v = layouts()[c['lay']]
    log = c['lay'][:3] != 'lin'
    S = symbols(v, log, False)
    M = min(4 if ctx.quick else len(v), 4)
    n = len(S) ** M
    idx = np.arange(c['part'], n, c['of'])
    w = np.stack([S[(idx // len(S) ** r) % len(S)] for r in range(M)])
    if M < len(v):
        w = np.vstack([w, np.full((len(v) - M, len(idx)), S[0])])
    m = np.ones_like(w)
    run(ctx, m, w, m, v, log, 'log', c['path'], c['flip'], False, 'complex128')
    ctx.state(c)


def h_triples(ctx, c):
    v = layouts()[c['lay']]
    log = c['lay'][:3] != 'lin'
    S = symbols(v, log, False)
    n0 = len(S) * 3
    for first in range(n0):
        idx = np.arange(n0 ** 2)
        ks = [np.full(len(idx), first), idx // n0, idx % n0]
        w = np.full((len(v), len(idx)), S[1])
        m = np.ones_like(w)
        for r, k in zip((0, len(v) // 2, len(v) - 1), ks):
            w[r], m[r] = S[k // 3], MAGS[k % 3]
        run(ctx, m, w, m, v, log, 'stft' if c['lay'] == 'lin0' else 'log', c['path'], False, False, 'complex128')
    ctx.state(c)


def h_modes(ctx, c):
    v = layouts()[c['lay']]
    log = c['lay'][:3] != 'lin'
    S = symbols(v, log, False)
    na = c['na']
    n = len(S)
    w = np.stack([S[(np.arange(n * n) // (n if r % 2 else 1) + 3 * r) % n] for r in range(na)])
    m = np.stack([MAGS[(np.arange(n * n) + r) % 3] for r in range(na)])
    run(ctx, m, w, m, v, log, 'stft' if c['lay'] == 'lin0' else ('linear' if c['lay'][:3] == 'lin' else 'log'), c['path'], c['flip'], False,
        'complex128', c['sq'], c['batch'])
    ctx.state(c)


def h_direct(ctx, c):
    """the kernels' own interface: any number of rows, every form of the constant, every output array"""
    from ssqueezepy.algos import ssqueeze_fast, indexed_sum_onfly
    from ssqueezepy.ssqueezing import ssqueeze
    v, na, path = layouts()[c['lay']], c['na'], c['path']
    log = c['lay'][:3] != 'lin'
    S = symbols(v, log, False)
    n = len(S)
    w = np.stack([S[(np.arange(n * n) // (n if r % 2 else 1) + 3 * r) % n] for r in range(na)])
    m = np.stack([MAGS[(np.arange(n * n) // (1 if r % 2 else n) + r) % 3] for r in range(na)])
    con = dict(one=1, int=3, float=.7, float32=np.float32(.75)).get(c['con'])
    if con is None:
        con = 1. / (1 + np.arange(na))
        con = con[:, None] if c['con'] == '2d' else con
    cm = np.broadcast_to(np.ravel(con), (na,))
    sfs = np.linspace(0, .5, na) if path == 'fast_stft' else None
    W, kw = args_for(w, m, 'w' if path == 'w' else 'fast', 'complex128', sfs)
    if path != 'w':
        w = np.where(np.isinf(w), 0., w)
    for flip in (False, True):
        for real in (False,) if path != 'w' else (False, True):
            Wr = W.real.copy() if real else W
            for form in ('default', 'zeros', 'filled'):
                if form == 'default' and na != len(v):
                    continue                               # the default output has as many rows as the input
                out = None if form == 'default' else np.full((len(v), n * n), 0. if form == 'zeros' else 1.5, dtype=Wr.dtype)
                a, d = Wr.copy(), {k: (None if q is None else q.copy()) for k, q in kw.items()}
                k2 = dict(logscale=log, flipud=flip, parallel=c['par'], **({} if out is None else dict(out=out)))
                if path == 'w':
                    k2.update({} if c['con'] == 'one' else dict(const=con))
                    T = ctx.call(indexed_sum_onfly, a, d['w'], v.copy(), **k2)
                else:
                    T = ctx.call(ssqueeze_fast, a, d['dWx'], v.copy(), con, gamma=G, Sfs=sfs, **k2)
                want, bad = model(Wr, w, m, v, log, cm, flip, len(v), False, 'w' if path == 'w' else 'fast')
                ctx.eq(T[:, ~bad], (want + (1.5 if form == 'filled' else 0.))[:, ~bad], f'sums ({form})', rtol=1e-9, scale=1.)
                ctx.same(a, Wr, 'input transform')
                if out is not None:
                    ctx.same(T, out, 'given output')
                ctx.state(T)
    if na == 1 and c['con'] == 'one' and c['lay'][:3] == 'lin':
        T = ctx.call(ssqueeze, W, ssq_freqs=v.copy(), gamma=G, transform='stft', Sfs=sfs, **kw)[0] if path != 'fast' else None
        if T is not None:
            want, bad = model(W, w, m, v, log, np.full(1, v[1] - v[0]), False, len(v), False, 'w' if path == 'w' else 'fast')
            ctx.eq(T[:, ~bad], want[:, ~bad], 'squeezed transform of one row', rtol=1e-9, scale=1.)


def h_tie(ctx, c):
    """a value exactly half-way goes to exactly one of its two neighbours"""
    from ssqueezepy.ssqueezing import ssqueeze
    v = layouts()[c['lay']]
    log = c['lay'][:3] != 'lin'
    b = np.log2(v) if log else v
    M = len(v)
    mids = (b[1:] + b[:-1]) / 2
    mids = 2. ** mids if log else mids
    for r in range(M):
        w = np.full((M, len(mids)), np.inf)
        w[r] = mids
        mag = np.where(np.isinf(w), .1, 1.)
        kind = 'stft' if c['lay'] == 'lin0' else 'log'
        sfs = np.linspace(0, .5, M) if kind == 'stft' else None
        W, kw = args_for(w, mag, c['path'], 'complex128', sfs)
        kw.update(dict(transform='stft', Sfs=sfs) if kind == 'stft' else dict(scales=scales_for(M, 'log')))
        const = v[1] - v[0] if kind == 'stft' else np.log(2) / 4
        T, _ = ctx.call(ssqueeze, W, ssq_freqs=v.copy(), gamma=G, **kw)
        for j in range(len(mids)):
            nz = np.flatnonzero(T[:, j])
            ctx.ok(len(nz) == 1 and nz[0] in (j, j + 1), lambda: f'half-way between bins {j} and {j + 1} went to {nz.tolist()}')
            ctx.eq(T[nz[0], j], W[r, j] * const, 'moved value')


# --- end to end ---------------------------------------------------------------------------------------------------
SSC = {'log': 2. ** (np.arange(3, 12) / 3), 'lin': np.linspace(1.5, 10., 8), 'pw': 2. ** (np.hstack([np.arange(2, 10), np.arange(11, 18, 2)]) / 4)}


def replay(ctx, T, W, w, f, const, log, flip, single, what):
    v = f[::-1] if flip else f
    act = np.isfinite(w)
    k, amb = nearest(np.where(act, w, v[0]), v, log)
    want = np.zeros(T.shape, dtype='complex128')
    for i in range(len(W)):
        kk = len(v) - 1 - k[i] if flip else k[i]
        np.add.at(want, (kk[act[i]], np.flatnonzero(act[i])), (W[i] * const[i])[act[i]])
    ok = ~((amb < (2e-3 if single else 1e-6)) & act).any(0)
    ctx.count('columns', int(ok.sum()))
    tol = 5e-5 if single else 1e-9
    ctx.eq(T[:, ok], want[:, ok], what, rtol=tol, scale=np.abs(W).max() * np.abs(const).max())
    ctx.eq(T.sum(0), (np.where(act, W, 0) * np.asarray(const)[:, None]).sum(0), what + ': mass', rtol=tol,
           scale=np.abs(W).max() * np.abs(const).max())


def h_ssq_cwt(ctx, c):
    from ssqueezepy import ssq_cwt
    sc = SSC[c['sc']]
    dt = c['dt']
    single = dt == 'float32'
    kw = {}
    if c['sf'] in ('log', 'linear'):
        kw.update(ssq_freqs=c['sf'], maprange='maximal')
    elif c['sf'] == 'explicit':
        kw.update(ssq_freqs=np.linspace(.02, .45, len(sc)))
    elif c['sf'] == 'explicit_short':
        kw.update(ssq_freqs=.03 * 2. ** (np.arange(6) / 2))
    elif c['sf'] == 'tuple':
        kw.update(maprange=(.03, .4), ssq_freqs='log')
    elif c['sf'] == 'maximal':
        if c['sc'] == 'pw':
            raise Skip
        kw.update(maprange='maximal')
    kind = dict(log='log', lin='linear', pw='log-piecewise')[c['sc']]
    const = const_model(sc, kind)
    for nm, x in signals(c['N']).items():
        base = dict(wavelet=(c['spec'], dict(dtype=dt)), scales=sc, padtype=c['pad'], flipud=c['flip'], gamma=1e-3, **kw)
        Tw, Ww, f, _, w, dW = ctx.call(ssq_cwt, x, get_w=True, get_dWx=True, **base)
        W, dW = Ww.astype('complex128'), dW.astype('complex128')
        act = np.abs(W) > 1e-3
        edge = np.abs(np.abs(W) - 1e-3) < 1e-3 * (1e-4 if single else 1e-9)
        with np.errstate(all='ignore'):
            ref = np.where(act, np.abs((dW / W).imag) / (2 * np.pi), np.inf)
        ok = ~edge
        ctx.ok(np.array_equal(np.isfinite(w)[ok], np.isfinite(ref)[ok]), 'instantaneous frequency is infinite exactly where |W|<=gamma')
        both = np.isfinite(w) & np.isfinite(ref)
        ctx.eq(w[both], ref[both], 'instantaneous frequency', rtol=1e-3 if single else 1e-8)
        sf = kw.get('ssq_freqs')
        log = (sf == 'log' if isinstance(sf, str) else kind != 'linear' if sf is None else c['sf'] == 'explicit_short')
        replay(ctx, Tw, W, w, f, const, log, c['flip'], single, f"ssq_cwt {c['sc']}/{c['sf']} get_w, {nm}")
        T, W2, f2, _ = ctx.call(ssq_cwt, x, **base)
        ctx.eq(f2, f, 'frequencies', rtol=0)
        replay(ctx, T, W, np.where(ok, ref, np.inf) if not edge.any() else w, f, const, log, c['flip'], single, f"ssq_cwt {c['sc']}/{c['sf']}, {nm}")
        ctx.state([T])


def h_ssq_stft(ctx, c):
    from ssqueezepy import ssq_stft
    kw = {}
    n = c['n_fft'] or c['N'] // c['hop']
    rows = n // 2 + 1
    if c['sf'] == 'explicit':
        kw = dict(ssq_freqs=np.linspace(.05, .4, rows) * c['fs'])
    elif c['sf'] == 'explicit_short':
        kw = dict(ssq_freqs=np.linspace(0., .5, rows - 2) * c['fs'])
    for nm, x in signals(c['N']).items():
        base = dict(n_fft=c['n_fft'], hop_len=c['hop'], modulated=c['mod'], flipud=c['flip'], fs=c['fs'], gamma=1e-3, dtype='float64',
                    window='hann', **kw)
        Tw, S, f, Sfs, w, dS = ctx.call(ssq_stft, x, get_w=True, get_dWx=True, **base)
        act = np.abs(S) > 1e-3
        with np.errstate(all='ignore'):
            ref = np.where(act, np.abs(Sfs[:, None] - (dS / S).imag / (2 * np.pi)), np.inf)
        ctx.eq(np.where(np.abs(np.abs(S) - 1e-3) < 1e-10, ref, w), ref, 'instantaneous frequency', rtol=1e-8)
        v = np.sort(f)
        const = np.full(len(S), (v[1] - v[0]) / c['fs'])
        replay(ctx, Tw, S, w, f, const, False, c['flip'], False, f'ssq_stft get_w, {nm}')
        T, *_ = ctx.call(ssq_stft, x, **base)
        replay(ctx, T, S, w, f, const, False, c['flip'], False, f'ssq_stft, {nm}')
        ctx.state([T])
