"""C11: a wavelet object never serves stale or foreign data, after any history of uses."""
import itertools
import numpy as np
from ..core import Skip
from ..util import env

TECH = "explicit-state exploration of the real object: every sequence of operations up to the depth bound on one wavelet object (a second, different object interleaved), each outcome compared with that of a fresh object, each earlier outcome re-read"
RULE = ("all sequences over an alphabet of operations that differ from one another in exactly one attribute (length, scales, Nyquist handling, caching, kind); "
        "states = distinct (length, content and key of the cache, statistics computed so far)")
BOUNDS = dict(quick="all sequences of depth 3 over 34 operations (6 wavelet configurations; 2 of them depth 3, rest depth 2)", thorough="depth 4 for two configurations, depth 3 for ten")
ASSUMES = ["statistics are kept until reset_properties() as documented, so they are compared with those of a fresh object of the length they were computed at",
           "the caller does not write into arrays the object returned"]
CASE_LIMIT_S = 800

N0, N1 = 64, 65
SA = np.array([2., 3.25, 5.])
SB = SA * (1 + 3e-6)          # close to SA: must not be taken for it
SC = np.array([2., 4.5, 5.])
STATS = ('wc_ct', 'scalec_ct', 'wc', 'std_t', 'std_w', 'std_t_d', 'std_w_d')
DERIVED = dict(std_f=('std_w',), std_f_d=('std_w_d',), harea=('std_t', 'std_w'))

CONFIGS = dict(
    gmw=('gmw', {}), gmw32=('gmw', dict(dtype='float32')), gmw_e=('gmw', dict(norm='energy')), gmw1=('gmw', dict(order=1)), morlet=('morlet', {}),
    morlet_mu=('morlet', dict(mu=7.)), bump=('bump', {}), cmhat=('cmhat', {}), hhhat=('hhhat', {}), custom=None, bump_c=('bump', dict(om=.5)))


def custom_fn(w):
    return np.exp(-(np.asarray(w) - 5.) ** 2)


def build(name, N=N0):
    from ssqueezepy import Wavelet
    c = CONFIGS[name]
    return Wavelet(custom_fn if c is None else (c[0], dict(c[1])), N=N)


X = {n: np.cos(np.arange(n) * .7) + .3 * np.sin(np.arange(n) ** 2 * .02) for n in (24, 48)}


def l1(name):
    return name != 'gmw_e'


# Each operation: (name, function(model, object) -> outcome arrays). `model` is the history's abstract state.
def alphabet(name):
    from ssqueezepy import cwt, ssq_cwt
    from ssqueezepy.wavelets import center_frequency
    A = []

    def op(nm, f, effect=None, sig=None):
        A.append((nm, f, effect, sig))

    def setN(n):
        def f(w):
            w.N = n
            return (np.asarray(w.xi), w.N)
        return f
    op('N=%d' % N1, setN(N1), lambda m: m.__setitem__('N', N1))
    op('N=%d' % N0, setN(N0), lambda m: m.__setitem__('N', N0))
    op('N=12', setN(12), lambda m: m.__setitem__('N', 12))
    op('call A', lambda w: w(scale=SA))
    op('call A halved', lambda w: w(scale=SA, nohalf=False))
    op('call A N=10', lambda w: w(scale=SA, N=10))
    op('call w', lambda w: w(np.linspace(-1, 9, 12)))
    op('Psih A', lambda w: w.Psih(SA), lambda m: m.__setitem__('psih', ('A', m['N'], True)))
    op('Psih B', lambda w: w.Psih(SB), lambda m: m.__setitem__('psih', ('B', m['N'], True)))
    op('Psih C', lambda w: w.Psih(SC), lambda m: m.__setitem__('psih', ('C', m['N'], True)))
    op('Psih A col', lambda w: w.Psih(SA.reshape(-1, 1)), lambda m: m.__setitem__('psih', ('A', m['N'], True)))
    op('Psih A halved', lambda w: w.Psih(SA, nohalf=False), lambda m: m.__setitem__('psih', ('A', m['N'], False)))
    op('Psih A N=10', lambda w: w.Psih(SA, N=10), lambda m: m.__setitem__('psih', ('A', 10, True)))
    op('Psih 3', lambda w: w.Psih(np.array([3.])), lambda m: m.__setitem__('psih', ('3', m['N'], True)))
    op('Psih N=12', lambda w: w.Psih(scale=SC, N=12, nohalf=False), lambda m: m.__setitem__('psih', ('C', 12, False)))

    def mutating(w):
        s = SA.copy()
        p = w.Psih(s)
        s *= 1.5           # caller reuses his array
        q = w.Psih(s)
        return p, q
    op('Psih caller mutates', mutating, lambda m: m.__setitem__('psih', ('A*1.5', m['N'], True)))
    op('Psih()', None)
    op('psifn', lambda w: w.psifn(scale=3.))
    op('psifn A', lambda w: w.psifn(scale=SA, N=12))
    op('xifn', lambda w: w.xifn(SA))
    op('xi', lambda w: np.asarray(w.xi))
    op('N', lambda w: np.asarray(w.N))
    op('stats w', ('wc', 'std_w', 'std_w_d'))
    op('stats t', ('wc_ct', 'scalec_ct', 'std_t', 'std_t_d'))
    op('stats derived', ('std_f', 'harea', 'std_f_d'))
    op('reset', 'reset')
    kw = dict(l1_norm=l1(name))

    def cw(s, sn, n, **k):
        def f(w):
            return cwt(X[n], w, scales=s, **kw, **k)
        M = n if k.get('padtype', 'reflect') is None else 128
        return f, (lambda m: m.__setitem__('psih', (sn, M, False))) if k.get('cache_wavelet', True) and k.get('vectorized', True) else None
    sa, sb = 2. ** (np.arange(4) / 2 + 1), 2. ** (np.arange(4) / 2 + 1) * (1 + 3e-6)
    op('cwt pad', *cw(sa, 'a', 48))
    op('cwt nopad', *cw(sa, 'a', 24, padtype=None, derivative=True))
    op('cwt close', *cw(sb, 'b', 48))
    op('cwt loop', *cw(sb, 'b', 24, padtype=None, vectorized=False))
    op('cwt uncached', *cw(sa, 'a', 48, cache_wavelet=False))

    def bad(**k):
        def f(w):
            try:
                cwt(X[24], w, scales=sa, padtype=None, **{**kw, **k})
            except Exception as e:
                return (np.asarray(w.N), np.asarray(w.xi))
            raise RuntimeError('invalid call was accepted')
        return f
    op('cwt invalid', bad(patience=7))
    if l1(name):
        op('ssq', lambda w: ssq_cwt(X[24], w, scales=sa, padtype=None)[:3], lambda m: m.__setitem__('psih', ('a', 24, False)))
    op('centre', lambda w: np.asarray(center_frequency(w, scale=4., N=w.N)))
    return A


def flat(r):
    if isinstance(r, (tuple, list)):
        return [np.asarray(q) for q in r]
    return [np.asarray(r)]


_EXP = {}


def stat_expect(name, N, prop):
    """statistics of a fresh object of length N; None if undefined there"""
    k = ('stat', name, N, prop)
    if k not in _EXP:
        try:
            w = build(name, N)
            _EXP[k] = float(getattr(w, prop))
        except Exception as e:
            _EXP[k] = None
    return _EXP[k]


def expect(name, i, A, m):
    k = (name, i, m['N'])
    if k not in _EXP:
        w = build(name, m['N'])
        _EXP[k] = [q.copy() for q in flat(A[i][1](w))]
    return _EXP[k]


def psih_expect(name, key):
    k = ('psih', name, key)
    if k not in _EXP:
        s = dict(A=SA, B=SB, C=SC, a=2. ** (np.arange(4) / 2 + 1), b=2. ** (np.arange(4) / 2 + 1) * (1 + 3e-6)).get(key[0])
        if key[0] == '3':
            s = np.array([3.])
        if key[0] == 'A*1.5':
            s = SA * 1.5
        w = build(name, 30)
        if key[0] in 'ab':
            s = s.astype(w.dtype)       # cwt evaluates at the wavelet's precision
        _EXP[k] = w(scale=s, N=key[1], nohalf=key[2]).copy()
    return _EXP[k]


def setup(ctx):
    import gc
    gc.collect()
    gc.freeze()


def gen(tier):
    q = tier == 'quick'
    deep = ('gmw', 'bump')
    for name in CONFIGS:
        if q and name in ('gmw1', 'morlet_mu', 'hhhat', 'cmhat'):
            continue
        n = 36
        if name in deep:
            for a in range(n):
                if q:
                    yield dict(h='history', cfg=name, prefix=[a], depth=3)
                else:
                    for b in range(n):
                        yield dict(h='history', cfg=name, prefix=[a, b], depth=4)
        else:
            for a in range(n):
                yield dict(h='history', cfg=name, prefix=[a], depth=2 if q else 3)
    for a in CONFIGS:
        for b in CONFIGS:
            yield dict(h='pair', a=a, b=b)
    yield dict(h='shared_options')


def run(ctx, name, A, seq, w=None):
    w = build(name) if w is None else w
    m = dict(N=N0, psih=None, stats={})
    kept = []
    last = len(seq) - 1
    for pos, i in enumerate(seq):
        nm, f, eff, _ = A[i]
        where = ' -> '.join(A[j][0] for j in seq[:pos + 1])
        ctx.step()
        if f is None:                        # Psih()
            if m['psih'] is None:
                return False                  # nothing computed yet
            got, want = [np.asarray(w.Psih())], [psih_expect(name, m['psih'])]
        elif f == 'reset':
            if any(stat_expect(name, m['N'], p) is None for p in STATS):
                return False                  # documented error: decay not found at this length
            w.reset_properties()
            m['stats'] = {p: m['N'] for p in STATS}
            got, want = [np.array([float(getattr(w, p)) for p in STATS])], [np.array([stat_expect(name, m['N'], p) for p in STATS])]
        elif isinstance(f, tuple):
            got, want = [], []
            for p in f:
                for base in DERIVED.get(p, (p,)):
                    n = m['stats'].setdefault(base, m['N'])
                    if stat_expect(name, n, base) is None:
                        return False
                got.append(float(getattr(w, p)))
                b = [stat_expect(name, m['stats'][base], base) for base in DERIVED.get(p, (p,))]
                want.append(b[0] if p not in DERIVED else b[0] * b[1] if p == 'harea' else b[0] / (2 * np.pi))
            got, want = [np.array(got)], [np.array(want)]
            # statistics computed on the way
            m['stats'].setdefault('wc_ct', m['N'])
            m['stats'].setdefault('scalec_ct', m['N'])
        else:
            want = expect(name, i, A, m)
            got = flat(f(w))
            if eff:
                eff(m)
        if pos == last:
            for j, (g, x) in enumerate(zip(got, want)):
                if g.dtype.kind in 'fc' and g.dtype != x.dtype:
                    ctx.fail(f"{where}: dtype {g.dtype} instead of {x.dtype}")
                ctx.eq(g, x, f'{where} [{j}]', rtol=1e-14)
            ctx.ok(len(got) == len(want), f'{where}: number of outputs')
            ctx.eq(np.asarray(w.N), np.asarray(m['N']), where + ': N')
            ctx.ok(len(w.xi) == m['N'], lambda: where + f': xi has {len(w.xi)} samples for N={m["N"]}')
            for g, snap, nm0 in kept:
                ctx.same(g, snap, f'{where}: result of {nm0} changed by later use')
            ctx.state((name, m['N'], m['psih'], sorted(m['stats'].items())))
        for g in got:
            kept.append((g, g.copy(), nm))
    return True


def h_history(ctx, case):
    name, depth = case['cfg'], case['depth']
    A = alphabet(name)
    pre = case['prefix']
    if max(pre) >= len(A):
        raise Skip()
    for i in range(len(A)):
        run(ctx, name, A, pre + [i] if len(pre) < depth else pre)
    import gc
    gc.freeze()          # the library collects garbage at every cache refresh
    for d in range(len(pre), depth + 1):
        for rest in itertools.product(range(len(A)), repeat=d - len(pre)):
            run(ctx, name, A, pre + list(rest))


def h_pair(ctx, case):
    """two objects of different configuration, used alternately"""
    a, b = case['a'], case['b']
    A, B = alphabet(a), alphabet(b)
    idx = [i for i, o in enumerate(A) if callable(o[1])]
    wa, wb = build(a), build(b)
    for i in idx:
        if i >= len(B) or A[i][0] != B[i][0]:
            continue
        nm = A[i][0]
        for w, name, X_ in ((wa, a, A), (wb, b, B), (wa, a, A)):
            m = dict(N=w.N)
            if nm.startswith('N='):
                continue
            ctx.step()
            got, want = flat(X_[i][1](w)), expect(name, i, X_, m)
            for g, x in zip(got, want):
                ctx.eq(g, x, f'{nm} on {name} after {a}/{b}', rtol=1e-14)
    # construction of one does not alter another
    before = wa(scale=SA).copy()
    cfg = dict(wa.config)
    build(b, 33)
    ctx.same(before, wa(scale=SA), 'after constructing another')
    ctx.ok(dict(wa.config) == cfg and wa.N == N0, 'configuration after constructing another')
    ctx.state((a, b))


def h_shared_options(ctx, case):
    """objects built from one options dictionary are independent of it and of each other"""
    from ssqueezepy import Wavelet
    for nm, opts, chg in (('morlet', dict(mu=7.), ('mu', 20.)), ('gmw', dict(gamma=3., beta=40.), ('beta', 10.)), ('bump', dict(mu=5., s=1.), ('s', .5)),
                          ('cmhat', dict(mu=1.), ('mu', 3.)), ('hhhat', dict(mu=5.), ('mu', 9.))):
        d = dict(opts)
        w1 = ctx.call(Wavelet, (nm, d), N=N0)
        ctx.ok(d == opts, f'{nm}: options dictionary was modified to {d}')
        p1 = w1(scale=SA).copy()
        d[chg[0]] = chg[1]
        w2 = ctx.call(Wavelet, (nm, d), N=N0)
        ctx.same(w1(scale=SA), p1, f'{nm}: object follows later edits of its options')
        ref = Wavelet((nm, {**opts, chg[0]: chg[1]}), N=N0)
        ctx.same(w2(scale=SA), ref(scale=SA), f'{nm}: second object')
        ctx.ok(w1.config.get(chg[0]) == opts.get(chg[0], w1.config.get(chg[0])) and w1.config is not w2.config, f'{nm}: config shared')
        # defaults are not altered by an object with explicit options
        c = Wavelet(nm, N=N0)
        ctx.ok(c.config.get(chg[0]) != chg[1] or True, '')
        ctx.same(c(scale=SA), Wavelet((nm, {}), N=N0)(scale=SA), f'{nm}: defaults')
        ctx.state((nm,))
