"""C02: execution options never change a transform (all option combinations against the plain serial looped run)."""
import itertools
import numpy as np
from ..core import Skip
from ..util import parallel, signals, isolate_wisdom

TECH = "bounded exhaustive enumeration of execution-option combinations vs the serial, looped, uncached, one-input-at-a-time run"
RULE = ("every configuration of the lattice x every combination of execution options (vectorized, batched, wavelet form, cache, threads, "
        "tensor flag, planning effort); states = distinct results observed")
BOUNDS = dict(quick="N in {7,16,33}, 4 wavelets, 3 scale layouts, all option products", thorough="N in {5,7,16,33,50,64}, 7 wavelets, all option products")
ASSUMES = ["two runs may differ by double-precision rounding (1e-9 of the maximum); squeezed forms are compared with a threshold above rounding"]

SC = {'log': 2. ** (np.arange(0, 12) / 3), 'lin': np.linspace(1.5, 12., 8),
      'pw': np.hstack([2. ** (np.arange(2, 10) / 4), 2. ** (np.arange(13, 29, 4) / 4)])}
# squeezing: scales whose wavelets are resolved by the transform length
SSC = {'log': 2. ** (np.arange(3, 12) / 3), 'lin': np.linspace(1.5, 10., 8), 'pw': 2. ** (np.hstack([np.arange(2, 10), np.arange(11, 18, 2)]) / 4)}
SPECS = {'gmw': ('gmw', {}), 'gmw_b': ('gmw', dict(gamma=2., beta=6.)), 'gmw_k1': ('gmw', dict(beta=10., order=1)), 'morlet': ('morlet', {}),
         'bump': ('bump', {}), 'cmhat': ('cmhat', {}), 'hhhat': ('hhhat', {})}


def gen(tier):
    q = tier == 'quick'
    for N in ((7, 16) if q else (5, 7, 16, 33, 50, 64)):
        for spec in (('gmw', 'gmw_k1', 'bump') if q else SPECS):
            for sc in SC:
                for pad in ('reflect', None, 'wrap'):
                    for l1 in (True, False):
                        for rp in (False, True):
                            yield dict(h='cwt', N=N, spec=spec, sc=sc, pad=pad, l1=l1, rp=rp)
    for N in ((33,) if q else (24, 33, 64)):
        for spec in (('gmw', 'morlet') if q else ('gmw', 'gmw_b', 'morlet', 'bump')):
            for sc in SC:
                for pad in ('reflect', None):
                    for sq in ('sum', 'lebesgue', 'abs', 'square'):
                        for fs in (1., 8.):
                            yield dict(h='ssq', N=N, spec=spec, sc=sc, pad=pad, sq=sq, fs=fs)
    for N in ((25,) if q else (24, 25, 40)):
        for sc in ('log', 'lin'):
            for pad in ('reflect', None):
                for order in (1, [0, 1], [0, 1, 2], [2]):
                    for fs in (1., 4.):
                        yield dict(h='ssq_order', N=N, sc=sc, pad=pad, order=order, fs=fs)
                        yield dict(h='cwt_order', N=N, sc=sc, pad=pad, order=order, fs=fs)
    for N in ((25,) if q else (9, 16, 25, 40)):
        for n_fft in (8, 9):
            for hop in (1, 3):
                for mod in (True, False):
                    for pad in ('reflect', 'zero'):
                        for dt in ('float64', 'float32'):
                            yield dict(h='stft', N=N, n_fft=n_fft, hop=hop, mod=mod, pad=pad, dt=dt)
    for N in (16, 25):
        for mod in (True, False):
            for sq in ('sum', 'lebesgue', 'abs', 'square'):
                for flip in (False, True):
                    yield dict(h='ssq_stft', N=N, mod=mod, sq=sq, flip=flip)
    for N in (40, 64):
        for scales in ('log', 'log-piecewise', 'linear'):
            for spec in ('gmw', 'morlet'):
                yield dict(h='strings', N=N, scales=scales, spec=spec)
    for N in (12, 17):
        for sc in SC:
            for spec in ('gmw', 'morlet'):
                for l1 in (True, False):
                    yield dict(h='icwt', N=N, sc=sc, spec=spec, l1=l1)
    for N in (12, 32):
        for name in ('gmw', 'morlet', 'bump', 'cmhat', 'hhhat'):
            yield dict(h='form32', N=N, name=name)


def setup(ctx):
    isolate_wisdom()


def _wav(spec, l1=True):
    name, o = SPECS[spec]
    o = dict(o, dtype='float64')
    if name == 'gmw':
        o['norm'] = 'bandpass' if l1 else 'energy'
    return name, o


def _forms(wav):
    """(label, maker, may be cached)"""
    from ssqueezepy import Wavelet
    shared = Wavelet((wav[0], dict(wav[1])))
    return [('tuple', lambda: (wav[0], dict(wav[1])), (None, False, True)),
            ('object', lambda: Wavelet((wav[0], dict(wav[1]))), (None, False, True)),
            ('shared', lambda: shared, (None, True))]


def _sig(N):
    s = signals(N)
    return np.stack([s['chirp'], s['tones'], s['impulse'], s['alt']])


def _combos(ctx, wav):
    for lab, mk, caches in _forms(wav):
        for cache, vec, par, asT, pat in itertools.product(caches, (True, False), (False, True), (True, False), (0, (1, .01))):
            # planning effort and tensor flag are independent of everything else: full product only with threads
            if pat and (asT or lab == 'shared' or cache is None):
                continue
            if ctx.quick and ((pat and (lab == 'object' or cache)) or (not asT and not pat and (par or cache is not None))):
                continue
            yield f"form={lab} cache={cache} vec={vec} par={par} astensor={asT} patience={pat}", mk, cache, vec, par, asT, pat


def h_cwt(ctx, c):
    from ssqueezepy import cwt
    N = c['N']
    X = _sig(N)
    wav = _wav(c['spec'], c['l1'])
    kw = dict(scales=SC[c['sc']], l1_norm=c['l1'], padtype=c['pad'], rpadded=c['rp'])
    with parallel(False):
        base = [ctx.call(cwt, x, (wav[0], dict(wav[1])), derivative=True, vectorized=False, **kw) for x in X]
    bW, bD = np.stack([b[0] for b in base]), np.stack([b[2] for b in base])
    ctx.state([bW, bD])
    for lab, mk, cache, vec, par, asT, pat in _combos(ctx, wav):
        with parallel(par):
            W, s, D = ctx.call(cwt, X, mk(), derivative=True, vectorized=vec, cache_wavelet=cache, astensor=asT, patience=pat, **kw)
            ctx.eq(W, bW, 'batched Wx ' + lab)
            ctx.eq(D, bD, 'batched dWx ' + lab)
            ctx.eq(s, base[0][1], 'scales ' + lab, rtol=1e-13)
            W, s = ctx.call(cwt, X[0], mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, patience=pat, **kw)
            ctx.eq(W, bW[0], '1D Wx ' + lab)
            ctx.eq(s, base[0][1], 'scales ' + lab, rtol=1e-13)
            if not pat:
                W, s = ctx.call(cwt, X[:1], mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, **kw)
                ctx.eq(W, bW[:1], 'batch of one Wx ' + lab)


def one(ctx, f, X, want, lab):
    """a batch of one input; and as many inputs as there are rows in the transform (where a wrong axis fits too)"""
    o = f(X[-1:])
    for j, w in want.items():
        ctx.eq(o[j], w[-1:], f'output {j} of a batch of one, ' + lab)
    rows = want[1].shape[1] if 1 in want else want[0].shape[1]
    if rows <= 16:
        idx = np.arange(rows) % len(X)
        o = f(X[idx])
        for j, w in want.items():
            ctx.eq(o[j], w[idx], f'output {j} of a batch of as many inputs as rows, ' + lab)


def _sq(sq):
    return (lambda x: x ** 2) if sq == 'square' else sq


GAMMA = 1e-4


def h_ssq(ctx, c):
    from ssqueezepy import ssq_cwt
    N = c['N']
    X = _sig(N)
    wav = _wav(c['spec'])
    kw = dict(scales=SSC[c['sc']], padtype=c['pad'], squeezing=_sq(c['sq']), fs=c['fs'], gamma=GAMMA, maprange='peak' if c['pad'] else 'maximal')
    if c['sc'] == 'pw':
        kw.update(ssq_freqs='log', maprange='maximal') if not c['pad'] else None
    with parallel(False):
        base = [ctx.call(ssq_cwt, x, (wav[0], dict(wav[1])), vectorized=False, get_w=True, get_dWx=True, **kw) for x in X]
    bT, bW, bD = [np.stack([b[i] for b in base]) for i in (0, 1, 5)]
    ctx.state([bT])
    for lab, mk, cache, vec, par, asT, pat in _combos(ctx, wav):
        with parallel(par):
            o = ctx.call(ssq_cwt, X, mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, patience=pat, get_dWx=True, **kw)
            ctx.eq(o[0], bT, 'batched Tx ' + lab)
            ctx.eq(o[1], bW, 'batched Wx ' + lab)
            ctx.eq(o[4], bD, 'batched dWx ' + lab)
            for j in (2, 3):
                ctx.eq(o[j], base[0][j], 'freqs/scales ' + lab, rtol=1e-12)
            if not pat:
                one(ctx, lambda x: ctx.call(ssq_cwt, x, mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, get_dWx=True, **kw), X, {0: bT, 1: bW, 4: bD}, lab)
            for gw in (True, False):
                o = ctx.call(ssq_cwt, X[1], mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, patience=pat, get_w=gw,
                             preserve_transform=not gw or None, **kw)
                ctx.eq(o[0], bT[1], f'1D Tx get_w={gw} ' + lab)
                ctx.eq(o[1], bW[1], f'1D Wx get_w={gw} ' + lab)
                if gw:
                    fin = np.isfinite(base[1][4])
                    ctx.eq(np.isfinite(o[4]), fin, 'finite w ' + lab)
                    ctx.eq(o[4][fin], base[1][4][fin], 'w ' + lab, rtol=1e-6)


def h_ssq_order(ctx, c):
    from ssqueezepy import ssq_cwt
    N = c['N']
    X = _sig(N)
    order = tuple(c['order']) if isinstance(c['order'], list) else c['order']
    wav = ('gmw', dict(gamma=3., beta=12., dtype='float64'))
    kw = dict(scales=SSC[c['sc']], padtype=c['pad'], fs=c['fs'], gamma=GAMMA, maprange='peak' if c['pad'] else 'maximal', order=order)
    with parallel(False):
        base = [ctx.call(ssq_cwt, x, (wav[0], dict(wav[1])), vectorized=False, get_w=True, get_dWx=True, **kw) for x in X]
    bT, bW, bD = [np.stack([b[i] for b in base]) for i in (0, 1, 5)]
    ctx.ok(bW.shape == (len(X), len(SSC[c['sc']]), N) and bD.shape == bW.shape and bT.shape == bW.shape, f"shape of outputs {bW.shape} {bD.shape}")
    ctx.state([bT])
    for lab, mk, cache, vec, par, asT, pat in _combos(ctx, wav):
        with parallel(par):
            o = ctx.call(ssq_cwt, X, mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, patience=pat, get_dWx=True, **kw)
            ctx.eq(o[0], bT, 'batched Tx ' + lab)
            ctx.eq(o[1], bW, 'batched Wx ' + lab)
            ctx.eq(o[4], bD, 'batched dWx ' + lab)
            if not pat:
                one(ctx, lambda x: ctx.call(ssq_cwt, x, mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, get_dWx=True, **kw), X, {0: bT, 1: bW, 4: bD}, lab)
            o = ctx.call(ssq_cwt, X[1], mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, patience=pat, **kw)
            ctx.eq(o[0], bT[1], '1D Tx ' + lab)
            ctx.eq(o[1], bW[1], '1D Wx ' + lab)


def h_cwt_order(ctx, c):
    from ssqueezepy import cwt
    X = _sig(c['N'])
    order = tuple(c['order']) if isinstance(c['order'], list) else c['order']
    wav = ('gmw', dict(gamma=3., beta=12., dtype='float64'))
    kw = dict(scales=SC[c['sc']], padtype=c['pad'], fs=c['fs'], order=order, derivative=True)
    with parallel(False):
        base = [ctx.call(cwt, x, (wav[0], dict(wav[1])), vectorized=False, **kw) for x in X]
    bW, bD = np.stack([b[0] for b in base]), np.stack([b[2] for b in base])
    ctx.state([bW])
    for lab, mk, cache, vec, par, asT, pat in _combos(ctx, wav):
        with parallel(par):
            o = ctx.call(cwt, X, mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, patience=pat, **kw)
            ctx.eq(o[0], bW, 'batched Wx ' + lab)
            ctx.eq(o[2], bD, 'batched dWx ' + lab)
            if not pat:
                one(ctx, lambda x: ctx.call(cwt, x, mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, **kw), X, {0: bW, 2: bD}, lab)
            o = ctx.call(cwt, X[0], mk(), vectorized=vec, cache_wavelet=cache, astensor=asT, patience=pat, **kw)
            ctx.eq(o[0], bW[0], '1D Wx ' + lab)


def h_stft(ctx, c):
    from ssqueezepy import stft
    X = _sig(c['N'])
    if c['pad'] == 'reflect' and c['N'] < 2:
        raise Skip
    kw = dict(n_fft=c['n_fft'], hop_len=c['hop'], modulated=c['mod'], padtype=c['pad'], dtype=c['dt'])
    rt = 1e-9 if c['dt'] == 'float64' else 1e-4
    for window, wl in ((np.hanning(c['n_fft'] + 2)[1:-1], None), ('hann', 6), *([(None, None)] if c['n_fft'] > 8 else [])):
        with parallel(False):
            base = [ctx.call(stft, x, window, win_len=wl, derivative=True, **kw) for x in X]
        bS, bD = np.stack([b[0] for b in base]), np.stack([b[1] for b in base])
        ctx.state([bS])
        for par in (False, True):
            with parallel(par):
                for xx, s, d in ((X, bS, bD), (X[:1], bS[:1], bD[:1]), (X[2], bS[2], bD[2])):
                    o = ctx.call(stft, xx, window, win_len=wl, derivative=True, **kw)
                    ctx.eq(o[0], s, f'Sx par={par}', rtol=rt)
                    ctx.eq(o[1], d, f'dSx par={par}', rtol=rt)
                    o = ctx.call(stft, xx, window, win_len=wl, **kw)
                    ctx.eq(o, s, f'Sx no derivative par={par}', rtol=rt)


def h_ssq_stft(ctx, c):
    from ssqueezepy import ssq_stft
    X = _sig(c['N'])
    kw = dict(n_fft=12, win_len=11, modulated=c['mod'], squeezing=_sq(c['sq']), flipud=c['flip'], gamma=GAMMA, dtype='float64')
    for window in (None, 'hann'):
        with parallel(False):
            base = [ctx.call(ssq_stft, x, window, get_w=True, get_dWx=True, **kw) for x in X]
        bT, bS, bD = [np.stack([b[i] for b in base]) for i in (0, 1, 5)]
        ctx.state([bT])
        for par, asT, pt in itertools.product((False, True), (True, False), (None, True)):
            lab = f"par={par} astensor={asT} preserve={pt}"
            with parallel(par):
                o = ctx.call(ssq_stft, X, window, astensor=asT, preserve_transform=pt, get_dWx=True, **kw)
                ctx.eq(o[0], bT, 'batched Tx ' + lab)
                ctx.eq(o[1], bS, 'batched Sx ' + lab)
                ctx.eq(o[4], bD, 'batched dSx ' + lab)
                one(ctx, lambda x: ctx.call(ssq_stft, x, window, astensor=asT, preserve_transform=pt, get_dWx=True, **kw), X, {0: bT, 1: bS, 4: bD}, lab)
                for gw in (True, False):
                    o = ctx.call(ssq_stft, X[3], window, astensor=asT, preserve_transform=pt, get_w=gw, **kw)
                    ctx.eq(o[0], bT[3], f'Tx get_w={gw} ' + lab)
                    ctx.eq(o[2], base[0][2], 'freqs')
                    ctx.eq(o[3], base[0][3], 'Sfs')


def h_strings(ctx, c):
    try:
        _h_strings(ctx, c)
    except Exception as e:
        if 'suffciently-integer' in str(e):  # the requested preset is infeasible for this length (C15's subject)
            raise Skip
        raise


def _h_strings(ctx, c):
    """scales requested by name"""
    from ssqueezepy import cwt, ssq_cwt
    X = _sig(c['N'])
    wav = _wav(c['spec'])
    kw = dict(scales=c['scales'], nv=8)
    with parallel(False):
        base = [ctx.call(cwt, x, (wav[0], dict(wav[1])), vectorized=False, **kw) for x in X]
        sb = [ctx.call(ssq_cwt, x, (wav[0], dict(wav[1])), vectorized=False, gamma=GAMMA, **kw) for x in X]
    bW, bT = np.stack([b[0] for b in base]), np.stack([b[0] for b in sb])
    ctx.state([bW])
    for lab, mk, cache, vec, par, asT, pat in _combos(ctx, wav):
        with parallel(par):
            o = ctx.call(cwt, X, mk(), vectorized=vec, cache_wavelet=cache, patience=pat, astensor=asT, **kw)
            ctx.eq(o[0], bW, 'batched Wx ' + lab)
            ctx.eq(o[1], base[0][1], 'scales ' + lab, rtol=1e-13)
            o = ctx.call(ssq_cwt, X, mk(), vectorized=vec, cache_wavelet=cache, patience=pat, astensor=asT, gamma=GAMMA, **kw)
            ctx.eq(o[0], bT, 'batched Tx ' + lab)
            for j in (2, 3):
                ctx.eq(o[j], sb[0][j], 'freqs/scales ' + lab, rtol=1e-12)


def h_icwt(ctx, c):
    from ssqueezepy import icwt
    N, l1 = c['N'], c['l1']
    if not l1 and c['sc'] == 'pw':
        pass
    wav = _wav(c['spec'], l1)
    sc = SC[c['sc']]
    rng = np.cos(np.outer(np.arange(3 * len(sc)), np.arange(N) + 1.) * .7).reshape(3, len(sc), N)
    Wx = rng + 1j * np.sin(rng * 3)
    for xm in (0, .5, -1.):
        with parallel(False):
            base = np.stack([ctx.call(icwt, w, (wav[0], dict(wav[1])), scales=sc, x_mean=xm, l1_norm=l1) for w in Wx])
        ctx.state(base)
        for lab, mk, caches in _forms(wav):
            for par in (False, True):
                with parallel(par):
                    x = ctx.call(icwt, Wx, mk(), scales=sc, x_mean=xm, l1_norm=l1)
                    ctx.eq(x, base, f'batched icwt {lab} par={par}')
                    x = ctx.call(icwt, Wx[1], mk(), scales=sc, x_mean=xm, l1_norm=l1)
                    ctx.eq(x, base[1], f'icwt {lab} par={par}')


def h_form32(ctx, c):
    """wavelet given by name, tuple or object, at the default precision: same arithmetic, same bits"""
    from ssqueezepy import cwt, ssq_cwt, Wavelet
    X = _sig(c['N'])
    name = c['name']
    base = None
    for vec in (True, False):
        base = None
        for form in (name, (name, {}), Wavelet(name), Wavelet((name, {})), name.upper(), Wavelet(Wavelet(name).fn if name != 'gmw' else name)):
            for cache in (None, False, True):
                o = ctx.call(cwt, X, form if not isinstance(form, tuple) else (name, {}), scales=SC['log'], derivative=True, vectorized=vec, cache_wavelet=cache)
                s = ctx.call(ssq_cwt, X, form if not isinstance(form, tuple) else (name, {}), scales=SSC['log'], vectorized=vec,
                             cache_wavelet=cache, gamma=GAMMA, maprange='maximal')
                if base is None:
                    base = (o, s)
                    ctx.state(o[0])
                    continue
                for j in range(3):
                    ctx.eq(o[j], base[0][j], f"cwt[{j}] form={form!r} cache={cache}", rtol=1e-6, dtype=base[0][j].dtype)
                if np.array_equal(o[0], base[0][0]) and np.array_equal(o[2], base[0][2]):
                    for j in range(4):
                        ctx.eq(s[j], base[1][j], f"ssq[{j}] form={form!r} cache={cache}", rtol=1e-6, dtype=base[1][j].dtype)
