"""C23: requested precision is honoured end to end, whatever the input's own type and memory layout."""
import itertools, warnings
import numpy as np
from ..core import Skip
from ..util import parallel, isolate_wisdom
from .. import ref as R

TECH = "bounded exhaustive enumeration of input types x memory layouts x requested precision x transforms x options on the real code; each result is compared with that of the contiguous floating-point copy, and the copy's with the closed-form definition and across precisions"
RULE = ("every number type (boolean, 8 integer types, 4 float types) x every memory layout (strided, reversed, offset, unaligned, byte-swapped, read-only, Fortran, transposed) x precision x transform x option x one or many inputs x "
        "thread setting; for inverses, squeezes, phases and ridges the layouts of every array argument; states = distinct results")
BOUNDS = dict(quick="N in {16, 33}; all types x layouts; 34 forward, 26 backward and auxiliary configurations", thorough="N in {9..13, 16, 33, 64, 100}; the same types, layouts and configurations")
ASSUMES = ["values representable in every enumerated type, so a conversion loses nothing", "complex arrays are in native byte order", "output frequencies of ssq_cwt are computed in double precision in either setting (not less than requested)"]
CASE_LIMIT_S = 400

INTS = ('bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64')
FLTS = ('float16', 'float32', 'float64', 'longdouble')
PREC = ('float32', 'float64')
CPX = {'float32': 'complex64', 'float64': 'complex128'}
SC = 2. ** np.arange(1, 6)          # exact in single precision; nv=1
SCL = np.arange(2., 10.)


def setup(ctx):
    isolate_wisdom()
    warnings.simplefilter('ignore')


def gen(tier):
    Ns = (16, 33) if tier == 'quick' else (9, 10, 11, 12, 13, 16, 33, 64, 100)
    for N in Ns:
        for pr in PREC:
            for par in (False, True):
                for dim in (1, 2):
                    for op in FWD:
                        if dim == 2 and op in NO2D:
                            continue
                        yield dict(h='fwd', op=op, N=N, pr=pr, dim=dim, par=par)
                    for op in BWD:
                        if dim == 2 and op in NO2D:
                            continue
                        yield dict(h='bwd', op=op, N=N, pr=pr, dim=dim, par=par)
                for op in AUX:
                    yield dict(h='bwd', op=op, N=N, pr=pr, dim=1, par=par)
        for par in (False, True):
            for dim in (1, 2):
                yield dict(h='agree', N=N, dim=dim, par=par)
    for N in Ns:
        yield dict(h='default', N=N)


# --- memory layouts ---------------------------------------------------------------------------------------------
def lay1(v, fill):
    """all layouts of a 1D array holding values v"""
    v = np.ascontiguousarray(v)
    n = len(v)
    yield 'plain', v.copy()
    for k in (2, 3):
        b = np.full(k * n + 1, fill, dtype=v.dtype)
        b[1::k][:n] = v
        yield f'step{k}', b[1::k][:n]
    yield 'reversed', v[::-1].copy()[::-1]
    b = np.full(2 * n, fill, dtype=v.dtype)
    b[::-2] = v
    yield 'reversed step', b[::-2]
    b = np.full(n + 5, fill, dtype=v.dtype)
    b[3:3 + n] = v
    yield 'offset', b[3:3 + n]
    b = np.full((n, 3), fill, dtype=v.dtype)
    b[:, 1] = v
    yield 'column', b[:, 1]
    if v.dtype.itemsize > 1:
        raw = np.zeros(v.nbytes + 1, dtype='uint8')
        u = raw[1:1 + v.nbytes].view(v.dtype)
        u[:] = v
        yield 'unaligned', u
    r = v.copy()
    r.flags.writeable = False
    yield 'read-only', r


def layn(v, fill):
    v = np.ascontiguousarray(v)
    yield 'plain', v.copy()
    yield 'fortran', np.asfortranarray(v)
    ax = tuple(range(v.ndim))
    for p in itertools.permutations(ax):
        if p != ax and (v.ndim == 3 or True):
            inv = np.argsort(p)
            yield f'permuted{p}', np.ascontiguousarray(v.transpose(p)).transpose(inv)
    for k in range(v.ndim):
        sl = tuple(slice(None, None, -1) if j == k else slice(None) for j in ax)
        yield f'reversed axis {k}', v[sl].copy()[sl]
        shp = tuple(2 * s if j == k else s for j, s in enumerate(v.shape))
        b = np.full(shp, fill, dtype=v.dtype)
        sl = tuple(slice(None, None, 2) if j == k else slice(None) for j in ax)
        b[sl] = v
        yield f'step axis {k}', b[sl]
    b = np.full(tuple(s + 3 for s in v.shape), fill, dtype=v.dtype)
    sl = tuple(slice(1, 1 + s) for s in v.shape)
    b[sl] = v
    yield 'inner', b[sl]
    r = v.copy()
    r.flags.writeable = False
    yield 'read-only', r


def lays(v, fill):
    return lay1(v, fill) if v.ndim == 1 else layn(v, fill)


# --- operations -------------------------------------------------------------------------------------------------
def wav(pr, name='gmw'):
    from ssqueezepy import Wavelet
    key = (pr, name)
    if key not in _W:
        _W[key] = Wavelet((name, dict(dtype=pr)))
    return _W[key]


_W = {}
PADS = ('reflect', 'zero', 'symmetric', 'replicate', 'wrap', None)


def _cwt(**kw):
    def f(x, pr):
        from ssqueezepy import cwt
        o = cwt(x, wav(pr, kw.get('wavelet', 'gmw')), scales=SC.astype(pr), **{k: v for k, v in kw.items() if k != 'wavelet'})
        out = [('Wx', o[0], 'c'), ('scales', o[1], 'r')]
        if len(o) == 3:
            out.append(('dWx', o[2], 'c'))
        return out
    return f


def _cwto(**kw):
    def f(x, pr):
        from ssqueezepy import cwt
        W, s = cwt(x, wav(pr), scales=SC.astype(pr), order=(0, 1), **kw)
        W = [W] if kw.get('average', True) else W
        return [(f'Wx{i}', w, 'c') for i, w in enumerate(W)] + [('scales', s, 'r')]
    return f


def _cwtstr(**kw):
    """wavelet given by name"""
    def f(x, pr):
        from ssqueezepy import cwt
        o = cwt(x, ('gmw', dict(dtype=pr)), nv=4, **kw)
        return [('Wx', o[0], 'c'), ('scales', o[1], 'r')]
    return f


def _ssq(**kw):
    def f(x, pr):
        from ssqueezepy import ssq_cwt
        gd = kw.get('get_w', False)
        o = ssq_cwt(x, wav(pr), scales=SC.astype(pr), get_dWx=True, **kw)
        out = [('Tx', o[0], 'r' if kw.get('squeezing') == 'abs' else 'c'), ('Wx', o[1], 'c'), ('ssq_freqs', o[2], '>'), ('scales', o[3], 'r')]
        if gd:
            out.append(('w', o[4], 'r'))
        if o[-1] is not None:
            out.append(('dWx', o[-1], 'c'))
        return out
    return f


def _stft(**kw):
    def f(x, pr):
        from ssqueezepy import stft
        o = stft(x, dtype=pr, **kw)
        o = o if isinstance(o, tuple) else (o,)
        return [(n, a, 'c') for n, a in zip(('Sx', 'dSx'), o)]
    return f


def _sstft(**kw):
    def f(x, pr):
        from ssqueezepy import ssq_stft
        o = ssq_stft(x, dtype=pr, get_dWx=True, **kw)
        out = [('Tx', o[0], 'r' if kw.get('squeezing') == 'abs' else 'c'), ('Sx', o[1], 'c'), ('ssq_freqs', o[2], 'r'), ('Sfs', o[3], 'r')]
        if kw.get('get_w'):
            out.append(('w', o[4], 'r'))
        out.append(('dSx', o[-1], 'c'))
        return out
    return f


def _pad(padtype):
    def f(x, pr):
        from ssqueezepy.utils import padsignal
        return [('xp', padsignal(x.astype(pr, order='K') if x.dtype != pr else x, padtype), 'r')]
    return f


def _buffer(**kw):
    def f(x, pr):
        from ssqueezepy.utils import buffer
        return [('buffer', buffer(x.astype(pr, order='K') if x.dtype != pr else x, 6, 2, **kw), 'r')]
    return f


W8 = np.array([1, 3, 5, 7, 8, 6, 4, 2])
FWD = {'cwt': _cwt(), 'cwt_d': _cwt(derivative=True), 'cwt_loop': _cwt(vectorized=False, derivative=True), 'cwt_rp': _cwt(rpadded=True), 'cwt_l2': _cwt(l1_norm=False, derivative=True, wavelet='morlet'), 'cwt_nan': _cwt(nan_checks=True),
       'cwt_nonan': _cwt(nan_checks=False), 'cwt_nocache': _cwt(cache_wavelet=False, wavelet='bump'), 'cwt_order': _cwto(), 'cwt_orders': _cwto(average=False), 'cwt_str': _cwtstr(scales='log:maximal'),
       'ssq': _ssq(), 'ssq_w': _ssq(get_w=True), 'ssq_phase': _ssq(difftype='phase', get_w=True), 'ssq_num': _ssq(difftype='numeric', get_w=True), 'ssq_leb': _ssq(squeezing='lebesgue'), 'ssq_abs': _ssq(squeezing='abs'), 'ssq_lin': _ssq(ssq_freqs='linear', maprange='maximal'),
       'ssq_order': _ssq(order=1), 'ssq_nopad': _ssq(padtype=None), 'ssq_noflip': _ssq(flipud=False, fs=8),
       'stft': _stft(n_fft=12), 'stft_d': _stft(n_fft=11, win_len=9, derivative=True, hop_len=2), 'stft_win': _stft(window=W8 / 8, n_fft=8, modulated=False, derivative=True), 'stft_hann': _stft(window='hann', n_fft=16, win_len=9, fs=4),
       'sstft': _sstft(n_fft=12), 'sstft_w': _sstft(n_fft=11, win_len=9, get_w=True), 'sstft_leb': _sstft(n_fft=12, squeezing='lebesgue'), 'sstft_abs': _sstft(n_fft=12, squeezing='abs', flipud=True)}
for _p in PADS[1:]:
    FWD[f'cwt_{_p}'] = _cwt(padtype=_p, derivative=True)
    if _p:
        FWD[f'stft_{_p}'] = _stft(n_fft=12, padtype=_p)
for _p in PADS[:-1]:
    FWD[f'pad_{_p}'] = _pad(_p)
FWD['buffer'] = _buffer()
FWD['buffer_m'] = _buffer(modulated=True)


def nonlinear(op):
    return op.startswith(('ssq', 'sstft'))


# Operations on results: (inputs builder, list of arrays) -> outputs. Each argument is laid out in every way in turn.
def base(x, pr):
    from ssqueezepy import ssq_cwt, ssq_stft
    one = x.ndim == 1
    a = ssq_cwt(x, wav(pr), scales=SC.astype(pr), get_w=one, get_dWx=True)
    b = ssq_stft(x, dtype=pr, window='hann', n_fft=12, get_w=one, get_dWx=True)
    return (a, b) if one else (a[:4] + (a[1].real,) + a[4:], b[:4] + (b[1].real,) + b[4:])


_B = {}


def argsof(op, x, pr):
    key = (x.tobytes(), x.shape, pr)
    if key not in _B:
        _B.clear()
        _B[key] = base(x, pr)
    (Tx, Wx, f, sc, w, dWx), (Ts, Sx, fs_, Sfs, ws, dSx) = _B[key]
    c = np.ascontiguousarray
    d = dict(Tx=c(Tx), Wx=c(Wx), sc=SC.astype(pr), sc2=SC.astype(pr).reshape(-1, 1), scl=SCL.astype(pr), w=c(w), dWx=c(dWx), Ts=c(Ts), Sx=c(Sx), Sfs=c(Sfs), ws=c(ws), dSx=c(dSx), x=x.astype(pr),
             f=np.geomspace(.02, .4, 5).astype(pr), fl=np.arange(1, 8).astype(pr) / 16, win=np.pad(W8, 2).astype(pr), t=np.arange(x.shape[-1]) / np.array(4, dtype=pr), cc=np.tile([[3], [1]], x.shape[-1]).T, cw=np.tile([[1], [2]], x.shape[-1]).T,
             t1=np.arange(x.shape[-1]).astype(pr))
    return [d[k].copy() for k in BWD.get(op, AUX.get(op))[0]]


def _one(name, kind='r'):
    return lambda o: [(name, o, kind)]


def _imp(mod, name):
    import importlib
    return getattr(importlib.import_module(mod), name)


S_ = 'ssqueezepy'
E_ = 'ssqueezepy.experimental'
BWD = {
    'icwt': (['Wx', 'sc'], lambda pr, W, s: [('x', _imp(S_, 'icwt')(W, wav(pr), scales=s), 'r')]),
    'icwt_l2': (['Wx', 'sc2'], lambda pr, W, s: [('x', _imp(S_, 'icwt')(W, wav(pr, 'morlet'), scales=s, l1_norm=False), 'r')]),
    'icwt_2int': (['Wx', 'sc'], lambda pr, W, s: [('x', _imp(S_, 'icwt')(W, wav(pr), scales=s, one_int=False), 'r')]),
    'icwt_2pad': (['Wx', 'sc'], lambda pr, W, s: [('x', _imp(S_, 'icwt')(W, wav(pr), scales=s, one_int=False, padtype='zero', l1_norm=False) if False else _imp(S_, 'icwt')(W, wav(pr), scales=s, one_int=False, padtype='zero'), 'r')]),
    'issq_cwt': (['Tx'], lambda pr, T: [('x', _imp(S_, 'issq_cwt')(T, wav(pr)), 'r')]),
    'issq_ridge': (['Tx', 'cc', 'cw'], lambda pr, T, cc, cw: [('x', _imp(S_, 'issq_cwt')(T, wav(pr), cc, cw), 'r')]),
    'istft': (['Sx', 'win'], lambda pr, S, w: [('x', _imp(S_, 'istft')(S, w, n_fft=12), 'r')]),
    'istft_N': (['Sx'], lambda pr, S: [('x', _imp(S_, 'istft')(S, 'hann', n_fft=12, N=S.shape[-1], win_exp=0), 'r')]),
    'issq_stft': (['Ts', 'win'], lambda pr, T, w: [('x', _imp(S_, 'issq_stft')(T, w, n_fft=12), 'r')]),
    'issq_stft_r': (['Ts', 'cc', 'cw'], lambda pr, T, cc, cw: [('x', _imp(S_, 'issq_stft')(T, 'hann', cc, cw, n_fft=12), 'r')]),
    'ssqueeze': (['Wx', 'w', 'sc'], lambda pr, W, w, s: [('Tx', _imp(S_, 'ssqueeze')(W, w, scales=s, wavelet=wav(pr))[0], 'c')]),
    'ssqueeze_f': (['Wx', 'w', 'f', 'sc2'], lambda pr, W, w, f, s: [('Tx', _imp(S_, 'ssqueeze')(W, w, ssq_freqs=f, scales=s, wavelet=wav(pr))[0], 'c')]),
    'ssqueeze_fl': (['Wx', 'w', 'fl', 'scl'], lambda pr, W, w, f, s: [('Tx', _imp(S_, 'ssqueeze')(np.concatenate([W, W[..., :3, :]], -2), np.concatenate([w, w[..., :3, :]], -2), ssq_freqs=f, scales=s, wavelet=wav(pr), flipud=True)[0], 'c')]),
    'ssqueeze_dWx': (['Wx', 'dWx', 'sc'], lambda pr, W, d, s: [('Tx', _imp(S_, 'ssqueeze')(W, None, scales=s, wavelet=wav(pr), dWx=d, gamma=1e-8)[0], 'c')]),
    'ssqueeze_leb': (['Wx', 'dWx', 'sc'], lambda pr, W, d, s: [('Tx', _imp(S_, 'ssqueeze')(W, None, scales=s, wavelet=wav(pr), dWx=d, gamma=1e-8, squeezing='lebesgue')[0], 'c')]),
    'ssqueeze_stft': (['Sx', 'dSx', 'Sfs'], lambda pr, W, d, s: [('Tx', _imp(S_, 'ssqueeze')(W, None, Sfs=s, dWx=d, gamma=1e-8, transform='stft')[0], 'c')]),
    'phase_cwt': (['Wx', 'dWx'], lambda pr, W, d: [('w', _imp('ssqueezepy._ssq_cwt', 'phase_cwt')(W, d, gamma=1e-8), 'r')]),
    'phase_cwt_p': (['Wx', 'dWx'], lambda pr, W, d: [('w', _imp('ssqueezepy._ssq_cwt', 'phase_cwt')(W, d, 'phase', gamma=1e-8), 'r')]),
    'phase_num': (['Wx'], lambda pr, W: [('w', _imp('ssqueezepy._ssq_cwt', 'phase_cwt_num')(W, .5, 2, 1e-8), 'r')]),
    'phase_stft': (['Sx', 'dSx', 'Sfs'], lambda pr, S, d, s: [('w', _imp('ssqueezepy._ssq_stft', 'phase_stft')(S, d, s, gamma=1e-8), 'r')]),
    'trigdiff': (['Wx'], lambda pr, W: [('dWx', _imp('ssqueezepy.utils', 'trigdiff')(W, 2., rpadded=True, N=W.shape[-1], n1=0), 'c')]),
    'trigdiff_p': (['Wx'], lambda pr, W: [('dWx', _imp('ssqueezepy.utils', 'trigdiff')(W, 2., padtype='reflect'), 'c')]),
    'cwt_scales': (['x', 'sc2', 't'], lambda pr, x, s, t: [('Wx', _imp(S_, 'cwt')(x, wav(pr), scales=s, t=t, derivative=True)[2], 'c')]),
    'cwt_lin': (['x', 'scl'], lambda pr, x, s: [('Wx', _imp(S_, 'cwt')(x, wav(pr), scales=s, vectorized=False)[0], 'c')]),
    'ssq_f': (['x', 'sc', 'f', 't1'], lambda pr, x, s, f, t: [('Tx', _imp(S_, 'ssq_cwt')(x, wav(pr), scales=s, ssq_freqs=f, t=t)[0], 'c')]),
    'stft_win': (['x', 'win'], lambda pr, x, w: [('Sx', a, 'c') for a in _imp(S_, 'stft')(x, w, n_fft=16, dtype=pr, derivative=True)]),
    'sstft_win': (['x', 'win', 'fl'], lambda pr, x, w, f: [('Tx', _imp(S_, 'ssq_stft')(x, w, n_fft=12, dtype=pr, ssq_freqs=f)[0], 'c')]),
}
AUX = {
    'ridge': (['Tx', 'sc'], lambda pr, T, s: [(n, a, k) for n, a, k in zip(('idx', 'f', 'e'), _imp(S_, 'extract_ridges')(T, s, penalty=.5, n_ridges=2, bw=1, get_params=True), 'irr')]),
    'ridge_s': (['Sx', 'Sfs'], lambda pr, T, s: [(n, a, k) for n, a, k in zip(('idx', 'f', 'e'), _imp(S_, 'extract_ridges')(T, s, penalty=2., n_ridges=2, bw=2, transform='stft', get_params=True), 'irr')]),
    'ridge_par': (['Tx', 'sc2'], lambda pr, T, s: [('idx', _imp(S_, 'extract_ridges')(T, s, n_ridges=3, bw=1, parallel=True), 'i')]),
    's2f': (['sc'], lambda pr, s: [('f', _imp(E_, 'scale_to_freq')(s, wav(pr), 33), '>')]),
    'phase_ssqueeze': (['Wx', 'dWx', 'sc'], lambda pr, W, d, s: [('Tx', _imp(E_, 'phase_ssqueeze')(W, d, scales=s, wavelet=wav(pr), gamma=1e-8)[0], 'c')]),
    'psih': (['sc2'], lambda pr, s: [('psih', wav(pr)(scale=s, N=16), 'r')]),
}
NO2D = {'phase_cwt', 'phase_cwt_p', 'phase_stft', 'ssq_w', 'ssq_phase', 'sstft_w', 'ssqueeze', 'ssqueeze_f', 'icwt_2int', 'icwt_2pad', 'issq_ridge', 'istft', 'istft_N', 'issq_stft', 'issq_stft_r', 'phase_num', 'ssq_num', 'stft_None', 'ssq_order', 'trigdiff', 'trigdiff_p', 'ssqueeze_fl', 'ssqueeze_leb'}


def kinds(ctx, outs, pr, what):
    for n, a, k in outs:
        want = {'c': CPX[pr], 'r': pr}.get(k)
        if want:
            ctx.ok(str(np.asarray(a).dtype) == want, f"{what}: {n} is {np.asarray(a).dtype}, requested precision {pr}")
        elif k == '>':
            ctx.ok(np.asarray(a).dtype in (np.dtype(pr), np.dtype('float64')), f"{what}: {n} is {np.asarray(a).dtype}, requested precision {pr}")


def compare(ctx, got, want, pr, what):
    ctx.ok(len(got) == len(want), f"{what}: {len(got)} outputs, {len(want)} expected")
    for (n, a, k), (_, b, _k) in zip(got, want):
        a, b = np.asarray(a), np.asarray(b)
        ctx.ok(a.dtype == b.dtype, f"{what}: {n} is {a.dtype}, {b.dtype} from contiguous floating-point input")
        ctx.same(a, b, f"{what}: {n} differs from that of contiguous floating-point input")


def xvals(N, dim, signed):
    n = np.arange(N)
    a = (n * n * 3 + 5 * n) % 14
    if signed:
        a = a - 6
    if dim == 1:
        return a
    return np.stack([a, (n * 5) % 9, a[::-1]])


def h_fwd(ctx, c):
    fn, pr, N, dim = FWD[c['op']], c['pr'], c['N'], c['dim']
    with parallel(c['par']):
        for dt in INTS + FLTS:
            if np.dtype(dt) == np.dtype('float64') and dt == 'longdouble':
                continue
            v = xvals(N, dim, dt[0] not in 'ub')
            if dt == 'bool':
                v = v % 2
            v = v.astype(dt)
            plain = v.astype('float64')
            want = ctx.call(fn, plain, pr)
            kinds(ctx, want, pr, f"{c['op']} {pr} of float64")
            order = [dt] if dt in ('bool', 'int8', 'uint8') else [dt, np.dtype(dt).newbyteorder('S')]
            for d in order:
                for ln, x in lays(v.astype(d), 1):
                    what = f"{c['op']} {pr} N={N} of {np.dtype(d).name}{'' if d == dt else ' byte-swapped'} {ln}"
                    x0 = x.copy()
                    if c['op'].startswith(('pad', 'buffer')) and np.dtype(d) != np.dtype(pr):
                        continue
                    got = ctx.call(fn, x, pr)
                    compare(ctx, got, want, pr, what)
                    ctx.ok(np.array_equal(x, x0), f"{what}: input was changed")
            ctx.state((c['op'], pr, N, dim, [np.asarray(a) for _, a, _ in want]))


def h_bwd(ctx, c):
    op, pr, N, dim = c['op'], c['pr'], c['N'], c['dim']
    names, fn = BWD.get(op) or AUX[op]
    with parallel(c['par']):
        args = argsof(op, xvals(N, dim, True).astype('float64'), pr)
        cp = lambda: [a.copy() for a in args]
        want = ctx.call(fn, pr, *cp())
        kinds(ctx, want, pr, f"{op} {pr}")
        for i, a in enumerate(args):
            for ln, b in lays(a, a.ravel()[0]):
                if ln == 'unaligned' and names[i] in ('w',):
                    continue
                g = cp()
                g[i] = b
                b0 = b.copy()
                what = f"{op} {pr} N={N} dim={dim}, {names[i]} {ln}"
                got = ctx.call(fn, pr, *g)
                compare(ctx, got, want, pr, what)
                ctx.ok(np.array_equal(b, b0), f"{what}: argument was changed")
        # all at once
        alts = [[b for ln, b in lays(a, a.ravel()[0]) if ln != 'unaligned'] for a in args]
        for k in range(max(map(len, alts))):
            got = ctx.call(fn, pr, *[al[k % len(al)].copy(order='K') if al[k % len(al)].flags.forc else al[k % len(al)] for al in alts])
            compare(ctx, got, want, pr, f"{op} {pr} N={N} dim={dim}, all arguments laid out ({k})")
        # parameter vectors in the other precision
        for i, a in enumerate(args):
            if names[i] in ('sc', 'sc2', 'scl', 'fl', 'win', 't', 't1', 'x', 'Sfs', 'cc', 'cw'):
                for d in PREC + (('int64', 'int32') if names[i] in ('x', 'win', 'cc', 'cw') else ('int64',) if names[i] in ('t1',) else ()):
                    g = cp()
                    g[i] = a.astype(d)
                    if np.array_equal(g[i].astype(a.dtype), a) and np.array_equal(g[i], a) and not (names[i] == 'Sfs' and d != pr):
                        got = ctx.call(fn, pr, *g)
                        kinds(ctx, got, pr, f"{op} {pr}, {names[i]} {d}")
                        for (nm, p, k), (_, q, _k) in zip(got, want):
                            ctx.eq(p, np.asarray(q), f"{op} {pr} N={N} dim={dim}, {names[i]} {d}: {nm} differs", rtol=4e-6 if 'float32' in (d, pr) else 1e-12)
        ctx.state((op, pr, N, dim, [np.asarray(a) for _, a, _ in want]))


def h_agree(ctx, c):
    """Double precision results are double-accurate; single agree with them to single precision rounding."""
    N, dim = c['N'], c['dim']
    n = np.arange(N)
    x = np.cos(.9 * n + .01 * n * n) + .3 * np.sin(2.1 * n)
    if dim == 2:
        x = np.stack([x, x[::-1] * .7, np.sin(n)])
    x = x.astype('float32').astype('float64')
    with parallel(c['par']):
        for op, fn in FWD.items():
            if dim == 2 and op in NO2D:
                continue
            a, b = (ctx.call(fn, x, pr) for pr in PREC)
            for (nm, p, k), (_, q, _k) in zip(a, b):
                p, q = np.asarray(p), np.asarray(q)
                what = f"{op} N={N} dim={dim}: {nm}"
                if nm in ('Tx', 'w'):
                    continue
                if op.endswith('_leb') and nm == 'Tx':
                    continue
                ctx.eq(p, q, what + ": single and double precision disagree", rtol=3e-5)
            d, s = dict((u[0], np.asarray(u[1])) for u in b), dict((u[0], np.asarray(u[1])) for u in a)
            if 'Tx' in d and not op.endswith(('leb', 'lin', 'num')):
                # squeezing moves values between rows, keeping their sum
                ctx.eq(s['Tx'].sum(-2), d['Tx'].sum(-2), f"{op} N={N} dim={dim}: column sums of Tx: single and double precision disagree", rtol=2e-3)
            if 'w' in d:
                W = d['Wx'] if 'Wx' in d else d['Sx']
                big = (np.abs(W) > .2 * np.abs(W).max()) & np.isfinite(d['w'])
                ctx.eq(s['w'][big], d['w'][big], f"{op} N={N} dim={dim}: phase transform: single and double precision disagree", rtol=2e-4 if not op.endswith('num') else 2e-3)
        # double precision results carry double accuracy
        for pad in PADS:
            for name in ('gmw', 'morlet', 'bump', 'cmhat', 'hhhat'):
                from ssqueezepy import cwt
                for v in (True, False):
                    W, s, D = ctx.call(cwt, x, wav('float64', name), scales=SC, padtype=pad, derivative=True, vectorized=v)
                    w, dd = R.cwt(x, (name, {}), SC, pad)
                    ctx.eq(W, w, f"cwt {name} {pad}: double precision result is not double-accurate", rtol=1e-11)
                    ctx.eq(D, dd, f"cwt derivative {name} {pad}: double precision result is not double-accurate", rtol=1e-11)
        from ssqueezepy import stft, istft, icwt, issq_cwt, ssq_cwt
        S, dS = ctx.call(stft, x, W8 / 8, n_fft=8, dtype='float64', derivative=True)
        want = direct_stft(x, W8 / 8)
        ctx.eq(S, want, "stft: double precision result is not double-accurate", rtol=1e-12)
        if dim == 1:
            ctx.eq(ctx.call(istft, S, W8 / 8, n_fft=8), x, "istft: double precision result is not double-accurate", rtol=1e-12)
            ctx.eq(ctx.call(istft, S.astype('complex64'), W8 / 8, n_fft=8), x, "istft: single precision result", rtol=4e-6)
            from ssqueezepy import ssq_stft, issq_stft
            import scipy.signal as sig
            # windows whose values aren't exact in single precision
            for wn in (np.sin(np.arange(1, 9) * .34), 'hann', np.arange(1, 10) / 7.):
                nf = len(wn) if isinstance(wn, np.ndarray) else 8
                for hop in (1, 2):
                    for we in (0, 1, 2):
                        S = ctx.call(stft, x, wn, n_fft=nf, hop_len=hop, dtype='float64')
                        y = ctx.call(istft, S, wn, n_fft=nf, hop_len=hop, N=N, win_exp=we)
                        ctx.eq(y, x, f"istft window={wn} hop={hop} win_exp={we}: double precision result is not double-accurate", rtol=1e-12)
                if isinstance(wn, np.ndarray):
                    ctx.eq(ctx.call(stft, x, wn, n_fft=nf, dtype='float64'), direct_stft(x, wn), "stft: double precision result is not double-accurate", rtol=1e-12)
            for wn in ('hann', None, np.sin(np.arange(1, 13) * .24)):
                T = ctx.call(ssq_stft, x, window=wn, n_fft=12, dtype='float64')[0]
                mid = wn[6] if isinstance(wn, np.ndarray) else sig.windows.dpss(12, 4, sym=False)[6] if wn is None else 1.
                want = T.real.sum(0) * 2 / mid
                y = ctx.call(issq_stft, T, window=wn, n_fft=12)
                ctx.eq(y, want, f"issq_stft window={wn}: double precision result is not double-accurate", rtol=1e-13)
                y = ctx.call(issq_stft, T.astype('complex64'), window=wn, n_fft=12)
                ctx.eq(y, want, f"issq_stft window={wn}: single precision", rtol=4e-6)
                ctx.ok(str(y.dtype) == 'float32', f"issq_stft of complex64 is {y.dtype}")
        for tf in ('Wx', 'Tx'):
            T, W, *_ = ctx.call(ssq_cwt, x, wav('float64'), scales=SC)
            A = W if tf == 'Wx' else T
            f = (lambda A, pr: icwt(A, wav(pr), scales=SC.astype(pr))) if tf == 'Wx' else (lambda A, pr: issq_cwt(A, wav(pr)))
            y = ctx.call(f, A, 'float64')
            r = A.real.sum(-2)
            k = (y * r).sum() / (r * r).sum()
            ctx.eq(y, k * r, f"inverse of {tf}: double precision result is not double-accurate", rtol=1e-13)
            z = ctx.call(f, A.astype('complex64'), 'float32')
            ctx.ok(str(z.dtype) == 'float32', f"inverse of {tf} is {z.dtype}")
            ctx.eq(z, y, f"inverse of {tf}: single and double precision disagree", rtol=4e-6)
        ctx.state((N, dim, S))


def direct_stft(x, win):
    n_fft = len(win)
    xp = np.stack([R.pad(r, 'reflect', x.shape[-1] + n_fft - 1)[0] for r in np.atleast_2d(x)])
    k = np.arange(n_fft // 2 + 1)
    m = np.arange(n_fft)
    # modulated: phase is relative to the centre of the window
    E = np.exp(-2j * np.pi * np.outer(k, m - n_fft // 2) / n_fft)
    out = np.stack([(xp[:, i:i + n_fft] * win) @ E.T for i in range(x.shape[-1])], -1)
    return out if x.ndim == 2 else out[0]


def h_default(ctx, c):
    """Requested precision is the wavelet's or `dtype`, never that of the input"""
    from ssqueezepy import cwt, ssq_cwt, stft, ssq_stft, Wavelet, icwt
    N = c['N']
    v = xvals(N, 1, True)
    for dt in ('int64', 'float16', 'float32', 'float64', 'longdouble'):
        x = v.astype(dt)
        for wv, want in (('gmw', 'complex64'), ('morlet', 'complex64'), (('gmw', dict(dtype='float64')), 'complex128'), (Wavelet(('bump', dict(dtype='float64'))), 'complex128'), (Wavelet('cmhat'), 'complex64')):
            what = f"{wv if not isinstance(wv, Wavelet) else wv.name} of {dt}"
            W, s = ctx.call(cwt, x, wv, scales=SC)
            ctx.ok(str(W.dtype) == want, f"cwt {what}: {W.dtype}")
            ctx.ok(s.dtype == W.real.dtype, f"cwt {what}: scales {s.dtype}")
            T, W, *_ = ctx.call(ssq_cwt, x, wv, scales=SC)
            ctx.ok(str(W.dtype) == str(T.dtype) == want, f"ssq_cwt {what}: {W.dtype}, {T.dtype}")
            y = ctx.call(icwt, W, wv, scales=SC)
            ctx.ok(y.dtype == W.real.dtype, f"icwt {what}: {y.dtype}")
            ctx.state((what, W))
        for pr, want in ((None, 'complex64'), ('float32', 'complex64'), ('float64', 'complex128')):
            S = ctx.call(stft, x, n_fft=12, dtype=pr)
            T, S2, *_ = ctx.call(ssq_stft, x, n_fft=12, dtype=pr)
            ctx.ok(str(S.dtype) == str(T.dtype) == str(S2.dtype) == want, f"stft, ssq_stft dtype={pr} of {dt}: {S.dtype}, {T.dtype}, {S2.dtype}")
            ctx.state((dt, pr, S))
