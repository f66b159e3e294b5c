"""C05: output options do not alter the results they accompany."""
import itertools
import numpy as np
from ..core import Skip
from ..util import parallel, signals, isolate_wisdom
from .C04 import nearest, SSC

TECH = "bounded exhaustive enumeration of output-option combinations, every run compared with the plain run and the plain transform"
RULE = ("every configuration (layout, wavelet, pad, squeezing, differentiation, order, batch, precision) x every combination of output options "
        "(get_w, get_dWx, preserve_transform, flipud) x every signal of the alphabet; states = distinct squeezed transforms")
BOUNDS = dict(quick="N in {24}, 2 wavelets, 3 layouts, 2 pads", thorough="N in {17,24,33,48}, 4 wavelets, 3 layouts, 3 pads, both precisions everywhere")
ASSUMES = ["columns in which an above-threshold frequency is within 1e-6 (single: 2e-3) bins of a midpoint are not compared between paths"]


def gen(tier):
    q = tier == 'quick'
    for N in ((24,) if q else (17, 24, 33, 48)):
        for spec in (('gmw', 'morlet') if q else ('gmw', 'morlet', 'bump', 'gmw_l2')):
            for sc in SSC:
                for pad in ('reflect', None) + (() if q else ('zero',)):
                    for sq in ('sum', 'abs', 'lebesgue', 'conj', 'inplace'):
                        for dt in ('float64', 'float32'):
                            yield dict(h='cwt', N=N, spec=spec, sc=sc, pad=pad, sq=sq, dt=dt)
                    for diff in ('phase', ('numeric', 1), ('numeric', 2), ('numeric', 4)):
                        for sq in ('sum', 'abs'):
                            yield dict(h='cwt_diff', N=N, spec=spec, sc=sc, pad=pad, sq=sq, diff=diff)
        for sc in SSC:
            for pad in ('reflect', None):
                for order in (1, 2, [0, 1], [0, 2]):
                    for sq in ('sum', 'abs'):
                        yield dict(h='cwt_order', N=N, sc=sc, pad=pad, order=order, sq=sq)
        for n_fft in (9, 12):
            for hop in (1, 3):
                for mod in (True, False):
                    for sq in ('sum', 'abs', 'lebesgue', 'conj', 'inplace'):
                        for dt in ('float64', 'float32'):
                            yield dict(h='stft', N=N, n_fft=n_fft, hop=hop, mod=mod, sq=sq, dt=dt)
    for N in (24, 32):
        for sc in SSC:
            for tr in ('cwt', 'stft'):
                for diff in ('trig', None):
                    yield dict(h='phase_ssqueeze', N=N, sc=sc, tr=tr, diff=diff)
        for sc in SSC:
            for diff in ('trig', 'phase', ('numeric', 4), ('numeric', 1)):
                yield dict(h='phase_rpadded', N=N, sc=sc, diff=diff)
        for n_fft in (9, 12):
            for fs in (1., 50.):
                yield dict(h='stft_freqs', N=N, n_fft=n_fft, fs=fs)
    for N in (5, 8, 9, 16, 31):
        yield dict(h='trigdiff', N=N)
    for dt in ('float64', 'float32'):
        for shape in ((2, 6), (6, 2), (3, 9)):
            yield dict(h='threshold', dt=dt, shape=list(shape))


def setup(ctx):
    isolate_wisdom()


def _conj(W):
    return W.conj()


def _inplace(W):
    W *= 1 - 2j
    return W


def squeezing(sq):
    return {'conj': _conj, 'inplace': _inplace}.get(sq, sq)


def wav(spec, dt):
    return ('gmw', dict(norm='energy', dtype=dt)) if spec == 'gmw_l2' else (spec, dict(dtype=dt))


def clear_cols(w, f, log, single):
    v = np.sort(f)
    act = np.isfinite(w)
    _, amb = nearest(np.where(act, w, v[0]), v.astype('float64'), log)
    return ~((amb < (2e-3 if single else 1e-6)) & act).any(0)


OPTS = list(itertools.product((False, True), (False, True), (None, False, True), (False, True)))


def unpack(out, gw, gd, names=('T', 'W', 'f', 's')):
    ex = (['w'] if gw else []) + (['d'] if gd else [])
    if len(out) != 4 + len(ex):
        return None
    return dict(zip(list(names) + ex, out))


def compare(ctx, get, plainW, plainD, scales, log_of, single, shape, opts=OPTS, need_w=False):
    """get(**opts) runs; all results compared with the (get_w, get_dWx)=(True, True) run and the plain transform"""
    na, n = shape
    ref = unpack(ctx.call(get, get_w=True, get_dWx=True, preserve_transform=None, flipud=False), True, True)
    ok = clear_cols(ref['w'], ref['f'], log_of, single)
    ctx.count('columns', int(ok.sum()))
    tol = 5e-5 if single else 1e-9
    sT = np.abs(ref['T']).max()
    for gw, gd, pt, fl in opts:
        if need_w and not gw:
            continue
        what = f'get_w={gw} get_dWx={gd} preserve={pt} flipud={fl}: '
        o = unpack(ctx.call(get, get_w=gw, get_dWx=gd, preserve_transform=pt, flipud=fl), gw, gd)
        ctx.ok(o is not None, what + 'number of outputs')
        f, T = (o['f'][::-1], o['T'][::-1]) if fl else (o['f'], o['T'])
        ctx.eq(f, ref['f'], what + 'frequencies', rtol=0)
        ctx.ok(T.shape == (len(f), n), what + 'shape of Tx')
        ctx.eq(T[:, ok], ref['T'][:, ok], what + 'squeezed', rtol=tol, scale=sT)
        ctx.ok(T.dtype == ref['T'].dtype, what + 'dtype')
        if pt is not False:
            ctx.same(o['W'], plainW, what + 'transform')
        else:
            ctx.ok(o['W'].shape == (na, n), what + 'transform shape')
        if gw:
            ctx.same(o['w'], ref['w'], what + 'w')
            ctx.ok(o['w'].shape == (na, n), what + 'w shape')
        if gd:
            ctx.eq(o['d'], plainD, what + 'derivative', rtol=0 if not need_w else tol)
        ctx.eq(o['s'], scales, what + 'scales', rtol=0)
        ctx.state([T])
    return ref


def h_cwt(ctx, c):
    from ssqueezepy import ssq_cwt, cwt
    sc, dt = SSC[c['sc']], c['dt']
    single = dt == 'float32'
    log = c['sc'] != 'lin'
    if single and c['pad'] is None:
        c = dict(c, N=c['N'] + 20)      # largest scale must be resolved by the transform length
    for nm, x in signals(c['N']).items():
        base = dict(wavelet=wav(c['spec'], dt), scales=sc, padtype=c['pad'])
        W, s, D = ctx.call(cwt, x, derivative=True, **base)
        if nm == 'silent':      # default threshold
            gam = None
        else:
            gam = 1e-3
        get = lambda **k: ssq_cwt(x, squeezing=squeezing(c['sq']), gamma=gam, **base, **k)
        ref = compare(ctx, get, W, D, s, log, single, (len(sc), c['N']))
        ctx.eq(s, sc.astype(s.dtype), 'scales', rtol=1e-6)
        # batched
        X = np.stack([x, x[::-1], 0 * x])
        ok = clear_cols(ref['w'], ref['f'], log, single)
        for gd in (False, True):
            for fl in (False, True):
                for pt in (None, False, True):
                    o = unpack(ctx.call(ssq_cwt, X, squeezing=squeezing(c['sq']), gamma=gam, get_dWx=gd, flipud=fl, preserve_transform=pt, **base),
                               False, gd)
                    ctx.ok(o is not None, 'number of outputs, batched')
                    T, f = (o['T'][0][::-1], o['f'][::-1]) if fl else (o['T'][0], o['f'])
                    ctx.eq(T[:, ok], ref['T'][:, ok], f'batched, get_dWx={gd} flipud={fl}', rtol=5e-5 if single else 1e-9, scale=np.abs(ref['T']).max())
                    ctx.eq(f, ref['f'], 'frequencies, batched', rtol=0)
                    if pt is not False:
                        ctx.eq(o['W'][0], W, 'transform, batched', rtol=5e-6 if single else 1e-12)
                    if gd:
                        ctx.eq(o['d'][0], D, 'derivative, batched', rtol=5e-6 if single else 1e-12)


def h_cwt_diff(ctx, c):
    from ssqueezepy import ssq_cwt, cwt, phase_cwt
    from ssqueezepy._ssq_cwt import phase_cwt_num
    sc = SSC[c['sc']]
    log = c['sc'] != 'lin'
    diff, do = c['diff'] if isinstance(c['diff'], (list, tuple)) else (c['diff'], None)
    for nm, x in signals(c['N']).items():
        base = dict(wavelet=wav(c['spec'], 'float64'), scales=sc, padtype=c['pad'])
        W, s, D = ctx.call(cwt, x, derivative=True, **base)
        get = lambda **k: ssq_cwt(x, squeezing=squeezing(c['sq']), gamma=1e-3, difftype=diff, difforder=do, **base, **k)
        ref = compare(ctx, get, W, D, s, log, False, (len(sc), c['N']), need_w=True)
        # instantaneous frequency per documented finite difference
        if diff == 'phase':
            u = np.unwrap(np.angle(W), axis=-1)
            want = np.abs(np.diff(u, axis=-1)) / (2 * np.pi)
            want[np.abs(W[:, :-1]) < 1e-3] = np.inf
            ctx.eq(ref['w'][:, :-1], want, 'w from phase differences', rtol=1e-9)
        else:
            P = ctx.call(cwt, x, derivative=False, rpadded=True, **base)[0]
            from .. import ref as R
            off = 0
            if c['pad']:
                off = R.p2up(c['N'])[1]
            idx = np.arange(c['N']) + off
            sh = lambda k: P[:, (idx + k) % P.shape[-1]]
            d = {1: sh(1) - sh(0), 2: (-sh(2) + 4 * sh(1) - 3 * sh(0)) / 2, 4: (-sh(2) + 8 * sh(1) - 8 * sh(-1) + sh(-2)) / 12}[do]
            with np.errstate(all='ignore'):
                want = np.abs((d / W).imag) / (2 * np.pi)
            want[np.abs(W) <= 1e-3] = np.inf
            # margins: differences beyond the 4 kept margin samples wrap
            lo = 0 if P.shape[-1] >= c['N'] + 4 and off >= 2 else 2
            ctx.eq(ref['w'][:, lo:c['N'] - 2 * (lo > 0)], want[:, lo:c['N'] - 2 * (lo > 0)], f'w from finite differences of order {do}', rtol=1e-9)


def h_cwt_order(ctx, c):
    from ssqueezepy import ssq_cwt, cwt
    sc = SSC[c['sc']]
    log = c['sc'] != 'lin'
    order = c['order']
    for nm, x in signals(c['N']).items():
        base = dict(wavelet=('gmw', dict(dtype='float64')), scales=sc, padtype=c['pad'], order=order)
        W, s = ctx.call(cwt, x, average=isinstance(order, list), **base)
        get = lambda **k: ssq_cwt(x, squeezing=squeezing(c['sq']), gamma=1e-3, **base, **k)
        D = get(get_w=True, get_dWx=True)[-1]
        ctx.ok(D.shape == W.shape, 'derivative shape')
        compare(ctx, get, W, D, s, log, False, (len(sc), c['N']))


def h_stft(ctx, c):
    from ssqueezepy import ssq_stft, stft
    dt = c['dt']
    single = dt == 'float32'
    for nm, x in signals(c['N']).items():
        for fs in (1., 20.):
            base = dict(n_fft=c['n_fft'], hop_len=c['hop'], modulated=c['mod'], dtype=dt, fs=fs)
            S, D = ctx.call(stft, x, derivative=True, **base)
            gam = None if nm == 'silent' else 1e-3
            get = lambda **k: ssq_stft(x, squeezing=squeezing(c['sq']), gamma=gam, **base, **k)
            sfs = np.linspace(0, .5 * fs, len(S), dtype=dt)
            ref = compare(ctx, get, S, D, sfs, False, single, S.shape)
            ctx.eq(ref['f'], sfs, 'frequencies default to transform frequencies', rtol=0)
            X = np.stack([x, x[::-1], 0 * x])
            ok = clear_cols(ref['w'], ref['f'], False, single)
            for gd in (False, True):
                for fl in (False, True):
                    for pt in (None, False, True):
                        o = unpack(ctx.call(ssq_stft, X, squeezing=squeezing(c['sq']), gamma=gam, get_dWx=gd, flipud=fl, preserve_transform=pt, **base),
                                   False, gd)
                        T = o['T'][0][::-1] if fl else o['T'][0]
                        ctx.eq(T[:, ok], ref['T'][:, ok], f'batched, get_dWx={gd} flipud={fl}', rtol=5e-5 if single else 1e-9,
                               scale=np.abs(ref['T']).max())
                        ctx.eq(o['f'], sfs[::-1] if fl else sfs, 'frequencies, batched', rtol=0)
                        if pt is not False:
                            ctx.eq(o['W'][0], S, 'transform, batched', rtol=5e-6 if single else 1e-12)
                        if gd:
                            ctx.eq(o['d'][0], D, 'derivative, batched', rtol=5e-6 if single else 1e-12)


def h_phase_ssqueeze(ctx, c):
    """the two-step front end agrees with the fused one"""
    from ssqueezepy import ssq_cwt, cwt, stft, ssq_stft
    from ssqueezepy.experimental import phase_ssqueeze
    sc = SSC[c['sc']]
    log = c['sc'] != 'lin'
    for nm, x in signals(c['N']).items():
        if c['tr'] == 'cwt':
            base = dict(wavelet=('gmw', dict(dtype='float64')), scales=sc)
            W, s, D = cwt(x, derivative=True, **base)
            plain = lambda **k: ssq_cwt(x, gamma=1e-3, **base, **k)
            kw = dict(scales=s, wavelet=base['wavelet'], maprange='peak')
        else:
            base = dict(n_fft=9, dtype='float64')
            W, D = stft(x, derivative=True, **base)
            plain = lambda **k: ssq_stft(x, gamma=1e-3, **base, **k)
            sfs = np.linspace(0, .5, len(W))
            kw = dict(Sfs=sfs, ssq_freqs=sfs, transform='stft')
        ref = plain(get_w=True, get_dWx=True, flipud=False)
        ok = clear_cols(ref[4], ref[2], c['tr'] == 'cwt' and log, False)
        for gw in (False, True):
            for fl in (False, True):
                for pd in ((True,) if c['diff'] is None or c['tr'] == 'stft' else (True, False)):
                    if not pd:
                        # derivative is then taken from the given (cut) transform with margin handling
                        continue
                    T, W2, f, s2, _, w, d = ctx.call(phase_ssqueeze, W.copy(), dWx=D.copy(), gamma=1e-3, get_w=gw, get_dWx=True, flipud=fl,
                                                     difftype=c['diff'] or 'trig', **{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
                    T, f = (T[::-1], f[::-1]) if fl else (T, f)
                    ctx.eq(f, ref[2], 'frequencies', rtol=1e-12)
                    ctx.eq(T[:, ok], ref[0][:, ok], f'phase_ssqueeze get_w={gw} flipud={fl}', rtol=1e-9, scale=np.abs(ref[0]).max())
                    ctx.same(W2, W, 'transform')
                    if gw:
                        ctx.eq(w, ref[4], 'w', rtol=1e-9)
                    ctx.state([T])


def h_phase_rpadded(ctx, c):
    """passing the padded transform equals passing the cut one"""
    from ssqueezepy import ssq_cwt, cwt
    from ssqueezepy.experimental import phase_ssqueeze
    from .. import ref as R
    sc = SSC[c['sc']]
    N = c['N']
    n1 = R.p2up(N)[1]
    log = c['sc'] != 'lin'
    diff, do = c['diff'] if isinstance(c['diff'], (list, tuple)) else (c['diff'], None)
    for nm, x in signals(N).items():
        for fs, kt in ((1., {}), (4., dict(fs=4.)), (4., dict(t=np.arange(N) / 4.))):
            base = dict(wavelet=('gmw', dict(dtype='float64')), scales=sc)
            P, s, DP = cwt(x, derivative=True, rpadded=True, fs=fs, **base)
            ref = ssq_cwt(x, gamma=1e-3, fs=fs, get_w=True, get_dWx=True, flipud=False, difftype=diff, difforder=do, **base)
            ok = clear_cols(ref[4], ref[2], log, False)
            for give in (True, False):
                out = ctx.call(phase_ssqueeze, P.copy(), dWx=DP.copy() if give else None, scales=s, wavelet=base['wavelet'], gamma=1e-3, rpadded=True,
                               N=N, n1=n1 if give else None, difftype=diff, difforder=do, get_w=True, get_dWx=True, **kt)
                T, W, f, s2, _, w, d = out
                ctx.eq(W, ref[1], 'transform', rtol=1e-12)
                ctx.eq(d, ref[5], 'derivative', rtol=1e-9)
                ctx.eq(w[:, ok], ref[4][:, ok], 'w', rtol=1e-6)
                ctx.eq(f, ref[2], 'frequencies', rtol=1e-12)
                ctx.eq(T[:, ok], ref[0][:, ok], 'squeezed', rtol=1e-8, scale=np.abs(ref[0]).max())
                ctx.state([T])


def h_stft_freqs(ctx, c):
    """naming the default frequencies changes nothing; a custom frequency axis of the transform is used"""
    from ssqueezepy import ssq_stft, stft
    from ssqueezepy.experimental import phase_ssqueeze
    for nm, x in signals(c['N']).items():
        kw = dict(n_fft=c['n_fft'], fs=c['fs'], dtype='float64', gamma=1e-3)
        a = ctx.call(ssq_stft, x, **kw)
        for sf in ('linear', a[2].copy()):
            b = ctx.call(ssq_stft, x, ssq_freqs=sf, **kw)
            for p, q in zip(a, b):
                ctx.eq(p, q, 'ssq_freqs named', rtol=1e-12)
        S, D = stft(x, derivative=True, n_fft=c['n_fft'], fs=c['fs'], dtype='float64')
        Sfs = np.linspace(.01, .5, len(S)) * c['fs']
        with np.errstate(all='ignore'):
            want = np.where(np.abs(S) > 1e-3, np.abs(Sfs[:, None] - (D / S).imag / 2 / np.pi), np.inf)
        out = ctx.call(phase_ssqueeze, S.copy(), dWx=D.copy(), Sfs=Sfs, ssq_freqs=Sfs, gamma=1e-3, fs=c['fs'], transform='stft', get_w=True)
        ctx.eq(out[5], want, 'w from given frequency axis', rtol=1e-9)
        ctx.eq(out[4], Sfs, 'frequency axis', rtol=0)
        if nm != 'silent':
            for sq in ('log', 'log-piecewise'):
                try:
                    ssq_stft(x, ssq_freqs=sq, **kw)
                    ctx.fail('non-linear frequencies accepted')
                except ValueError:
                    ctx.ok(True, '')


def h_threshold(ctx, c):
    """the default threshold is ten machine epsilons of the transform's precision, wherever it isn't given"""
    from ssqueezepy import phase_cwt, phase_stft
    from ssqueezepy._ssq_cwt import phase_cwt_num
    from ssqueezepy.experimental import phase_ssqueeze
    dt, (r, n) = c['dt'], c['shape']
    eps = np.finfo(dt).eps
    cd = 'complex128' if dt == 'float64' else 'complex64'
    mags = np.array([0, 2, 9, 11, 30, 1e3, .5 / np.sqrt(eps), 2 / np.sqrt(eps), .1 / eps, 1 / eps]) * eps
    for off in range(len(mags)):
        m = mags[(np.arange(r * n) * 3 + off) % len(mags)].reshape(r, n)
        W = (m * np.exp(1j * (.3 + .7 * np.arange(r * n).reshape(r, n)))).astype(cd)
        D = (W * (1j * 2 * np.pi * .11 * np.ones((r, n)))).astype(cd)
        Sfs = np.linspace(0, .5, r, dtype=dt)
        small = m < 10 * eps
        for par in (False, True):
            outs = {'phase_cwt': ctx.call(phase_cwt, W.copy(), D.copy(), parallel=par), 'phase_stft': ctx.call(phase_stft, W.copy(), D.copy(), Sfs, parallel=par)}
            if not par:
                outs['phase_cwt, phase'] = ctx.call(phase_cwt, W.copy(), None, difftype='phase', parallel=False)
                if n > 4:
                    outs['phase_cwt_num'] = ctx.call(phase_cwt_num, W.copy(), 1.)
                outs['phase_ssqueeze, stft'] = ctx.call(phase_ssqueeze, W.copy(), dWx=D.copy(), Sfs=Sfs, ssq_freqs=Sfs, transform='stft', get_w=True)[5]
                s = ctx.call(phase_ssqueeze, W.copy(), dWx=D.copy(), ssq_freqs=None, transform='stft', get_w=True)
                ctx.eq(s[5], outs['phase_ssqueeze, stft'], 'default frequencies of the transform', rtol=1e-6)
            for k, w in outs.items():
                ctx.ok(w.shape == (r, n) and np.array_equal(np.isinf(w), small), lambda: f'{k} parallel={par} {dt}: magnitudes ignored {np.unique(m[np.isinf(w)] / eps)} eps, '
                       f'used {np.unique(m[~np.isinf(w)] / eps)} eps')
                ctx.state([k, dt, par, w])


def h_trigdiff(ctx, c):
    """differentiation of batches equals differentiation of each"""
    from ssqueezepy.utils import trigdiff
    n = np.arange(c['N'])
    A = np.stack([np.stack([np.exp(1j * .3 * k * n) + k for k in range(3)]), np.stack([np.cos(.2 * k * n) + 0j for k in range(3)])])
    for pad in ('reflect', 'zero', 'wrap'):
        got = ctx.call(trigdiff, A, fs=3., padtype=pad)
        for k in range(2):
            ctx.eq(got[k], trigdiff(A[k], fs=3., padtype=pad), f'batched, {pad}', rtol=1e-12)
    for k in range(2):
        xi = 2 * np.pi * np.fft.fftfreq(c['N'])
        xi[c['N'] // 2] = abs(xi[c['N'] // 2]) if c['N'] % 2 == 0 else xi[c['N'] // 2]
        want = np.fft.ifft(np.fft.fft(A[k]) * 1j * xi * 3.)
        got = ctx.call(trigdiff, A[k], fs=3., rpadded=True, N=c['N'], n1=0)
        ctx.eq(got, want, 'derivative of the trigonometric interpolant', rtol=1e-10)
