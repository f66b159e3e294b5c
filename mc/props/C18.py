"""C18: giving the sampling rate, or the equivalent time vector, rescales exactly the quantities that carry units."""
import itertools
import numpy as np
from ..core import Skip
from ..util import signals, isolate_wisdom
from .C04 import nearest

TECH = "exhaustive enumeration of configurations x rates x forms of giving the rate, run as pairs of executions of the real code (unit rate vs physical rate) related by the exact unit of each output"
RULE = ("every transform/squeeze/phase routine x layout x range mode x differentiation type x squeezing mode x order x padding x lengths x signals, at every rate of the alphabet, given as a rate, as a time vector (float, shifted, list, integer, float32) or both; "
        "every malformed rate and time vector x every routine that takes them; states = distinct (configuration, rate, form) with their outputs")
BOUNDS = dict(quick="N in {33,48}; 7 rates x 3-5 forms", thorough="N in {24,33,48,65,100}; 12 rates x all forms; single and double precision throughout")
ASSUMES = ["squeezed coefficients whose frequency is within 1e-6 bin (single precision: 1e-2) of a tie between two bins may go to either", "time vectors rounded to float32 determine the rate up to that rounding of their first step"]
CASE_LIMIT_S = 500

RATES = [2., .5, 1 / 3, 7.3, 44100., 1e-4, 3e6]
MORE = [1., 4., 1e-7, 1e9, 999.]


def setup(ctx):
    isolate_wisdom()


def rates(ctx):
    return RATES if ctx.quick else RATES + MORE


def forms(N, r, full=True):
    n = np.arange(N)
    out = [('fs', dict(fs=r), r), ('t', dict(t=n / r), r), ('both', dict(fs=3.7 * r, t=n / r), r)]
    if full:
        out.append(('shifted', dict(t=-17.3 / r + n / r), r))
        t32 = (n / r).astype('float32')
        out.append(('t32', dict(t=t32), 1. / float(t32[1] - t32[0])))
        out.append(('list', dict(t=list(n / r)), r))
        out.append(('linspace', dict(t=np.linspace(0, N / r, N, endpoint=False)), r))
        if r == .5:
            out.append(('int', dict(t=2 * n + 5), r))
        if float(r).is_integer() and r < 1e6:
            out.append(('intfs', dict(fs=int(r)), r))
            out.append(('npfs', dict(fs=np.float64(r)), r))
    return out


def SC(kind):
    if kind == 'log':
        return 2. ** (1 + np.arange(30) / 8)
    if kind == 'lin':
        return np.linspace(2., 20., 24)
    if kind == 'pw':
        return 2. ** np.hstack([1 + np.arange(18) / 8, 1 + 17 / 8 + np.arange(1, 9) / 2])
    return kind


WV = dict(gmw=('gmw', dict(dtype='float64')), morlet=('morlet', dict(dtype='float64')), bump=('bump', dict(dtype='float64')), gmw32='gmw')


def gen(tier):
    q = tier == 'quick'
    Ns = (33, 48) if q else (24, 33, 48, 65, 100)
    for N in Ns:
        for wv in ('gmw', 'morlet') if q else WV:
            for sc in ('log', 'lin', 'pw'):
                for pad in ('reflect', None):
                    for sig in ('chirp', 'impulse') if q else ('chirp', 'impulse', 'tones', 'alt'):
                        yield dict(h='cwt', N=N, wv=wv, sc=sc, pad=pad, sig=sig)
                    for mr in ('peak', 'energy', 'maximal', 'tuple', 'freqs_lin', 'freqs_log', 'str_log', 'str_linear'):
                        yield dict(h='ssq_cwt', N=N, wv=wv, sc=sc, pad=pad, mr=mr)
        for sc in ('log', 'log-piecewise', 'linear'):
            yield dict(h='generated', N=N, sc=sc)
        for nf in (9, 12, None):
            for hop in (1, 2, 3):
                for mod in (True, False):
                    yield dict(h='stft', N=N, nf=nf, hop=hop, mod=mod)
        yield dict(h='direct', N=N)
        yield dict(h='conv', N=N)
        yield dict(h='malformed', N=N)


def unit(ctx, got, base, u, what, rtol):
    if base is None or isinstance(base, str):
        ctx.ok(got is None or got == base, what)
        return
    ctx.eq(np.asarray(got), np.asarray(base) * u, what, rtol=rtol, dtype=np.asarray(base).dtype if np.asarray(base).dtype.kind == 'c' else None)


def compare_sq(ctx, T, T0, W, w, v, what, rtol, ameps, flip=False):
    """squeezed transforms agree in all columns without a coefficient at a tie; their column sums agree everywhere"""
    ctx.eq(T.sum(-2), T0.sum(-2), what + ': column sums', rtol=max(rtol, 1e-10) * 10)
    if flip:
        v = v[::-1]
    log = abs(v[2] - 2 * v[1] + v[0]) > 1e-3 * abs(v[1] - v[0])
    k, amb = nearest(np.where(w == 0, v[v > 0].min() * 1e-6 if log else 0, w), v, log)
    act = np.isfinite(w) & (np.abs(W) > 0)
    tie = (act & (amb < ameps)).any(-2)
    if (np.diff(v) == 0).any():         # coinciding bins: nothing but the sums is determined
        return
    ctx.ok(tie.mean() <= .5, f'{what}: harness: too many ties ({tie.mean():.2f})')
    ctx.eq(T[..., ~tie], T0[..., ~tie], what + ': squeezed', rtol=max(rtol, 1e-10) * 10, scale=float(np.abs(T0).max()))


def h_cwt(ctx, c):
    from ssqueezepy import cwt
    N = c['N']
    x = signals(N)[c['sig']]
    single = c['wv'].endswith('32')
    tol = 2e-6 if single else 1e-12
    for vec, rp, l1, order in [(True, False, True, 0), (False, True, True, 0), (True, True, False, 0)] + ([(True, False, True, 1), (True, True, True, (0, 1))] if c['wv'].startswith('gmw') else []):
        kw = dict(scales=SC(c['sc']), padtype=c['pad'], derivative=True, vectorized=vec, rpadded=rp, l1_norm=l1, order=order)
        X = np.stack([x, -2 * x[::-1]]) if vec and order == 0 else x
        base = ctx.call(cwt, X, WV[c['wv']], **kw)
        plain = ctx.call(cwt, X, WV[c['wv']], **dict(kw, derivative=False))
        ctx.eq(plain[0], base[0], 'with and without derivative', rtol=tol)
        for r in rates(ctx):
            for nm, f, rr in forms(N, r):
                what = f'cwt({c["wv"]}, {c["sc"]}, vectorized={vec}, rpadded={rp}, l1_norm={l1}, order={order}), rate {r:g} given as {nm}'
                W, s, D = ctx.call(cwt, X, WV[c['wv']], **kw, **f)
                t2 = max(tol, 1e-9 if nm in ('shifted', 'linspace') else 0)
                unit(ctx, W, base[0], 1, what + ': transform', tol)
                unit(ctx, s, base[1], 1, what + ': scales', tol)
                unit(ctx, D, base[2], rr, what + ': derivative', t2)
                ctx.state((c['wv'], c['sc'], nm, r, c['N'], vec, rp, l1, str(order)))
        r = 7.3
        W, s = ctx.call(cwt, X, WV[c['wv']], **dict(kw, derivative=False), fs=r)
        unit(ctx, W, base[0], 1, 'transform without derivative', tol)


def mkargs(mr, r):
    return dict(peak=dict(maprange='peak'), energy=dict(maprange='energy'), maximal=dict(maprange='maximal', ssq_freqs='log'), tuple=dict(maprange=(.03 * r, .4 * r), ssq_freqs='log'),
                freqs_lin=dict(ssq_freqs=np.linspace(.02, .45, 20) * r), freqs_log=dict(ssq_freqs=np.geomspace(.02, .45, 20) * r),
                str_log=dict(ssq_freqs='log', maprange='peak'), str_linear=dict(ssq_freqs='linear', maprange='energy'))[mr]


def h_ssq_cwt(ctx, c):
    from ssqueezepy import ssq_cwt, issq_cwt
    N = c['N']
    single = c['wv'].endswith('32')
    tol, am = (3e-5, 1e-2) if single else (1e-9, 1e-6)
    sg = signals(N)
    V = [dict(difftype='trig', get_w=False), dict(difftype='trig'), dict(difftype='phase'), dict(difftype='numeric', difforder=1), dict(difftype='numeric', difforder=2), dict(difftype='numeric', difforder=4),
         dict(squeezing='abs', get_w=False), dict(squeezing='lebesgue'), dict(squeezing=lambda z: z * 2, get_w=False), dict(flipud=False)]
    if c['wv'].startswith('gmw'):
        V += [dict(order=1), dict(order=(0, 2), get_w=False)]
    for i, v in enumerate(V):
        x = sg['tones'] + .3 * sg['impulse'] if i % 2 else sg['chirp']
        gw = v.get('get_w', True)
        kw = dict(dict(scales=SC(c['sc']), padtype=c['pad'], get_w=True, get_dWx=True, gamma=1e-4), **v)
        base = ctx.call(ssq_cwt, x, WV[c['wv']], **kw, **mkargs(c['mr'], 1.))
        T0, W0, f0, s0 = base[:4]
        w0 = base[4] if gw else np.where(np.abs(W0) > 1e-4, np.abs((base[4] / W0).imag) / (2 * np.pi), np.inf)
        d0 = base[-1]
        flip = kw.get('flipud', True)
        inv0 = ctx.call(issq_cwt, T0, WV[c['wv']])
        for j, r in enumerate(rates(ctx)):
            if ctx.quick and i > 1 and (i + j) % 3:
                continue
            F = forms(N, r)
            F = F if i < 2 and not ctx.quick else F[:3] if j % 3 == 0 else [F[(i + j) % len(F)]]
            for nm, f, rr in F:
                what = f'ssq_cwt({c["wv"]}, {c["sc"]}, pad={c["pad"]}, {c["mr"]}, {v}), rate {r:g} given as {nm}'
                t2 = max(tol, 1e-6 if nm == 't32' else 1e-9)
                if nm == 't32' and c['mr'] not in ('peak', 'energy', 'maximal'):
                    continue        # explicit frequencies are in exact units of the rate
                o = ctx.call(ssq_cwt, x, WV[c['wv']], **kw, **mkargs(c['mr'], r), **f)
                unit(ctx, o[1], W0, 1, what + ': transform', tol)
                unit(ctx, o[3], s0, 1, what + ': scales', tol)
                ctx.eq(o[2], np.asarray(f0) * rr, what + ': frequencies', rtol=t2)
                unit(ctx, o[-1], d0, rr, what + ': derivative', max(t2, tol))
                if gw:
                    fin = np.isfinite(w0)
                    ctx.ok((np.isfinite(o[4]) == fin).all(), f'{what}: activity of instantaneous frequencies')
                    ctx.ok((np.abs(o[4][fin] - w0[fin] * rr) <= max(t2, tol) * 100 * (w0[fin] + .01) * rr).all(), f'{what}: instantaneous frequencies')
                compare_sq(ctx, np.asarray(o[0]), np.asarray(T0), W0, w0, np.asarray(f0), what, max(tol, t2 if nm == 't32' else 0), max(am, 1e-4 if nm == 't32' else 0), flip)
                ctx.state((c['wv'], c['sc'], c['mr'], i, nm, r, N))
        inv = ctx.call(issq_cwt, o[0], WV[c['wv']])
        ctx.eq(np.asarray(inv), np.asarray(inv0), 'inverse', rtol=max(tol, 1e-7) * 100)


def h_generated(ctx, c):
    """library-made scales do not depend on the rate"""
    from ssqueezepy import ssq_cwt, cwt, icwt
    N = c['N']
    x = signals(N)['chirp']
    for nv in ((8, None) if c['sc'] != 'linear' else (None,)):
        kw = dict(scales=c['sc'], nv=nv) if c['sc'] != 'linear' else dict(scales=np.linspace(2, 14, 20))
        try:
            base = ctx.call(ssq_cwt, x, WV['gmw'], get_dWx=True, **kw)
        except Exception as e:
            if 'transition' in str(e) or 'sequential' in str(e) or 'xi divisions' in str(e):
                raise Skip()
            raise
        cb = ctx.call(cwt, x, WV['gmw'], derivative=True, **kw)
        for r in rates(ctx):
            for nm, f, rr in forms(N, r, False):
                o = ctx.call(ssq_cwt, x, WV['gmw'], get_dWx=True, **kw, **f)
                for k, u in ((1, 1), (2, rr), (3, 1), (4, rr)):
                    ctx.eq(np.asarray(o[k]), np.asarray(base[k]) * u, f'ssq_cwt({c["sc"]}, nv={nv}) output {k}, rate {r:g} given as {nm}', rtol=1e-9)
                ctx.eq(o[0].sum(0), base[0].sum(0), 'column sums', rtol=1e-8)
                o = ctx.call(cwt, x, WV['gmw'], derivative=True, **kw, **f)
                for k, u in ((0, 1), (1, 1), (2, rr)):
                    ctx.eq(np.asarray(o[k]), np.asarray(cb[k]) * u, f'cwt({c["sc"]}, nv={nv}) output {k}, rate {r:g} given as {nm}', rtol=1e-9)
                ctx.state((c['sc'], nv, r, nm))


def h_stft(ctx, c):
    from ssqueezepy import stft, ssq_stft, issq_stft
    N, nf = c['N'], c['nf']
    for dt, sig in itertools.product(('float64',) if ctx.quick else ('float64', 'float32'), ('chirp', 'impulse', 'tones')):
        tol, am = (1e-9, 1e-6) if dt == 'float64' else (3e-5, 1e-2)
        x = signals(N)[sig]
        win = np.hanning(nf - 2)[1:] if nf and nf % 2 == 0 else None
        win = win if nf else None
        kw = dict(n_fft=nf, hop_len=c['hop'], modulated=c['mod'], dtype=dt, window=win)
        base = ctx.call(stft, x, derivative=True, **kw)
        X = np.stack([x, x[::-1] * .5])
        bb = ctx.call(stft, X, derivative=True, **kw)
        sq = []
        if c['hop'] == 1:
            for v in (dict(get_w=True), dict(), dict(squeezing='abs'), dict(squeezing='lebesgue', get_w=True), dict(flipud=True), dict(ssq_freqs='exp')):
                k2 = dict(kw, get_dWx=True, gamma=1e-3, **v)
                k2.pop('hop_len')
                if k2.get('ssq_freqs') == 'exp':
                    k2['ssq_freqs'] = np.linspace(0., .5, base[0].shape[0] + 3)
                sq.append((k2, v, ctx.call(ssq_stft, x, **k2)))
        for r in rates(ctx):
            for nm, f, rr in forms(N, r):
                what = f'stft(n_fft={nf}, hop={c["hop"]}, modulated={c["mod"]}, {dt}), rate {r:g} given as {nm}'
                S, D = ctx.call(stft, x, derivative=True, **kw, **f)
                t2 = max(tol, 1e-6 if nm == 't32' else 0)
                unit(ctx, S, base[0], 1, what + ': transform', tol)
                unit(ctx, D, base[1], rr, what + ': derivative', max(tol, t2))
                S1 = ctx.call(stft, x, derivative=False, **kw, **f)
                unit(ctx, S1, base[0], 1, what + ': transform without derivative', tol)
                S, D = ctx.call(stft, X, derivative=True, **kw, **f)
                unit(ctx, S, bb[0], 1, what + ': batched transform', tol)
                unit(ctx, D, bb[1], rr, what + ': batched derivative', max(tol, t2))
                ctx.state((nf, c['hop'], c['mod'], dt, nm, r, N))
                if nm in ('list', 'linspace', 'shifted') and ctx.quick:
                    continue
                for k2, v, b in sq:
                    k3 = dict(k2)
                    if 'ssq_freqs' in k3:
                        if nm == 't32':
                            continue
                        k3['ssq_freqs'] = k3['ssq_freqs'] * r
                    o = ctx.call(ssq_stft, x, **k3, **f)
                    w2 = f'ssq_{what}, {v}'
                    unit(ctx, o[1], b[1], 1, w2 + ': transform', tol)
                    ctx.eq(np.asarray(o[2]), np.asarray(b[2]) * rr, w2 + ': frequencies', rtol=max(t2, 1e-6 if dt == 'float32' else 0))
                    ctx.eq(np.asarray(o[3]), np.asarray(b[3]) * rr, w2 + ': transform frequencies', rtol=max(t2, 1e-6 if dt == 'float32' else 0))
                    unit(ctx, o[-1], b[-1], rr, w2 + ': derivative', max(tol, t2))
                    w0 = np.where(np.abs(b[1]) > 1e-3, np.abs(b[3][:, None] - (b[-1] / b[1]).imag / (2 * np.pi)), np.inf)
                    if v.get('get_w'):
                        fin = np.isfinite(b[4])
                        ctx.ok((np.isfinite(o[4]) == fin).all(), f'{w2}: activity of instantaneous frequencies')
                        ctx.ok((np.abs(o[4][fin] - b[4][fin] * rr) <= max(tol, t2) * 100 * (b[4][fin] + .5) * rr).all(), f'{w2}: instantaneous frequencies')
                    ctx.eq(o[0].sum(0), b[0].sum(0), w2 + ': column sums', rtol=max(tol, 1e-8, t2) * 10)
                    k, amb = nearest(w0, np.asarray(b[2])[::-1] if v.get('flipud') else np.asarray(b[2]), False)
                    tie = (np.isfinite(w0) & (amb < max(am, 1e-4 if nm == 't32' else 0))).any(0)
                    if sig != 'impulse':
                        ctx.ok(tie.mean() <= .6, f'{w2}: harness: too many ties ({tie.mean():.2f})')
                    ctx.eq(o[0][:, ~tie], b[0][:, ~tie], w2 + ': squeezed', rtol=max(tol, t2) * 10, scale=float(np.abs(b[0]).max()))
                    if not v.get('squeezing') and not v.get('flipud') and not tie.any() and 'ssq_freqs' not in v and c['mod']:
                        ik = dict(n_fft=nf, window=win, modulated=c['mod'])
                        ctx.eq(ctx.call(issq_stft, o[0], **ik), ctx.call(issq_stft, b[0], **ik), w2 + ': inverse', rtol=max(tol, 1e-5 if dt == 'float32' else 1e-7) * 10)


def h_direct(ctx, c):
    """ssqueeze, phase routines and trigdiff called directly"""
    from ssqueezepy import cwt, stft, ssqueeze, phase_cwt, phase_stft
    from ssqueezepy._ssq_cwt import phase_cwt_num
    from ssqueezepy.experimental import phase_ssqueeze, phase_transform
    from ssqueezepy.utils.common import trigdiff
    from ssqueezepy.wavelets import Wavelet
    N = c['N']
    x = signals(N)['chirp'] + .2 * signals(N)['tones']
    wav = Wavelet(WV['gmw'])
    g = 1e-4
    for sc in ('log', 'lin', 'pw'):
        W, s, D = ctx.call(cwt, x, wav, scales=SC(sc), derivative=True)
        Wp = ctx.call(cwt, x, wav, scales=SC(sc), rpadded=True)[0]
        w1 = ctx.call(phase_cwt, W, D, gamma=g)
        n1 = (Wp.shape[-1] - N) // 2
        from .. import ref
        n1 = ref.p2up(N)[1]
        b0 = ctx.call(ssqueeze, W, w1, scales=s, wavelet=wav, maprange='peak')
        ps = [dict(dWx=True), dict(), dict(rpadded=True, N=N, n1=n1), dict(get_w=True, difftype='phase'), dict(get_w=True, difftype='numeric', difforder=4), dict(get_w=True, rpadded=True, N=N, n1=n1, difftype='numeric', difforder=2), dict(get_w=True)]

        def run(p, r, **f):
            p = dict(p)
            d = D * r if p.pop('dWx', False) else None
            return ctx.call(phase_ssqueeze, Wp if p.get('rpadded') else W, d, scales=s, wavelet=wav, gamma=g, get_dWx=True, **p, **f)

        def tr(p, r):
            p = dict(p)
            d = D * r if p.pop('dWx', False) else None
            return ctx.call(phase_transform, Wp if p.get('rpadded') else W, d, gamma=g, fs=r, **p)
        pb = [run(p, 1.) for p in ps]
        tb = [tr(p, 1.) for p in ps]
        td = [ctx.call(trigdiff, W, padtype=p) for p in ('reflect', 'zero')] + [ctx.call(trigdiff, Wp, rpadded=True, N=N, n1=n1)]
        nb = {k: ctx.call(phase_cwt_num, W, 1., k, g) for k in (1, 2, 4)}
        for r in rates(ctx):
            ctx.eq(phase_cwt(W, D * r, gamma=g), w1 * r, f'phase_cwt, rate {r:g}', rtol=1e-9)
            for k in nb:
                ctx.eq(phase_cwt_num(W, 1 / r, k, g), nb[k] * r, f'phase_cwt_num, rate {r:g}', rtol=1e-9)
            for a, kw, o in ((W, dict(padtype='reflect'), td[0]), (W, dict(padtype='zero'), td[1]), (Wp, dict(rpadded=True, N=N, n1=n1), td[2])):
                ctx.eq(ctx.call(trigdiff, a, fs=r, **kw), o * r, f'trigdiff, rate {r:g}', rtol=1e-9)
            for p, b in zip(ps, tb):
                o = tr(p, r)
                w2 = f'phase_transform({p}), rate {r:g}'
                for k, u in ((0, r), (1, 1), (2, r), (4, 1)):
                    if b[k] is None:
                        ctx.ok(o[k] is None, w2)
                    elif k == 0:
                        fin = np.isfinite(b[0])
                        ctx.ok((np.isfinite(o[0]) == fin).all() and (np.abs(o[0][fin] - b[0][fin] * r) <= 1e-6 * r * (b[0][fin] + .01)).all(), w2 + ': frequencies')
                    else:
                        ctx.eq(np.asarray(o[k]), np.asarray(b[k]) * u, f'{w2}: output {k}', rtol=1e-9)
            for nm, f, rr in forms(N, r):
                e, am = (1e-6, 1e-4) if nm == 't32' else (1e-9, 1e-6)
                T, v = ctx.call(ssqueeze, W, w1 * rr, scales=s, wavelet=wav, maprange='peak', **f)
                what = f'ssqueeze({sc}), rate {r:g} given as {nm}'
                ctx.eq(v, b0[1] * rr, what + ': frequencies', rtol=e)
                compare_sq(ctx, T, b0[0], W, w1, b0[1], what, e, am)
                T, v = ctx.call(ssqueeze, W, None, scales=s, wavelet=wav, maprange='energy', dWx=D * rr, gamma=g, **f)
                T1, v1 = ctx.call(ssqueeze, W, None, scales=s, wavelet=wav, maprange='energy', dWx=D, gamma=g)
                ctx.eq(v, v1 * rr, what + ': frequencies', rtol=e)
                compare_sq(ctx, T, T1, W, w1, v1, what, e, am)
                for p, b in zip(ps, pb):
                    o = run(p, rr, **f)
                    w2 = f'phase_ssqueeze({p}), rate {r:g} given as {nm}'
                    for k, u in ((1, 1), (2, rr), (3, 1), (6, rr)):
                        if b[k] is None:
                            ctx.ok(o[k] is None, w2)
                        else:
                            ctx.eq(np.asarray(o[k]), np.asarray(b[k]) * u, f'{w2}: output {k}', rtol=e)
                    w0 = b[5] if b[5] is not None else np.where(np.abs(b[1]) > g, np.abs((b[6] / b[1]).imag) / (2 * np.pi), np.inf)
                    if b[5] is not None:
                        fin = np.isfinite(b[5])
                        ctx.ok((np.abs(o[5][fin] - b[5][fin] * rr) <= 1e3 * e * rr * (b[5][fin] + .01)).all(), w2 + ': instantaneous frequencies')
                    compare_sq(ctx, o[0], b[0], b[1], w0, b[2], w2, 10 * e, am)
                ctx.state((sc, nm, r))
    # STFT
    S, dS = ctx.call(stft, x, n_fft=14, window=np.hanning(12), derivative=True, dtype='float64')
    Sf = np.linspace(0, .5, len(S))
    w0 = ctx.call(phase_stft, S, dS, Sf, gamma=g)
    b = ctx.call(ssqueeze, S, None, Sfs=Sf, dWx=dS, gamma=g, transform='stft')
    bp = ctx.call(phase_ssqueeze, S, dS, transform='stft', gamma=g, get_w=True, get_dWx=True)
    for r in rates(ctx):
        ctx.eq(phase_stft(S, dS * r, Sf * r, gamma=g), w0 * r, f'phase_stft, rate {r:g}', rtol=1e-9)
        for nm, f, rr in forms(N, r):
            e, am = (1e-6, 1e-4) if nm == 't32' else (1e-9, 1e-6)
            what = f'ssqueeze(stft), rate {r:g} given as {nm}'
            T, v = ctx.call(ssqueeze, S, None, Sfs=Sf * rr, dWx=dS * rr, gamma=g, transform='stft', **f)
            ctx.eq(v, b[1] * rr, what, rtol=e)
            compare_sq(ctx, T, b[0], S, w0, b[1], what, e, am)
            T, v = ctx.call(ssqueeze, S, w0 * rr, transform='stft', **f)
            ctx.eq(v, b[1] * rr, what, rtol=e)
            compare_sq(ctx, T, b[0], S, w0, b[1], what, e, am)
            o = ctx.call(phase_ssqueeze, S, dS * rr, transform='stft', gamma=g, get_w=True, get_dWx=True, **f)
            for k, u in ((1, 1), (2, rr), (4, rr), (5, rr), (6, rr)):
                ctx.eq(np.asarray(o[k]), np.asarray(bp[k]) * u, f'phase_{what}: output {k}', rtol=10 * e)
            compare_sq(ctx, o[0], bp[0], S, w0, bp[2], what, e, am)
            ctx.state(('stft', nm, r))


def h_conv(ctx, c):
    """scale <-> frequency conversion"""
    from ssqueezepy.experimental import freq_to_scale, scale_to_freq
    from ssqueezepy.wavelets import Wavelet
    N = c['N']
    for wv in WV.values():
        wav = Wavelet(wv)
        for sc in ('log', 'lin', 'pw'):
            for pad in ('reflect', None):
                b = ctx.call(scale_to_freq, SC(sc), wav, N, padtype=pad)
                for r in rates(ctx) + [3]:
                    ctx.eq(ctx.call(scale_to_freq, SC(sc), wav, N, fs=r, padtype=pad), b * r, f'scale_to_freq, rate {r}', rtol=1e-12)
                    ctx.state((sc, pad, r))
        f = np.linspace(.05, .4, 6)
        for kind in ('peak', 'energy'):
            b = ctx.call(freq_to_scale, f, wav, N, n_search_scales=40, kind=kind)
            for r in rates(ctx):
                ctx.eq(ctx.call(freq_to_scale, f * r, wav, N, fs=r, n_search_scales=40, kind=kind), b, f'freq_to_scale, rate {r:g}', rtol=1e-9)


def h_malformed(ctx, c):
    from ssqueezepy import cwt, ssq_cwt, stft, ssq_stft, ssqueeze
    from ssqueezepy.experimental import phase_ssqueeze
    N = c['N']
    x = signals(N)['chirp']
    n = np.arange(N)
    W, s, D = cwt(x, WV['gmw'], scales=SC('log'), derivative=True)
    kw = dict(wavelet=WV['gmw'], scales=SC('log'))
    R = dict(cwt=lambda **k: cwt(x, derivative=True, **kw, **k), ssq_cwt=lambda **k: ssq_cwt(x, **kw, **k), ssq_cwt_order=lambda **k: ssq_cwt(x, order=1, **kw, **k), stft=lambda **k: stft(x, n_fft=12, derivative=True, **k), ssq_stft=lambda **k: ssq_stft(x, n_fft=12, **k),
             cwt2=lambda **k: cwt(np.stack([x, x]), derivative=True, **kw, **k), stft2=lambda **k: stft(np.stack([x, x]), n_fft=12, derivative=True, **k),
             ssqueeze=lambda **k: ssqueeze(W, None, scales=s, dWx=D, gamma=1e-3, wavelet=kw['wavelet'], maprange='maximal', ssq_freqs='log', **k),
             phase_ssqueeze=lambda **k: phase_ssqueeze(W, D, scales=s, wavelet=kw['wavelet'], maprange='maximal', ssq_freqs='log', **k))
    bad = [('fs', v) for v in (0, 0., -1, -2.5, np.nan, np.inf, -np.inf)]
    for u in (1., 1e-6, 250.):
        t = n * u
        for k in (0, 1, N // 2, N - 2, N - 1):
            for d in (.3, -.3, 1.):
                q = t.copy()
                q[k] += d * u
                if k in (0, N - 1) and abs(d) < .01:
                    continue
                bad.append(('t', q))
            q = t.copy()
            q[k] = np.nan
            bad.append(('t', q))
        bad += [('t', q) for q in (t[:-1], np.arange(N + 1) * u, t[::-1], np.zeros(N), np.ones(N) * u, -t, np.geomspace(1, 2, N) * u, t ** 2, np.hstack([t[:N // 2], t[:N - N // 2]]), np.sort(np.hstack([t[:-1], t[3]])), t[:1], list(t[::2]), np.sin(n / N) * u)]
    for nm, fn in R.items():
        for k, v in bad:
            ctx.step()
            try:
                fn(**{k: v})
            except Exception as e:
                ctx.ok(isinstance(e, (ValueError, TypeError)) or type(e) is Exception, lambda: f'{nm}({k}={v!r}) failed by {type(e).__name__}: {e}')
                ctx.state((nm, k, str(type(e))))
                continue
            ctx.fail(f'{nm}({k}={v!r}) was accepted')
        for good in (dict(fs=3), dict(t=n), dict(t=n * 1e-9), dict(t=n * 1e9 - 3), dict(t=list(n)), dict(t=(n * .1).astype('float32')), dict(t=n / 44100.), {}, dict(fs=None, t=None)):
            ctx.call(fn, **good)
