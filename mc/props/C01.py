"""C01: the CWT equals its defining filter-bank formula (decided on the complete impulse basis)."""
import numpy as np
from .. import ref
from ..core import Skip

TECH = "bounded exhaustive enumeration of configurations on the complete impulse basis vs reference model"
RULE = ("all (length, wavelet, scales, pad type, norm, rpadded, sampling form, order, precision) of the lattice; each is run on the "
        "whole impulse basis plus dense signals; states = distinct transform matrices observed")
BOUNDS = dict(quick="N 2..17 + {31,32,33,64}", thorough="N 1..40 + {63,64,65,100,128}")
ASSUMES = ["numpy's FFT is the trusted DFT", "superposition beyond the dense probes is inferred from linearity of the code path"]

SPECS = {
    'gmw': ('gmw', {}), 'gmw_b': ('gmw', dict(gamma=2., beta=4.)), 'gmw_c': ('gmw', dict(gamma=3., beta=10., centered_scale=True)),
    'gmw_k1': ('gmw', dict(gamma=3., beta=6., order=1)), 'gmw_k2': ('gmw', dict(order=2)),
    'morlet': ('morlet', {}), 'morlet_s': ('morlet', dict(mu=4.)), 'bump': ('bump', {}), 'bump_om': ('bump', dict(mu=4., s=2., om=.3)),
    'cmhat': ('cmhat', {}), 'cmhat_b': ('cmhat', dict(mu=.5, s=2.)), 'hhhat': ('hhhat', {}),
}
PADS = ('reflect', 'zero', 'symmetric', 'replicate', 'wrap', None)
SC = {'log': list(2. ** (np.arange(0, 14) / 3)), 'lin': list(np.linspace(1.5, 12., 8)),
      'pw': list(np.hstack([2. ** (np.arange(2, 10) / 4), 2. ** (np.arange(13, 29, 4) / 4)]))}


def gen(tier):
    q = tier == 'quick'
    Ns = list(range(2, 18)) + [31, 32, 33, 64] if q else list(range(1, 41)) + [63, 64, 65, 100, 128]
    for N in Ns:
        for pad in PADS:
            for l1 in (True, False):
                for rp in (False, True):
                    yield dict(h='lattice', N=N, pad=pad, l1=l1, rp=rp, specs=['gmw', 'morlet'] if (q and N > 17) else list(SPECS))
    for N in (5, 8, 11):
        for form in ('fs', 't', 'both', 'none', 'fs_int'):
            for fs in (.25, 1., 3., 1000.):
                for pad in ('reflect', None):
                    yield dict(h='units', N=N, form=form, fs=fs, pad=pad)
    for N in (32, 45, 64, 100) if q else (32, 33, 45, 64, 77, 100, 128):
        for scales in ('log', 'log-piecewise', 'linear', 'log:maximal', 'log:minimal', 'linear:naive', 'log:naive'):
            for spec in ('gmw', 'gmw_b', 'morlet', 'bump'):
                for nv in (4, 16, 32):
                    yield dict(h='strings', N=N, scales=scales, spec=spec, nv=nv)
    for N in (9, 16, 21):
        for order in (1, 2, 3, [0, 1], [0, 1, 2], [1, 3], [2], [0]):
            for avg in (None, True, False):
                for dim in (1, 2):
                    for pad in ('reflect', None):
                        yield dict(h='order', N=N, order=order, avg=avg, dim=dim, pad=pad)
    for N in (24, 40, 100, 200):
        for order in (1, [0, 1], [0, 1, 2]):
            for dim in (1, 2):
                for scales in ('log', 'log-piecewise', 'linear'):
                    yield dict(h='order_str', N=N, order=order, dim=dim, scales=scales)
    for N in (6, 9):
        for spec in SPECS:
            for pad in ('reflect', 'zero', None):
                yield dict(h='f32', N=N, spec=spec, pad=pad)
    for N in (5, 8):
        for pat in range(64 + 3 * N):
            for dim in (1, 2, 3):
                yield dict(h='nonfinite', N=N, pat=pat, dim=dim)
    for N in (7, 8, 13):
        for kind in ('shannon', 'gauss', 'complex'):
            for pad in ('reflect', None):
                yield dict(h='custom', N=N, kind=kind, pad=pad)


def _wavelet(spec, l1=True, dtype='float64'):
    name, opts = SPECS[spec]
    opts = dict(opts)
    if name == 'gmw':
        opts['norm'] = 'bandpass' if l1 else 'energy'
    return (name, {**opts, 'dtype': dtype}), (name, opts)


def _scales(*a, **k):
    """the scales string itself must be feasible for this length (that is C15's subject)"""
    from ssqueezepy.utils import process_scales
    try:
        return np.asarray(process_scales(*a, **k), dtype='float64')
    except Exception as e:
        raise Skip(str(e))


def _probes(N):
    """impulse basis + two dense signals"""
    n = np.arange(N)
    return np.vstack([np.eye(N), np.cos(1.3 * n + .2) + .5 * n / N, (-1.) ** n * (n + 1)])


def h_lattice(ctx, c):
    from ssqueezepy import cwt
    N, pad, l1, rp = c['N'], c['pad'], c['l1'], c['rp']
    X = _probes(N)
    for spec in c['specs']:
        wav, rspec = _wavelet(spec, l1)
        for scn, sc in SC.items():
            if spec.startswith('bump_om') and scn != 'log':
                continue
            sc = np.array(sc)
            W, D = ref.cwt(X, rspec, sc, pad, rp, l1)
            kw = dict(scales=sc, l1_norm=l1, padtype=pad, rpadded=rp)
            what = f"{spec} scales={scn}"
            gW, gs, gD = ctx.call(cwt, X, wav, derivative=True, **kw)
            ctx.eq(gW, W, what + ' Wx', scale=1e-3, dtype='complex128')
            ctx.eq(gD, D, what + ' dWx', scale=1e-3, dtype='complex128')
            ctx.eq(gs, sc.squeeze(), what + ' scales', rtol=1e-12)
            out = ctx.call(cwt, X, wav, **kw)
            ctx.ok(len(out) == 2, 'number of outputs')
            ctx.eq(out[0], W, what + ' Wx (no derivative)', scale=1e-3)
            i = N // 2
            gW, _, gD = ctx.call(cwt, X[i], wav, derivative=True, vectorized=False, **kw)
            ctx.eq(gW, W[i], what + ' Wx 1D looped', scale=1e-3)
            ctx.eq(gD, D[i], what + ' dWx 1D looped', scale=1e-3)
            gW, _ = ctx.call(cwt, X[-1], wav, **kw)
            ctx.eq(gW, W[-1], what + ' Wx 1D', scale=1e-3)
            ctx.state(gW)


def h_units(ctx, c):
    from ssqueezepy import cwt
    N, fs, form = c['N'], c['fs'], c['form']
    t = 5. + np.arange(N) / fs
    kw = dict(fs=dict(fs=fs), t=dict(t=t), both=dict(fs=7. * fs, t=t), none={}, fs_int=dict(fs=int(max(1, fs))))[form]
    dt = dict(none=1., fs_int=1. / int(max(1, fs))).get(form, 1. / fs)
    X = _probes(N)
    sc = np.array(SC['log'])
    W, D = ref.cwt(X, ('gmw', {}), sc, c['pad'], dt=dt)
    for vec in (True, False):
        gW, _, gD = ctx.call(cwt, X, ('gmw', dict(dtype='float64')), scales=sc, padtype=c['pad'], derivative=True, vectorized=vec, **kw)
        ctx.eq(gW, W, 'Wx', scale=1e-3)
        ctx.eq(gD, D, 'dWx', scale=1e-3, rtol=1e-6 if form in ('t', 'both') else 1e-9)
        ctx.state([gW, gD, c['fs'], form])


def h_strings(ctx, c):
    from ssqueezepy import cwt, Wavelet
    N = c['N']
    wav, rspec = _wavelet(c['spec'])
    X = _probes(N)
    want = _scales(c['scales'], N, Wavelet(wav), nv=c['nv'])
    W, s, D = ctx.call(cwt, X, wav, scales=c['scales'], nv=c['nv'], derivative=True)
    ctx.eq(s, want.squeeze(), 'scales', rtol=1e-12)
    rW, rD = ref.cwt(X, rspec, s)
    ctx.eq(W, rW, 'Wx', scale=1e-3)
    ctx.eq(D, rD, 'dWx', scale=1e-3)
    W2, s2 = ctx.call(cwt, X[1], wav, scales=c['scales'], nv=c['nv'], padtype='zero', rpadded=True)
    ctx.eq(W2, ref.cwt(X[1], rspec, s2, 'zero', True)[0], 'Wx 1D', scale=1e-3)
    ctx.state([s, W.shape])


def _order_ref(X, sc, order, avg, pad, dt=1., rp=False, l1=True, **gm):
    orders = order if isinstance(order, (list, tuple)) else [order]
    if not l1:
        gm['norm'] = 'energy'
    return [ref.cwt(X, ('gmw', dict(order=k, **gm)), sc, pad, rp, l1, dt=dt) for k in orders]


def _check_order(ctx, out, R, tup, avg, what):
    for j, name in ((0, 'Wx'), (-1, 'dWx')):
        want = [r[0 if j == 0 else 1] for r in R]
        got = out[j]
        if avg or (avg is None and tup):
            ctx.eq(got, np.mean(want, axis=0), f"{what} {name} averaged", scale=1e-3)
        elif len(want) == 1:
            ctx.eq(got, want[0], f"{what} {name} single order", scale=1e-3)
        else:
            ctx.ok(isinstance(got, (list, tuple, np.ndarray)) and len(got) == len(want), f"{what} {name}: expected one array per order")
            for g, w in zip(got, want):
                ctx.eq(g, w, f"{what} {name} per order", scale=1e-3)


def h_order(ctx, c):
    from ssqueezepy import cwt
    N, order, avg, pad = c['N'], c['order'], c['avg'], c['pad']
    tup = isinstance(order, list)
    if tup and len(order) == 1 and avg:
        avg = False  # documented: average ignored with a single order
    X = _probes(N)
    X = X if c['dim'] == 2 else X[-2]
    sc = np.array(SC['log'])
    forms = [tuple(order), list(order)] if tup else [order]
    if tup and order == list(range(len(order))):
        forms.append(range(len(order)))
    R = _order_ref(X, sc, order, avg, pad, dt=.5, gamma=3., beta=8.)
    for f in forms:
        for vec in (True, False):
            o = ctx.call(cwt, X, ('gmw', dict(gamma=3., beta=8., dtype='float64')), scales=sc, order=f, average=avg, derivative=True,
                         padtype=pad, fs=2., vectorized=vec)
            ctx.ok(len(o) == 3, 'three outputs')
            # documented default: averaged if `order` is a tuple (list/range are normalised to tuple)
            _check_order(ctx, o, R, tup, avg, f"order={f!r} average={c['avg']} vec={vec}")
            ctx.eq(o[1], sc, 'scales', rtol=1e-12)
            ctx.state([np.asarray(o[0]), str(order)])


def h_order_str(ctx, c):
    from ssqueezepy import cwt, Wavelet
    from ssqueezepy._cwt import cwt_higher_order
    N, order = c['N'], c['order']
    X = _probes(N)[-3:]
    x = X if c['dim'] == 2 else X[0]
    wav = ('gmw', dict(dtype='float64'))
    want = _scales(c['scales'], N, Wavelet(wav), nv=8).squeeze()
    tup = isinstance(order, list)
    f = tuple(order) if tup else order
    for fn in (cwt, cwt_higher_order):
        for kw in (dict(derivative=True), {}, dict(derivative=True, l1_norm=False), dict(derivative=True, rpadded=True, padtype='zero', average=False if tup else None)):
            what = f"{fn.__name__}(order={f}, scales={c['scales']}, {kw})"
            l1 = kw.get('l1_norm', True)
            sc = want if l1 else _scales(c['scales'], N, Wavelet(('gmw', dict(dtype='float64', norm='energy'))), nv=8).squeeze()
            o = ctx.call(fn, x, wav, scales=c['scales'], nv=8, order=f, **kw)
            ctx.ok(len(o) == 2 + ('derivative' in kw), f'{what}: {len(o)} outputs')
            ctx.eq(o[1], sc, f'{what}: scales of the zeroth order', rtol=1e-12)
            R = _order_ref(x, sc, order, None, kw.get('padtype', 'reflect'), rp=kw.get('rpadded', False), l1=l1)
            if 'derivative' in kw:
                _check_order(ctx, o, R, tup, kw.get('average'), what)
            else:
                _check_order(ctx, (o[0], o[0]), [(r[0], r[0]) for r in R], tup, kw.get('average'), what)
    ctx.state([np.asarray(o[0]), c['scales']])


def h_f32(ctx, c):
    from ssqueezepy import cwt
    X = _probes(c['N'])
    sc = np.array(SC['log'])
    wav, rspec = _wavelet(c['spec'], dtype='float32')
    W, D = ref.cwt(X, rspec, sc, c['pad'])
    gW, gs, gD = ctx.call(cwt, X, wav, scales=sc, padtype=c['pad'], derivative=True)
    ctx.eq(gW, W, 'Wx', rtol=2e-4, scale=1e-2, dtype='complex64')
    ctx.eq(gD, D, 'dWx', rtol=2e-4, scale=1e-2, dtype='complex64')
    # defaults given by name only
    if c['spec'] in ('gmw', 'morlet', 'bump', 'cmhat', 'hhhat'):
        for w in (c['spec'], c['spec'].upper()):
            gW, _ = ctx.call(cwt, X, w, scales=sc, padtype=c['pad'])
            ctx.eq(gW, W, f'Wx by name {w}', rtol=2e-4, scale=1e-2, dtype='complex64')
    ctx.state(gW)


def h_nonfinite(ctx, c):
    from ssqueezepy import cwt, ssq_cwt
    N = c['N']
    vals = [None, np.nan, np.inf, -np.inf]
    x = np.cos(np.arange(N) * 1.1)
    p = c['pat']
    if p >= 64:  # one value at one position
        x[(p - 64) // 3] = vals[1 + (p - 64) % 3]
    else:
        for pos in (0, N // 2, N - 1):
            v = vals[p % 4]
            p //= 4
            if v is not None:
                x[pos] = v
    z = np.where(np.isfinite(x), x, 0.)
    sc = np.array(SC['log'])
    xx = x if c['dim'] == 1 else np.stack([np.arange(N) * 1., x] + [-x] * (c['dim'] == 2))
    zz = z if c['dim'] == 1 else np.stack([np.arange(N) * 1., z] + [-z] * (c['dim'] == 2))
    W, _ = ref.cwt(zz, ('gmw', {}), sc)
    for nc in (None, True):
        gW, _ = ctx.call(cwt, xx.copy(), ('gmw', dict(dtype='float64')), scales=sc, nan_checks=nc)
        ctx.eq(gW, W, f'Wx nan_checks={nc}', scale=1e-3)
    # the other ways to the same transform zero as well
    for kw in (dict(derivative=True, vectorized=False, padtype=None), dict(derivative=True, padtype='symmetric', l1_norm=False, rpadded=True), dict(order=1), dict(order=(0, 2), average=False),
               dict(order=(0, 1), derivative=True, vectorized=False), dict(ssq=True), dict(ssq=True, order=1, padtype=None)):
        kw = dict(kw)
        fn = ssq_cwt if kw.pop('ssq', False) else cwt
        if c['dim'] > 1 and ('order' in kw and not isinstance(kw['order'], int) or fn is ssq_cwt and 'order' in kw):
            continue
        want = ctx.call(fn, zz.copy(), ('gmw', dict(dtype='float64')), scales=sc, **kw)
        for nc in (None, True):
            got = ctx.call(fn, xx.copy(), ('gmw', dict(dtype='float64')), scales=sc, nan_checks=nc, **kw)
            for i, (g, w) in enumerate(zip(got, want)):
                g, w = (np.stack(v) if isinstance(v, list) else v for v in (g, w))
                ctx.eq(g, w, f'{fn.__name__}({kw}) of input with non-finite values, output {i}, nan_checks={nc}', scale=1e-3)
    if c['pat'] == 0:
        gW, _ = ctx.call(cwt, xx.copy(), ('gmw', dict(dtype='float64')), scales=sc, nan_checks=False)
        ctx.eq(gW, W, 'Wx nan_checks=False', scale=1e-3)
    ctx.state(gW)


def h_custom(ctx, c):
    from ssqueezepy import cwt, Wavelet
    N, kind, pad = c['N'], c['kind'], c['pad']
    f = dict(shannon=lambda w: (w > 1.) * (w <= 2.) * 1., gauss=lambda w: np.exp(-(w - 2.) ** 2),
             complex=lambda w: np.exp(-(w - 2.) ** 2 + .7j * w))[kind]
    sc = np.array(SC['log'])
    X = _probes(N)
    xp, n1 = (X, 0) if pad is None else (lambda r: (r[0], r[2]))(ref.pad(X, pad))
    M = xp.shape[-1]
    P = f(sc[:, None] * ref.xi(1., M))
    if M % 2 == 0:
        P = P.copy()
        P[:, M // 2] /= 2
    W = np.fft.ifft(np.fft.fft(xp)[:, None] * P)[..., n1:n1 + N]
    # a plain function is sampled in the precision its output has for single-precision input; pass a Wavelet in double
    import types
    fn = types.FunctionType(f.__code__, f.__globals__, 'fn', f.__defaults__, f.__closure__)
    for w in (fn, Wavelet(fn)):
        for vec in (True, False):
            gW, _ = ctx.call(cwt, X, w, scales=sc, padtype=pad, vectorized=vec)
            tol = 2e-4 if str(gW.dtype) == 'complex64' else 1e-9
            ctx.eq(gW, W, f'custom {kind} vec={vec}', rtol=tol, scale=1e-2)
            ctx.state(gW)
