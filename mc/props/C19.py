"""C19: wavelets equal their closed forms on the documented grid, keep their normalisation, and their statistics follow their definitions."""
import itertools, io, contextlib
import numpy as np
from ..core import Skip
from ..util import parallel
from .. import ref

TECH = "exhaustive enumeration of lengths x scales x parameter lattice x orders x norms x precisions x serial/parallel x ways of evaluating, every grid point of the real wavelets against closed forms and definitions written independently"
RULE = ("all lengths of the range (odd and even) x scales (scalar, vector, column) x wavelets x parameters x orders x norms x centring x precision x kernels x Nyquist halving, evaluated through every entry point; "
        "all lengths x scales for centre frequencies and resolutions against direct numerical evaluation of their definitions; states = distinct sampled wavelets")
BOUNDS = dict(quick="N in 1..40 and {63,64,65,100,127,128,129,512}; gamma in {1,2,3,4.5}, beta in {1,3,20,60,150}, order 0..4; statistics at N in {64,65,128,129,512}",
              thorough="N in 1..130 and {200,255,256,257,512,1000,1024,1025}; gamma in {.7,1,2,3,4,4.5,9}, beta in {.5,1,3,10,20,60,150,400}, order 0..7; statistics at N in {64,65,128,129,200,333,512,1024,1025}")
ASSUMES = ["rounding allowance follows the condition of the closed form (size of exponents, rounding of the frequency grid, cancellation inside Laguerre polynomials)",
           "resolutions and harea >= 1/2 are compared where the wavelet is resolved by the grid and decays inside the integration span",
           "parameters whose moments exceed the range of the gamma function are outside scope"]
CASE_LIMIT_S = 400

SCALES = [.5, 1., 2., 3.7, 10., 64., 1000.]


def gms(tier):
    G, B, K = ((1., 2., 3., 4.5), (1., 3., 20., 60., 150.), 5) if tier == 'quick' else ((.7, 1., 2., 3., 4., 4.5, 9.), (.5, 1., 3., 10., 20., 60., 150., 400.), 8)
    return G, B, K


def others():
    return [('morlet', dict(mu=13.4)), ('morlet', dict(mu=5.)), ('morlet', dict(mu=1.5)), ('bump', dict()), ('bump', dict(mu=4., s=2.)), ('bump', dict(mu=5., s=1., om=.3)), ('bump', dict(mu=6., s=.7, om=-1.)),
            ('cmhat', dict()), ('cmhat', dict(mu=1., s=2.)), ('cmhat', dict(mu=3., s=.5)), ('hhhat', dict()), ('hhhat', dict(mu=2.))]


def specs(tier):
    G, B, K = gms(tier)
    out = [('gmw', dict(gamma=g, beta=b, norm=n, order=k, centered_scale=c)) for g in G for b in B for n in ('bandpass', 'energy') for k in range(K) for c in (False, True)]
    return out + others()


def lens(tier):
    return list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129, 512] if tier == 'quick' else list(range(1, 131)) + [200, 255, 256, 257, 512, 1000, 1024, 1025]


STAT = [('gmw', dict()), ('gmw', dict(gamma=3., beta=10.)), ('gmw', dict(gamma=1., beta=30.)), ('gmw', dict(gamma=3., beta=60., norm='energy')), ('gmw', dict(gamma=3., beta=20., order=1)), ('gmw', dict(gamma=3., beta=60., centered_scale=True)),
        ('morlet', dict()), ('morlet', dict(mu=6.)), ('bump', dict()), ('bump', dict(mu=5., s=1., om=.3)), ('cmhat', dict()), ('hhhat', dict())]


def gen(tier):
    q = tier == 'quick'
    for N in lens(tier):
        yield dict(h='grid', N=N)
    S = specs(tier)
    for par in (False, True):
        for i in range(len(S)):
            for dt in ('float64', 'float32'):
                if par and q and S[i][0] == 'gmw' and (i % 3 or S[i][1]['centered_scale']):
                    continue
                yield dict(h='eval', i=i, dt=dt, par=par, N0=0)
    G, B, K = gms(tier)
    for g in G:
        for b in B:
            for n in ('bandpass', 'energy'):
                yield dict(h='norm', g=g, b=b, n=n)
                yield dict(h='fam', g=g, b=b, n=n)
            yield dict(h='freqs', g=g, b=b)
        yield dict(h='lowpass', g=g)
    yield dict(h='laguerre')
    Ns = (64, 65, 128, 129, 512) if q else (64, 65, 128, 129, 200, 333, 512, 1024, 1025)
    for i in range(len(STAT)):
        for N in Ns:
            yield dict(h='center', i=i, N=N)
            yield dict(h='std', i=i, N=N)
            yield dict(h='props', i=i, N=N)
    for i in range(len(S)):
        if S[i][0] != 'gmw' or S[i][1]['order'] in (0, 1) and not S[i][1]['centered_scale']:
            yield dict(h='adm', i=i)
    for p in (.5, 1, 3, 10, 30, 60):
        for w in (.05, .1, .3, 1, 3):
            if p >= 6 * w:
                yield dict(h='integral', kind='bell', p=p, w=w)
    for a in (0, .5, 1, 3, 10):
        for b in (.2, 1, 5):
            for g in (1, 2, 3):
                yield dict(h='integral', kind='power', a=a, b=b, g=g)


    yield dict(h='imag')


def h_imag(ctx, c):
    """complex wavelets: the imaginary part is dropped exactly when its total is below `imag_th` times that of the real part"""
    from ssqueezepy import Wavelet
    bell = lambda w: np.exp(-(w - 5.) ** 2)
    one = lambda w: np.where(np.abs(w - 5.) < .3, 1., 0.)
    for ib, im in (('bell', bell), ('single', one), ('wide', lambda w: 1. + 0 * w)):
        for r in (0., 1e-10, 1e-8, 1e-7, 1e-4, .03, 1., -1e-10, -1e-7, -.5):
            fn = lambda w: bell(np.asarray(w)) + 1j * r * im(np.asarray(w))
            W = Wavelet(fn, N=32)
            for th in ('default', None, 0, 1e-12, 1e-8, 1e-3, 2.):
                kw = {} if th == 'default' else dict(imag_th=th)
                t = 1e-8 if th == 'default' else th
                for nm, a, k in (('w', (np.linspace(0, 10, 21),), {}), ('scale', (), dict(scale=3.)), ('scales', (), dict(scale=np.array([2., 5.]))), ('N', (), dict(scale=4., N=15)), ('halved', (), dict(scale=6., nohalf=False))):
                    got = np.asarray(ctx.call(W, *a, **k, **kw))
                    x = np.asarray(a[0] if a else ref.xi(1, k.get('N', 32))[None] * np.reshape(k['scale'], (-1, 1)))
                    want = fn(x)
                    if nm == 'halved':
                        want = want.copy()
                        want[..., 16] /= 2
                    want = want.reshape(got.shape)
                    A, B = np.abs(want.imag).sum(), np.abs(want.real).sum()
                    if t is not None and t * B > 0 and abs(A / (t * B) - 1) < 1e-3:
                        continue
                    drop = t is not None and A < t * B
                    ctx.eq(got, want.real if drop else want, f'complex wavelet ({ib} {r}) {nm} imag_th={th}', rtol=2e-5 if got.dtype.itemsize == (4 if drop else 8) else 1e-12, dtype=None)
                    ctx.ok(np.iscomplexobj(got) == (not drop), lambda: f'complex wavelet ({ib} {r}) {nm} imag_th={th}: {"kept" if drop else "dropped"} the imaginary part ({A:.3g} against {B:.3g})')
            ctx.state((ib, r))


def full(spec):
    return dict(ref.DEFAULTS[spec[0]], **spec[1])


def closed(spec, w, eps):
    """closed form at w and the rounding allowance there, for arithmetic of unit roundoff `eps`"""
    name, p = spec[0], full(spec)
    f = lambda v: np.asarray(ref.WAVELETS[name](v, **p))
    w = np.asarray(w, dtype='float64')
    out = f(w)
    d = np.abs(f(w * (1 + 4 * eps)) - out) + np.abs(f(w * (1 - 4 * eps)) - out)
    mag = np.abs(out)
    if name == 'gmw':
        from scipy.special import gammaln
        g, b, k = p['gamma'], p['beta'], p['order']
        wc = (b / g) ** (1 / g)
        v = np.where(w > 0, w * (wc if p['centered_scale'] else 1), 1.)
        lg = np.log(v)
        ex = b * np.abs(lg) + v ** g
        if p['norm'] == 'bandpass':
            ex = ex + b * abs(np.log(wc)) + wc ** g + 1
        r = (2 * b + 1) / g
        ex = ex + abs(gammaln(r + k)) + abs(gammaln(r)) + r + k
        # magnitude of Laguerre terms before they cancel
        if k:
            base = np.asarray(ref.gmw(w, **dict(p, order=0)))
            c = np.exp(.5 * (gammaln(r) + gammaln(k + 1) - gammaln(r + k)))
            terms = sum(np.exp(gammaln(k + r) - gammaln(r + m) - gammaln(k - m + 1) - gammaln(m + 1) + m * np.log(2 * v ** g)) for m in range(k + 1))
            mag = np.maximum(mag, c * terms * base)
            # relative perturbation of w acts on each term
            ex = ex + g * k
        mag = np.where(w > 0, mag, 0)
    elif name == 'bump':
        u = np.clip(np.abs((w - p['mu']) / p['s']), 0, .9995)
        den = 1 - u ** 2
        ex = 1 / den ** 2 * (np.abs(w) + p['mu']) / p['s'] + 2 * np.pi * abs(p['om']) * np.abs(w) + 4
        ex = np.where(mag > 0, ex, 0)
    elif name == 'morlet':
        mag = mag + np.abs(out).max(initial=0) * 1e-3 + np.exp(-.5 * p['mu'] ** 2 - .5 * w ** 2) * 2
        ex = (w - p['mu']) ** 2 + np.abs(w - p['mu']) * p['mu'] + 8
        ex = np.where(np.exp(-.5 * (w - p['mu']) ** 2) > 1e-30, ex, 8)
    else:
        ex = (p.get('s', 1) ** 2) * ((w - p['mu']) ** 2 + np.abs(w - p['mu']) * p['mu']) + 8
        mag = mag + 1e-3 * (np.abs(w - p['mu']) < 30)
    tiny = 1e-36 if eps > 1e-10 else 1e-300
    return out, 2 * d + 8 * eps * (ex * mag + mag) + 1e-3 * eps * np.abs(out).max(initial=0) + tiny


def mk(ctx, spec, dt, N=None):
    from ssqueezepy.wavelets import Wavelet
    kw = {} if N is None else dict(N=N)
    return ctx.call(Wavelet, (spec[0], dict(spec[1], dtype=dt)), **kw)


def same(ctx, got, want, rtol, atol, what, dtype=None):
    got, want = np.asarray(got), np.asarray(want)
    ctx.eq(got, want, what, atol=rtol * np.abs(want).max(initial=0) + atol, dtype=dtype)


def near(ctx, got, want, tol, what):
    got = np.asarray(got)
    ctx.ok(got.shape == want.shape, f"{what}: shape {got.shape} != {want.shape}")
    ctx.ok(np.all(np.isfinite(got)), f"{what}: not finite")
    d = np.abs(got.astype('complex128') - want)
    bad = d > tol
    ctx.traces += 1
    ctx.values += got.size
    if bad.any():
        j = np.unravel_index(np.argmax(np.where(bad, d / tol, 0)), d.shape)
        ctx.fail(f"{what}: at {tuple(int(q) for q in j)} got {got[j]}, closed form {want[j]}, allowance {tol[j]:.3g}")


# --- frequency grid -------------------------------------------------------------------------------------------
def h_grid(ctx, c):
    from ssqueezepy import wavelets as M
    N = c['N']
    k = np.arange(N)
    want = np.where(k <= N // 2, k, k - N) * 2 * np.pi / N
    for dt, tol in (('float64', 1e-14), ('float32', 1e-6)):
        w = mk(ctx, ('gmw', {}), dt, N)
        ctx.ok(w.N == N, "N not kept")
        same(ctx, w.xi, want, tol, tol, "xi", dtype=dt)
        for s in (None, 1, .5, 3., np.float64(7.3), 1000.):
            sc = 1. if s is None else float(s)
            same(ctx, ctx.call(w.xifn, s), sc * want, tol, tol * sc, "xifn(scale)", dtype=dt)
            same(ctx, ctx.call(w.xifn, s, N + 3), sc * ref.xi(1., N + 3), tol, tol * sc, "xifn(scale, N)", dtype=dt)
        for sc in (np.array([1., 2., 9.5]), np.array([4.]), np.array([[3.], [5.]]), np.array([2, 3]), np.array([1.5, 2.5], dtype='float32')):
            g = ctx.call(w.xifn, sc, N)
            wn = sc.reshape(-1, 1).astype('float64') * want
            same(ctx, np.asarray(g).reshape(wn.shape), wn, tol, tol * 10, f"xifn(scales {sc.shape})", dtype=dt)
        w2 = mk(ctx, ('gmw', {}), dt)
        w2.N = N
        same(ctx, w2.xi, want, tol, tol, "xi after setting N", dtype=dt)
    # ascending order and back
    o = ctx.call(M.aifftshift, want)
    ctx.ok(np.all(np.diff(o) > 0), f"aifftshift does not order frequencies of N={N}")
    same(ctx, np.sort(want), o, 0, 0, "aifftshift order")
    same(ctx, ctx.call(M.afftshift, o), want, 0, 0, "afftshift undoes aifftshift")
    same(ctx, ctx.call(M.aifftshift, ctx.call(M.afftshift, want + 0)), want, 0, 0, "aifftshift undoes afftshift")
    for x in (want.astype('float32'), want + 1j):
        same(ctx, ctx.call(M.afftshift, ctx.call(M.aifftshift, x)), x, 0, 0, "shift roundtrip", dtype=x.dtype)
    ctx.state(('grid', N, o))


# --- values ---------------------------------------------------------------------------------------------------
def h_eval(ctx, c):
    import gc
    gc.freeze()
    spec = specs('quick' if ctx.quick else 'thorough')[c['i']]
    dt = c['dt']
    if dt == 'float32' and spec[1].get('norm') == 'energy':
        raise Skip("documented: energy norm is double precision only")
    if dt == 'float32' and spec[0] == 'gmw':
        g, b, k = spec[1]['gamma'], spec[1]['beta'], spec[1]['order']
        wc = (b / g) ** (1 / g)
        if wc ** g + b * abs(np.log(wc)) > 80 and k or wc > 1e3:
            raise Skip("coefficients exceed single precision range")
    eps = np.finfo(dt).eps
    Ns = ([1, 2, 3, 8, 9, 31, 32, 64, 65, 128] if c['i'] % 2 else [4, 5, 7, 16, 33, 63, 100, 127, 512]) if ctx.quick else lens('thorough')[c['i'] % 4::4]
    with parallel(c['par']):
        w = mk(ctx, spec, dt)
        ctx.ok(w.dtype == dt, f"precision {w.dtype} != {dt}")
        vec = np.array(SCALES)
        cplx = bool(spec[1].get('om'))
        for N in Ns:
            xi = ref.xi(1., N)
            W, T = closed(spec, vec[:, None] * xi, eps)
            H = np.ones(N)
            if N % 2 == 0:
                H[N // 2] = .5
            for j, s in enumerate(SCALES):
                got = ctx.call(w, scale=s, N=N)
                near(ctx, got, W[j], T[j], f"{spec} {dt} scale={s} N={N}")
                if not cplx and np.asarray(got).any():
                    ctx.ok(np.asarray(got).dtype == dt, f"precision of values: {np.asarray(got).dtype}")
                neg = (xi < 0)
                if spec[0] == 'gmw':
                    ctx.ok(not np.asarray(got)[neg].any() and got[0] == 0, f"{spec} N={N} scale={s}: nonzero at negative or zero frequency")
                elif spec[0] == 'morlet':
                    ctx.ok(abs(got[0]) <= 100 * eps, f"{spec}: {got[0]} at zero frequency")
                elif spec[0] != 'bump' or full(spec)['mu'] >= full(spec)['s']:
                    ctx.ok(not np.asarray(got)[neg | (xi == 0)].any(), f"{spec} N={N} scale={s}: nonzero at negative or zero frequency")
                ctx.state((c['i'], dt, N, s, got))
            near(ctx, ctx.call(w, scale=SCALES[1], N=N, nohalf=False), W[1] * H, T[1], f"{spec} nohalf=False N={N}")
            near(ctx, ctx.call(w, scale=vec, N=N), W, T, f"{spec} vector of scales N={N}")
            near(ctx, ctx.call(w, scale=vec.reshape(-1, 1), N=N, nohalf=False), W * H, T, f"{spec} column of scales, halved, N={N}")
            near(ctx, ctx.call(w.Psih, scale=vec, N=N, nohalf=False), W * H, T, f"{spec} Psih, halved, N={N}")
            near(ctx, ctx.call(w.Psih, scale=vec[1:4].astype('float32'), N=N), *closed(spec, vec[1:4].astype('float32').astype('float64')[:, None] * xi, eps), f"{spec} Psih float32 scales N={N}")
            near(ctx, np.squeeze(ctx.call(w.Psih, scale=3.7, N=N)).reshape(N), W[3], T[3], f"{spec} Psih scalar N={N}")
            # time domain: centred inverse transform of the halved wavelet
            P = W[1:3] * H * (-1.) ** np.arange(N)
            t = np.fft.ifft(P)
            tol = T[1:3].sum(-1, keepdims=True) / N + 40 * eps * np.abs(P).sum(-1, keepdims=True) / N + 1e-30
            near(ctx, ctx.call(w.psifn, scale=vec[1:3], N=N), t, np.broadcast_to(tol, t.shape), f"{spec} psifn N={N}")
            near(ctx, ctx.call(w.psifn, scale=2., N=N), t[1], np.broadcast_to(tol[1], N), f"{spec} psifn scalar N={N}")
        # evaluation at given frequencies
        v = np.concatenate([-np.logspace(-3, 2, 7), [0], np.logspace(-6, 2.5, 60), np.linspace(.01, 20, 50)])
        if dt == 'float32':
            v = v.astype('float32').astype('float64')
        want, tol = closed(spec, v, eps)
        near(ctx, ctx.call(w, v), want, tol, f"{spec} {dt} at given frequencies")
        near(ctx, ctx.call(w, v.reshape(2, -1)[:, ::2]), want.reshape(2, -1)[:, ::2], tol.reshape(2, -1)[:, ::2], f"{spec} 2D frequencies")
        near(ctx, ctx.call(w, v.tolist()), want, tol, f"{spec} list of frequencies")
        for j in (0, 7, 40, 80):
            near(ctx, np.asarray(ctx.call(w, float(v[j]))).reshape(()), want[j], tol[j:j + 1].reshape(()), f"{spec} scalar frequency")
        ctx.state((spec[0], str(spec[1]), dt, want))


# --- normalisation --------------------------------------------------------------------------------------------
def dense(p):
    g, b = p['g'], p['b']
    wc = (b / g) ** (1 / g)
    sig = wc / np.sqrt(b * g)
    hi = max((b + 400 + 40 * np.sqrt(b)) / g, 3) ** (1 / g) if g >= 1 else (4 * b / g + 200) ** (1 / g)
    return wc, np.unique(np.concatenate([np.linspace(0, hi, 200001), np.linspace(0, 4 * wc, 200001), np.logspace(-9, 0, 4000) * wc]))


def h_norm(ctx, c):
    from scipy import integrate
    g, b, n = c['g'], c['b'], c['n']
    K = 5 if ctx.quick else 8
    wc, w = dense(c)
    ps = []
    for k in range(K):
        L = mk(ctx, ('gmw', dict(gamma=g, beta=b, norm=n, order=k)), 'float64')
        ps.append(np.asarray(ctx.call(L, w)))
    if n == 'bandpass':
        L = mk(ctx, ('gmw', dict(gamma=g, beta=b, norm=n)), 'float64')
        pk = float(np.asarray(ctx.call(L, wc)).squeeze())
        ctx.ok(abs(pk - 2) < 1e-10 and ps[0].max() <= 2 + 1e-10, f"gamma={g} beta={b}: peak {pk}, maximum {ps[0].max()}, not 2")
        Lc = mk(ctx, ('gmw', dict(gamma=g, beta=b, norm=n, centered_scale=True)), 'float64')
        ctx.ok(abs(float(np.asarray(ctx.call(Lc, 1.)).squeeze()) - 2) < 1e-10, "centered_scale does not peak at w=1")
        L32 = mk(ctx, ('gmw', dict(gamma=g, beta=b, norm=n)), 'float32')
        ctx.ok(abs(float(np.asarray(ctx.call(L32, wc)).squeeze()) - 2) < 2e-6 * (1 + b * abs(np.log(wc)) + wc ** g), "single precision peak")
        e0 = integrate.trapezoid(ps[0] ** 2, w)
    else:
        e0 = 2 * np.pi
    # Laguerre terms cancel ~ this much
    for j in range(K):
        for k in range(j, K):
            v = integrate.trapezoid(ps[j] * ps[k], w) / e0
            if b >= 200 and g <= 1 and k > 4:
                continue   # Laguerre terms cancel to fewer digits than this comparison needs
            tol = 1e-6 * 10 ** max(0, j + k - 4) if 1 <= b < 200 else 1e-3 if b > 1 else 1e-4
            ctx.ok(abs(v - (j == k)) < tol, f"gamma={g} beta={b} {n}: orders {j}, {k}: inner product {v}")
            ctx.traces += 1
    ctx.state((g, b, n, ps[0][::100]))


def h_fam(ctx, c):
    """compute_gmw, morsewave against the closed forms"""
    from ssqueezepy import _gmw as G
    g, b, n = c['g'], c['b'], c['n']
    K = 4
    wc = (b / g) ** (1 / g)
    eps = 2 ** -52
    for N in (1, 2, 8, 9, 64, 65):
        xi = ref.xi(1., N)
        half = np.where(np.arange(N) <= N // 2, 1., 0)
        for s in (1., 2.5, wc * 4 / np.pi):
            for cs in (False, True):
                for k in (0, 1, 2):
                    spec = ('gmw', dict(gamma=g, beta=b, norm=n, order=k, centered_scale=cs))
                    W, T = closed(spec, s * xi, eps)
                    for ns, dk in ((True, {}), (False, {}), (True, dict(dtype='float64')), (False, dict(dtype='float64'))):
                        if n == 'bandpass' and not dk:
                            # shipped default: single precision
                            if k and wc ** g + b * abs(np.log(wc)) > 80 or wc > 1e3:
                                continue
                            W, T = closed(spec, s * xi, 2. ** -23)
                            T = T + 1e-37
                        else:
                            W, T = closed(spec, s * xi, eps)
                        m = np.sqrt(s * (wc if cs else 1)) if n == 'energy' and ns else 1.
                        X = ctx.call(G.compute_gmw, N, s, g, b, norm=n, order=k, centered_scale=cs, norm_scale=ns, **dk)
                        near(ctx, X, W * m, T * m * 2, f"compute_gmw(N={N}, scale={s}, {spec[1]}, norm_scale={ns})")
                        X2, x = ctx.call(G.compute_gmw, N, s, g, b, time=True, norm=n, order=k, centered_scale=cs, norm_scale=ns, **dk)
                        near(ctx, X2, W * m, T * m * 2, f"compute_gmw(time=True, N={N}, scale={s}, {spec[1]})")
                        h = half.copy()
                        if N % 2 == 0:
                            h[N // 2] = .5
                        want = np.fft.ifft(W * m * h * (-1.) ** np.arange(N))
                        near(ctx, x, want, np.full(N, 2 * m * (T.sum() + 1e-14 * np.abs(W).sum()) / N + 1e-30 + (1e-37 if n == 'bandpass' else 0)), f"compute_gmw time N={N} {spec[1]}")
        fr = [.3, 1.1, -.7, 2.5]
        P, p = ctx.call(G.morsewave, N, fr, g, b, K, n)
        wP = np.zeros((N, len(fr), K))
        tP = np.zeros((N, len(fr), K))
        wp = np.zeros((N, len(fr), K), dtype='complex128')
        for i, f in enumerate(fr):
            s = wc / abs(f)
            for k in range(K):
                W, T = closed(('gmw', dict(gamma=g, beta=b, norm=n, order=k)), s * xi, eps)
                m = np.sqrt(s) if n == 'energy' else 1
                W, T = W * m, 4 * T * m
                H = np.ones(N)
                if N % 2 == 0:
                    H[N // 2] = .5
                t = np.fft.ifft(W * H * (-1.) ** np.arange(N))
                if f < 0:
                    W, T = np.r_[W[:1], W[:0:-1]], np.r_[T[:1], T[:0:-1]]
                    t = t.conj()
                wP[:, i, k], tP[:, i, k], wp[:, i, k] = W, T, t
        tp = 2 * (tP.sum(0, keepdims=True) + 1e-14 * np.abs(wP).sum(0, keepdims=True)) / N + 1e-30
        near(ctx, np.asarray(P).reshape(wP.shape), wP, tP, f"morsewave N={N} gamma={g} beta={b} {n}")
        near(ctx, np.asarray(p).reshape(wP.shape), wp, np.broadcast_to(tp, wp.shape), f"morsewave time N={N} gamma={g} beta={b} {n}")
        P1, p1 = ctx.call(G.morsewave, N, 1.1, g, b, 1, n)
        near(ctx, np.asarray(P1).reshape(N), wP[:, 1, 0], tP[:, 1, 0], "morsewave scalar frequency")
        near(ctx, np.asarray(p1).reshape(N), wp[:, 1, 0], np.broadcast_to(tp[:, 1, 0], N), "morsewave scalar frequency, time")
        P2, _ = ctx.call(G.morsewave, N, np.array(fr), g, b, 2, n)
        near(ctx, np.asarray(P2).reshape(N, 4, 2), wP[:, :, :2], tP[:, :, :2], "morsewave array of frequencies")
        ctx.state((g, b, n, N, wP))
    # unit energy of resolved wavelets
    if n == 'energy' and g >= 2:
        for k in (0, 1, 2):
            for cs in (False, True):
                N = 4096
                s = 3 * wc / (wc if cs else 1)
                X, x = ctx.call(G.compute_gmw, N, s, g, b, time=True, norm=n, order=k, centered_scale=cs)
                ctx.ok(abs((np.abs(x) ** 2).sum() - 1) < (1e-6 if b >= 1 else 1e-5), f"energy of compute_gmw gamma={g} beta={b} order={k} centered={cs}: {(np.abs(x) ** 2).sum()}")


def h_lowpass(ctx, c):
    from ssqueezepy import _gmw as G
    g = c['g']
    wm = ctx.call(G.morsefreq, g, 0)
    f = lambda w: 2 * np.exp(-w ** g)
    ctx.ok(abs(f(wm) ** 2 - f(0.) ** 2 / 2) < 1e-12, f"gamma={g}, beta=0: power at morsefreq is {f(wm) ** 2}, not half of {f(0.) ** 2}")
    for N in (8, 33):
        for fr in (.4, 2.):
            P, p = ctx.call(G.morsewave, N, fr, g, 0)
            w = np.arange(N) * 2 * np.pi / N
            W = np.where(np.arange(N) <= N // 2, f(w * wm / fr), 0)
            W[0] /= 2
            same(ctx, P, W, 1e-9, 1e-12, f"lowpass gamma={g} N={N}")
            ctx.state((g, N, fr, W))


def h_laguerre(ctx, c):
    from ssqueezepy import _gmw as G
    from scipy.special import eval_genlaguerre
    x = np.concatenate([[0], np.linspace(.01, 12, 40)])
    for k in range(9 if ctx.quick else 13):
        for cc in (-.5, 0., .7, 3., 39.33, 120.):
            got = ctx.call(G.laguerre, x, k, cc)
            want = eval_genlaguerre(k, cc, x)
            sc = sum(np.abs(np.exp(__import__('math').lgamma(k + cc + 1) - __import__('math').lgamma(cc + m + 1) - __import__('math').lgamma(k - m + 1) - __import__('math').lgamma(m + 1))) * x ** m for m in range(k + 1))
            ctx.ok(np.all(np.abs(got - want) <= 1e-11 * (1 + sc)), f"laguerre k={k} c={cc}: off by {np.abs(got - want).max()}")
            same(ctx, ctx.call(G.laguerre, x.reshape(-1, 1), k, cc), got, 0, 0, "laguerre column")
            same(ctx, ctx.call(G.laguerre, 2., k, cc), np.atleast_1d(eval_genlaguerre(k, cc, 2.)), 1e-7, 1e-9, "laguerre scalar")
            ctx.state((k, cc, want))
            ctx.traces += 1


def h_freqs(ctx, c):
    from ssqueezepy import _gmw as G
    from scipy import integrate
    g, b = c['g'], c['b']
    if (2 * b + 2) / g > 150 or (2 * b + 5) / g > 160:
        raise Skip("moments exceed range of the gamma function")
    wc, w = dense(c)
    p0 = ref.gmw(w, gamma=g, beta=b)
    I = lambda v: integrate.trapezoid(v, w)
    M = [I(w ** p * p0) / (2 * np.pi) for p in range(5)]
    E = [I(w ** p * p0 ** 2) / (2 * np.pi) for p in range(5)]
    if not np.isclose(I(p0[::1]), integrate.simpson(p0, x=w), rtol=1e-7):
        raise Skip("oracle grid too coarse")

    def cum(m):
        m = [v / m[0] for v in m[:1]] + [v / m[0] for v in m[1:]]
        k1 = m[1]
        k2 = m[2] - k1 ** 2
        k3 = m[3] - 3 * m[2] * k1 + 2 * k1 ** 3
        k4 = m[4] - 4 * m[3] * k1 - 3 * m[2] ** 2 + 12 * m[2] * k1 ** 2 - 6 * k1 ** 4
        return k1, k2, k3, k4
    km, ke = cum(M), cum(E)
    want = (wc, E[1] / E[0], M[1] / M[0], -km[2] / km[1] ** 1.5)
    for n in (1, 2, 3, 4):
        got = ctx.call(G.morsefreq, g, b, n)
        got = (got,) if n == 1 else got
        ctx.ok(len(got) == n, "number of outputs")
        for q, (u, v) in enumerate(zip(got, want)):
            tol = 1e-6 * max(1, abs(v)) if q < 3 else 2e-3 * max(1, abs(v))
            ctx.ok(abs(u - v) < tol, f"morsefreq(gamma={g}, beta={b})[{q}] = {u}, definition {v}")
            ctx.traces += 1
    for p in range(5):
        mx = max(abs(M[p]), 1e-12)
        res = [ctx.call(G._morsemom, p, g, b, n) for n in (1, 2, 3, 4)]
        ctx.ok(abs(res[0] - M[p]) < 1e-6 * mx, f"moment {p}: {res[0]}, definition {M[p]}")
        ctx.ok(abs(res[1][1] - E[p]) < 1e-6 * max(abs(E[p]), 1e-12), f"energy moment {p}: {res[1][1]}, definition {E[p]}")
        for n in (2, 3, 4):
            ctx.ok(np.allclose(res[n - 1][:n - 1], (res[n - 2] if n > 2 else [res[0]]), rtol=1e-12, atol=0), "outputs depend on their number")
        for nm, K, mom, cc in (('cumulant', res[3][2], M, km), ('energy cumulant', res[3][3], E, ke)):
            v = np.log(mom[0]) if p == 0 else cc[p - 1]
            sc = 1 if p == 0 else (mom[1] / mom[0]) ** p
            ctx.ok(abs(K - v) < 2e-6 * max(sc, abs(v)), f"{nm} {p} of gamma={g} beta={b}: {K}, definition {v}")
        ctx.traces += 4
    for k in range(1, 6):
        got = ctx.call(G.morseafun, g, b, k, 'energy')
        from scipy.special import gammaln
        r = (2 * b + 1) / g
        ctx.ok(abs(np.log(got) - .5 * (np.log(2 * np.pi * g) + r * np.log(2) + gammaln(k) - gammaln(k + r - 1))) < 1e-9, f"morseafun energy k={k}")
    A = ctx.call(G.morseafun, g, b)
    ctx.ok(abs(np.log(A * wc ** b) - wc ** g - np.log(2)) < 1e-9, "morseafun bandpass")
    ctx.state((g, b, want))


# --- centre frequencies and resolutions -----------------------------------------------------------------------
def asc(N):
    k = np.arange(N) - (N - 1) // 2
    return k * 2 * np.pi / N


def ctpeak(spec):
    w = np.arange(0, 60, 1e-3)
    a = np.abs(ref.WAVELETS[spec[0]](w, **full(spec)))
    # the search takes the first window of 10 in which the maximum stops growing
    return w[np.argmax(a)]


def stat_scales(spec, N):
    wp = ctpeak(spec)
    return [None, 4 / np.pi * wp, wp, .5 * wp, 3 * wp, 2., 3.9, 10., N / 6., N / 4., 8 * wp]


def energy_wc(spec, s, N):
    w = asc(N)
    a = np.abs(ref.WAVELETS[spec[0]](s * w, **full(spec))) ** 2
    t = lambda v: v.sum() - .5 * (v[0] + v[-1])
    return (t(a * w) / t(a)) if a.any() else None, a


def h_center(ctx, c):
    from ssqueezepy.wavelets import center_frequency
    spec, N = STAT[c['i']], c['N']
    w = asc(N)
    wp = ctpeak(spec)
    for dt in ('float64', 'float32'):
        if dt == 'float32' and spec[1].get('norm') == 'energy':
            continue
        L = mk(ctx, spec, dt, N)
        tol = 1e-9 if dt == 'float64' else 2e-4
        ct = ctx.call(center_frequency, L, kind='peak-ct', N=N)
        ctx.ok(abs(ct - wp) <= (1.1e-3 if dt == 'float64' else 8e-3), f"{spec} peak-ct {ct}, maximum at {wp}")
        ctx.ok(abs(ctx.call(center_frequency, L, scale=5., kind='peak-ct', N=N) - ct) == 0, "peak-ct depends on scale")
        for s in stat_scales(spec, N):
            S = 4 / np.pi * ct if s is None else s
            ec, a = energy_wc(spec, S, N)
            kw = {} if s is None else dict(scale=s)
            if a.max() < 1e-30:
                continue
            # peak
            got = ctx.call(center_frequency, L, N=N, kind='peak', **kw)
            j = int(np.argmin(np.abs(w - got)))
            ctx.ok(abs(w[j] - got) < 1e-5, f"{spec} N={N} scale={s}: peak {got} is not on the grid")
            ctx.ok(a[j] >= a.max() * (1 - (1e-9 if dt == 'float64' else 1e-3)), f"{spec} N={N} scale={s}: peak {got}, but maximum is at {w[np.argmax(a)]}")
            # energy
            for fi in (None, True):
                e = ctx.call(center_frequency, L, N=N, kind='energy', **dict(kw, **({} if fi is None else dict(force_int=True))))
                ctx.ok(abs(e - ec) <= tol * max(1, abs(ec)), f"{spec} {dt} N={N} scale={s}: energy centre {e}, definition {ec}")
                ctx.traces += 1
            S0 = 4 / np.pi * ct
            e0, _ = energy_wc(spec, S0, N)
            e = ctx.call(center_frequency, L, N=N, kind='energy', force_int=False, **kw)
            ctx.ok(abs(e - e0 * S0 / S) <= tol * 10 * max(1, abs(e0 * S0 / S)), f"{spec} N={N} scale={s}: formula {e}, expected {e0 * S0 / S}")
            ctx.state((c['i'], N, s, dt, round(e, 6)))
        # wavelet given by name or tuple
        if spec[1].get('norm') != 'energy' and dt == 'float64':
            t = ctx.call(center_frequency, (spec[0], dict(spec[1], dtype=dt)), N=N, kind='peak-ct')
            ctx.ok(t == ct, "tuple and Wavelet differ")


def def_std_w(spec, s, N, about=None):
    w = asc(N)
    ec, a = energy_wc(spec, s, N)
    ec = ec if about is None else about
    t = lambda v: v.sum() - .5 * (v[0] + v[-1])
    return np.sqrt(t((w - ec) ** 2 * a) / t(a)), a


def def_std_t(spec, s, N, mult=2):
    M = mult * N
    P = np.asarray(ref.WAVELETS[spec[0]](s * ref.xi(1., M), **full(spec))).astype('complex128')
    if M % 2 == 0:
        P[M // 2] /= 2
    psi = np.fft.fftshift(np.fft.ifft(P)) if M % 2 == 0 else np.fft.ifft(P * (-1.) ** np.arange(M))
    e = np.abs(psi) ** 2
    t = np.arange(M) - M / 2
    tr = lambda v: v.sum() - .5 * (v[0] + v[-1])
    return np.sqrt(tr(t ** 2 * e) / tr(e)), e


def gridpeak(spec, s, N):
    w = asc(N)
    a = np.abs(ref.WAVELETS[spec[0]](s * w, **full(spec)))
    return w[np.argmax(a)], np.sort(a)[-2] / a.max()


def h_std(ctx, c):
    from ssqueezepy.wavelets import freq_resolution, time_resolution
    spec, N = STAT[c['i']], c['N']
    for dt in ('float64', 'float32'):
        if dt == 'float32' and (spec[1].get('norm') == 'energy' or ctx.quick and N > 130):
            continue
        L = mk(ctx, spec, dt, N)
        rt = 1e-7 if dt == 'float64' else 2e-3
        ct = L.wc_ct
        for s in stat_scales(spec, N)[1:]:
            S0 = 4 / np.pi * ct
            for fi in (True, False):
                form = not fi and (s < 4 or s > N / 5)
                S = S0 if form else s
                # force_int=False takes the centre by formula, see center_frequency
                if energy_wc(spec, S, N)[0] is None:
                    continue
                sw, a = def_std_w(spec, S, N, None if fi else energy_wc(spec, S0, N)[0] * S0 / S)
                gp, second = gridpeak(spec, s, N)
                if a.max() < 1e-20 or sw < 1e-6:
                    continue
                k = S0 / s if form else 1.
                got = ctx.call(freq_resolution, L, scale=s, N=N, nondim=False, force_int=fi)
                ctx.ok(abs(got - sw * k) <= rt * max(sw * k, 1e-3), f"{spec} {dt} N={N} scale={s} force_int={fi}: std_w {got}, definition {sw * k}")
                if second < 1 - 1e-4 and gp > 0:
                    got = ctx.call(freq_resolution, L, scale=s, N=N, nondim=True, force_int=fi)
                    ctx.ok(abs(got - sw * k / gp) <= rt * max(1e-3, sw * k / gp), f"{spec} {dt} N={N} scale={s} force_int={fi}: nondim std_w {got}, definition {sw * k / gp}")
                st, e = def_std_t(spec, S, N)
                dec = e.max() / e[:max(10, 2 * N // 100)].mean()
                if dec < 1e3 * 1.01:
                    if dec < 990:
                        # documented: explicit failure
                        try:
                            ctx.step()
                            time_resolution(L, scale=s, N=N, force_int=fi)
                        except Exception as ex:
                            ctx.ok('decay' in str(ex), f"time_resolution: {ex!r}")
                        else:
                            ctx.fail(f"{spec} N={N} scale={s}: insufficient decay ({dec}) accepted")
                    continue
                rtt = rt if dt == 'float64' else 3e-2
                got = ctx.call(time_resolution, L, scale=s, N=N, nondim=False, force_int=fi)
                if dt == 'float64' or dec > 1e9:
                    ctx.ok(abs(got - st / k) <= rtt * st / k, f"{spec} {dt} N={N} scale={s} force_int={fi}: std_t {got}, definition {st / k}")
                if second < 1 - 1e-4 and gp > 0 and (dt == 'float64' or dec > 1e9):
                    got = ctx.call(time_resolution, L, scale=s, N=N, nondim=True, force_int=fi)
                    ctx.ok(abs(got - st / k * gp) <= rtt * st / k * gp, f"{spec} {dt} N={N} scale={s} force_int={fi}: nondim std_t {got}, definition {st / k * gp}")
                ctx.state((c['i'], N, s, fi, dt, round(sw, 6), round(st, 5)))
        # longer spans
        if dt == 'float64':
            s = 4 / np.pi * ct
            for mn, mx in ((3, 3), (2, 4), (1, 3)):
                for m in range(mn, mx + 1):
                    st, e = def_std_t(spec, s, N, m)
                    dec = e.max() / e[:max(10, m * N // 100)].mean()
                    if dec > 1e3:
                        break
                if not (dec > 1010 or dec < 1) or (m * N) % 2 and spec[0] == 'morlet':
                    continue
                got = ctx.call(time_resolution, L, scale=s, N=N, nondim=False, min_mult=mn, max_mult=mx)
                ctx.ok(abs(got - st) <= 1e-6 * st, f"{spec} N={N} min_mult={mn} max_mult={mx}: std_t {got}, definition {st}")


def h_props(ctx, c):
    from ssqueezepy.wavelets import center_frequency, freq_resolution, time_resolution
    spec, N = STAT[c['i']], c['N']
    L = mk(ctx, spec, 'float64', N)
    ct = ctpeak(spec)
    ctx.ok(abs(L.wc_ct - ct) <= 1.1e-3, f"wc_ct {L.wc_ct}, maximum at {ct}")
    ctx.ok(abs(L.scalec_ct - 4 / np.pi * L.wc_ct) < 1e-12, "scalec_ct is not 4/pi wc_ct")
    s = L.scalec_ct
    ec, _ = energy_wc(spec, s, N)
    ctx.ok(abs(L.wc - ec) < 1e-8, f"{spec} N={N}: wc {L.wc}, definition {ec}")
    sw, _ = def_std_w(spec, s, N)
    st, e = def_std_t(spec, s, N)
    if e.max() / e[:max(10, 2 * N // 100)].mean() < 1050:
        raise Skip("documented: insufficient decay is an error")
    gp, second = gridpeak(spec, s, N)
    ctx.ok(abs(L.std_w_d - sw) < 1e-8 * max(1, sw), f"{spec} N={N}: std_w_d {L.std_w_d}, definition {sw}")
    ctx.ok(abs(L.std_t_d - st) < 1e-7 * st, f"{spec} N={N}: std_t_d {L.std_t_d}, definition {st}")
    ctx.ok(abs(L.std_f_d - sw / 2 / np.pi) < 1e-8, "std_f_d")
    if second < 1 - 1e-9:
        ctx.ok(abs(L.std_w - sw / gp) < 1e-7 * sw / gp, f"{spec} N={N}: std_w {L.std_w}, definition {sw / gp}")
        ctx.ok(abs(L.std_t - st * gp) < 1e-7 * st * gp, f"{spec} N={N}: std_t {L.std_t}, definition {st * gp}")
        ctx.ok(abs(L.std_f - sw / gp / 2 / np.pi) < 1e-7, "std_f")
    ctx.ok(abs(L.harea - L.std_t * L.std_w) < 1e-12 and abs(L.harea - sw * st) < 1e-6 * sw * st, f"{spec} N={N}: harea {L.harea}, definition {sw * st}")
    ctx.traces += 10
    if e[:10].max() < 1e-9 * e.max() and spec[0] != 'cmhat':
        ctx.ok(L.harea > .499, f"{spec} N={N}: harea {L.harea} below the uncertainty bound")
        # continuous-time value, by integrating the closed form
        w = np.linspace(1e-6, 60, 600001)
        P = np.asarray(ref.WAVELETS[spec[0]](w, **full(spec)))
        I = lambda v: np.trapezoid(v, w)
        d = np.gradient(P, w)
        e0 = I(np.abs(P) ** 2)
        m = I(w * np.abs(P) ** 2) / e0
        # time spread about t=0, as the library defines it
        H = np.sqrt(I((w - m) ** 2 * np.abs(P) ** 2) / e0 * I(np.abs(d) ** 2) / e0)
        if N >= 128 and spec[0] in ('gmw', 'morlet'):
            ctx.ok(abs(L.harea - H) < .02 * H, f"{spec} N={N}: harea {L.harea}, continuous-time {H}")
    for nondim in (True, False):
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            ctx.call(L.info, nondim)
        txt = f.getvalue()
        vals = (L.wc_ct, L.std_t, L.std_w) if nondim else (L.wc, L.std_t_d, L.std_w_d)
        for v in vals:
            ctx.ok(('%.6f' % v) in txt, f"info(nondim={nondim}) does not show {v:.6f}: {txt}")
        ctx.ok('%.12f' % (vals[1] * vals[2]) in txt, "info: Heisenberg area")
    # after changing N, statistics of the new N
    e = def_std_t(spec, s, N + 1)[1]
    if e.max() / e[:max(10, 2 * (N + 1) // 100)].mean() < 1050:
        return
    old = (L.wc_ct, L.std_w_d)
    L.N = N + 1
    ctx.call(L.reset_properties)
    sw2, _ = def_std_w(spec, L.scalec_ct, N + 1)
    st2, _ = def_std_t(spec, L.scalec_ct, N + 1)
    ctx.ok(abs(L.std_w_d - sw2) < 1e-8 * max(1, sw2) and abs(L.std_t_d - st2) < 1e-7 * st2, f"{spec}: statistics not those of N={N + 1} after reset")
    ctx.state((c['i'], N, round(sw, 7), round(st, 6)))


def h_adm(ctx, c):
    from ssqueezepy.utils import adm_ssq, adm_cwt
    from scipy import integrate
    spec = specs('quick' if ctx.quick else 'thorough')[c['i']]
    p = full(spec)
    if spec[0] == 'gmw':
        g, b = p['gamma'], p['beta']
        wc = (b / g) ** (1 / g)
        if wc > 40 or b < 1 or g < 1:
            raise Skip("wavelet extends beyond the documented range of integration")
    f = lambda w: np.asarray(ref.WAVELETS[spec[0]](np.atleast_1d(w), **p)).astype('complex128')
    # oracle: dense composite rule in log frequency, dw/w = d(log w)
    u = np.linspace(np.log(1e-8), np.log(200.), 400001)
    v = f(np.exp(u))
    css = np.trapezoid(np.conj(v), u)
    cpsi = np.trapezoid(np.abs(v) ** 2, u)
    for dt in ('float64', 'float32'):
        if dt == 'float32' and p.get('norm') == 'energy':
            continue
        if dt == 'float32' and spec[0] == 'gmw' and (p['order'] and wc ** g + b * abs(np.log(wc)) > 80):
            continue
        L = mk(ctx, spec, dt)
        rt = 2e-5 if dt == 'float64' else 2e-4
        a = ctx.call(adm_ssq, L)
        ctx.ok(abs(a - css) <= rt * np.trapezoid(np.abs(v), u), f"adm_ssq({spec}, {dt}) = {a}, integral {css}")
        a = ctx.call(adm_cwt, L)
        ctx.ok(abs(a - cpsi) <= rt * abs(cpsi), f"adm_cwt({spec}, {dt}) = {a}, integral {cpsi}")
        ctx.traces += 2
    ctx.state((spec[0], str(p), css, cpsi))


def h_integral(ctx, c):
    """integral over all positive arguments of unimodal decaying functions"""
    from math import gamma, pi as PI
    from ssqueezepy.utils.cwt_utils import integrate_analytic
    if c['kind'] == 'bell':
        f = lambda t: np.exp(-.5 * ((t - c['p']) / c['w']) ** 2)
        want = c['w'] * (2 * PI) ** .5
    else:
        a, b, g = c['a'], c['b'], c['g']
        if a * max(1, 1 / g) >= 10 and b < 1 and g == 1:
            raise Skip('decays beyond the range of integration')
        f = lambda t: np.abs(t) ** a * np.exp(-b * np.abs(t) ** g) * (t > 0)
        want = gamma((a + 1) / g) / g * b ** (-(a + 1) / g)
    for s in (1, 7):
        ctx.eq(ctx.call(integrate_analytic, lambda t: s * f(t), True), s * want, f'integral {c}', rtol=2e-5)
    ctx.state(want)
