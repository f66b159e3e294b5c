"""C08: inverse CWT equals its formula and ignores execution details."""
import numpy as np
from functools import lru_cache
from ..core import Skip
from ..util import signals, isolate_wisdom
from .. import ref as R

TECH = "bounded exhaustive enumeration of scale layouts, wavelets and options; the inverse is linear, so each is decided on the full basis of unit transforms"
RULE = ("every layout in the list x wavelet x norm x precision x mean convention x every unit cell of a scale column (real and imaginary), plus forward/inverse "
        "compositions over the signal alphabet; states = distinct reconstructions")
BOUNDS = dict(quick="up to 14 scales, 13 layouts, 6 wavelets, N in {24,33,64,100,256}", thorough="same layouts, N in {17,24,33,48,64,100,200,256,300,512}, nv 4..32")
ASSUMES = ["admissibility constants are recomputed by adaptive quadrature of the documented closed forms (agreement 1e-5)",
           "row weights: difference of log scales to the previous row (first: to the next); step / scale for linear scales"]

LAYOUTS = {
    'log2': 2 ** (1 + np.arange(8) / 2), 'log4': 2 ** (.5 + np.arange(10) / 4), 'log32': 2 ** (1 + np.arange(14) / 32), 'log8_3': 2 ** (1.5 + np.arange(3) / 8),
    'lin': np.linspace(2., 9., 8), 'lin_step': 1.5 + .25 * np.arange(6), 'lin_int': np.arange(1., 8.),
    'pw': np.concatenate([2 ** (1 + np.arange(6) / 8), 2 ** (1 + 5 / 8) * 2 ** (np.arange(1, 5) / 2)]),
    'pw_1': np.concatenate([2 ** (1 + np.arange(6) / 8), 2 ** (1 + 5 / 8) * 2 ** (np.arange(1, 2) / 2)]),
    'pw_2': np.concatenate([2 ** (1 + np.arange(8) / 8), 2 ** (1 + 7 / 8) * 2 ** (np.arange(1, 3) / 2)]),
    'pw_frac': np.concatenate([2 ** (1 + np.arange(7) / 6), 2 ** 2 * 2 ** (np.arange(1, 5) / 1.5)]),
    'pw_32': np.concatenate([2 ** (1 + np.arange(9) / 32), 2 ** (1 + 8 / 32) * 2 ** (np.arange(1, 6) / 8)]),
    'pw_finer': np.concatenate([2 ** (1 + np.arange(4) / 2), 2 ** 2.5 * 2 ** (np.arange(1, 6) / 8)]),
}
WAVS = ('gmw', 'morlet', 'bump', 'cmhat', 'hhhat', 'gmw_10_3')


def spec(w):
    return ('gmw', dict(gamma=3., beta=10.)) if w == 'gmw_10_3' else (w, {})


@lru_cache(None)
def consts(w, l1):
    """(C one-integral, C two-integral) by quadrature"""
    from scipy.integrate import quad
    name, o = spec(w)
    o = {**R.DEFAULTS[name], **o}
    if name == 'gmw' and not l1:
        o['norm'] = 'energy'
    f = lambda w_: R.WAVELETS[name](np.array([w_]), **o)[0]
    pts = np.concatenate([[1e-12, 1e-6, 1e-3], np.linspace(.02, 30, 300)])
    a = sum(quad(lambda v: f(v) / v, p, q)[0] for p, q in zip(pts[:-1], pts[1:]))
    b = sum(quad(lambda v: f(v) ** 2 / v, p, q)[0] for p, q in zip(pts[:-1], pts[1:]))
    return a, b


def weights(sc, l1, kind):
    """per-row weight without admissibility"""
    s = np.asarray(sc, 'float64').ravel()
    if kind == 'lin':
        w = (s[-1] - s[0]) / (len(s) - 1) / s
    else:
        d = np.diff(np.log(s))
        w = np.concatenate([d[:1], d])
    return w / (1. if l1 else np.sqrt(s))


def gen(tier):
    q = tier == 'quick'
    for w in WAVS:
        for lay in LAYOUTS:
            for l1 in (True, False):
                for dt in ('float64', 'float32'):
                    yield dict(h='one', w=w, lay=lay, l1=l1, dt=dt)
                    yield dict(h='two', w=w, lay=lay, l1=l1, dt=dt)
    for N in ((24, 33, 64, 100, 256) if q else (17, 24, 33, 48, 64, 100, 200, 256, 300, 512)):
        for w in WAVS:
            for sc in ('log', 'log-piecewise', 'linear', 'log:maximal', 'log:naive', 'linear:maximal', 'log-piecewise:maximal'):
                for nv in ((8, 32) if q else (4, 8, 12, 16, 32)):
                    for l1 in (True, False):
                        yield dict(h='strings', N=N, w=w, sc=sc, nv=nv, l1=l1)


def setup(ctx):
    isolate_wisdom()


def wav(w, dt, form='tuple', l1=True):
    from ssqueezepy import Wavelet
    name, o = spec(w)
    t = (name, dict(o, dtype=dt))
    if form == 'obj':
        if name == 'gmw' and not l1:
            t[1]['norm'] = 'energy'
        return Wavelet(t)
    return t


def h_one(ctx, c):
    from ssqueezepy import icwt
    sc = LAYOUTS[c['lay']].astype(c['dt'])
    single = c['dt'] == 'float32'
    kind = c['lay'][:3]
    l1 = c['l1']
    na, n = len(sc), 3
    wt = weights(LAYOUTS[c['lay']], l1, kind) * 2 / consts(c['w'], l1)[0]
    cd = 'complex64' if single else 'complex128'
    tol = 3e-5 if single else 2e-6
    if single and '32' in c['lay']:
        tol = 1e-4
    basis = np.concatenate([np.eye(na), 1j * np.eye(na)])[:, :, None] * np.array([1., 0., -2.])
    i, j = np.meshgrid(np.arange(na), np.arange(n), indexing='ij')
    dense = (np.cos(i + 2 * j) + 1j * np.sin(3 * i * j + 1) + .5)
    W = np.concatenate([basis, dense[None]]).astype(cd)
    want = np.einsum('bij,i->bj', W.real, wt)
    for form in ('tuple', 'obj'):
        for scs in (sc, sc.reshape(-1, 1)):
            for mean in (0, 1.5, -2, 'each', 'list'):
                m = {'each': np.arange(len(W)) * .25, 'list': list(np.arange(len(W)) * .25)}.get(mean, mean) if isinstance(mean, str) else mean
                W0 = W.copy()
                got = ctx.call(icwt, W, wav(c['w'], c['dt'], form, l1), scs, l1_norm=l1, x_mean=m)
                ctx.same(W, W0, 'transform kept')
                ref = want + (np.reshape(m, (-1, 1)) if isinstance(mean, str) else m)
                ctx.eq(got, ref, f'batched, mean={mean}', rtol=tol, scale=np.abs(wt).max())
    # same number in every way of asking
    for k in (0, na, len(W) - 1):
        for mean in (0, 2.5):
            for x_len in (None, n):
                got = ctx.call(icwt, W[k], wav(c['w'], c['dt']), sc, l1_norm=l1, x_mean=mean, x_len=x_len)
                ctx.eq(got, want[k] + mean, f'single, mean={mean}', rtol=tol, scale=np.abs(wt).max())
                ctx.state(got)
    if kind == 'log':
        nv = int(round(1 / np.log2(LAYOUTS[c['lay']][1] / LAYOUTS[c['lay']][0])))
        got = ctx.call(icwt, W, wav(c['w'], c['dt']), sc, l1_norm=l1, nv=nv)
        ctx.eq(got, want, f'nv given', rtol=tol, scale=np.abs(wt).max())


def h_two(ctx, c):
    from ssqueezepy import icwt
    sc = LAYOUTS[c['lay']].astype(c['dt'])
    single = c['dt'] == 'float32'
    kind = c['lay'][:3]
    l1 = c['l1']
    na = len(sc)
    wt = weights(LAYOUTS[c['lay']], l1, kind) * 2 / consts(c['w'], l1)[1]
    name, o = spec(c['w'])
    if name == 'gmw' and not l1:
        o = dict(o, norm='energy')
    cd = 'complex64' if single else 'complex128'
    tol = 1e-4 if single else 1e-5
    for N in (12, 15):
        i, j = np.meshgrid(np.arange(na), np.arange(N), indexing='ij')
        rows = []
        for k in range(na):         # one row at a time, and all of them
            W = np.zeros((na, N), complex)
            W[k] = np.cos(k + 2 * j[0]) + 1j * np.sin(3 * j[0] + 1) + .5
            rows.append(W)
        rows.append(sum(rows))
        for k, W in enumerate(rows):
            if k not in (0, na // 2, na - 1, na) and ctx.quick:
                continue
            for pad, rp, mean in (('reflect', False, 0), ('zero', False, 1.), ('wrap', False, 0), (None, True, 2.), ('cut', True, 0)):
                xl = None
                if not rp:
                    P, up, n1, _ = R.pad(W, pad)
                    L = N
                elif pad is None:
                    P, up, n1, L = W, N, 0, N
                else:           # W itself is a padded transform of a shorter signal
                    P, up, L = W, N, N - 5
                    n1 = 5 - 5 // 2
                    xl = L
                Psi = R.psih((name, o), LAYOUTS[c['lay']], P.shape[-1], half_nyquist=False)
                want = (np.fft.ifft(np.fft.fft(P) * Psi).real * wt[:, None]).sum(0)[n1:n1 + L]
                kw = dict(padtype=pad) if not rp else dict(rpadded=True)
                Wc = W.astype(cd)
                got = ctx.call(icwt, Wc, wav(c['w'], c['dt']), sc, one_int=False, l1_norm=l1, x_mean=mean, x_len=xl, **kw)
                ctx.same(Wc, W.astype(cd), 'transform kept')
                s = np.abs(wt).max() * np.abs(Psi).max()
                ctx.eq(got, want + mean, f'N={N} pad={pad} rpadded={rp} row {k}', rtol=tol, scale=s)
                ctx.state(got)


def h_strings(ctx, c):
    from ssqueezepy import cwt, icwt
    N, nv, l1 = c['N'], c['nv'], c['l1']
    w = wav(c['w'], 'float64')
    kw = dict(nv=nv, l1_norm=l1)
    for nm, x in signals(N).items():
        try:
            W, s = cwt(x, w, scales=c['sc'], **kw)
        except Exception as e:
            raise Skip(f'scales infeasible: {e}')
        if len(s) < 4:
            raise Skip('too few scales')
        sc = np.asarray(s).ravel()
        lin = c['sc'].startswith('lin')
        wt = weights(sc, l1, 'lin' if lin else 'log') * 2 / consts(c['w'], l1)[0]
        want = (W.real * wt[:, None]).sum(0)
        scale = np.abs(want).max() + np.abs(W * wt[:, None]).max()
        a = ctx.call(icwt, W, w, scales=c['sc'], **kw)
        ctx.eq(a, want, f'{nm}, scales by name', rtol=3e-5, scale=scale)
        b = ctx.call(icwt, W, w, scales=s, l1_norm=l1)
        ctx.eq(b, want, f'{nm}, scales by value', rtol=3e-5, scale=scale)
        ctx.eq(b, a, f'{nm}, scales by name or by value', rtol=3e-5, scale=scale)
        m = x.mean()
        ctx.eq(ctx.call(icwt, W, w, scales=c['sc'], x_mean=m, **kw), a + m, f'{nm} mean', rtol=1e-9, scale=scale)
        P, s2 = cwt(x, w, scales=c['sc'], rpadded=True, **kw)
        n1 = R.p2up(N)[1]
        p = ctx.call(icwt, P, w, scales=c['sc'], x_len=N, rpadded=True, **kw)
        if p.shape[-1] != N:
            p = p[n1:n1 + N]
        ctx.eq(p, a, f'{nm} padded', rtol=1e-7, scale=scale)
        if nv == 32 and c['sc'] == 'log-piecewise':
            kk = {} if l1 else dict(l1_norm=False)
            ctx.eq(ctx.call(icwt, W, w, **kk), a, f'{nm} default scales', rtol=1e-9, scale=scale)
        if not l1:
            W1, s1 = cwt(x, w, scales=s, l1_norm=True)
            ctx.eq(ctx.call(icwt, W1, w, scales=s), b, f'{nm}: L1 vs L2', rtol=3e-5, scale=scale)
            for pp, r in ((W1, {}), ):
                t1 = ctx.call(icwt, W1, w, scales=s, one_int=False)
                t2 = ctx.call(icwt, W, w, scales=s, one_int=False, l1_norm=False)
                ctx.eq(t1, t2, f'{nm}: L1 vs L2, double integral', rtol=1e-4, scale=scale)
        ctx.state(a)
        # padded transform, double integral: formula on the padded transform
        if nm == 'chirp':
            name, o = spec(c['w'])
            if name == 'gmw' and not l1:
                o = dict(o, norm='energy')
            Psi = R.psih((name, o), sc, P.shape[-1], half_nyquist=False)
            w2 = weights(sc, l1, 'lin' if lin else 'log') * 2 / consts(c['w'], l1)[1]
            want = (np.fft.ifft(np.fft.fft(P) * Psi).real * w2[:, None]).sum(0)[n1:n1 + N]
            got = ctx.call(icwt, P, w, scales=c['sc'], x_len=N, rpadded=True, one_int=False, **kw)
            ctx.eq(got, want, 'padded, double integral', rtol=1e-4, scale=scale)
