"""C22: test signals equal their closed forms, noise is the seed's, and no call changes what later calls see."""
import copy, itertools
import numpy as np
from ..core import Skip, digest

TECH = "exhaustive lattice exploration of every generator and composition against closed forms, and explicit-state exploration of all call sequences up to the depth bound with the generator's state and the noise source as the state"
RULE = ("every generator x lengths x time spans x endpoint x parameter tuples, directly and by name; every carrier x modulator x reflection x form of specification x noise; all sequences over an alphabet of constructions, "
        "calls and external use of the noise source, comparing each output and the default tables with a model after every step; states = distinct (model state, output) pairs")
BOUNDS = dict(quick="all sequences of depth 3 over 19 events; N in 7 lengths", thorough="all sequences of depth 4 over 19 events; N in 10..80 + 7 lengths")
ASSUMES = ["noise is documented as np.random.seed(seed) followed by normal draws scaled to the requested ratio", "default_args/default_tkw hold the documented keys", "overlap=0 of `packed`, and non-dict parameters, are out of scope"]
CASE_LIMIT_S = 700
pi = np.pi

DEF = {'cosine': dict(f=64, phi0=0), 'sine': dict(f=64, phi0=0), 'lchirp': dict(tmin=0, tmax=1, fmin=0, fmax=None), 'echirp': dict(tmin=0, tmax=1, fmin=1, fmax=None), 'hchirp': dict(tmin=0, tmax=1, fmin=1, fmax=None),
       'jumps': {}, 'low': {}, 'am-cosine': dict(amin=.1), 'am-sine': dict(amin=.1), 'am-exp': dict(amin=.1), 'am-gauss': dict(amin=.01), 'sine:am-cosine': (dict(f=16), dict(amin=.5))}
TKW = dict(tmin=0, tmax=1, endpoint=True)
CHIRPS = ('lchirp', 'echirp', 'echirp_pc', 'hchirp')
CAR = ['cosine', 'sine', 'lchirp', 'echirp', 'echirp_pc', 'hchirp', 'par-lchirp', 'par-echirp', 'par-hchirp', 'jumps', 'packed', 'packed-poly', 'poly-cubic']
AM = ['am-sine', 'am-cosine', 'am-exp', 'am-gauss']


# ------------------------------------------------------------------------------------------------------------ model
class Model:
    extra = 0       # rounding of the aliasing limit may add one sample to an estimated length

    def __init__(m, N=None, snr=None, default_args=None, default_tkw=None, seed=None):
        m.N, m.snr, m.seed = N or 512, snr, seed
        m.da = {**DEF, **(default_args or {})}
        m.tk = {**TKW, **(default_tkw or {})}

    def grid(m, N, tk, sin=False):
        k = {**m.tk, **({'endpoint': False} if sin else {}), **tk}
        n = np.arange(N)
        return k['tmin'] + n * (k['tmax'] - k['tmin']) / (max(N - 1, 1) if k['endpoint'] else N), k['tmin'], k['tmax'], k['endpoint']

    def est(m, N, tk, fmin, fmax):
        """-> list of admissible N"""
        if N is not None:
            return N
        k = {**m.tk, **tk}
        if fmax is None or fmin is None:
            return m.N
        return int(np.ceil(1 + 2 * max(fmin, fmax) * (k['tmax'] - k['tmin']) - 1e-9)) + m.extra

    def chirp(m, kind, N, fmin, fmax, tk):
        N = m.est(N, tk, fmin, fmax)
        fmax = N // 2 if fmax is None else fmax
        t, a, b, _ = m.grid(N, tk)
        T, u = b - a, t - a
        if kind == 'lchirp':
            ph = fmin * u + (fmax - fmin) * u**2 / (2 * T)
        elif kind == 'echirp':
            L = np.log(fmax / fmin) / T
            ph = fmin * np.expm1(L * u) / L
        elif kind == 'echirp_pc':
            A = (fmax - fmin) / (np.exp(b) - np.exp(a))
            ph = A * (np.exp(t) - np.exp(a)) + (fmin - A * np.exp(a)) * u
        else:   # hyperbolic: 1/sqrt(f) is linear in time
            p, q = fmin**-.5, fmax**-.5
            s = (q - p) / T
            ph = (1 / p - 1 / (p + s * u)) / s
        return np.cos(2 * pi * ph), t

    def gen(m, fn, N, kw):
        kw = dict(kw)
        tk = {k: kw.pop(k) for k in ('tmin', 'tmax', 'endpoint') if k in kw}
        g = lambda k, d: kw.pop(k, d)
        if fn in ('sine', 'cosine'):
            t = m.grid(m.N if N is None else N, tk, True)[0]
            f, p = g('f', 1), g('phi0', 0)
            x = getattr(np, fn[:3])(2 * pi * f * t + p)
        elif fn in CHIRPS:
            f0 = dict(lchirp=0, echirp=1, echirp_pc=0, hchirp=.1)[fn]
            x, t = m.chirp(fn, N, g('fmin', f0), g('fmax', None), tk)
        elif fn.startswith('par_'):
            N = N or m.N
            kind = fn[4:]
            a, b, c, d = g('fmin1', None), g('fmax1', None), g('fmin2', None), g('fmax2', None)
            if kind == 'lchirp':
                up, dn = (lambda v: v + N / 10), (lambda v: v - N / 10)
            else:
                r = 1.5 if kind == 'echirp' else 3
                up, dn = (lambda v: v * r), (lambda v: v / r)
            a = m.da[kind].get('fmin', 0 if kind == 'lchirp' else 1) if a is None else a
            c = up(a) if c is None else c
            if d is None:
                d = N / 2 if b is None else min(N / 2, up(b))
            b = dn(d) if b is None else b
            x, t = m.chirp(kind, N, a, b, tk)
            x = x + m.chirp(kind, N, c, d, tk)[0]
        elif fn in ('am_sine', 'am_cosine'):
            t = m.grid(N or m.N, tk, True)[0]
            f, lo, hi, p = g('f', 1), g('amin', 0), g('amax', 1), g('phi', 0)
            x = lo + (hi - lo) * (1 + getattr(np, fn[3:6])(2 * pi * f * t + p)) / 2
        elif fn == 'am_exp':
            t, a, b, _ = m.grid(N or m.N, tk)
            lo, hi = g('amin', .1), g('amax', 1)
            x = lo * (hi / lo) ** ((t - a) / (b - a))
        elif fn == 'am_gauss':
            N = N or m.N
            lo, hi = g('amin', .1), g('amax', 1)
            u = 2 * (np.arange(N) - (N - 1) / 2) / N
            x = lo + (hi - lo) * np.exp(-5 * u**2)
            t = None
        elif fn == 'jumps':
            N = N or m.N
            _, a, b, e = m.grid(N, tk)
            fs = g('freqs', None)
            K = 4 if fs is None else len(fs)
            M = N // K
            if fs is None:
                fs = [1, M / 4, M / 2, M / 16]
            t = a + np.arange(M * K) * (b - a) * K / (M * K - (1 if tk.get('endpoint', m.tk['endpoint']) else 0))
            x = np.cos(2 * pi * np.repeat(fs, M) * t)
        elif fn == 'packed':
            N = N or m.N
            t = m.grid(N, tk)[0]
            fs = g('freqs', None)
            if fs is None:
                fs = [.5, 1, 2, N / 10, N / 10 + N / 50, N / 10 + N / 25, N / 5, N / 4, N / 3, N / 3 + N / 10]
            No = int(g('overlap', .8) * N)
            x = sum(np.cos(2 * pi * f * t) * ((np.arange(N) < No) if i % 2 == 0 else (np.arange(N) >= N - No)) for i, f in enumerate(fs))
        elif fn == 'packed_poly':
            N = N or m.N
            t = 10 * np.arange(N) / (N - 1)
            q = N / 512
            x = ((1 + .3 * np.cos(t)) * np.cos(2 * pi * q * (10 * t - .3 * np.sin(t) - 1.8 * t**1.5))
                 + (1 + .2 * np.cos(2 * t)) * np.exp(-t / 15) * np.cos(2 * pi * (2.4 * q * t + .5 * q * t**1.2 + .3 * np.sin(t))) + np.cos(2 * pi * q * (4.8 * t + .2 * t**1.3)))
        elif fn == 'poly_cubic':
            N = N or m.N
            t = 10 * np.arange(N) / (N - 1)
            q = N / 256
            ip = lambda a, b, c, d: 2 * pi * q * (a * t**4 / 4 + b * t**3 / 3 + c * t**2 / 2 + d * t)
            x = np.cos(ip(.025, -.36, 1.25, 2.)) + np.sin(pi * q * t) + np.cos(ip(.01, -.25, 1.5, 4.))
        else:
            raise KeyError(fn)
        assert not kw, (fn, kw)
        return x, t

    def signal(m, spec, N):
        """-> name, x (noiseless), t, fparams, aparams, snr"""
        if isinstance(spec, (tuple, list)):
            name, par = spec
            fp, ap = par if isinstance(par, (tuple, list)) else (par, {})
        else:
            name, fp, ap = spec, {}, {}
        refl, name = name[0] == '#', name.lstrip('#')
        if name.startswith('am-'):
            name = 'cosine:' + name
            fd, ad = m.da['cosine'], m.da.get(name[7:], {})
        elif ':' in name:
            d = m.da.get(name)
            f, a = name.split(':')
            fd, ad = d if isinstance(d, (tuple, list)) else (d, {}) if d else (m.da.get(f, {}), {})
            ad = ad or m.da.get(a, {})
        else:
            fd, ad = m.da.get(name, {}), {}
        fp, ap = {**fd, **fp}, {**ad, **ap}
        f, a = (name.split(':') + [''])[:2]
        snr = fp.pop('snr', m.snr)
        x, t = m.gen(f.replace('-', '_'), N, fp)
        if a:
            tk = {k: v for d in (fp, ap) for k, v in d.items() if k in TKW}
            x = x * m.gen(a.replace('-', '_'), len(x), {**ap, **tk})[0]
        if refl:
            x = x + x[::-1]
        return ('#' if refl else '') + name, x, t, fp, ap, snr


def noise(model, x, snr, rng):
    if snr is None:
        return np.zeros(len(x))
    return np.sqrt(x.var() / 10 ** (snr / 10)) * rng.randn(len(x))


# ------------------------------------------------------------------------------------------------------------ cases
SPANS = [{}, dict(tmin=0, tmax=2), dict(tmin=1, tmax=2), dict(tmin=-1, tmax=3, endpoint=False), dict(tmin=.5, tmax=.75, endpoint=True), dict(tmax=4.), dict(endpoint=False), dict(tmin=-2.)]
PAR = dict(
    sine=[{}, dict(f=3), dict(f=2.5, phi0=1.), dict(f=0, phi0=.5)], cosine=[{}, dict(f=3), dict(f=2.5, phi0=-1.), dict(f=0)],
    lchirp=[{}, dict(fmin=3.), dict(fmin=1, fmax=5), dict(fmin=6., fmax=2), dict(fmax=4), dict(fmin=0, fmax=7.)],
    echirp=[{}, dict(fmin=2.), dict(fmin=1, fmax=5), dict(fmin=6., fmax=2), dict(fmax=4)],
    echirp_pc=[{}, dict(fmin=2.), dict(fmin=1, fmax=5), dict(fmin=6., fmax=2), dict(fmax=4)],
    hchirp=[dict(fmin=1), dict(fmin=2.), dict(fmin=1, fmax=5), dict(fmin=6., fmax=2), dict(fmax=4)],
    par_lchirp=[{}, dict(fmin1=1.), dict(fmax1=3.), dict(fmax2=4.), dict(fmin2=2.), dict(fmin1=0, fmax1=2, fmin2=3, fmax2=5), dict(fmax1=2., fmax2=3.), dict(fmin1=0, fmin2=0)],
    par_echirp=[{}, dict(fmin1=1.), dict(fmax1=3.), dict(fmax2=4.), dict(fmin2=2.), dict(fmin1=.5, fmax1=2, fmin2=3, fmax2=5), dict(fmax1=2., fmax2=3.)],
    par_hchirp=[{}, dict(fmin1=1.), dict(fmax1=3.), dict(fmax2=4.), dict(fmin2=2.), dict(fmin1=.5, fmax1=2, fmin2=3, fmax2=5), dict(fmax1=2., fmax2=3.)],
    am_sine=[{}, dict(f=2, amin=.3), dict(amin=1, amax=0), dict(f=1.5, phi=1., amax=3)], am_cosine=[{}, dict(f=2, amin=.3), dict(amin=1, amax=0), dict(f=1.5, phi=1., amax=3)],
    am_exp=[{}, dict(amin=.5), dict(amin=1, amax=.25), dict(amax=3)], am_gauss=[{}, dict(amin=0), dict(amin=1, amax=.25)],
    jumps=[{}, dict(freqs=[1, 3]), dict(freqs=[2., 5., 1.]), dict(freqs=[4])], packed=[{}, dict(freqs=[1, 2, 4.]), dict(overlap=.5), dict(overlap=1), dict(freqs=[3.], overlap=.25)],
    packed_poly=[{}], poly_cubic=[{}])


def lens(q):
    return [16, 17, 40, 64, 97, 128, 201] if q else list(range(10, 81)) + [97, 128, 201, 256, 511, 512, 1000]


FORMS = ['plain', '#', 'pair', 'pair2']
OVR = {'sine': dict(f=5), 'cosine': dict(f=7.5, phi0=.3), 'lchirp': dict(fmin=2), 'hchirp': dict(fmin=2., fmax=6.), 'echirp': dict(fmax=8, tmax=2), 'jumps': dict(freqs=[1, 2]), 'packed': dict(overlap=.5), 'par-lchirp': dict(fmax2=9)}
AOVR = {'am-sine': dict(f=2), 'am-cosine': dict(amax=2, phi=.5), 'am-exp': dict(amin=.5), 'am-gauss': dict(amin=.5)}
INIT = [{}, dict(N=48), dict(default_tkw=dict(tmax=2)), dict(default_args={'lchirp': dict(fmin=2, fmax=9), 'am-sine': dict(f=3), 'cosine:am-exp': (dict(f=3), dict(amin=.25)), 'sine': {}}), dict(snr=0), dict(snr=-7.5, seed=0), dict(snr=20, seed=3, N=33)]


def gen(tier):
    q = tier == 'quick'
    for fn in PAR:
        yield dict(h='form', fn=fn)
    for i in range(len(INIT)):
        for car in CAR + ['']:
            yield dict(h='compose', init=i, car=car)
    yield dict(h='snr')
    yield dict(h='transforms')
    n = len(EVENTS)
    for i in range(n):
        for j in range(n):
            yield dict(h='history', first=[i, j], depth=3 if q else 4)


def ts(**kw):
    from ssqueezepy import TestSignals
    return TestSignals(warn_alias=False, **kw)


def h_form(ctx, c):
    fn = c['fn']
    inits = [{}, dict(N=40, default_tkw=dict(tmin=.5, endpoint=False))]
    for kw, sp in itertools.product(PAR[fn], SPANS):
        if fn == 'am_gauss' and sp:
            continue
        if fn == 'echirp' and {**TKW, **sp}['tmax'] == 0:
            continue
        for ini in inits:
            if {**TKW, **ini.get('default_tkw', {}), **sp}['tmin'] >= {**TKW, **ini.get('default_tkw', {}), **sp}['tmax']:
                continue
            o, m = ts(**ini), Model(**ini)
            for N in lens(ctx.quick) + [None]:
                x, t = ctx.call(getattr(o, fn), N, **kw, **sp)
                wx, wt = m.gen(fn, N, {**kw, **sp})
                what = f'{fn}({N}, {kw}, {sp}) of TestSignals({ini})'
                if N is None and fn in CHIRPS and len(x) == len(wx) + 1:       # rounding of the aliasing limit
                    wx, wt = m.gen(fn, len(x), {**kw, **sp})
                ctx.ok(len(x) == len(wx), lambda: f'{what}: {len(x)} samples, expected {len(wx)}')
                ctx.eq(x, wx, what, rtol=1e-9, atol=1e-8)
                if wt is not None:
                    ctx.eq(t, wt, what + ' time', rtol=1e-12, atol=1e-12)
                ctx.state(digest([x]))


def check(ctx, o, m, specs, N, what, rng=None):
    """compare one make_signals call with the model; rng: the noise source's state if no seed is set"""
    arg = specs
    before = copy.deepcopy(arg)
    out = ctx.call(o.make_signals, arg, N, get_params=True)
    ctx.ok(repr(arg) == repr(before), f'{what}: the caller\'s specification was changed')
    L = specs if isinstance(specs, list) else [specs]
    names = []
    for s in L:
        name, x, t, fp, ap, snr = m.signal(s, N)
        names.append(name)
        ctx.ok(name in out, lambda: f'{what}: {name} missing from {list(out)}')
        gx, gt, (gfp, gap) = out[name]
        r = rng if m.seed is None else np.random.RandomState(m.seed)
        if N is None and len(gx) == len(x) + 1 and any(k in name for k in CHIRPS):
            m.extra = 1
            name, x, t, fp, ap, snr = m.signal(s, N)
            m.extra = 0
        ctx.ok(len(gx) == len(x), lambda: f'{what}: {name} has {len(gx)} samples, expected {len(x)}')
        n = noise(m, x, snr, r)
        ctx.eq(gx, x + n, f'{what}: {name}', rtol=1e-9, atol=1e-8)
        if t is not None:
            ctx.eq(gt, t, f'{what}: {name} time', rtol=1e-12, atol=1e-12)
        gfp = dict(gfp)
        if snr is not None:
            gs = gfp.pop('snr')
            ctx.ok(x.var() < 1e-12 or abs(gs - 10 * np.log10(x.var() / n.var())) < 1e-6, lambda: f'{what}: {name} reports SNR {gs}')
        ctx.ok(gfp == fp and dict(gap) == ap, lambda: f'{what}: {name} parameters {gfp}, {gap}; expected {fp}, {ap}')
        ctx.state(digest([gx]))
    ctx.ok(list(out) == list(dict.fromkeys(names)), f'{what}: names')
    return out


def h_compose(ctx, c):
    ini = INIT[c['init']]
    for am in [''] + AM:
        if not c['car'] and not am:
            continue
        name = c['car'] + (':' if c['car'] and am else '') + am
        base = c['car'] or 'cosine'
        f, a = OVR.get(base, {}), AOVR.get(am, {})
        specs = [name, (name, {}), (name, f), (name, (f, a)), (name, ({}, a)), [name, f], (name, (dict(f, snr=0), a)), (name, dict(f, snr=12.))]
        if am and am != 'am-exp':
            specs.append((name, ({}, dict(amin=0))))
        if base in ('cosine', 'sine', 'lchirp'):
            specs.append((name, ({'f' if 'sin' in base else 'fmin': 0}, a)))
        if ini.get('snr') is not None:
            specs.append((name, dict(f, snr=None)))
        if base not in ('packed-poly', 'poly-cubic'):
            specs += [(name, (dict(f, tmin=.5, tmax=2.), a)), (name, (dict(f, tmin=.5, tmax=2.), dict(a, tmin=1., tmax=1.75) if am else a))]
        specs += [('#' + s if isinstance(s, str) else type(s)(['#' + s[0], s[1]])) for s in specs] if c['car'] else []
        for N in (None, 32, 61):
            for s in specs:
                S = s if isinstance(s, (str, tuple)) else [s]
                o, m = ts(**ini), Model(**ini)
                np.random.seed(11)
                out = check(ctx, o, m, S, N, f'TestSignals({ini}).make_signals({S}, {N})', np.random.RandomState(11))
                np.random.seed(11)
                x = ctx.call(o.make_signals, S, N)
                ctx.same(x, list(out.values())[0][0], f'{S}: with and without parameters')
                x[:] = 0                                                # outputs are the caller's
    if c['car']:
        o, m = ts(**ini), Model(**ini)
        L = [c['car'], '#' + c['car'], (c['car'], OVR.get(c['car'], {})), 'sine']
        np.random.seed(5)
        r = np.random.RandomState(5)
        xs = ctx.call(o.make_signals, L, 50)
        ctx.ok(isinstance(xs, list) and len(xs) == 4, lambda: f'make_signals({L}) returned {len(xs)} signals')
        for s, x in zip(L, xs):
            _, w, _, _, _, snr = m.signal(s, 50)
            w = w + noise(m, w, snr, np.random.RandomState(m.seed) if m.seed is not None else r)
            ctx.eq(x, w, f'{s} in a list', rtol=1e-9, atol=1e-8)


def h_snr(ctx, c):
    for snr0, snr1, seed in itertools.product([None, 0, 0., -20, 3.5, 60], ['-', None, 0, -20, 60], [None, 0, 1, 12345]):
        o, m = ts(snr=snr0, seed=seed, N=64), Model(snr=snr0, seed=seed, N=64)
        s = ('lchirp', {} if snr1 == '-' else dict(snr=snr1))
        for rep in range(3):
            np.random.seed(100 + rep)
            check(ctx, o, m, s, None, f'snr {snr0}/{snr1} seed {seed} call {rep}', np.random.RandomState(100 + rep))


def h_transforms(ctx, c):
    o, m = ts(N=64, snr=5, seed=2), Model(N=64, snr=5, seed=2)
    for L in (['lchirp', '#echirp', 'am-cosine'], 'all', ('sine', dict(f=3)), 'jumps'):
        got = []
        ctx.call(o.test_transforms, lambda x, t, p: got.append((x.copy(), t.copy(), p)), L)
        LL = type(o).DEMO if L == 'all' else L if isinstance(L, list) else [L]
        ctx.ok(len(got) == len(LL), f'{L}: {len(got)} calls')
        for s, (x, t, (n, fp, ap)) in zip(LL, got):
            wn, wx, wt, *_ = m.signal(s, None)
            ctx.ok(n == wn, f'{L}: name {n}, expected {wn}')
            ctx.eq(x, wx + noise(m, wx, 5, np.random.RandomState(2)), f'test_transforms {n}', rtol=1e-9, atol=1e-8)
    for bad in ('nope', ['lchirp', 'lchirp:nope'], [('lchirp', 3)], [3], 3, [('lchirp', (1, 2))]):
        try:
            o.make_signals(bad)
        except (TypeError, ValueError):
            ctx.state(repr(bad))
            continue
        ctx.fail(f'make_signals({bad!r}) was accepted')


# ------------------------------------------------------------------------------------------------------------ histories
_A = {'lchirp': dict(fmin=3), 'sine': dict(f=2)}
_T = dict(tmax=2)
EVENTS = [('new', {}), ('new', dict(snr=3, seed=0)), ('new', dict(snr=0, seed=7, N=40)), ('new', dict(default_args=_A, default_tkw=_T)), ('new', dict(snr=10)),
          ('make', 'lchirp', None), ('make', ('lchirp', dict(fmin=1, fmax=9, snr=0)), 40), ('make', 'sine:am-cosine', 24), ('make', '#echirp', 33), ('make', [('am-gauss', {}), ('sine', (dict(f=3, tmax=2), {}))], 20), ('make', ('jumps', dict(tmin=1, tmax=3)), 16),
          ('make', ['hchirp:am-exp', 'packed', 'am-sine'], None), ('direct', 'par_echirp', dict(fmax2=9)), ('direct', 'lchirp', dict(tmin=1, tmax=3, fmin=2, fmax=4)), ('direct', 'am_cosine', dict(endpoint=True)),
          ('rand', 3), ('seed', 42), ('scribble',), ('edit',)]


def h_history(ctx, c):
    import ssqueezepy._test_signals as T
    for tail in itertools.product(range(len(EVENTS)), repeat=c['depth'] - 2):
        np.random.seed(0)
        rng = np.random.RandomState(0)
        objs, last = [(ts(), Model())], None
        names = []
        for i in list(c['first']) + list(tail):
            e = EVENTS[i]
            names.append(repr(e))
            what = ' -> '.join(names)
            if e[0] == 'new':
                kw = copy.deepcopy(e[1])
                objs.append((ctx.call(ts, **kw), Model(**copy.deepcopy(e[1]))))
                ctx.ok(kw == e[1], f'{what}: arguments changed')
            elif e[0] == 'rand':
                np.random.randn(e[1]), rng.randn(e[1])
            elif e[0] == 'seed':
                np.random.seed(e[1])
                rng.seed(e[1])
            elif e[0] == 'scribble':            # results belong to the caller
                for x in (last or []):
                    if isinstance(x, np.ndarray):
                        x[:] = -1
                    elif isinstance(x, dict):
                        x.clear()
            elif e[0] == 'edit':                # settings of an object are its own
                o, m = objs[-1]
                m.da = copy.deepcopy(m.da)
                for d in (o, m):
                    d = d.default_args if d is o else d.da
                    d['lchirp']['fmin'] = 1.5
                    d['am-exp'] = dict(amin=.7)
                m.tk = dict(m.tk, tmax=1.25)
                o.default_tkw['tmax'] = 1.25
            else:
                last = []
                for o, m in objs[-2:]:          # the newest object, and one made before it
                    if e[0] == 'make':
                        if m.seed is not None and any(m.signal(s, e[2])[5] is not None for s in (e[1] if isinstance(e[1], list) else [e[1]])):
                            got = check(ctx, o, m, copy.deepcopy(e[1]), e[2], what)
                            rng.set_state(np.random.get_state())          # a documented side effect of seeding
                        else:
                            got = check(ctx, o, m, copy.deepcopy(e[1]), e[2], what, rng)
                        for x, t, (fp, ap) in got.values():
                            last += [x, t, fp, ap]
                    else:
                        x, t = ctx.call(getattr(o, e[1]), **e[2])
                        wx, wt = m.gen(e[1], None, e[2])
                        ctx.eq(x, wx, what, rtol=1e-9, atol=1e-8)
                        ctx.eq(t, wt, what, rtol=1e-12, atol=1e-12)
                        last += [x, t]
            s0, s1 = np.random.get_state(), rng.get_state()
            ctx.ok(np.array_equal(s0[1], s1[1]) and s0[2:] == s1[2:], f'{what}: the global noise source was disturbed')
            ctx.ok(T.DEFAULT_ARGS == DEF and T.DEFAULT_TKW == TKW, f'{what}: module defaults changed: {T.DEFAULT_ARGS}, {T.DEFAULT_TKW}')
            for o, m in objs:
                ctx.ok(o.default_args == m.da and o.default_tkw == m.tk and o.N == m.N and o.snr == m.snr and o.seed == m.seed, f'{what}: settings of an object changed')
        ctx.state(digest([np.random.get_state()[1]]) + str(len(objs)) + what)
