"""C17: one precedence for every setting (argument > environment > configs.ini), resolved when the call is made."""
import io, os, sys, shutil, tempfile, itertools, contextlib, traceback
import numpy as np
from ..core import Skip, REPO
from ..util import env
from .. import ref

TECH = "explicit-state exploration of the settings state (environment x configuration file x arguments): all combinations per setting, all change sequences up to the depth bound, observed through behaviour of the real code against a precedence model"
RULE = ("every key of the configuration file x {file: shipped, changed} x {argument: omitted, None, falsy, other} through every constructor; every threaded routine x env {unset,0,1} x file {0,1} x argument {none,False,True} "
        "in its own process, observing whether threads were started; all sequences of setting changes with all observables checked after each; states = distinct settings states with their observed outcome")
BOUNDS = dict(quick="all sequences of depth 3 over 13 events", thorough="all sequences of depth 4 over 17 events")
ASSUMES = ["the library is imported from a scratch copy of /repo's package made when the check starts, so that its configs.ini can be edited", "thread use is observed as numba's threading layer being started in an otherwise unused process"]
CASE_LIMIT_S = 800

_D = {}


def setup(ctx):
    assert 'ssqueezepy' not in sys.modules
    d = tempfile.mkdtemp(prefix='c17_')
    shutil.copytree(os.path.join(REPO, 'ssqueezepy'), os.path.join(d, 'ssqueezepy'), ignore=shutil.ignore_patterns('__pycache__'))
    sys.path.insert(0, d)
    _D['ini'] = os.path.join(d, 'ssqueezepy', 'configs.ini')
    _D['text'] = open(_D['ini']).read()
    import ssqueezepy
    assert ssqueezepy.__file__.startswith(d)
    os.environ['SSQ_PARALLEL'] = '0'        # never start threads in the worker itself: children of it decide 'threads' by their absence


def lines():
    """-> list of (module, obj, key, value text) of the shipped file"""
    out = []
    mod = obj = ''
    for l in _D['text'].split('#### END')[0].splitlines():
        l = l.strip()
        if l.startswith('## '):
            mod = l[3:]
        elif l.startswith('# '):
            obj = l[2:]
        elif '=' in l:
            k, v = l.split('=')
            out.append((mod, obj, k.strip(), v.strip()))
    return out


def write(ch, style='{k}={v}'):
    """rewrite the file with changes {(module, obj, key): text}"""
    mod = obj = ''
    out = []
    head, tail = _D['text'].split('#### END')
    for l in head.split('\n'):
        s = l.strip()
        if s.startswith('## '):
            mod = s[3:]
        elif s.startswith('# '):
            obj = s[2:]
        elif '=' in s:
            k, v = [q.strip() for q in s.split('=')]
            if (mod, obj, k) in ch:
                l = style.format(k=k, v=ch[(mod, obj, k)])
        out.append(l)
    with open(_D['ini'], 'w') as f:
        f.write('\n'.join(out) + '#### END' + tail)


@contextlib.contextmanager
def ini(ch, style='{k}={v}'):
    write(ch, style)
    try:
        yield
    finally:
        write({})


W = np.array([-2., -.5, 0., .3, .9, 1.4, 2., 2.7, 3.5, 5., 7.5, 11., 13.4, 14.])
MOD = dict(gmw='_gmw', morlet='wavelets', bump='wavelets', cmhat='wavelets', hhhat='wavelets')
#            key: (changed in file, falsy argument or None, other argument)
KEYS = dict(gmw=dict(gamma=(2., None, 4.), beta=(20., None, 8.), norm=('energy', None, 'energy'), order=(1., 0, 2), centered_scale=(True, False, True), dtype=('float64', None, 'float64')),
            morlet=dict(mu=(7.5, 0, 5.), dtype=('float64', None, 'float64')),
            bump=dict(mu=(4., 0, 6.), s=(1.5, None, .7), om=(.5, 0, .25), dtype=('float64', None, 'float64')),
            cmhat=dict(mu=(2., 0, 1.5), s=(1.5, None, .7), dtype=('float64', None, 'float64')),
            hhhat=dict(mu=(3., 0, 6.), dtype=('float64', None, 'float64')))
OMIT = 'omitted'


def gen(tier):
    q = tier == 'quick'
    yield dict(h='shipped')
    for w in KEYS:
        for k in KEYS[w]:
            yield dict(h='wavelet', w=w, keys=[k])
        for a, b in itertools.combinations(KEYS[w], 2):
            yield dict(h='wavelet', w=w, keys=[a, b])
    for style in ('{k}={v}', '{k} = {v}', '{k} ={v}', '  {k}= {v}  ', "{k}='{v}'", '{k}="{v}"'):
        yield dict(h='style', style=style)
    yield dict(h='stft')
    yield dict(h='downsample')
    yield dict(h='gdefaults')
    yield dict(h='falsy')
    for n in PAR:
        yield dict(h='threads', fn=n)
    yield dict(h='fft_threads')
    yield dict(h='gpu')
    E = events(tier)
    for i in range(len(E)):
        for j in range(len(E)):
            yield dict(h='history', first=[i, j], depth=3 if q else 4)


# ---------------------------------------------------------------------------------------------------------- wavelets
def expected(w, o):
    f = ref.WAVELETS[w]
    k = {a: b for a, b in o.items() if a != 'dtype'}
    if w == 'gmw':
        k['order'] = int(k['order'])
    return f(W, **k)


def shipped(w):
    o = dict(ref.DEFAULTS[w])
    o['dtype'] = 'float32'
    return o


def tolof(o):
    return 3e-5 if o['dtype'] == 'float32' else 1e-9


def fix(o):
    """unit-energy GMWs are always double precision (documented)"""
    if o.get('norm') == 'energy':
        o = dict(o, dtype='float64')
    return o


def check_wavelet(ctx, w, eff, args, kwdtype, what):
    from ssqueezepy import Wavelet
    from ssqueezepy import wavelets, _gmw
    fn = _gmw.gmw if w == 'gmw' else getattr(wavelets, w)
    e = fix(eff)
    want = expected(w, e)
    obj = ctx.call(Wavelet, (w, dict(args)))
    a = np.asarray(obj(W))
    ctx.eq(a, want, f'{what}: Wavelet(({w}, {args}))', rtol=tolof(e))
    ctx.ok(obj.dtype == e['dtype'], lambda: f'{what}: dtype {obj.dtype}, expected {e["dtype"]}')
    ctx.ok(str(a.dtype) in (e['dtype'], {'float32': 'complex64', 'float64': 'complex128'}[e['dtype']]), lambda: f'{what}: evaluates in {a.dtype}, expected {e["dtype"]}')
    for k, v in e.items():
        if k in obj.config:
            ctx.ok(obj.config[k] == v, lambda: f'{what}: config[{k}]={obj.config[k]!r}, expected {v!r}')
    if eff.get('norm') != 'energy' or eff['dtype'] == 'float64':
        b = np.asarray(ctx.call(fn, **args)(W))
        ctx.eq(b, want, f'{what}: {w}(**{args})', rtol=tolof(e))
    if not args:
        ctx.eq(np.asarray(ctx.call(Wavelet, w)(W)), want, f'{what}: Wavelet({w!r})', rtol=tolof(e))
        ctx.eq(np.asarray(ctx.call(Wavelet, w.upper())(W)), want, f'{what}: Wavelet({w.upper()!r})', rtol=tolof(e))
    ctx.state((w, sorted(e.items(), key=str)))


def h_wavelet(ctx, c):
    w = c['w']
    opts = []
    for k in c['keys']:
        ch, falsy, other = KEYS[w][k]
        args = [OMIT, None, other] + ([falsy] if falsy is not None else [])
        opts.append([(k, f, a) for f in (None, ch) for a in args])
    for combo in itertools.product(*opts):
        eff = shipped(w)
        file, args = {}, {}
        for k, f, a in combo:
            if f is not None:
                file[(MOD[w], w, k)] = f
                eff[k] = f
            if a is not OMIT:
                args[k] = a
                if a is not None:
                    eff[k] = a
        if w == 'bump' and (eff['s'] == 0):
            continue
        with ini(file):
            check_wavelet(ctx, w, eff, args, None, f'file {file}')
    from ssqueezepy import Wavelet
    for o in KEYS:
        ctx.eq(np.asarray(ctx.call(Wavelet, o)(W)), expected(o, shipped(o)), f'{o} after restoring the file', rtol=3e-5)


def h_shipped(ctx, c):
    """documented defaults, every wavelet"""
    for w in KEYS:
        check_wavelet(ctx, w, shipped(w), {}, None, 'shipped file')
        with ini({('wavelets', o, 'mu'): 9.25 for o in ('morlet', 'cmhat', 'hhhat', 'bump') if o != w}):
            check_wavelet(ctx, w, shipped(w), {}, None, 'file changed for the other wavelets')
        for dt in ('float32', 'float64'):
            from ssqueezepy import Wavelet
            with ini({(MOD[w], w, 'dtype'): 'float64' if dt == 'float32' else 'float32'}):
                o = ctx.call(Wavelet, w, dtype=dt)
                ctx.ok(o.dtype == dt, lambda: f'Wavelet({w!r}, dtype={dt!r}).dtype = {o.dtype}')
                o = ctx.call(Wavelet, (w, dict(dtype=dt)))
                ctx.ok(o.dtype == dt, lambda: f'Wavelet(({w!r}, dtype={dt!r})).dtype = {o.dtype}')


def h_style(ctx, c):
    for w in KEYS:
        for k, (v, _, _) in KEYS[w].items():
            eff = dict(shipped(w), **{k: v})
            with ini({(MOD[w], w, k): v}, c['style']):
                check_wavelet(ctx, w, eff, {}, None, f'line style {c["style"]!r}, {k}={v}')


def h_stft(ctx, c):
    from ssqueezepy import stft, ssq_stft
    x = np.cos(np.arange(40.) * .7)
    for f in (None, 'float64'):
        with ini({('_stft', 'stft', 'dtype'): f} if f else {}):
            for a in (OMIT, None, 'float32', 'float64'):
                kw = {} if a is OMIT else dict(dtype=a)
                want = a if a not in (OMIT, None) else (f or 'float32')
                want = dict(float32='complex64', float64='complex128')[want]
                for X in (x, x.astype('float32'), x.astype(int)):
                    S = ctx.call(stft, X, n_fft=12, **kw)
                    ctx.ok(str(S.dtype) == want, lambda: f'stft dtype {S.dtype}, expected {want} (file {f}, argument {a})')
                    T = ctx.call(ssq_stft, X, n_fft=12, **kw)
                    ctx.ok(str(T[0].dtype) == want and str(T[1].dtype) == want, lambda: f'ssq_stft dtype {T[0].dtype}, expected {want} (file {f}, argument {a})')
                    ctx.state((f, a, str(X.dtype), want))


def h_downsample(ctx, c):
    from ssqueezepy import Wavelet
    from ssqueezepy.utils import make_scales, process_scales
    w = Wavelet('gmw')
    base = np.asarray(make_scales(256, 2., 200., nv=16, scaletype='log', wavelet=w)).ravel()
    for f in (None, 2, 3):
        with ini({('utils.cwt_utils', 'make_scales', 'downsample'): f} if f else {}):
            for a in (OMIT, None, 1, 2, 3, 5):
                kw = {} if a is OMIT else dict(downsample=a)
                want = a if a not in (OMIT, None) else (f or 4)
                s = np.asarray(ctx.call(make_scales, 256, 2., 200., nv=16, scaletype='log-piecewise', wavelet=w, **kw)).ravel()
                r = np.log2(s[1:] / s[:-1]) * 16
                ctx.ok(abs(r[0] - 1) < 1e-6, 'first piece at nv')
                ctx.ok(abs(r[-1] - want) < 1e-6, lambda: f'second piece is downsampled by {r[-1]:.6g}, expected {want} (file {f}, argument {a})')
                ctx.state((f, a, len(s)))


def h_gdefaults(ctx, c):
    from ssqueezepy.configs import gdefaults
    for mod, obj, k, v in lines():
        def val(t):
            try:
                return float(t)
            except ValueError:
                return {'None': None, 'True': True, 'False': False}.get(t, t)
        name = f'{mod}.{obj}'
        for file in (None, '3.5', 'abc', 'True', 'False', 'None', '0'):
            with ini({(mod, obj, k): file} if file else {}):
                fv = val(file) if file else val(v)
                ctx.ok(gdefaults(name, **{k: None}) == fv, lambda: f'{name}.{k}: {gdefaults(name, **{k: None})!r}, file says {fv!r}')
                for a in (0, 0., False, '', 'x', 7, ()):
                    g = ctx.call(gdefaults, name, **{k: a})
                    ctx.ok(g is a or (g == a and type(g) is type(a)), lambda: f'{name}.{k}: {g!r}, argument was {a!r}')
                    d = ctx.call(gdefaults, name, get_all=True, as_dict=True, default_order=True, **{k: a, 'unknown': 3})
                    want = {q[2]: val(q[3]) for q in lines() if q[:2] == (mod, obj)}
                    keys = list(want)
                    want[k] = a
                    ctx.ok(dict(d) == dict(want, unknown=3) and list(d)[:len(keys)] == keys, lambda: f'{name} get_all: {d}, expected {want}')
                    ctx.state((name, k, file, repr(a)))


def h_falsy(ctx, c):
    """falsy arguments with a non-falsy default are honoured"""
    from ssqueezepy import cwt, ssq_cwt, stft, issq_cwt, icwt, Wavelet, TestSignals, extract_ridges
    from ssqueezepy.utils import FFT
    n = np.arange(40)
    x = np.cos(n * .6) + .2
    s = 2. ** (np.arange(3, 12) / 3)
    xn = x.copy()
    xn[5] = np.nan
    z = ctx.call(cwt, xn, 'gmw', scales=s)[0]
    ctx.ok(np.isfinite(z).all(), 'NaNs are handled by default')
    z = ctx.call(cwt, xn, 'gmw', scales=s, nan_checks=False)[0]
    ctx.ok(np.isnan(z).any(), 'nan_checks=False is ignored')
    a = ctx.call(cwt, x, 'gmw', scales=s, order=(0, 1), average=False)[0]
    b = ctx.call(cwt, x, 'gmw', scales=s, order=(0, 1))[0]
    ctx.ok(np.ndim(a) == 3 or isinstance(a, (list, tuple)), 'average=False is ignored')
    ctx.eq(np.mean(np.asarray(a), axis=0), b, 'mean over orders', rtol=1e-5)
    # gamma=0: every non-zero coefficient is transferred
    T0 = ctx.call(ssq_cwt, x, 'gmw', scales=s, gamma=0., squeezing='abs')[0]
    T1 = ctx.call(ssq_cwt, x, 'gmw', scales=s, gamma=1e3, squeezing='abs')[0]
    ctx.ok(np.abs(T0).sum() > 0 and np.abs(T1).sum() == 0, 'gamma is not honoured')
    # bw=0 removes nothing
    A = np.abs(np.cos(np.outer(np.arange(5), n[:6]))) + .1
    r = ctx.call(extract_ridges, A, np.arange(1., 6), n_ridges=2, bw=0, parallel=False)
    ctx.same(r[:, 0], r[:, 1], 'bw=0')
    # penalty=0: independent maxima
    r = ctx.call(extract_ridges, A, np.arange(1., 6), penalty=0, parallel=False)
    ctx.same(r[:, 0], A.argmax(0), 'penalty=0')
    t0 = TestSignals(64, snr=0, seed=0)
    y = [ctx.call(t0.make_signals, [('cosine', dict(f=5))]) for _ in range(2)]
    ctx.same(y[0], y[1], 'seed=0')
    ctx.ok(np.abs(y[0] - TestSignals(64).make_signals([('cosine', dict(f=5))])).max() > .1, 'snr=0 is ignored')
    # explicit patience wins over that of the object, per call
    f = FFT(patience=0, wisdom_dir=tempfile.mkdtemp(prefix='c17w_'))
    ctx.eq(ctx.call(f.fft, x, patience=(1, .01)), np.fft.fft(x), 'fft', rtol=1e-12)
    ctx.ok(f.patience == 0, 'patience of the object changed by a call')
    ctx.state('falsy')


# ---------------------------------------------------------------------------------------------------------- threads
def _par_calls():
    from ssqueezepy import algos, cwt, ssq_cwt, ssq_stft, stft, phase_cwt, phase_stft, extract_ridges, Wavelet
    from ssqueezepy.utils import stft_utils
    r = np.arange(6)[:, None]
    g = (1 + np.cos(r * .7 + np.arange(12) * .31)) * np.exp(1j * (r * 1.1 + np.arange(12) * .4))
    w = np.abs(g.real) + .01
    lin, log = np.linspace(.1, 2, 6), np.geomspace(.1, 2, 6)
    pw = np.hstack([np.geomspace(.1, .4, 3), np.geomspace(.8, 3.2, 3)])
    Sf = np.linspace(0, .5, 6)
    s = 2. ** (np.arange(3, 9) / 3)
    x = np.cos(np.arange(24.))
    return dict(
        indexed_sum=lambda **k: algos.indexed_sum(g, np.minimum(r + 0 * np.arange(12), 5), **k),
        ssqueeze_fast_lin=lambda **k: algos.ssqueeze_fast(g, g * .3j, lin, 1., gamma=1e-6, **k),
        ssqueeze_fast_log=lambda **k: algos.ssqueeze_fast(g, g * .3j, log, 1., logscale=True, gamma=1e-6, **k),
        ssqueeze_fast_stft=lambda **k: algos.ssqueeze_fast(g, g * .3j, Sf, 1., gamma=1e-6, Sfs=Sf, **k),
        onfly_lin=lambda **k: algos.indexed_sum_onfly(g, w, lin, **k),
        onfly_log=lambda **k: algos.indexed_sum_onfly(g, w, log, logscale=True, **k),
        replace_under_abs=lambda **k: algos.replace_under_abs(w.copy(), w, value=.5, **k),
        zero_denormals=lambda **k: algos.zero_denormals(w.copy(), **k),
        phase_cwt_cpu=lambda **k: algos.phase_cwt_cpu(g, g * .3j, 1e-6, **k),
        phase_stft_cpu=lambda **k: algos.phase_stft_cpu(g, g * .3j, Sf, 1e-6, **k),
        phase_cwt=lambda **k: phase_cwt(g, g * .3j, **k),
        phase_stft=lambda **k: phase_stft(g, g * .3j, Sf, **k),
        buffer=lambda **k: stft_utils.buffer(x, 8, 7, **k),
        buffer2=lambda **k: stft_utils.buffer(np.stack([x, -x]), 8, 6, modulated=True, **k),
        cwt=lambda: cwt(x, 'morlet', scales=s),
        cwt_gmw=lambda: cwt(x, 'gmw', scales=s),
        ssq_cwt=lambda: ssq_cwt(x, 'gmw', scales=s)[:2],
        ssq_cwt_w=lambda: ssq_cwt(x, 'gmw', scales=s, get_w=True)[:2],
        stft=lambda: stft(x, n_fft=12),
        ssq_stft=lambda: ssq_stft(x, n_fft=12)[:2],
        wavelets=lambda: [Wavelet(n)(w[0]) for n in ('gmw', 'morlet', 'bump', 'cmhat', 'hhhat')],
        gmws=lambda: [Wavelet(('gmw', o))(w[0]) for o in (dict(norm='energy'), dict(order=1), dict(order=2, norm='energy'))],
        find_closest_log=lambda parallel: algos.find_closest(w, log, logscale=True, parallel=parallel, smart=False),
        find_closest_lin=lambda parallel: algos.find_closest(w, lin, parallel=parallel, smart=False),
        extract_ridges=lambda parallel: extract_ridges(w, lin + 1, parallel=parallel),
    )


NOARG = ('cwt', 'cwt_gmw', 'ssq_cwt', 'ssq_cwt_w', 'stft', 'ssq_stft', 'wavelets', 'gmws')
ARGONLY = ('find_closest_log', 'find_closest_lin', 'extract_ridges')
PAR = ('indexed_sum', 'ssqueeze_fast_lin', 'ssqueeze_fast_log', 'ssqueeze_fast_stft', 'onfly_lin', 'onfly_log', 'replace_under_abs', 'zero_denormals', 'phase_cwt_cpu', 'phase_stft_cpu', 'phase_cwt', 'phase_stft',
       'buffer', 'buffer2') + NOARG + ARGONLY


def in_child(f):
    """run f in a forked child; returns its outcome string"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = f()
        except BaseException:
            out = 'EXC ' + traceback.format_exc()
        os.write(w, out.encode()[-60000:])
        os._exit(0)
    os.close(w)
    b = b''
    while True:
        q = os.read(r, 65536)
        if not q:
            break
        b += q
    os.close(r)
    os.waitpid(pid, 0)
    return b.decode()


def model(envv, filev, arg):
    if arg is not None:
        return bool(arg)
    if envv is not None:
        return envv != '0'
    return filev != '0'


def h_threads(ctx, c):
    n = c['fn']
    import ssqueezepy  # noqa
    f = _par_calls()[n]
    args = [None] if n in NOARG else [False, True] if n in ARGONLY else [OMIT, None, False, True]
    vals = {}
    for e in (None, '0', '1'):
        for p in ('1', '0'):
            for a in args:
                def run():
                    import numba
                    with ini({('configs', 'IS_PARALLEL', 'parallel'): p}), env(SSQ_PARALLEL=e):
                        r = f() if a is OMIT or n in NOARG else f(parallel=a)
                    try:
                        t = numba.threading_layer()
                    except ValueError:
                        t = ''
                    from ..core import digest
                    return ('1' if t else '0') + digest(r if isinstance(r, (list, tuple)) else [r])
                ctx.step()
                out = in_child(run)
                write({})
                if out.startswith('EXC'):
                    ctx.fail(f'{n}: {out[-600:]}')
                want = model(e, p, None if a is OMIT else a)
                ctx.ok((out[0] == '1') == want, lambda: f'{n}: threads {"were" if out[0] == "1" else "were not"} used with argument {a}, SSQ_PARALLEL={e}, file parallel={p}; expected {"threads" if want else "none"}')
                vals[out[1:]] = 1
                ctx.state((n, e, p, str(a), out[0]))
    ctx.ok(len(vals) == 1, f'{n}: results depend on the threading setting')


def h_fft_threads(ctx, c):
    import multiprocessing
    from ssqueezepy.utils import FFT, FFT_GLOBAL
    from ssqueezepy.configs import IS_PARALLEL
    ncpu = multiprocessing.cpu_count()
    d = tempfile.mkdtemp(prefix='c17w_')
    F = {t: FFT(wisdom_dir=d, threads=t) for t in (None, 1, 3, -1)}
    for e in (None, '0', '1'):
        for p in ('1', '0'):
            with ini({('configs', 'IS_PARALLEL', 'parallel'): p}), env(SSQ_PARALLEL=e):
                want = model(e, p, None)
                ctx.ok(bool(ctx.call(IS_PARALLEL)) == want, lambda: f'IS_PARALLEL()={not want} with SSQ_PARALLEL={e}, file {p}')
                for t, f in list(F.items()) + [(None, FFT_GLOBAL)]:
                    w = (ncpu if want else 1) if t is None else ncpu if t == -1 else t
                    ctx.ok(f.threads == w, lambda: f'FFT(threads={t}).threads = {f.threads}, expected {w} with SSQ_PARALLEL={e}, file {p}')
                ctx.state((e, p))
    shutil.rmtree(d)


def h_gpu(ctx, c):
    from ssqueezepy.configs import USE_GPU
    for e in (None, '0', '1', None, '1', '0'):
        with env(SSQ_GPU=e):
            ctx.step()
            if e == '1':
                try:
                    USE_GPU()
                except ValueError:
                    continue
                ctx.fail('SSQ_GPU=1 without GPU libraries must be refused')
            ctx.ok(USE_GPU() is False, 'GPU use without SSQ_GPU=1')


# ---------------------------------------------------------------------------------------------------------- histories
def events(tier):
    P = ('configs', 'IS_PARALLEL', 'parallel')
    E = [('env', None), ('env', '0'), ('env', '1'), ('file', P, '0'), ('file', P, '1'), ('file', ('wavelets', 'morlet', 'mu'), '6.5'), ('file', ('wavelets', 'morlet', 'mu'), '13.4'),
         ('file', ('_stft', 'stft', 'dtype'), 'float64'), ('file', ('_gmw', 'gmw', 'beta'), '20'), ('file', ('wavelets', 'bump', 'mu'), "'4'"), ('call', 'morlet'), ('call', 'gmw'), ('call', 'stft')]
    if tier != 'quick':
        E += [('file', ('_stft', 'stft', 'dtype'), 'float32'), ('file', ('_gmw', 'gmw', 'beta'), '60'), ('file', ('utils.cwt_utils', 'make_scales', 'downsample'), '2'), ('call', 'scales')]
    return E


def observe(ctx, st, what):
    import multiprocessing
    from ssqueezepy import Wavelet, wavelets, stft
    from ssqueezepy.configs import IS_PARALLEL, gdefaults
    from ssqueezepy.utils import FFT_GLOBAL
    par = model(st['env'], st['file'].get(('configs', 'IS_PARALLEL', 'parallel'), '1'), None)
    ctx.step(6)
    ctx.ok(bool(IS_PARALLEL()) == par, lambda: f'{what}: IS_PARALLEL() is {not par}')
    ctx.ok(FFT_GLOBAL.threads == (multiprocessing.cpu_count() if par else 1), lambda: f'{what}: FFT threads {FFT_GLOBAL.threads}')
    mu = float(st['file'].get(('wavelets', 'morlet', 'mu'), 13.4))
    with env(SSQ_PARALLEL='0'):
        ctx.eq(np.asarray(wavelets.morlet()(W)), ref.morlet(W, mu=mu), f'{what}: morlet()', rtol=3e-5)
        ctx.eq(np.asarray(Wavelet('morlet')(W)), ref.morlet(W, mu=mu), f'{what}: Wavelet(morlet)', rtol=3e-5)
        beta = float(st['file'].get(('_gmw', 'gmw', 'beta'), 60))
        ctx.eq(np.asarray(Wavelet('gmw')(W)), ref.gmw(W, beta=beta), f'{what}: Wavelet(gmw)', rtol=3e-5)
        ctx.ok(gdefaults('wavelets.bump', mu=None) == float(st['file'].get(('wavelets', 'bump', 'mu'), '5').strip("'")), f'{what}: bump mu')
        dt = st['file'].get(('_stft', 'stft', 'dtype'), 'float32')
        S = stft(np.ones(16), n_fft=9)
        ctx.ok(str(S.dtype) == dict(float32='complex64', float64='complex128')[dt], lambda: f'{what}: stft in {S.dtype}')
    for o, want in st['objs']:
        ctx.eq(np.asarray(o(W)), want, f'{what}: an existing wavelet object changed', rtol=3e-5)


def h_history(ctx, c):
    from ssqueezepy import Wavelet, wavelets, stft, _gmw
    from ssqueezepy.utils import make_scales
    E = events('quick' if ctx.quick else 'thorough')
    for tail in itertools.product(range(len(E)), repeat=c['depth'] - 2):
        st = dict(env=None, file={}, objs=[])
        old = os.environ.pop('SSQ_PARALLEL', None)
        try:
            names = []
            for i in list(c['first']) + list(tail):
                ev = E[i]
                names.append(' '.join(str(q) for q in ev))
                if ev[0] == 'env':
                    st['env'] = ev[1]
                    if ev[1] is None:
                        os.environ.pop('SSQ_PARALLEL', None)
                    else:
                        os.environ['SSQ_PARALLEL'] = ev[1]
                elif ev[0] == 'file':
                    st['file'][ev[1]] = ev[2]
                    write(st['file'])
                elif ev[1] == 'morlet':
                    with env(SSQ_PARALLEL='0'):
                        ctx.eq(np.asarray(wavelets.morlet(mu=0)(W)), ref.morlet(W, mu=0.), 'morlet(mu=0)', rtol=3e-5)
                        o = ctx.call(Wavelet, ('morlet', dict(mu=5.)))
                        st['objs'].append((o, ref.morlet(W, mu=5.)))
                elif ev[1] == 'gmw':
                    with env(SSQ_PARALLEL='0'):
                        o = ctx.call(Wavelet, ('gmw', dict(order=0)))
                        st['objs'].append((o, ref.gmw(W, beta=float(st['file'].get(('_gmw', 'gmw', 'beta'), 60)))))
                elif ev[1] == 'stft':
                    with env(SSQ_PARALLEL='0'):
                        ctx.ok(str(ctx.call(stft, np.ones(16), n_fft=9, dtype='float64').dtype) == 'complex128', 'stft(dtype=float64)')
                elif ev[1] == 'scales':
                    with env(SSQ_PARALLEL='0'):
                        s = np.asarray(ctx.call(make_scales, 256, 2., 200., nv=16, scaletype='log-piecewise', wavelet=Wavelet(('gmw', dict(beta=60.))))).ravel()
                        want = float(st['file'].get(('utils.cwt_utils', 'make_scales', 'downsample'), 4))
                        ctx.ok(abs(np.log2(s[-1] / s[-2]) * 16 - want) < 1e-6, 'downsample')
                observe(ctx, st, ' -> '.join(names))
            ctx.state((st['env'], sorted(st['file'].items()), len(st['objs'])))
        finally:
            write({})
            os.environ.pop('SSQ_PARALLEL', None)
            if old is not None:
                os.environ['SSQ_PARALLEL'] = old
