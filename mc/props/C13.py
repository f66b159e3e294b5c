"""C13: the FFT front end equals the reference DFT for every call and every call history."""
import itertools, os, tempfile, shutil, atexit
import numpy as np
from ..core import Skip
from ..util import parallel, isolate_wisdom

TECH = "explicit-state exploration: every call sequence up to the depth bound on one wrapper (each step compared with an explicit DFT matrix, each earlier result re-read), plus the complete single-call lattice over an impulse basis"
RULE = ("histories: all sequences over an alphabet of transforms that differ in one attribute each (direction, real/complex, output length, axis, shape, precision, planning "
        "effort) and of setting changes; single calls: every impulse of every length; states = distinct (wrapper settings, outstanding results)")
BOUNDS = dict(quick="histories: all of depth 3 over 18 operations, cached and uncached; single calls N<=9, planning efforts {0,1,2,tuple}",
              thorough="histories: all of depth 4 over 18 operations; single calls N<=24")
ASSUMES = ["irfft's n is a length its rows can come from", "integer input only without planning (the planner documents float and complex)", "GPU execution is out of reach (N01)"]
_D = []


def setup(ctx):
    isolate_wisdom()
    d = tempfile.mkdtemp(prefix='c13_')
    atexit.register(shutil.rmtree, d, True)
    _D.append(d)


def make(**kw):
    from ssqueezepy.utils import FFT
    return FFT(wisdom_dir=_D[0], verbose=0, **{'planning_timelimit': .001, **kw})


def mat(n):
    k = np.outer(np.arange(n), np.arange(n)) % max(n, 1)
    return np.exp(-2j * np.pi * k / n)


def ref(kind, x, axis=-1, n=None):
    """explicit DFT sums"""
    x = np.moveaxis(np.asarray(x), axis, -1)
    x = x.astype('complex128')
    m = x.shape[-1]
    if kind == 'fft':
        y = x @ mat(m).T
    elif kind == 'ifft':
        y = x @ mat(m).conj().T / m
    elif kind == 'rfft':
        y = (x @ mat(m).T)[..., :m // 2 + 1]
    else:
        n = 2 * (m - 1) if n is None else n
        full = np.zeros(x.shape[:-1] + (n,), complex)
        full[..., :m] = x
        full[..., 0] = x[..., 0].real
        if n % 2 == 0 and m == n // 2 + 1:
            full[..., n // 2] = x[..., -1].real
        for k in range(1, (n + 1) // 2):
            full[..., n - k] = x[..., k].conj()
        y = (full @ mat(n).conj().T).real / n
    return np.moveaxis(y, -1, axis)


def out_dtype(kind, dt):
    single = dt in ('float32', 'complex64')
    return ('float32' if single else 'float64') if kind == 'irfft' else ('complex64' if single else 'complex128')


def tol(dt):
    return 2e-6 if dt in ('float32', 'complex64') else 1e-13


# --- single calls -----------------------------------------------------------------------------------------------
PATIENCE = dict(p0=0, p1=1, p2=2, p1t=(1, .001), p2n=(2, None))


def gen(tier):
    q = tier == 'quick'
    for N in (range(1, 10) if q else list(range(1, 25)) + [31, 32, 33, 48, 64]):
        for kind in ('fft', 'ifft', 'rfft', 'irfft'):
            for pat in PATIENCE:
                if pat == 'p2n' and N > 12:
                    continue
                yield dict(h='single', N=N, kind=kind, pat=pat)
        yield dict(h='shift', N=N)
    n = len(alphabet())
    for cache in (False, True):
        for a in range(n):
            if q:
                yield dict(h='history', cache=cache, prefix=[a], depth=3)
            else:
                for b in range(n):
                    yield dict(h='history', cache=cache, prefix=[a, b], depth=4)
    for cache in (False, True):
        for pat in ('p0', 'p1', 'p2', 'p1t'):
            yield dict(h='default_patience', cache=cache, pat=pat)
    yield dict(h='reject')
    yield dict(h='module')


def forms(x):
    yield 'plain', x
    yield 'strided', np.repeat(x, 2, -1)[..., ::2]
    yield 'reversed', x[..., ::-1].copy()[..., ::-1]
    if x.ndim == 2:
        yield 'fortran', np.asfortranarray(x)
        yield 'transposed', x.T.copy().T
    ro = x.copy()
    ro.flags.writeable = False
    yield 'readonly', ro


def forget():
    import pyfftw
    pyfftw.forget_wisdom()          # keeps saving (of everything known so far) short
    for f in os.listdir(_D[0]):
        os.unlink(os.path.join(_D[0], f))


def h_single(ctx, c):
    forget()
    N, kind, pat = c['N'], c['kind'], PATIENCE[c['pat']]
    dts = ('float64', 'float32') if kind == 'rfft' else ('complex128', 'complex64') + (('float64', 'float32') if kind != 'irfft' else ())
    if pat == 0:
        dts += ('int64',) if kind in ('fft', 'rfft') else ()
    ns = [None] if kind != 'irfft' else ([2 * (N - 1), None] if N > 1 else []) + [2 * N - 1]
    for dt in dts:
        basis = np.eye(N)
        if 'complex' in dt:
            basis = np.vstack([basis, 1j * basis, basis * (1 - 2j)])
        basis = np.vstack([basis, np.arange(1, N + 1)[None] ** 2, np.zeros((1, N))])
        basis = basis.astype(dt)
        wr = make(threads=1)
        par = [('t1', wr), ('cached', make(threads=1, cache_fft_objects=True))]
        if (N in (4, 7) or not ctx.quick) and c['pat'] != 'p2n':      # unlimited planning for many threads takes minutes
            par += [('t2', make(threads=2)), ('tmax', make(threads=-1)), ('tdyn', make())]
        for name, f in par:
            with parallel(name == 'tdyn'):
                for n in ns:
                    kw = dict(n=n) if n is not None else {}
                    fn = getattr(f, kind)
                    for axis in (0, 1, -1):
                        X = basis if axis != 0 else np.ascontiguousarray(basis.T)
                        want = ref(kind, X, axis, n)
                        for fo, x in forms(X):
                            if fo != 'plain' and (name != 't1' and not (name == 'cached' and fo in ('reversed', 'readonly'))):
                                continue
                            x0 = x.copy()
                            got = ctx.call(fn, x, axis=axis, patience=pat, **kw)
                            ctx.eq(got, want, f'{kind} {dt} axis={axis} n={n} {fo} {name}', rtol=tol(dt), dtype=out_dtype(kind, dt))
                            ctx.same(x, x0, 'input kept')
                            ctx.ok(isinstance(got, np.ndarray) and not np.shares_memory(got, x), 'result is an array of its own')
                        ctx.state(got)
                    for i, row in enumerate(basis):
                        if name != 't1' and i:
                            break
                        for ax in (-1, 0):
                            got = ctx.call(fn, row, axis=ax, patience=pat, **kw)
                            ctx.eq(got, ref(kind, row, -1, n), f'{kind} 1D {dt} n={n} {name}', rtol=tol(dt), dtype=out_dtype(kind, dt))
                    got = ctx.call(fn, basis, patience=pat, **kw)
                    ctx.eq(got, ref(kind, basis, -1, n), f'{kind} default axis', rtol=tol(dt))


def h_shift(ctx, c):
    from ssqueezepy.utils import fftshift, ifftshift
    N = c['N']
    for M in (1, 2, 3, 5):
        x = np.arange(M * N).reshape(M, N) * (1 + .5j)
        for ax in (-1, 1, 0):
            L = x.shape[ax]
            for nm, fn, s in (('fftshift', fftshift, L // 2), ('ifftshift', ifftshift, (L + 1) // 2)):
                idx = (np.arange(L) - s) % L
                want = np.take(x, idx, axis=ax)
                ctx.same(ctx.call(fn, x, axes=ax), want, f'{nm} axis={ax}')
                ctx.same(ctx.call(getattr(make(), nm), x, axes=ax), want, f'{nm} axis={ax}')
            ctx.same(ifftshift(fftshift(x, axes=ax), axes=ax), x, 'shifts invert')
        ctx.same(fftshift(x), np.take(x, (np.arange(N) - N // 2) % N, axis=-1), 'default axis')
        ctx.same(ifftshift(x), np.take(x, (np.arange(N) - (N + 1) // 2) % N, axis=-1), 'default axis')
        ctx.state([N, M])


# --- histories --------------------------------------------------------------------------------------------------
def alphabet():
    """(label, kind, shape, dtype, kwargs) or (label, setting, value)"""
    A = [('fft', (4, 4), 'complex128', dict(patience=1)),
         ('ifft', (4, 4), 'complex128', dict(patience=1)),
         ('fft', (4, 4), 'complex128', dict(patience=1, axis=0)),
         ('fft', (4, 4), 'complex128', dict(patience=2)),
         ('fft', (4, 4), 'complex64', dict(patience=1)),
         ('fft', (4, 4), 'float64', dict(patience=1)),
         ('ifft', (4, 4), 'float64', dict(patience=1)),
         ('rfft', (4, 4), 'float64', dict(patience=1)),
         ('irfft', (4, 4), 'complex128', dict(patience=1)),
         ('irfft', (4, 4), 'complex128', dict(patience=1, n=7)),
         ('irfft', (4, 4), 'complex128', dict(patience=(1, .001), n=6, axis=0)),
         ('ifft', (4,), 'complex128', dict(patience=(2, None))),
         ('fft', (4,), 'complex128', dict()),
         ('ifft', (4, 4), 'complex128', dict()),
         ('set', 'patience', (1, .001)),
         ('set', 'patience', 0),
         ('set', 'cache_fft_objects', 'toggle'),
         ('set', '_user_threads', 'toggle')]
    return A


_X = {}


def data(shape, dt, step):
    k = (shape, dt, step)
    if k not in _X:
        n = int(np.prod(shape))
        v = np.cos(np.arange(n) * (1.3 + step) + step).reshape(shape)
        if 'complex' in dt:
            v = v + 1j * np.sin(np.arange(n) * (.7 + step)).reshape(shape)
        _X[k] = v.astype(dt)
        _X[k].flags.writeable = False
    return _X[k]


_R = {}


def expected(i, op, step):
    if (i, step) not in _R:
        kind, shape, dt, kw = op
        _R[i, step] = ref(kind, data(shape, dt, step), kw.get('axis', -1), kw.get('n'))
    return _R[i, step]


def h_history(ctx, c):
    A = alphabet()
    forget()
    for rest in itertools.product(range(len(A)), repeat=c['depth'] - len(c['prefix'])):
        seq = tuple(c['prefix']) + rest
        if A[seq[-1]][0] == 'set':
            continue
        f = make(threads=1, cache_fft_objects=c['cache'])
        held = []
        for step, i in enumerate(seq):
            op = A[i]
            if op[0] == 'set':
                v = op[2]
                if v == 'toggle':
                    v = (not f.cache_fft_objects) if op[1] == 'cache_fft_objects' else 3 - f._user_threads if hasattr(f, '_user_threads') else None
                setattr(f, op[1], v)
                ctx.step()
                continue
            x = data(op[1], op[2], step)
            got = ctx.call(getattr(f, op[0]), x, **op[3])
            lab = f'step {step} of {[A[j][:3] + (str(A[j][-1]),) for j in seq[:step + 1]]}'
            ctx.eq(got, expected(i, op, step), lab, rtol=tol(op[2]), dtype=out_dtype(op[0], op[2]))
            held.append((got, got.copy()))
        for got, copy in held:
            ctx.same(got, copy, f'earlier result after {[A[j][:3] for j in seq]}')
        ctx.state([c['cache'], seq])


def h_default_patience(ctx, c):
    """the wrapper's own default planning effort, given at construction or set later"""
    pat = PATIENCE[c['pat']]
    for how in ('init', 'set'):
        f = make(threads=1, cache_fft_objects=c['cache'], **(dict(patience=pat) if how == 'init' else {}))
        if how == 'set':
            f.patience = pat
            ctx.ok(f.patience == (pat[0] if isinstance(pat, tuple) else pat), 'patience reads back')
            if isinstance(pat, tuple):
                ctx.ok(f.planning_timelimit == pat[1], 'time limit set by tuple')
        held = []
        for step in range(3):
            for kind, dt in itertools.product(('fft', 'ifft', 'rfft', 'irfft'), ('64', '128')):
                d = 'complex' + dt if kind != 'rfft' else 'float' + str(int(dt) // 2)
                for shape in ((5,), (3, 5)):
                    x = data(shape, d, step)
                    got = ctx.call(getattr(f, kind), x)
                    ctx.eq(got, ref(kind, x), f'{kind} {how}', rtol=tol(d), dtype=out_dtype(kind, d))
                    held.append((got, got.copy()))
        for a, b in held:
            ctx.same(a, b, 'earlier result')
    ctx.state([c['pat'], c['cache']])


def h_reject(ctx, c):
    f = make(threads=1)
    x = np.ones((4, 4))
    for nm, fn, err in [('int input', lambda: f.fft(x.astype(int), patience=1), TypeError), ('complex rfft', lambda: f.rfft(x + 0j, patience=1), TypeError),
                        ('axis', lambda: f.fft(x, axis=2, patience=1), ValueError), ('patience', lambda: f.fft(x, patience=3), ValueError),
                        ('patience type', lambda: f.fft(x, patience='1'), TypeError), ('patience set', lambda: setattr(f, 'patience', 5), ValueError)]:
        try:
            ctx.step()
            fn()
        except err:
            ctx.ok(True, '')
            continue
        ctx.fail(f'{nm} accepted')
    ctx.ok(f.patience == 0, 'rejected setting not kept')
    ctx.eq(f.fft(x), ref('fft', x), 'works after rejections')


def h_module(ctx, c):
    """module-level functions are the global wrapper's"""
    from ssqueezepy.utils import fft, ifft, rfft, irfft, FFT_GLOBAL
    x = np.cos(np.arange(15.)).reshape(3, 5)
    for pat in (None, 0, 1, (1, .001)):
        for par in (False, True):
            with parallel(par):
                ctx.eq(ctx.call(fft, x, patience=pat), ref('fft', x), 'fft', rtol=1e-13)
                ctx.eq(ctx.call(rfft, x, patience=pat), ref('rfft', x), 'rfft', rtol=1e-13)
                ctx.eq(ctx.call(ifft, x + 1j * x[::-1], patience=pat), ref('ifft', x + 1j * x[::-1]), 'ifft', rtol=1e-13)
                ctx.eq(ctx.call(irfft, rfft(x), n=5, patience=pat), x, 'irfft', rtol=1e-13)
    ctx.ok(FFT_GLOBAL.patience == 0, 'default planning effort is 0')
