"""Schedule exploration of multi-threaded kernels.

Every function compiled with numba's `parallel=True` that the library references is taken as its Python source and its outermost
`prange` loops are rewritten into explicit tasks `pfor(range, body)`; all arrays are replaced by access-recording arrays. For one
kernel invocation, each parallel region is executed once in order with the cells read and written by every iteration recorded:

 * iterations whose footprints do not conflict commute, so every interleaving with any number of workers is equivalent to the one
   executed (one Mazurkiewicz trace); nothing else needs to be run;
 * iterations that do conflict are re-executed as real threads under a controlled scheduler which suspends them at every access to a
   conflicting cell; *all* interleavings up to a preemption bound are run and their final memory compared with the in-order one.

A kernel whose source cannot be rewritten is run as compiled and counted as not explored (never an alarm).
"""
import ast, inspect, textwrap, threading, itertools, contextlib, sys, builtins
import numpy as np
from numpy.lib.mixins import NDArrayOperatorsMixin

_TLS = threading.local()


class Monitor:
    """receives accesses"""
    def __init__(self):
        self.cur = None      # current footprint (reads, writes) while inside a task
        self.gate = None     # scheduler gate called before an access of a conflicting cell
        self.accesses = 0


MON = Monitor()


def _acc(arr_id, cells, write):
    t = getattr(_TLS, 'task', None)
    if t is None:
        return
    MON.accesses += 1
    g = getattr(_TLS, 'gate', None)
    if g is not None:
        g(arr_id, cells, write)
    (t[1] if write else t[0]).setdefault(arr_id, set()).update(cells)


class TArr(NDArrayOperatorsMixin):
    __array_priority__ = 1e9
    _ids = itertools.count()

    def __init__(self, a, ix=None, aid=None, root=None):
        self.a = a
        self.aid = next(TArr._ids) if aid is None else aid
        self.root = a if root is None else root
        self.ix = np.arange(a.size).reshape(a.shape) if ix is None else ix

    shape = property(lambda s: s.a.shape)
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    dtype = property(lambda s: s.a.dtype)
    real = property(lambda s: s._rd().real)
    imag = property(lambda s: s._rd().imag)
    T = property(lambda s: TArr(s.a.T, s.ix.T, s.aid, s.root))

    def __len__(self):
        return len(self.a)

    def _rd(self):
        _acc(self.aid, self.ix.ravel().tolist(), False)
        return self.a.copy()

    def __array__(self, dtype=None, copy=None):
        r = self._rd()
        return r if dtype is None else r.astype(dtype)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def __getitem__(self, idx):
        idx = _plain_idx(idx)
        sub = self.ix[idx]
        if np.ndim(sub) == 0:
            _acc(self.aid, [int(sub)], False)
            return self.a[idx]
        v = self.a[idx]
        if np.shares_memory(v, self.a):
            return TArr(v, sub, self.aid, self.root)
        _acc(self.aid, sub.ravel().tolist(), False)
        return v

    def __setitem__(self, idx, val):
        idx = _plain_idx(idx)
        if isinstance(val, TArr):
            val = val._rd()
        _acc(self.aid, np.ravel(self.ix[idx]).tolist(), True)
        self.a[idx] = val

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [i._rd() if isinstance(i, TArr) else i for i in inputs]
        if out is not None:
            o = out[0]
            if isinstance(o, TArr):
                _acc(o.aid, o.ix.ravel().tolist(), True)
                getattr(ufunc, method)(*ins, out=o.a, **kw)
                return o
            return getattr(ufunc, method)(*ins, out=o, **kw)
        return _wrap(getattr(ufunc, method)(*ins, **kw))

    def __array_function__(self, func, types, args, kwargs):
        f = lambda v: v._rd() if isinstance(v, TArr) else (type(v)(f(q) for q in v) if isinstance(v, (list, tuple)) else v)
        return _wrap(func(*[f(a) for a in args], **{k: f(v) for k, v in kwargs.items()}))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('ravel', 'reshape'):
            def view(*a, **k):
                v = getattr(self.a, name)(*a, **k)
                return TArr(v, getattr(self.ix, name)(*a, **k), self.aid, self.root)
            return view
        if name == 'fill':
            def fill(v):
                self[...] = v
            return fill
        m = getattr(self.a, name)
        if callable(m):
            def call(*a, **k):
                return _wrap(getattr(self._rd(), name)(*a, **k))
            return call
        return m


def _plain_idx(idx):
    if isinstance(idx, tuple):
        return tuple(_plain_idx(i) for i in idx)
    return idx._rd() if isinstance(idx, TArr) else idx


def _wrap(v):
    """arrays created outside of parallel tasks are shared and must be tracked"""
    if isinstance(v, np.ndarray) and v.ndim and getattr(_TLS, 'task', None) is None:
        return TArr(v)
    return v


class NpProxy:
    def __getattr__(self, name):
        o = getattr(np, name)
        if isinstance(o, np.ufunc) or (callable(o) and not isinstance(o, type)):
            def call(*a, **k):
                return _wrap(o(*a, **k))
            return call
        return o


def _round(v, *a):
    try:
        return builtins.round(v, *a)
    except (OverflowError, ValueError):
        return v


# --- source rewriting ---------------------------------------------------------------------------------------------
class _Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_For(self, node):
        it = node.iter
        name = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else (
            it.func.attr if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) else None)
        if name != 'prange':
            self.generic_visit(node)
            return node
        self.n += 1
        fn = f'__mc_body_{self.n}'
        body = [_Ret().visit(b) for b in node.body]      # nested prange stays a serial loop (prange -> range)
        body = [b for q in body for b in (q if isinstance(q, list) else [q])]
        assigned, aug = set(), set()
        for b in node.body:
            for q in ast.walk(b):
                if isinstance(q, ast.AugAssign) and isinstance(q.target, ast.Name):
                    aug.add(q.target.id)
                elif isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                    assigned.add(q.id)
        plain = set()
        for b in node.body:
            for q in ast.walk(b):
                if isinstance(q, ast.Assign):
                    for t in q.targets:
                        for z in ast.walk(t):
                            if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store):
                                plain.add(z.id)
        red = sorted(aug - plain)
        body = [_Red(red).visit(b) for b in body]
        head = [ast.Nonlocal(names=red)] if red else []
        f = ast.FunctionDef(name=fn, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__mc_i')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=head + [ast.Assign(targets=[node.target], value=ast.Name('__mc_i', ast.Load()))] + body, decorator_list=[],
                            type_params=[])
        call = ast.Expr(ast.Call(func=ast.Name('__mc_pfor', ast.Load()),
                                 args=[ast.Call(func=ast.Name('range', ast.Load()), args=it.args, keywords=[]), ast.Name(fn, ast.Load())], keywords=[]))
        return [f, call]


class _Ret(ast.NodeTransformer):
    """continue of the parallel loop itself -> return"""
    def visit_For(self, n):
        return n
    visit_While = visit_For
    visit_FunctionDef = visit_For

    def visit_Continue(self, n):
        return ast.Return(value=None)


class _Red(ast.NodeTransformer):
    """`acc += e` on a reduction variable is privatised and combined by numba: never a shared access"""
    def __init__(self, names):
        self.names = names

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and n.target.id in self.names:
            return ast.Assign(targets=[ast.Name(n.target.id, ast.Store())],
                              value=ast.Call(func=ast.Name('__mc_red', ast.Load()),
                                             args=[ast.Name(n.target.id, ast.Load()), ast.Constant(type(n.op).__name__), n.value], keywords=[]))
        return n


def _red(acc, op, v):
    import operator
    f = getattr(operator, dict(Add='iadd', Sub='isub', Mult='imul', Div='itruediv', BitOr='ior', BitAnd='iand', BitXor='ixor').get(op, 'iadd'))
    if isinstance(v, TArr):
        v = v._rd()
    if isinstance(acc, TArr):
        acc.a = f(acc.a, v)
        return acc
    return f(acc, v)


def rewrite(disp, pfor):
    """-> python callable with explicit tasks, number of parallel regions"""
    f = disp.py_func
    src = textwrap.dedent(inspect.getsource(f))
    tree = ast.parse(src)
    fd = tree.body[0]
    fd.decorator_list = []
    rw = _Rewrite()
    rw.visit(fd)
    ast.fix_missing_locations(tree)
    g = dict(f.__globals__)
    from numba.core.dispatcher import Dispatcher
    for k, v in list(g.items()):
        if isinstance(v, Dispatcher):
            g[k] = _helper(v)
        elif v is np:
            g[k] = NpProxy()
    g['__mc_pfor'] = pfor
    g['__mc_red'] = _red
    g['prange'] = range
    g['round'] = _round
    exec(compile(tree, f'<mc {f.__name__}>', 'exec'), g)
    return g[f.__name__], rw.n


def _helper(d):
    f = d.py_func
    import types
    g = {**f.__globals__, 'prange': range, 'round': _round}
    return types.FunctionType(f.__code__, g, f.__name__, f.__defaults__, f.__closure__)


# --- exploration of one parallel region ---------------------------------------------------------------------------
class Race(Exception):
    pass


def _roots(tarrs):
    return {t.aid: t for t in tarrs}


class Explorer:
    def __init__(self, preemptions=2, max_pairs=60):
        self.pb = preemptions
        self.max_pairs = max_pairs
        self.stats = dict(regions=0, iterations=0, accesses=0, conflicts=0, schedules=0, benign=0)
        self.live = []

    def run(self, fn, args, kwargs):
        wrap = {}

        def w(v):
            if isinstance(v, np.ndarray) and v.ndim:
                if id(v) not in wrap:
                    wrap[id(v)] = TArr(v)
                    self.live.append(wrap[id(v)])
                return wrap[id(v)]
            return v
        self.live = []
        out = fn(*[w(a) for a in args], **{k: w(v) for k, v in kwargs.items()})
        return out.a if isinstance(out, TArr) else out

    def pfor(self, rng, body):
        if getattr(_TLS, 'task', None) is not None:      # nested region: serial
            for i in rng:
                body(i)
            return
        self.stats['regions'] += 1
        idx = list(rng)
        closure = [c.cell_contents for c in (body.__closure__ or ()) if _has(c)]
        arrs = {t.aid: t for t in closure + self.live if isinstance(t, TArr)}
        snap = {k: t.root.copy() for k, t in arrs.items()}
        foot = []
        for i in idx:
            self.stats['iterations'] += 1
            _TLS.task = ({}, {})
            try:
                body(i)
            finally:
                foot.append(_TLS.task)
                _TLS.task = None
        final = {k: t.root.copy() for k, t in arrs.items()}
        pairs = []
        owner_w, owner_r = {}, {}
        for n, (r, w) in enumerate(foot):
            for k, cells in w.items():
                for q in cells:
                    owner_w.setdefault((k, q), []).append(n)
            for k, cells in r.items():
                for q in cells:
                    owner_r.setdefault((k, q), []).append(n)
        conf = {}
        for cell, ws in owner_w.items():
            others = set(ws) | set(owner_r.get(cell, ()))
            for a in ws:
                for b in others:
                    if a != b:
                        conf.setdefault((min(a, b), max(a, b)), set()).add(cell)
        if not conf:
            return
        self.stats['conflicts'] += len(conf)
        for (a, b), cells in list(sorted(conf.items(), key=lambda kv: len(kv[1])))[:self.max_pairs]:
            self._interleave(idx, body, a, b, cells, arrs, snap, final)
        self.stats['benign'] += len(conf)
        for k, t in arrs.items():
            t.root[...] = final[k]

    def _interleave(self, idx, body, a, b, cells, arrs, snap, final):
        """all interleavings (preemption bounded) of iterations a and b; the others run in order around them. With a and b in
        different chunks, iterations between them may fall on either side."""
        n = len(idx)
        for between in ('with_a', 'with_b') if b - a > 1 else ('with_a',):
            first = list(range(a))
            mid = list(range(a + 1, b))
            ta = [a] + (mid if between == 'with_a' else [])
            tb = (mid if between == 'with_b' else []) + [b]
            # the two workers as sequences of iterations; only accesses to contended cells are scheduling points
            stack = [[]]
            while stack:
                prefix = stack.pop()
                trace = self._execute(idx, body, first, ta, tb, list(range(b + 1, n)), cells, arrs, snap, prefix)
                self.stats['schedules'] += 1
                for k, t in arrs.items():
                    if not np.array_equal(t.root, final[k], equal_nan=t.root.dtype.kind in 'fc'):
                        d = np.argwhere(t.root != final[k])[0]
                        raise Race(f"data race between parallel iterations {idx[a]} and {idx[b]}: schedule {_show(trace)} leaves "
                                   f"{t.root[tuple(d)]!r} at {d.tolist()} of a shared array, in-order execution leaves {final[k][tuple(d)]!r}")
                # branch: at each step beyond the prefix where the other thread was enabled
                for p in range(len(prefix), len(trace)):
                    ch, enabled = trace[p]
                    for alt in enabled:
                        if alt == ch:
                            continue
                        new = [t[0] for t in trace[:p]] + [alt]
                        if _preemptions(new, trace) <= self.pb:
                            stack.append(new)
                if self.stats['schedules'] > 200000:
                    return

    def _execute(self, idx, body, first, ta, tb, rest, cells, arrs, snap, prefix):
        for k, t in arrs.items():
            t.root[...] = snap[k]

        def seq(its):
            for q in its:
                _TLS.task = ({}, {})
                try:
                    body(idx[q])
                finally:
                    _TLS.task = None
        seq(first)
        turn = [threading.Semaphore(0), threading.Semaphore(0)]
        back = threading.Semaphore(0)
        done = [False, False]
        err = [None, None]

        def runner(me, its):
            turn[me].acquire()

            def gate(aid, cl, write):
                if any((aid, q) in cells for q in cl):
                    back.release()
                    turn[me].acquire()
            try:
                for q in its:
                    _TLS.task = ({}, {})
                    _TLS.gate = gate
                    body(idx[q])
            except BaseException as e:
                err[me] = e
            finally:
                _TLS.task = None
                _TLS.gate = None
                done[me] = True
                back.release()
        th = [threading.Thread(target=runner, args=(0, ta), daemon=True), threading.Thread(target=runner, args=(1, tb), daemon=True)]
        for t in th:
            t.start()
        trace = []
        cur = 0
        while not all(done):
            enabled = [q for q in (0, 1) if not done[q]]
            if len(trace) < len(prefix) and prefix[len(trace)] in enabled:
                ch = prefix[len(trace)]
            else:
                ch = cur if cur in enabled else enabled[0]
            trace.append((ch, enabled))
            cur = ch
            turn[ch].release()
            back.acquire()
        for t in th:
            t.join()
        for e in err:
            if e is not None:
                raise e
        seq(rest)
        return trace


def _has(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def _preemptions(choices, trace):
    p = 0
    for q in range(1, len(choices)):
        if choices[q] != choices[q - 1] and choices[q - 1] in trace[q][1] if q < len(trace) else False:
            p += 1
    return p


def _show(trace):
    return ''.join('AB'[t[0]] for t in trace)


# --- patching -----------------------------------------------------------------------------------------------------
def parallel_dispatchers():
    from numba.core.dispatcher import Dispatcher
    out = {}
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] != 'ssqueezepy' or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            for q in (v.values() if isinstance(v, dict) and not k.startswith('__') else (v if isinstance(v, (list, tuple)) else [v])):
                if isinstance(q, Dispatcher) and q.targetoptions.get('parallel'):
                    out[id(q)] = q
    return list(out.values())


@contextlib.contextmanager
def exploring(explorer, used=None):
    """Within, calls of the library's parallel kernels are explored instead of being run compiled."""
    from numba.core.dispatcher import Dispatcher
    cache = explorer.__dict__.setdefault('_rw', {})

    def wrapper(d):
        def call(*a, **k):
            key = id(d)
            if key not in cache:
                try:
                    cache[key] = rewrite(d, explorer.pfor)
                except Exception:
                    cache[key] = None
            r = cache[key]
            if r is None or r[1] == 0:
                return d(*a, **k)
            if used is not None:
                used.add(d.py_func.__name__)
            keep = [(x, x.copy()) for x in list(a) + list(k.values()) if isinstance(x, np.ndarray)]
            try:
                return explorer.run(r[0], a, k)
            except Race:
                raise
            except Exception:      # not representable in Python (or a genuine error, which the compiled kernel will raise as well)
                explorer.stats['unexplored'] = explorer.stats.get('unexplored', 0) + 1
                for x, c in keep:
                    x[...] = c
                return d(*a, **k)
        return call
    undo = []
    ws = {}
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] != 'ssqueezepy' or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if isinstance(v, Dispatcher) and v.targetoptions.get('parallel'):
                ws.setdefault(id(v), wrapper(v))
                undo.append((vars(mod), k, v))
                vars(mod)[k] = ws[id(v)]
            elif isinstance(v, dict) and not k.startswith('__'):
                for kk, q in list(v.items()):
                    if isinstance(q, Dispatcher) and q.targetoptions.get('parallel'):
                        ws.setdefault(id(q), wrapper(q))
                        undo.append((v, kk, q))
                        v[kk] = ws[id(q)]
    try:
        yield
    finally:
        for d, k, v in undo:
            d[k] = v
