"""Exception injection at every instruction of the library that can fail.

`Monitor` instruments the Python code of the library under test (sys.monitoring, instruction events). A *fault point* is one execution of
an instruction that runs other code or touches array memory (call, arithmetic, indexing, comparison). `record` runs a call and lists its fault
points in order; `inject` re-runs it and raises at the k-th. Clean-up code (finally blocks, handlers, __exit__) and everything called from it is
excluded: a fault there is a second, simultaneous failure.
"""
import ast, dis, os, sys, types
from .core import REPO

MON = sys.monitoring
TOOL = 3
OPS = {'CALL', 'CALL_FUNCTION_EX', 'BINARY_OP', 'BINARY_SUBSCR', 'BINARY_SLICE', 'STORE_SUBSCR', 'STORE_SLICE', 'COMPARE_OP', 'CALL_KW', 'UNARY_NEGATIVE',
       'CONTAINS_OP', 'CALL_INTRINSIC_1', 'GET_ITER', 'IMPORT_NAME', 'BUILD_STRING', 'FORMAT_VALUE'}


class Injected(Exception):
    pass


def cleanup_lines(path):
    out = set()
    try:
        tree = ast.parse(open(path).read())
    except Exception:
        return out
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            for b in list(n.finalbody) + list(n.handlers):
                out.update(range(b.lineno, b.end_lineno + 1))
    return out


class Monitor:
    def __init__(self, package='ssqueezepy'):
        self.lib = os.path.join(REPO, package) + os.sep
        self.package = package
        self.table = {}
        self.clean = {}
        self.names = {}
        MON.use_tool_id(TOOL, 'mcfault')
        MON.register_callback(TOOL, MON.events.INSTRUCTION, self._cb)
        self.codes = set()
        self.mode = None

    def collect(self):
        todo, seen = [], set()

        def walk(o):
            if id(o) in seen:
                return
            seen.add(id(o))
            if isinstance(o, types.FunctionType):
                todo.append(o.__code__)
                for cell in o.__closure__ or ():
                    try:
                        walk(cell.cell_contents)
                    except ValueError:
                        pass
                if hasattr(o, '__wrapped__'):
                    walk(o.__wrapped__)
            elif isinstance(o, (staticmethod, classmethod)):
                walk(o.__func__)
            elif isinstance(o, property):
                for q in (o.fget, o.fset, o.fdel):
                    walk(q)
            elif isinstance(o, type) and (o.__module__ or '').startswith(self.package):
                for q in list(vars(o).values()):
                    walk(q)
        if not self.codes:
            for name, m in list(sys.modules.items()):
                if name.split('.')[0] == self.package and m is not None:
                    for o in list(vars(m).values()):
                        walk(o)
        while todo:
            c = todo.pop()
            if c in self.codes or not c.co_filename.startswith(self.lib):
                continue
            self.codes.add(c)
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
        for c in self.codes:
            if c in self.table:
                continue
            if c.co_filename not in self.clean:
                self.clean[c.co_filename] = cleanup_lines(c.co_filename)
            pts = set()
            prev = []
            for ins in dis.get_instructions(c):
                op = ins.opname
                if op in OPS:
                    withexit = op == 'CALL' and len(prev) >= 3 and all(p.opname == 'LOAD_CONST' and p.argval is None for p in prev[-3:])
                    if not withexit:
                        pts.add(ins.offset)
                if op != 'CACHE' and op != 'PRECALL':
                    prev.append(ins)
                    prev = prev[-3:]
            self.table[c] = pts

    def _in_cleanup(self, f):
        while f is not None:
            c = f.f_code
            if c.co_filename.startswith(self.lib):
                if c.co_name == '__exit__' or f.f_lineno in self.clean.get(c.co_filename, ()):
                    return True
            f = f.f_back
        return False

    def _cb(self, code, offset):
        pts = self.table.get(code)
        if pts is None or offset not in pts:
            return
        if self.mode == 'record':
            f = sys._getframe(1)
            if f.f_lineno is None or self._in_cleanup(f):
                self.seq.append(None)
            else:
                self.seq.append((os.path.basename(code.co_filename), code.co_name, f.f_lineno, offset))
        elif self.mode == 'inject':
            k = self.k
            self.k = k - 1
            if k == 0:
                self.mode = None
                self.hit = True
                raise Injected('injected')

    def _run(self, f):
        self.collect()
        ev = MON.events.INSTRUCTION
        for c in self.codes:
            if self.table[c]:
                MON.set_local_events(TOOL, c, ev)
        try:
            return f()
        finally:
            self.mode = None
            for c in self.codes:
                MON.set_local_events(TOOL, c, 0)

    def start(self):
        self.collect()
        for c in self.codes:
            if self.table[c]:
                MON.set_local_events(TOOL, c, MON.events.INSTRUCTION)

    def stop(self):
        self.mode = None
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)

    def record(self, f):
        """-> result, list of fault points (None where excluded)"""
        self.seq = []
        self.mode = 'record'
        try:
            r = f()
        finally:
            self.mode = None
        return r, self.seq

    def inject(self, f, k):
        """-> (exception or None, result)"""
        self.k, self.hit = k, False
        self.mode = 'inject'
        try:
            return None, f()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return e, None
        finally:
            self.mode = None
