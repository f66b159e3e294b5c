"""Runs histories of planned transforms in forked children of one process whose libc file operations are intercepted (native/fsfault.c).
usage (inside a process started with LD_PRELOAD): python -m mc.crash < case.json > result.json"""
import os, sys, json, ctypes, tempfile, shutil, signal, struct, select, time, re, warnings, itertools
import numpy as np

# transforms histories are made of: (kind, shape, dtype)
POOL = dict(a=('fft', (4,), 'complex128'), b=('fft', (4,), 'complex64'), c=('rfft', (2, 6), 'float64'), d=('ifft', (5,), 'complex64'), x=('irfft', (2, 4), 'complex128'))
NONE, BEFORE, AFTER, TORN, FAILS = range(5)
LIB = None


def lib():
    global LIB
    if LIB is None:
        LIB = ctypes.CDLL(os.environ['LD_PRELOAD'])
    return LIB


def fresh(d, **kw):
    """what a newly started process does"""
    import pyfftw
    from ssqueezepy.utils import FFT
    pyfftw.forget_wisdom()
    return FFT(wisdom_dir=d, verbose=0, threads=1, planning_timelimit=None, **kw)


def run(f, k, step=0):
    from .props.C13 import ref, data, tol
    kind, shape, dt = POOL[k]
    x = data(shape, dt, step)
    got = getattr(f, kind)(x, patience=1)
    want = ref(kind, x)
    err = np.abs(got - want).max()
    assert err <= 1e2 * tol(dt) * max(1, np.abs(want).max()), f'{POOL[k]}: wrong values ({err})'


def probe(f):
    """{transform: is it planned without planning}, after a fresh start"""
    import pyfftw
    out = {}
    for k, (kind, shape, dt) in POOL.items():
        shp_out = list(shape)
        single = dt in ('float32', 'complex64')
        c, r = ('complex64', 'float32') if single else ('complex128', 'float64')
        if kind == 'rfft':
            shp_out[-1] = shape[-1] // 2 + 1
        elif kind == 'irfft':
            shp_out[-1] = 2 * (shape[-1] - 1)
        a = pyfftw.empty_aligned(shape, r if kind == 'rfft' else c)
        b = pyfftw.empty_aligned(tuple(shp_out), r if kind == 'irfft' else c)
        try:
            pyfftw.FFTW(a, b, axes=(len(shape) - 1,), flags=['FFTW_PATIENT', 'FFTW_WISDOM_ONLY'], threads=1,
                        direction='FFTW_BACKWARD' if kind[0] == 'i' else 'FFTW_FORWARD')
            out[k] = 1
        except RuntimeError:
            out[k] = 0
    return out


def child(fn, timeout=60):
    """run fn in a forked child; -> (status, returned object or exception text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ['ok', fn()]
            except BaseException as e:
                out = ['exc', f'{type(e).__name__}: {e}']
            lib().fsf_disarm()
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    t0 = time.time()
    while True:
        rl, _, _ = select.select([r], [], [], 1.)
        if rl:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    return code, (json.loads(buf) if buf else None)


def split(v):
    """knowledge per precision"""
    s = lambda k: POOL[k][2] in ('float32', 'complex64')
    return ''.join(str(v[k]) for k in sorted(v) if not s(k)), ''.join(str(v[k]) for k in sorted(v) if s(k))


def known(d):
    code, out = child(lambda: probe(fresh(d)))
    return out[1] if out and out[0] == 'ok' else f'start failed: {code} {out}'


def prestate(d, pre):
    if pre == 'none':
        return
    if pre in ('both', 'only32', 'only64'):
        def f():
            w = fresh(d)
            run(w, 'a', 5)
            run(w, 'b', 5)
        code, out = child(f)
        assert out and out[0] == 'ok', (code, out)
        if pre == 'only32':
            os.unlink(os.path.join(d, 'wisdom64'))
        if pre == 'only64':
            os.unlink(os.path.join(d, 'wisdom32'))
    else:
        for n in ('wisdom32', 'wisdom64'):
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b'' if pre == 'empty' else b'(not wisdom at all\n\x00\xff')


def snapshot(d):
    return {n: open(os.path.join(d, n), 'rb').read() for n in sorted(os.listdir(d))}


def restore(d, snap):
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    for n, b in snap.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b)


def names(d):
    return [re.sub(r'(wisdom(?:32|64)).+', r'\1.other', n) for n in sorted(os.listdir(d))]


def ops_of(log):
    return [l.split(' ', 2) for l in open(log).read().splitlines()] if os.path.exists(log) else []


def crash(case):
    res = dict(points=0, children=0, states=[], fails=[], ops=0, outside=[])
    base = tempfile.mkdtemp(prefix='c14_')
    d, log, stepf = os.path.join(base, 'w'), os.path.join(base, 'log'), os.path.join(base, 'step')
    os.mkdir(d)
    try:
        prestate(d, case['pre'])
        snap = snapshot(d)
        hist = case['hist']

        def history(k, how, err=0, num=0, den=1):
            def f():
                w = fresh(d)
                fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                sfd = os.open(stepf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                lib().fsf_arm(k, how, err, num, den, fd, -1, -1)
                errs, per = [], []
                for i, h in enumerate(hist):
                    os.pwrite(sfd, str(i + 1).encode(), 0)
                    try:
                        run(w, h, i)
                    except OSError as e:
                        errs.append(f'{type(e).__name__}')
                    per.append(None)
                n = lib().fsf_disarm()
                return [n, errs]
            return f
        # reference: knowledge after each completed step
        V, totals = [known(d)], [0]
        if isinstance(V[0], str):
            res['fails'].append(f'no start from {case["pre"]}: {V[0]}')
            return res
        for i in range(len(hist)):
            restore(d, snap)
            full = list(hist)
            hist[:] = full[:i + 1]
            code, out = child(history(0, NONE))
            hist[:] = full
            if not out or out[0] != 'ok':
                res['fails'].append(f'history without faults failed: {code} {out}')
                return res
            v = known(d)
            if isinstance(v, str):
                res['fails'].append(f'after undisturbed history: {v}')
                return res
            if not v[hist[i]]:
                res['fails'].append(f'planned transform {hist[i]} unknown to the next process')
                return res
            V.append(v)
            totals.append(out[1][0])
        total = totals[-1]
        ops = ops_of(log)
        res['ops'] = total
        for _, op, path in ops:
            ap = os.path.abspath(path)
            if os.path.dirname(ap) != d and not ap.startswith(d + os.sep):
                res['outside'].append(f'{op} {path}')
        plan = []
        # points within earlier transforms are those of the shorter histories
        for k in range(totals[-2] + 1, total + 1):
            plan.append((k, BEFORE, 0, 0, 1))
            if ops[k - 1][1] in ('write', 'copy_file_range'):
                plan += [(k, TORN, 0, a, b) for a, b in case['torn']]
            if case.get('errors') and ops[k - 1][1] != 'close':
                plan += [(k, FAILS, e, 0, 1) for e in (5, 28)]
        plan.append((total, AFTER, 0, 0, 1))
        memo = {}
        for k, how, err, a, b in plan:
            restore(d, snap)
            code, out = child(history(k, how, err, a, b))
            res['points'] += 1
            what = f'{["", "death before", "death after", f"death after {a}/{b} of", f"error {err} in"][how]} operation {k} ({" ".join(ops[k-1][1:2] + [os.path.basename(ops[k-1][2])])})'
            if how == FAILS:
                if not out:
                    res['fails'].append(f'{what}: process ended with {code}')
                    continue
                if out[0] != 'ok':
                    res['fails'].append(f'{what}: {out[1]}')
                    continue
                lo, hi = 0, len(hist)
            else:
                if code != 77:
                    res['fails'].append(f'{what}: expected death, got {code} {out}')
                    continue
                j = int(open(stepf).read() or 0)
                lo, hi = max(j - 1, 0), j
            key = tuple(zip(names(d), snapshot(d).values()))
            if key not in memo:
                memo[key] = known(d)
                res['children'] += 1
            v = memo[key]
            res['children'] += 1
            if isinstance(v, str):
                res['fails'].append(f'{what}: next process does not start: {v}')
                continue
            for p in (0, 1):
                if split(v)[p] not in [split(V[q])[p] for q in range(lo, hi + 1)]:
                    res['fails'].append(f'{what}: {("double", "single")[p]}-precision knowledge is {v}; before it was {V[lo]}, after saving {V[hi]}')
            # the next process goes on planning and saving, and the one after it knows
            res['states'].append([case['pre'], sorted(set(names(d))), split(v), how])
            if ('go', key) in memo:
                continue
            memo['go', key] = 1

            def go():
                w = fresh(d)
                run(w, 'x', 3)
            code, out = child(go)
            v2 = known(d)
            res['children'] += 2
            if code or out[0] != 'ok' or isinstance(v2, str) or not v2['x'] or any(v2[q] < v[q] for q in v):
                res['fails'].append(f'{what}: next process cannot go on: {code} {out} {v2}')
    finally:
        shutil.rmtree(base, True)
    return res


# --- two processes saving at the same time -----------------------------------------------------------------------
def race(case):
    res = dict(schedules=0, children=0, states=[], fails=[], ops=0, outside=[])
    base = tempfile.mkdtemp(prefix='c14_')
    d = os.path.join(base, 'w')
    os.mkdir(d)
    try:
        prestate(d, case['pre'])
        snap = snapshot(d)
        V0 = known(d)

        class Proc:
            def __init__(self, h):
                self.a_r, self.a_w = os.pipe()      # announcements
                self.g_r, self.g_w = os.pipe()      # permissions
                self.o_r, self.o_w = os.pipe()      # outcome
                self.pid = os.fork()
                if self.pid == 0:
                    try:
                        w = fresh(d)
                        os.write(self.a_w, b's')
                        os.read(self.g_r, 1)
                        lib().fsf_arm(0, NONE, 0, 0, 1, -1, self.g_r, self.a_w)
                        try:
                            for i, q in enumerate(h):
                                run(w, q, i)
                            o = b'ok'
                        except BaseException as e:
                            o = f'{type(e).__name__}: {e}'.encode()
                        lib().fsf_disarm()
                        os.write(self.o_w, o)
                        os.write(self.a_w, b'e')
                    finally:
                        os._exit(0)
                assert os.read(self.a_r, 1) == b's'
                self.done = False
                self.n = 0

            def step(self):
                """let it run to its next operation (which it has not done yet) or end"""
                os.write(self.g_w, b'g')
                c = os.read(self.a_r, 1)
                self.n += 1
                if c == b'e':
                    self.done = True

            def finish(self):
                out = os.read(self.o_r, 4096).decode()
                os.waitpid(self.pid, 0)
                for fd in (self.a_r, self.a_w, self.g_r, self.g_w, self.o_r, self.o_w):
                    os.close(fd)
                return out

        def execute(sched):
            """sched: list of process indices for the first steps, then lowest unfinished"""
            restore(d, snap)
            P = [Proc(h) for h in case['hists']]
            trace, dirs = [], []
            i = 0
            cur = 0
            while not all(p.done for p in P):
                want = sched[i] if i < len(sched) else cur
                if P[want].done:
                    want = next(k for k in range(len(P)) if not P[k].done)
                trace.append((want, tuple(k for k in range(len(P)) if not P[k].done)))
                P[want].step()
                cur = want
                i += 1
                dirs.append(snapshot(d))
            return trace, dirs, [p.finish() for p in P]

        # knowledge that may be found
        allowed = [set(), set()]
        allowed_k = [V0]
        for h in case['hists']:
            for n in range(1, len(h) + 1):
                restore(d, snap)

                def f():
                    w = fresh(d)
                    for i, q in enumerate(h[:n]):
                        run(w, q, i)
                child(f)
                allowed_k.append(known(d))
        for v in allowed_k:
            for p in (0, 1):
                allowed[p].add(split(v)[p])
        seen = {}

        def judge(dr, sched):
            key = tuple((re.sub(r'(wisdom(?:32|64)).+', r'\1.other', n), b) for n, b in sorted(dr.items()) if n in ('wisdom32', 'wisdom64'))
            if key not in seen:
                t = tempfile.mkdtemp(dir=base)
                restore(t, dr)
                seen[key] = v = known(t)
                shutil.rmtree(t, True)
                res['children'] += 1
                if isinstance(v, str):
                    res['fails'].append(f'schedule {sched}: {v}')
                else:
                    res['states'].append([case['pre'], split(v)])
                    for p in (0, 1):
                        if split(v)[p] not in allowed[p]:
                            res['fails'].append(f'schedule {sched}: {("double", "single")[p]}-precision knowledge {split(v)[p]} is neither process\'s ({sorted(allowed[p])})')

        # all schedules with at most `bound` preemptions
        stack = [([], 0)]
        done = set()
        while stack and len(res['fails']) < 5:
            sched, _ = stack.pop()
            if tuple(sched) in done:
                continue
            done.add(tuple(sched))
            trace, dirs, outs = execute(sched)
            res['schedules'] += 1
            res['ops'] += len(trace)
            chosen = [t[0] for t in trace]
            for o in outs:
                if o != 'ok':
                    res['fails'].append(f'schedule {chosen}: process failed: {o}')
            for n, dr in enumerate(dirs):
                judge(dr, chosen[:n + 1])
            # branch: preempt at every later step
            pre = [sum(1 for q in range(1, m + 1) if chosen[q] != chosen[q - 1] and chosen[q - 1] in trace[q][1]) for m in range(len(chosen))]
            for m in range(len(sched), len(chosen)):
                for alt in trace[m][1]:
                    if alt == chosen[m]:
                        continue
                    cost = (pre[m - 1] if m else 0) + (1 if m and chosen[m - 1] in trace[m][1] and alt != chosen[m - 1] else 0)
                    if cost <= case['bound']:
                        stack.append((chosen[:m] + [alt], cost))
    finally:
        shutil.rmtree(base, True)
    return res


def main():
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.WARNING)
    cases = json.load(sys.stdin)
    from .util import isolate_wisdom
    import ssqueezepy.utils     # noqa
    import pyfftw
    isolate_wisdom()
    pyfftw.interfaces.cache.disable()       # its thread does not survive a fork
    out = [dict(crash=crash, race=race)[c['h']](c) for c in cases]
    sys.stdout.write(json.dumps(out))


if __name__ == '__main__':
    main()
