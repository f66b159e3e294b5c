"""Bounded exhaustive exploration engine.

A property module (mc/props/<ID>.py) supplies

  TECH, RULE          strings for the evidence
  gen(tier)           yields *cases*: JSON-able dicts, each with a key "h" naming a harness. The generator is a
                      complete enumeration of the bounded space; no sampling anywhere.
  h_<name>(ctx, case) executes one case against the real code and the reference model.

Inside a harness
  ctx.call(f, *a, **k)  one *transition*: executes library code; counted
  ctx.eq(got, want,...) one *validated trace*: model outcome vs implementation outcome, elementwise
  ctx.state(obj)        registers an observed (canonicalised) state; distinct ones are counted
  ctx.fail(msg)         the property is violated in this case
Any exception of the code under test in a valid case is a violation as well.

Cases are distributed over worker processes (round robin, deterministic). A worker that dies or hangs on a case
is a violation of that case. Every violation becomes an artefact out/<ID>/replay_<n>.json; `replay.sh <file>`
re-executes precisely that case.
"""
import os, sys, json, time, hashlib, importlib, traceback, subprocess, tempfile, threading, glob, warnings, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')


class Fail(Exception):
    pass


class Skip(Exception):
    """Case is outside the property's scope (precondition not met); counted separately."""


def digest(obj):
    import numpy as np
    h = hashlib.blake2b(digest_size=12)

    def upd(o):
        if isinstance(o, np.ndarray):
            h.update(str(o.shape).encode())
            h.update(str(o.dtype.kind).encode())
            if o.dtype.kind in 'fc':
                o = np.asarray(o, dtype='complex128' if o.dtype.kind == 'c' else 'float64')
                with np.errstate(all='ignore'):
                    o = np.where(np.isfinite(o), np.round(o, 5), o) + 0.
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b'[')
            for q in o:
                upd(q)
            h.update(b']')
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                upd(o[k])
        elif isinstance(o, float):
            h.update(('%.6g' % o).encode())
        else:
            h.update(repr(o).encode())
    upd(obj)
    return h.hexdigest()


def describe(case):
    return json.dumps(case, sort_keys=True, default=str)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.values = 0
        self.cases = 0
        self.skipped = 0
        self.extra = {}
        self.case = None
        self.quick = tier == 'quick'

    # --- counting -----------------------------------------------------------------------------------------
    def call(self, f, /, *a, **k):
        self.transitions += 1
        return f(*a, **k)

    def step(self, n=1):
        self.transitions += n

    def state(self, obj):
        d = digest(obj)
        new = d not in self.states
        self.states.add(d)
        return new

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # --- judging ------------------------------------------------------------------------------------------
    def fail(self, msg):
        raise Fail(msg)

    def ok(self, cond, msg):
        self.traces += 1
        if not cond:
            raise Fail(msg() if callable(msg) else msg)

    def eq(self, got, want, what='', rtol=1e-9, atol=None, scale=None, dtype=None):
        """Elementwise comparison with absolute tolerance rtol*max(|want|, scale). Non-finite entries must agree."""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        self.traces += 1
        self.values += int(got.size)
        if got.shape != want.shape:
            raise Fail(f"{what}: shape {got.shape} != expected {want.shape}")
        if dtype is not None and str(got.dtype) != str(dtype):
            raise Fail(f"{what}: dtype {got.dtype} != expected {dtype}")
        if got.size == 0:
            return
        if got.dtype.kind in 'biuSUO' and want.dtype.kind in 'biuSUO':
            bad = got != want
        else:
            with np.errstate(all='ignore'):
                fg, fw = np.isfinite(got), np.isfinite(want)
                fin = fg & fw
                wa = np.abs(want[fin])
                if atol is None:
                    tol = rtol * max(float(wa.max()) if wa.size else 0., scale or 0.)
                    if tol == 0:
                        tol = 1e-300
                else:
                    tol = atol
                d = np.abs(got.astype('complex128') - want)
                bad = np.where(fin, d > tol, False)
                nf = ~fin
                same_nf = (got == want) | (np.isnan(got) & np.isnan(want))
                bad = bad | (nf & ~same_nf)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Fail(f"{what}: {int(bad.sum())}/{bad.size} entries differ; first at {i}: got "
                       f"{got[i] if i else got[()]!r} expected {want[i] if i else want[()]!r}")

    def same(self, a, b, what=''):
        """bitwise equality (NaN==NaN)"""
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        self.traces += 1
        self.values += int(a.size)
        if a.shape != b.shape or a.dtype != b.dtype:
            raise Fail(f"{what}: {a.dtype}{a.shape} != {b.dtype}{b.shape}")
        if not np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
            bad = ~((a == b) | ((a != a) & (b != b)))
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Fail(f"{what}: {int(bad.sum())}/{bad.size} entries differ; first at {i}: {a[i]!r} vs {b[i]!r}")


# --- known findings ------------------------------------------------------------------------------------------
def load_findings(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.isfile(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [d for d in data.get('findings', []) if d['property'] == pid]


def match_finding(finding, case, msg):
    for k, v in finding.get('case', {}).items():
        cv = case.get(k)
        if isinstance(v, list) and not isinstance(cv, list):
            if cv not in v:
                return False
        elif cv != v:
            return False
    pat = finding.get('message')
    return not (pat and not re.search(pat, msg))


# --- worker -----------------------------------------------------------------------------------------------------
def run_case(mod, ctx, case):
    """-> None or violation message"""
    ctx.case = case
    ctx.cases += 1
    try:
        getattr(mod, 'h_' + case['h'])(ctx, case)
    except Skip:
        ctx.skipped += 1
        return None
    except Fail as e:
        return str(e)
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = ' <- '.join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        return f"unexpected {type(e).__name__}: {e} [{loc}]"
    return None


def worker(pid, tier, seed, idx, n, statusdir):
    warnings.simplefilter('ignore')
    try:
        mod = importlib.import_module(f'mc.props.{pid}')
    except BaseException:
        if os.environ.get('MC_DEBUG'):
            traceback.print_exc()
        raise
    ctx = Ctx(pid, tier, seed)
    findings = load_findings(pid)
    viol, known, samples = [], {}, []
    stat = os.path.join(statusdir, f'cur_{idx}')
    hang = getattr(mod, 'CASE_LIMIT_S', 240)
    last = 0
    t0 = time.time()
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    times = {}
    total = 0
    for i, case in enumerate(mod.gen(tier)):
        total += 1
        if (i % n) != idx:
            continue
        with open(stat, 'w') as f:
            json.dump(dict(case=case, t=time.time()), f)
        tc = time.time()
        msg = run_case(mod, ctx, case)
        times[case['h']] = times.get(case['h'], 0) + time.time() - tc
        if msg is not None:
            hit = next((k for k in findings if match_finding(k, case, msg)), None)
            if hit is not None:
                known[hit['id']] = known.get(hit['id'], 0) + 1
            else:
                viol.append(dict(case=case, msg=msg))
                if len(viol) >= 12:
                    break
        elif len(samples) < 2 or (ctx.cases & (ctx.cases - 1)) == 0 and len(samples) < 6:
            samples.append(case)
    if hasattr(mod, 'finish'):
        mod.finish(ctx)
    out = dict(states=sorted(ctx.states), transitions=ctx.transitions, traces=ctx.traces, values=ctx.values,
               cases=ctx.cases, skipped=ctx.skipped, extra=ctx.extra, viol=viol, known=known, samples=samples,
               rule=getattr(mod, 'RULE', ''), bounds=getattr(mod, 'BOUNDS', {}), assumes=getattr(mod, 'ASSUMES', []),
               total=total, times=times, wall=time.time() - t0, complete=len(viol) < 12)
    tmp = os.path.join(statusdir, f'res_{idx}.tmp')
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.rename(tmp, os.path.join(statusdir, f'res_{idx}'))


# --- driver -----------------------------------------------------------------------------------------------------
def drive(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    src = open(os.path.join(ROOT, 'mc', 'props', pid + '.py')).read()

    def const(name, default):
        m = re.search(r'^%s\s*=\s*(.+)$' % name, src, re.M)
        return eval(m.group(1)) if m else default
    n = int(os.environ.get('MC_WORKERS', const('WORKERS', 8)))
    limit = const('CASE_LIMIT_S', 240)
    outdir = os.path.join(ROOT, 'out', pid)
    os.makedirs(outdir, exist_ok=True)
    for f in glob.glob(os.path.join(outdir, 'replay_*.json')):
        os.unlink(f)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    violations, errors = [], []
    with tempfile.TemporaryDirectory(prefix='mc_') as sd:
        procs = {}
        for i in range(n):
            log = open(os.path.join(sd, f'log_{i}'), 'w')
            procs[i] = subprocess.Popen([sys.executable, '-m', 'mc.main', 'worker', pid, tier, str(seed), str(i), str(n), sd],
                                        stdout=log, stderr=subprocess.STDOUT, cwd=ROOT)
        alive = dict(procs)
        while alive:
            time.sleep(0.1)
            for i, p in list(alive.items()):
                if p.poll() is not None:
                    del alive[i]
                    if not os.path.exists(os.path.join(sd, f'res_{i}')):
                        cur = os.path.join(sd, f'cur_{i}')
                        log = open(os.path.join(sd, f'log_{i}')).read()[-3000:]
                        if os.path.exists(cur) and (p.returncode < 0):
                            c = json.load(open(cur))['case']
                            violations.append(dict(case=c, msg=f"process died with status {p.returncode} in this case"))
                        else:
                            errors.append(f"worker {i} exit {p.returncode}:\n{log}")
                    continue
                cur = os.path.join(sd, f'cur_{i}')
                try:
                    c = json.load(open(cur))
                except Exception:
                    continue
                if time.time() - c['t'] > limit:
                    p.kill()
                    violations.append(dict(case=c['case'], msg=f"no termination within {limit} s"))
                    p.wait()
                    del alive[i]
        res = [json.load(open(os.path.join(sd, f'res_{i}'))) for i in range(n) if os.path.exists(os.path.join(sd, f'res_{i}'))]
    states = set()
    agg = dict(transitions=0, traces=0, values=0, cases=0, skipped=0)
    extra, known, samples, times = {}, {}, [], {}
    for r in res:
        states.update(r['states'])
        for k in agg:
            agg[k] += r[k]
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        for k, v in r['times'].items():
            times[k] = round(times.get(k, 0) + v, 2)
        violations += r['viol']
        samples += r['samples'][:2]
    total = max([r['total'] for r in res], default=0)
    complete = (not errors) and all(r['complete'] for r in res) and len(res) == n and agg['cases'] == total
    violations.sort(key=lambda v: len(describe(v['case'])))
    for j, v in enumerate(violations[:10]):
        path = os.path.join(outdir, f'replay_{j}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, case=v['case'], message=v['msg']), f, indent=1, default=str)
        print(f"  case {describe(v['case'])}\n    {v['msg']}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, ROOT)}")
    for fd in load_findings(pid):
        if fd['id'] in known:
            print(f"KNOWN-FINDING: property={pid} {fd['what']} [{known[fd['id']]} cases]")
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=len(states), transitions=agg['transitions'],
                            traces_validated_against_impl=agg['traces'], values_compared=agg['values'],
                            cases_enumerated=total, cases_executed=agg['cases'], cases_outside_scope=agg['skipped'],
                            evaluations=agg['cases'], distinct_nontrivial=len(states),
                            rule=res[0]['rule'] if res else '', exhaustive=bool(complete), bounds=res[0]['bounds'] if res else {},
                            cpu_s_per_harness=times, samples=samples[:8], **extra),
              assumptions=res[0]['assumes'] if res else [], wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {tier}: cases={agg['cases']}/{total} skipped={agg['skipped']} states={len(states)} transitions={agg['transitions']} "
          f"traces={agg['traces']} values={agg['values']} {extra if extra else ''} known={sum(known.values())} violations={len(violations)} "
          f"wall={ev['wall_s']}s times={times}")
    if errors and not violations:
        print('CHECK ERROR', *errors, sep='\n')
        return 2
    if errors:
        print('CHECK ERROR (besides violations)', errors[0])
    return 1 if violations else 0
