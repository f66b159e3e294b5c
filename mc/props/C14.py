"""C14: planning knowledge survives a crash while being saved."""
import itertools, json, os, subprocess, sys, tempfile, shutil, atexit
from ..core import ROOT, REPO, Skip

TECH = "exhaustive crash-point, torn-write and write-error exploration of the real save path with intercepted file operations, each followed by a restart; plus preemption-bounded exploration of two processes saving at once"
RULE = ("histories: all sequences of planned transforms over the alphabet x every pre-existing state of the files; crash points: before every file operation, after the last, and inside "
        "every write at each torn fraction; errors: EIO and ENOSPC at every operation; schedules: all interleavings of the operations of two savers up to the preemption bound, the "
        "directory judged after every operation; states = distinct (files, knowledge found)")
BOUNDS = dict(quick="histories of 1-2 transforms x 6 pre-states, torn at {1/3, all but one byte}; races: 1 preemption", thorough="histories of 1-3 transforms x 6 pre-states, torn at 5 fractions; races: up to 3 preemptions")
ASSUMES = ["process death, not power loss: operations done before death persist", "knowledge is judged by whether FFTW plans a transform from it without planning",
           "operations are intercepted at libc calls; close() failures are not modelled", "a process that saves last may discard what another saved in between (documented as overwriting)"]
CASE_LIMIT_S = 600
_SO = []


def setup(ctx):
    d = tempfile.mkdtemp(prefix='c14so_')
    atexit.register(shutil.rmtree, d, True)
    so = os.path.join(d, 'fsfault.so')
    cc = shutil.which('gcc') or shutil.which('clang') or 'cc'
    subprocess.run([cc, '-shared', '-fPIC', '-O1', '-w', '-o', so, os.path.join(ROOT, 'mc', 'native', 'fsfault.c'), '-ldl'], check=True)
    _SO.append(so)


PRE = ('none', 'both', 'only32', 'only64', 'empty', 'garbage')


def gen(tier):
    q = tier == 'quick'
    torn = [(1, 3), (999999, 1000000)] if q else [(1, 10), (1, 3), (1, 2), (9, 10), (999999, 1000000)]
    for first in 'abcd':
        for pre in PRE:
            yield dict(h='crash', hists=[first + ''.join(r) for n in ((0, 1) if q else (0, 1, 2)) for r in itertools.product('abcd', repeat=n)], pre=pre, torn=torn, errors=True)
    for pre in ('none', 'both', 'garbage'):
        for ha, hb in (('a', 'b'), ('a', 'c'), ('b', 'd'), ('c', 'd'), ('a', 'a')) + (() if q else (('cd', 'ab'), ('ac', 'd'))):
            yield dict(h='race', pre=pre, hists=[list(ha), list(hb)], bound=(1 if q else 3) if len(ha + hb) == 2 else 1)
    for pre in PRE + ('torn',):
        yield dict(h='package', pre=pre)


def drive(ctx, *cases):
    env = dict(os.environ, LD_PRELOAD=_SO[0])
    r = subprocess.run([sys.executable, '-m', 'mc.crash'], input=json.dumps(cases), capture_output=True, text=True, env=env, cwd=ROOT, timeout=580)
    if r.returncode or not r.stdout:
        ctx.fail(f'driver ended with {r.returncode}: {r.stderr[-800:]}')
    outs = json.loads(r.stdout[r.stdout.index('[{'):])
    for case, out in zip(cases, outs):
        account(ctx, case, out)
    return outs


def account(ctx, case, out):
    ctx.step(out['ops'])
    for s in out['states']:
        ctx.state(s)
    ctx.count('operations', out['ops'])
    ctx.count('processes', out['children'])
    ctx.traces += out['children']
    if out['outside']:
        ctx.fail(f"written outside the configured directory: {out['outside'][:3]}")
    if out['fails']:
        ctx.fail(f"{case.get('hist', case.get('hists'))}: " + '; '.join(out['fails'][:3]))


def h_crash(ctx, c):
    for out in drive(ctx, *[dict(c, hist=list(h)) for h in c['hists']]):
        ctx.ok(out['ops'] > 0, 'nothing was saved')
        ctx.count('crash_points', out['points'])


def h_race(ctx, c):
    out, = drive(ctx, c)
    ctx.count('schedules', out['schedules'])
    ctx.ok(out['schedules'] > 2, 'schedules explored')


SCRIPT = r'''
import sys, os, warnings
warnings.simplefilter('ignore')
import numpy as np, ssqueezepy
from ssqueezepy.utils import FFT, FFT_GLOBAL, fft
U = os.path.join(os.path.dirname(ssqueezepy.__file__), 'utils')
x = np.cos(np.arange(11.))
FFT_GLOBAL.verbose = 0
assert np.allclose(fft(x, patience=(1, .01)), np.fft.fft(x)), 'values'
before = {n: os.stat(os.path.join(U, n)).st_mtime_ns for n in ('wisdom32', 'wisdom64')}
for f in (FFT(wisdom_dir='', verbose=0, planning_timelimit=.01), FFT(verbose=0, planning_timelimit=.01)):
    assert np.allclose(f.fft(x, patience=1), np.fft.fft(x)), 'values'
    assert sorted(os.listdir('.')) == [], 'files in the working directory: %s' % os.listdir('.')
    now = {n: os.stat(os.path.join(U, n)).st_mtime_ns for n in before}
    assert all(now[n] > before[n] for n in before), 'not saved in utils'
    before = now
os.mkdir('sub')
from pathlib import Path
for d in ('sub', Path('sub'), os.path.abspath('sub')):
    f = FFT(wisdom_dir=d, verbose=0, planning_timelimit=.01)
    f.fft(x, patience=1)
    assert sorted(os.listdir('sub')) == ['wisdom32', 'wisdom64'], os.listdir('sub')
    assert sorted(os.listdir('.')) == ['sub'], os.listdir('.')
    assert all(os.path.getsize(os.path.join('sub', n)) > 0 for n in os.listdir('sub'))
    for n in os.listdir('sub'): os.unlink(os.path.join('sub', n))
print('FINE')
'''


def h_package(ctx, c):
    """a real start of the package with its own files in every state, and directories named every way"""
    base = tempfile.mkdtemp(prefix='c14p_')
    try:
        shutil.copytree(os.path.join(REPO, 'ssqueezepy'), os.path.join(base, 'ssqueezepy'), ignore=shutil.ignore_patterns('__pycache__'))
        U = os.path.join(base, 'ssqueezepy', 'utils')
        os.mkdir(os.path.join(base, 'cwd'))
        for n, other in (('wisdom32', 'only64'), ('wisdom64', 'only32')):
            p = os.path.join(U, n)
            if c['pre'] in ('none', other):
                if os.path.exists(p):
                    os.unlink(p)
            elif c['pre'] in ('empty', 'garbage'):
                open(p, 'wb').write(b'' if c['pre'] == 'empty' else b'(not wisdom\n\x00\xff')
            elif c['pre'] == 'torn' and os.path.exists(p):
                b = open(p, 'rb').read()
                open(p, 'wb').write(b[:len(b) * 2 // 3])
        ctx.step(3)
        r = subprocess.run([sys.executable, '-c', SCRIPT], cwd=os.path.join(base, 'cwd'), env=dict(os.environ, PYTHONPATH=base), capture_output=True, text=True, timeout=200)
        ctx.ok('FINE' in r.stdout, lambda: f'start with {c["pre"]} files: {r.stderr[-400:]}')
        ctx.state(c)
    finally:
        shutil.rmtree(base, True)
