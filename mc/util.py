"""Shared harness helpers."""
import os, sys, logging, contextlib, tempfile, atexit, shutil
import numpy as np

logging.disable(logging.WARNING)
_ISO = None


@contextlib.contextmanager
def env(**kw):
    old = {k: os.environ.get(k) for k in kw}
    try:
        for k, v in kw.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = str(v)
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def parallel(on):
    return env(SSQ_PARALLEL='1' if on else '0')


def isolate_wisdom():
    """The global FFT front end writes its planning knowledge next to the source; point it at a scratch directory so that
    checks leave /repo untouched. Any attribute holding such a path is redirected."""
    global _ISO
    if _ISO:
        return _ISO
    from ssqueezepy.utils import FFT_GLOBAL
    d = tempfile.mkdtemp(prefix='wisdom_')
    atexit.register(shutil.rmtree, d, True)
    src = None
    for k, v in list(vars(FFT_GLOBAL).items()):
        s = str(v) if not isinstance(v, (bytes, bytearray)) else ''
        if os.path.basename(s) in ('wisdom32', 'wisdom64') and os.sep in s:
            src = os.path.dirname(s)
            setattr(FFT_GLOBAL, k, type(v)(os.path.join(d, os.path.basename(s))))
        elif k.endswith('dir') and 'ssqueezepy' in s:
            setattr(FFT_GLOBAL, k, type(v)(d))
    FFT_GLOBAL.verbose = 0
    _ISO = (d, src)
    return _ISO


def signals(N):
    """Small alphabet of dense deterministic signals exercising distinct numerical regimes"""
    n = np.arange(N)
    return {
        'chirp': np.cos(2 * np.pi * (.02 * n + .18 * n ** 2 / N)),
        'tones': np.cos(.9 * n) + .5 * np.sin(2.2 * n + 1) + .1,
        'impulse': (n == N // 3) * 1.,
        'ramp': n / N - .3,
        'silent': np.zeros(N),
        'alt': (-1.) ** n * (1 + .3 * np.cos(n)),
    }


class Same:
    pass
