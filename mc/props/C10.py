"""C10: padding keeps the signal and extends it as named."""
import numpy as np
from .. import ref

TECH = "bounded exhaustive enumeration"
RULE = "all (length, target length, pad type, ndim, dtype) in bounds; a case is non-trivial if its padded result is distinct"
BOUNDS = dict(quick="N 1..33, padlength default or N..4N+3", thorough="N 1..96, padlength default or N..5N+3")
TYPES = ('zero', 'reflect', 'symmetric', 'replicate', 'wrap')


def gen(tier):
    nmax = 33 if tier == 'quick' else 96
    mult = 4 if tier == 'quick' else 5
    for N in range(1, nmax + 1):
        for padtype in TYPES:
            yield dict(h='pad', N=N, padtype=padtype, lo=N, hi=mult * N + 3)
    for lo in range(1, 4097 if tier == 'quick' else 65537, 512):
        yield dict(h='p2up', lo=lo, hi=lo + 512)
    for N in (1, 2, 3, 5, 8, 13):
        for dtype in ('int64', 'float32', 'complex64', 'complex128'):
            for padtype in TYPES:
                yield dict(h='dtype', N=N, dtype=dtype, padtype=padtype)
    for N in (255, 256, 257, 1000, 1448, 1449, 3000):
        for padtype in TYPES:
            yield dict(h='pad', N=N, padtype=padtype, lo=N, hi=N + 5)
    for padtype in ('bogus', '', None, 'edge'):
        yield dict(h='reject', padtype=padtype)


def h_pad(ctx, c):
    from ssqueezepy import padsignal
    N, padtype = c['N'], c['padtype']
    x1 = np.arange(1., N + 1)
    x2 = np.stack([x1, -3 * x1 + .5, x1[::-1]])
    for pl in [None] + list(range(c['lo'], c['hi'] + 1)):
        up, n1, n2 = ref.pad_amounts(N, pl)
        for x in (x1, x2, x2[:1]):
            x0 = x.copy()
            want = ref.pad(x, padtype, pl)[0]
            got = ctx.call(padsignal, x, padtype, padlength=pl)
            what = f"padsignal(N={N}, {padtype}, padlength={pl}, ndim={x.ndim})"
            ctx.eq(got, want, what, atol=0, dtype=x.dtype)
            r = ctx.call(padsignal, x, padtype, padlength=pl, get_params=True)
            ctx.ok(len(r) == 4 and tuple(int(v) for v in r[1:]) == (up, n1, n2),
                   lambda: f"{what}: params {r[1:]} != {(up, n1, n2)}")
            ctx.eq(r[0], want, what + ' (get_params)', atol=0)
            ctx.ok(r[2] + N + r[3] == r[0].shape[-1] == r[1], f"{what}: amounts do not add up")
            ctx.ok(not np.shares_memory(got, x), what + ': output aliases input')
            ctx.eq(x, x0, what + ' input', atol=0)
        ctx.state([padtype, want])


def h_p2up(ctx, c):
    from ssqueezepy.utils import p2up
    for n in range(c['lo'], c['hi']):
        r = tuple(int(v) for v in ctx.call(p2up, n))
        ctx.ok(r == ref.p2up(n), lambda: f"p2up({n}) = {r} != {ref.p2up(n)}")
        up, n1, n2 = r
        ctx.ok(n < up and up & (up - 1) == 0 and n1 + n + n2 == up and 0 <= n1 - n2 <= 1, f"p2up({n}) = {r}")
        ctx.state(r)


def h_dtype(ctx, c):
    from ssqueezepy import padsignal
    x = (np.arange(1, c['N'] + 1) * (1 + (2j if 'complex' in c['dtype'] else 0))).astype(c['dtype'])
    for pl in (None, c['N'], c['N'] + 1, c['N'] + 2, 3 * c['N'] + 1):
        for v in (x, x[::-1], np.stack([x, x])[:, ::1], np.asfortranarray(np.stack([x, 2 * x]))):
            want = ref.pad(v, c['padtype'], pl)[0]
            got = ctx.call(padsignal, v, c['padtype'], padlength=pl)
            ctx.eq(got, want, f"{c} padlength={pl}", atol=0, dtype=c['dtype'])
            ctx.state([c['padtype'], got])


def h_reject(ctx, c):
    from ssqueezepy import padsignal
    try:
        ctx.call(padsignal, np.arange(5.), c['padtype'])
    except Exception as e:
        ctx.state(type(e).__name__)
        return
    ctx.fail(f"unsupported pad type {c['padtype']!r} accepted")
