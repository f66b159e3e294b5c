"""C15: every way of asking for scales yields what was asked for, and inspecting scales recovers how they were made."""
import itertools
import numpy as np
from ..core import Skip
from .. import ref

TECH = "exhaustive enumeration of lengths x densities x layouts x presets x wavelets x cutoffs x downsampling factors, and of all small peak arrangements for the redundancy search, on the real scale generators and inspectors, against closed-form wavelets and element-wise definitions"
RULE = ("all lengths of the range x scale strings x densities x wavelets x padded or not; all (min, max, density, layout, downsampling) of the lattice; all cutoffs and bin targets; "
        "all layouts x base scales x precisions x shapes x directions for inference, with all single-element corruptions rejected; all peak arrangements of short filterbanks for the redundancy search; states = distinct scale vectors / arrangements")
BOUNDS = dict(quick="N in 6..40 and {48,63,64,65,100,128,200,512}; nv in {1,2,3,8,16,32}; 8 wavelets; banks of <= 7 filters over 4 peak positions, span 2..3",
              thorough="N in 6..256 and {400,512,777,1024,2048}; nv in {1..12,16,24,32,48,64}; 10 wavelets; banks of <= 8 filters over 4 peak positions, span 2..4")
ASSUMES = ["wavelet amplitudes are compared at the resolution of the library's documented searches: 1e-3 rad for the smallest scale, one bin of the search grid for 'maximal', 1/N rad for 'minimal'",
           "'minimal' bounds may be rejected (explicitly) where no integer division of the axis exists at that resolution",
           "distances equal to the tolerance of the redundancy search may count either way for 'all'"]
CASE_LIMIT_S = 500

WV = [('gmw', {}), ('gmw', dict(gamma=3., beta=10.)), ('gmw', dict(gamma=4., beta=80.)), ('morlet', dict(mu=13.4)), ('morlet', dict(mu=5.)), ('bump', {}), ('cmhat', {}), ('hhhat', {})]
WV2 = WV + [('gmw', dict(gamma=1., beta=30.)), ('morlet', dict(mu=6.))]


def wavs(tier):
    return WV if tier == 'quick' else WV2


def lib(wv):
    from ssqueezepy.wavelets import Wavelet
    return Wavelet((wv[0], dict(wv[1], dtype='float64')))


_pk = {}


def amp(wv):
    """closed-form amplitude relative to the peak, and the peak's location"""
    name, o = wv
    p = dict(ref.DEFAULTS[name], **o)
    f = lambda w: np.abs(ref.WAVELETS[name](np.atleast_1d(np.asarray(w, dtype='float64')), **p))
    key = (name, str(o))
    if key not in _pk:
        w = np.arange(1e-3, 40, 1e-3)
        a = f(w)
        i = int(np.argmax(a))
        w2 = np.linspace(w[max(i - 1, 0)], w[i + 1], 4001)
        a2 = f(w2)
        _pk[key] = (float(w2[np.argmax(a2)]), float(a2.max()))
    wp, pk = _pk[key]
    return (lambda w: f(w) / pk), wp


def gen(tier):
    q = tier == 'quick'
    for i, wv in enumerate(wavs(tier)):
        yield dict(h='minscale', wv=i)
        for N in (16, 32, 64, 100, 129, 512, 2048) if q else (16, 20, 31, 32, 33, 64, 100, 128, 129, 256, 512, 1000, 1024, 2048, 4096):
            yield dict(h='maxscale', wv=i, N=N)
            for mn, mx in ((.6, .8), (.1, .8), (.3, .5), (.05, .3), (.5, .95)):
                yield dict(h='minimal', wv=i, N=N, mn=mn, mx=mx)
        for N in (9, 32, 100, 333):
            yield dict(h='bounds', wv=i, N=N)
        Ns = list(range(6, 41)) + [48, 63, 64, 65, 100, 128, 200, 512] if q else list(range(6, 257)) + [400, 512, 777, 1024, 2048]
        for lo in range(0, len(Ns), 8):
            for sc in ('log', 'log:minimal', 'log:maximal', 'log:naive', 'linear', 'linear:maximal', 'linear:naive', 'linear:minimal', 'log-piecewise', 'log-piecewise:maximal', 'log-piecewise:minimal', 'log-piecewise:naive'):
                yield dict(h='strings', wv=i, Ns=Ns[lo:lo + 8], sc=sc, tier=tier)
        yield dict(h='make_pw', wv=i)
    yield dict(h='make', a=0)
    for kind in ('log', 'linear', 'pw'):
        for dt in ('float64', 'float32'):
            yield dict(h='infer', kind=kind, dt=dt)
    yield dict(h='reject')
    yield dict(h='explicit')
    for span in (2, 3) if q else (2, 3, 4):
        for n in range(span, span + 5):
            if n <= (7 if q else 8):
                yield dict(h='dense', n=n, span=span)


def h_minscale(ctx, c):
    from ssqueezepy.utils.cwt_utils import find_min_scale
    wv = wavs('all')[c['wv']]
    a, wp = amp(wv)
    w = lib(wv)
    prev = None
    for cut in (-1., -.9, -.75, -.5, -.25, -.1, -.02, .02, .1, .25, .5, .75, .9, 1.):
        m = ctx.call(find_min_scale, w, cut)
        x = np.pi * m
        ctx.state((c['wv'], cut))
        ctx.ok((x <= wp + 2e-3) if cut < 0 else (x >= wp - 2e-3), lambda: f'find_min_scale({wv}, cutoff={cut}): {x} is on the wrong side of the peak {wp}')
        lo, hi = a(x - 2e-3)[0], a(x + 2e-3)[0]
        v = abs(cut)
        e = 2e-5 if v < 1 else 3e-4
        ctx.ok(min(lo, hi) - e <= v <= max(lo, hi) + e, lambda: f'find_min_scale({wv}, cutoff={cut}): amplitude at Nyquist is in [{min(lo, hi)}, {max(lo, hi)}], expected {v}')
        if prev is not None and abs(cut) <= 1:
            if cut < 0:
                ctx.ok(m <= prev + 1e-9, lambda: f'find_min_scale({wv}): smaller |cutoff| left of the peak must not enlarge the scale')
            elif cut > .02:
                ctx.ok(m <= prev + 1e-9, lambda: f'find_min_scale({wv}): greater cutoff right of the peak must not enlarge the scale')
        prev = m


def h_maxscale(ctx, c):
    from ssqueezepy.utils.cwt_utils import find_max_scale
    wv, N = wavs('all')[c['wv']], c['N']
    a, wp = amp(wv)
    w = lib(wv)
    xi1 = 2 * np.pi / N
    step = 8 * wp / N * 1.01
    prev = {}
    for amp_, loc in itertools.product((1., .9, .5, .1), (1, 2, 3, 5)):
        try:
            s = ctx.call(find_max_scale, w, N, bin_loc=loc, bin_amp=amp_)
        except IndexError:
            ctx.ok(a(step)[0] > amp_ - .05 or N < 32, lambda: f'find_max_scale({wv}, N={N}, bin_loc={loc}, bin_amp={amp_}) failed')
            continue
        x = s * xi1 * loc
        ctx.state((c['wv'], N, amp_, loc))
        low = min(a(wp - step / 2)[0], a(wp + step / 2)[0])     # the search grid straddles the peak
        ctx.ok(0 <= x <= wp * 1.001 + step and a(x)[0] <= amp_ + 1e-3 and (x >= wp or a(min(x + step, wp))[0] >= amp_ * low * (1 - 1e-3) - 1e-6),
               lambda: f'find_max_scale({wv}, N={N}, bin_loc={loc}, bin_amp={amp_}): amplitude at the bin is {a(x)[0]} (one grid step on: {a(x + step)[0]})')
        for (pa, pl), ps in prev.items():
            if pl == loc and pa > amp_ or pa == amp_ and pl < loc:
                ctx.ok(s <= ps * (1 + 1e-12), lambda: f'find_max_scale({wv}, N={N}): lesser bin_amp or greater bin_loc must not enlarge the scale')
        prev[amp_, loc] = s


def minimal_want(a, wp, N, mn, mx):
    """(k, amplitude) of the smallest k such that bins k, k+1 are symmetric about the peak with amplitude >= mn"""
    for k in range(1, 400):
        wl = wp * 2 * k / (2 * k + 1)
        if a(wl)[0] >= mn:
            return k, wl
    return None, None


def h_minimal(ctx, c):
    from ssqueezepy.utils.cwt_utils import find_max_scale_alt
    wv, N, mn, mx = wavs('all')[c['wv']], c['N'], c['mn'], c['mx']
    a, wp = amp(wv)
    what = f'find_max_scale_alt({wv}, {N}, {mn}, {mx})'
    k, wl = minimal_want(a, wp, N, mn, mx)
    # resolution in units of k near the wanted point
    res = wp / (2 * (wp - wl) ** 2) / N if k else np.inf
    try:
        s = ctx.call(find_max_scale_alt, lib(wv), N, min_cutoff=mn, max_cutoff=mx)
    except Exception as e:
        if 'xi divisions' in str(e):
            ctx.ok(res > .15 or a(wl)[0] > mx - .02 or a(wl - 2e-3 - 2 / N)[0] < mn, lambda: f'{what} rejected though bins {k}, {k + 1} fit')
            raise Skip()
        raise
    ctx.state((c['wv'], N, mn, mx))
    d = s * 2 * np.pi / N
    wlg = wp - d / 2
    n = wlg / d
    r2 = wp / (2 * (wp - wlg) ** 2) / N
    if res > .15 or r2 > .15:
        raise Skip()
    slack = 1.2 * max(res, r2) + .02
    fr = (n + .5) % 1 - .5
    ctx.ok(-.02 <= fr <= slack, lambda: f'{what}: bins are not symmetric about the peak: {n} bins to the left point')
    kk = int(round(n))
    ctx.ok(a(wlg)[0] >= mn - .01 and (kk == k or kk == k + 1 and a(wl - 2e-3 - 1 / N)[0] < mn or kk == k - 1 and a(wp * 2 * kk / (2 * kk + 1))[0] > mn - .01), lambda: f'{what}: not the bins closest to zero with sufficient amplitude: {kk}, expected {k}')
    ctx.ok(a(wlg)[0] <= mx + .01, lambda: f'{what}: amplitude {a(wlg)[0]:.3f} at the symmetric bins exceeds max_cutoff')


def h_bounds(ctx, c):
    from ssqueezepy.utils.cwt_utils import cwt_scalebounds, find_min_scale, find_max_scale, find_max_scale_alt
    wv, N = wavs('all')[c['wv']], c['N']
    w = lib(wv)
    f = lambda **k: ctx.call(cwt_scalebounds, w, N, **k)
    for pad in (True, False):
        M = ref.p2up(N)[0] if pad else N
        ctx.ok(f(preset='naive', use_padded_N=pad) == (1, N), "preset 'naive'")
        ctx.state((c['wv'], N, pad))
        try:
            big = find_max_scale(w, M, 2, 1)
        except IndexError:
            big = None
        if big is not None:
            ctx.ok(f(preset='maximal', use_padded_N=pad) == (find_min_scale(w, -.5), big), "preset 'maximal'")
            ctx.ok(f(preset='maximal', cutoff=.3, min_cutoff=.1, max_cutoff=.2, use_padded_N=pad) == (find_min_scale(w, -.5), big), "preset overrides cutoffs")
            for loc, am in ((1, 1), (3, .5), (1, .2)):
                try:
                    b = find_max_scale(w, M, loc, am)
                except IndexError:
                    continue
                ctx.ok(f(preset='maximal', bin_loc=loc, bin_amp=am, use_padded_N=pad)[1] == b, "preset 'maximal' with bin_loc, bin_amp")
        for kw, cut, mn, mx in ((dict(preset='minimal'), -.5, .6, .8), (dict(), -.5, .6, .8), (dict(cutoff=.3), .3, .6, .8), (dict(cutoff=-.2, min_cutoff=.2), -.2, .2, .8), (dict(min_cutoff=.2, max_cutoff=.9), -.5, .2, .9), (dict(max_cutoff=.7), -.5, .6, .7),
                                (dict(preset='minimal', cutoff=.2, min_cutoff=.1), -.5, .6, .8)):
            try:
                want = find_max_scale_alt(w, M, mn, mx)
            except Exception as e:
                if 'xi divisions' not in str(e):
                    raise
                continue
            ctx.ok(f(use_padded_N=pad, **kw) == (find_min_scale(w, cut), want), f'cwt_scalebounds({wv}, {N}, {kw})')
    for kw in (dict(preset='max'), dict(min_cutoff=-.1), dict(min_cutoff=.5, max_cutoff=.4), dict(max_cutoff=.5)):
        ctx.step()
        try:
            cwt_scalebounds(w, N, **kw)
        except (ValueError, AssertionError):
            continue
        ctx.fail(f'cwt_scalebounds({kw}) was accepted')


def well_formed(ctx, s, lo, hi, nv, kind, what, ds=4, w=None):
    """strictly increasing, positive, of the layout & density asked for, inside [lo, hi] to within a step"""
    s = np.asarray(s)
    ctx.ok(s.ndim == 2 and s.shape[1] == 1 and s.dtype == np.float64 and len(s) >= 1 and np.isfinite(s).all(), f'{what}: shape {s.shape}, dtype {s.dtype}')
    s = s[:, 0]
    ctx.ok((s > 0).all() and (np.diff(s) > 0).all(), f'{what}: not strictly increasing and positive')
    st = 2 ** (1 / nv)
    e = 1e-9
    ctx.ok(lo / st * (1 - e) < s[0] <= lo * (1 + e), lambda: f'{what}: smallest scale {s[0]}, bound {lo}')
    idx = None
    if kind == 'linear':
        ctx.ok(np.ptp(np.diff(s)) <= 1e-9 * s[-1] if len(s) > 2 else True, f'{what}: not uniformly spaced')
        ctx.ok(hi / st ** 2 * (1 - e) <= s[-1] <= hi * st * (1 + e) or len(s) == 1, lambda: f'{what}: greatest scale {s[-1]}, bound {hi}')
        n = s[-1] / s[0] if len(s) > 1 else hi / lo
        ctx.ok(len(s) == int(np.ceil(n * (1 - e))) or len(s) == int(np.ceil(n * (1 + e))), lambda: f'{what}: {len(s)} scales, expected ceil({n})')
        return None
    r = np.diff(np.log2(s)) * nv
    full = None
    if kind == 'log':
        ctx.ok((np.abs(r - 1) < 1e-9).all(), lambda: f'{what}: density {1 / (r / nv)} differs from {nv} scales per octave')
        ctx.ok(hi / st ** 2 * (1 - e) <= s[-1] <= hi * (1 + e), lambda: f'{what}: greatest scale {s[-1]}, bound {hi}')
    else:
        one = np.abs(r - 1) < 1e-9
        k = int(one.sum())      # leading gaps at full density
        ctx.ok(one[:k].all() and (np.abs(r[k:] - ds) < 1e-9).all(), lambda: f'{what}: gaps (in steps) {r}, expected 1 .. 1 {ds} .. {ds}')
        ctx.ok(hi / st ** (1 + ds) * (1 - e) <= s[-1] <= hi * (1 + e), lambda: f'{what}: greatest scale {s[-1]}, bound {hi}')
        if k < len(r) and ds > 1:
            idx = k + 1
        # the transition is where the redundancy search puts it, on the full-density scales
        from ssqueezepy.utils.cwt_utils import find_downsampling_scale
        N = int(np.floor(nv * np.log2(lo * (1 + 1e-14)))), int(np.ceil(nv * np.log2(hi / lo)))
        full = 2 ** (np.arange(N[0], N[0] + N[1]) / nv)
        if abs(full[0] / s[0] - 1) < 1e-9:
            t = find_downsampling_scale(w, full.reshape(-1, 1))
            want = full if t is None else np.hstack([full[:t], full[t + ds - 1::ds]])
            if len(want) == len(s):
                ctx.ok(np.abs(want / s - 1).max() < 1e-9, lambda: f'{what}: scales differ from full-density ones thinned from index {t}')
            else:
                ctx.ok(abs(len(want) - len(s)) <= 1 and t is None, lambda: f'{what}: {len(s)} scales, expected {len(want)}')
    return idx



def inspect(ctx, s, kind, nv, ds, idx, what):
    from ssqueezepy.utils.cwt_utils import infer_scaletype, nv_from_scales, logscale_transition_idx, process_scales
    n = len(s)
    if n < 3:
        return
    for dt in ('float64', 'float32'):
        z = s.astype(dt)
        for sh in ((n, 1), (n,)):
            x = z.reshape(sh)
            ty, v = ctx.call(infer_scaletype, x)
            k = 'log' if kind == 'log-piecewise' and idx is None else kind
            ctx.ok(ty == k, lambda: f'{what}: {dt} scales of shape {sh} recognised as {ty}, made as {k}')
            if ty != k:
                continue
            if k == 'log':
                ctx.ok(v == nv and isinstance(v, (int, np.integer)), lambda: f'{what}: inferred {v} scales per octave, made with {nv}')
            elif k == 'linear':
                ctx.ok(v is None, what)
        x = z.reshape(-1, 1)
        if kind != 'linear':
            got = logscale_transition_idx(x)
            ctx.ok(got == idx, lambda: f'{what}: {dt}: transition found at {got}, made at {idx}')
            a = np.asarray(ctx.call(nv_from_scales, x)).ravel()
            want = np.full(n, float(nv)) if idx is None else np.hstack([np.full(idx, float(nv)), np.full(n - idx, nv / ds)])
            ctx.eq(a, want, f'{what}: density of {dt} scales', rtol=1e-9 if dt == 'float64' else 2e-5 * nv)
        o = ctx.call(process_scales, x, 100, None, get_params=True)
        ctx.ok(o[0].shape == (n, 1) and np.array_equal(o[0], x) and o[0].dtype == x.dtype and o[2] == n, f'{what}: explicit scales are changed')
        ctx.ok(o[1] == (('log' if idx is None else 'log-piecewise') if kind != 'linear' else 'linear'), f'{what}: layout of explicit scales')


def h_strings(ctx, c):
    from ssqueezepy.utils.cwt_utils import process_scales, cwt_scalebounds
    wv = wavs('all')[c['wv']]
    w = lib(wv)
    sc = c['sc']
    kind, _, pre = sc.partition(':')
    pre = pre or ('maximal' if kind == 'log-piecewise' else None)
    nvs = ((1, 2, 3, 8, 16, 32) if c['tier'] == 'quick' else tuple(range(1, 13)) + (16, 24, 32, 48, 64)) if kind != 'linear' else (None, 8)
    if c['tier'] == 'quick' and kind == 'log-piecewise':
        nvs = (1, 3, 8, 32)
    for N, pad in itertools.product(c['Ns'], (True, False)):
        try:
            lo, hi = cwt_scalebounds(w, N, preset=pre, use_padded_N=pad)
        except Exception as e:
            lo = None
            msg = str(e)
        for nv in nvs:
            what = f'process_scales({sc!r}, N={N}, {wv}, nv={nv}, use_padded_N={pad})'
            if lo is None or hi <= lo:
                ctx.step()
                try:
                    o = process_scales(sc, N, w, nv=nv, use_padded_N=pad)
                except Exception as e:
                    ctx.ok(lo is not None or str(e) == msg, lambda: f'{what}: {type(e).__name__} {e}')
                    continue
                ctx.fail(f'{what}: bounds are infeasible but scales were returned: {o.ravel()[:5]}')
                continue
            if nv == nvs[-1] and N > 300 and kind == 'linear':
                continue
            s, ty, na, v = ctx.call(process_scales, sc, N, w, nv=nv, get_params=True, use_padded_N=pad)
            ctx.ok(np.array_equal(ctx.call(process_scales, sc, N, w, nv=nv, use_padded_N=pad), s), f'{what}: parameters alter the scales')
            ctx.ok(ty == kind and na == len(s) and v == (32 if nv is None else nv), lambda: f'{what}: parameters ({ty}, {na}, {v})')
            if nv:
                ctx.ok(np.array_equal(ctx.call(process_scales, sc, N, w, nv=float(nv), use_padded_N=pad), s), f'{what}: float density')
            idx = well_formed(ctx, s, lo, hi, nv or 32, kind, what, 4, w)
            ctx.state((c['wv'], sc, N, nv, pad))
            inspect(ctx, s, kind, nv or 32, 4, idx, what)


MINMAX = [(1, 2), (1, 100), (.5, 3), (2.7, 130.3), (4, 64), (1e-3, .5), (3, 3.5), (10, 10000), (1.999, 63.9)]


def h_make(ctx, c):
    from ssqueezepy.utils.cwt_utils import make_scales
    for (lo, hi), nv, kind in itertools.product(MINMAX, (1, 2, 3, 5, 7, 8, 12, 16, 32, 48), ('log', 'linear')):
        what = f'make_scales(min_scale={lo}, max_scale={hi}, nv={nv}, scaletype={kind})'
        if kind == 'linear' and hi / lo > 1e4:
            continue
        s = ctx.call(make_scales, 128, lo, hi, nv=nv, scaletype=kind)
        well_formed(ctx, s, lo, hi, nv, kind, what)
        ctx.state((lo, hi, nv, kind))
        inspect(ctx, s, kind, nv, 4, None, what)
    a = ctx.call(make_scales, 128)
    ctx.eq(a, ctx.call(make_scales, 128, 1, 128), 'default bounds')
    ctx.eq(ctx.call(make_scales, 77, max_scale=20), ctx.call(make_scales, 77, 1, 20), 'default lower bound')
    ctx.eq(ctx.call(make_scales, 77, min_scale=2.5), ctx.call(make_scales, 77, 2.5, 77), 'default upper bound')
    for kw in (dict(scaletype='log-piecewise'), dict(scaletype='exp'), dict(min_scale=5, max_scale=4), dict(min_scale=5, max_scale=5)):
        ctx.step()
        try:
            make_scales(64, **kw)
        except ValueError:
            continue
        ctx.fail(f'make_scales({kw}) was accepted')


def h_make_pw(ctx, c):
    from ssqueezepy.utils.cwt_utils import make_scales, cwt_scalebounds
    wv = wavs('all')[c['wv']]
    w = lib(wv)
    for nv, (lo, hi), ds in itertools.product((4, 8, 16, 32), ((2, 800.), (1.3, 300.), (3, 40)), (None, 1, 2, 3, 4, 5, 8)):
        what = f'make_scales(min_scale={lo}, max_scale={hi}, nv={nv}, piecewise, downsample={ds}, {wv})'
        s = ctx.call(make_scales, 128, lo, hi, nv=nv, scaletype='log-piecewise', wavelet=w, downsample=ds)
        d = ds or 4
        idx = well_formed(ctx, s, lo, hi, nv, 'log-piecewise', what, d, w)
        ctx.state((c['wv'], nv, lo, ds))
        inspect(ctx, s, 'log-piecewise', nv, d, idx, what)
    for N in (100, 200):
        try:
            b = cwt_scalebounds(w, N)
        except Exception as e:
            if 'xi divisions' in str(e):
                continue
            raise
        ctx.eq(ctx.call(make_scales, N, wavelet=w, nv=8), ctx.call(make_scales, N, *b, nv=8), 'bounds from wavelet')


def h_infer(ctx, c):
    """layouts in all units, lengths and directions"""
    dt = c['dt']
    from ssqueezepy.utils.cwt_utils import infer_scaletype, logscale_transition_idx, nv_from_scales
    units = (1., 1e-6, 3e-3, 7., 44100., 1e9)
    for u, n in itertools.product(units, (3, 4, 5, 7, 12, 40, 200)):
        if c['kind'] == 'log':
            for nv in (1, 2, 3, 5, 8, 12, 16, 31, 32, 48, 64):
                if n / nv > 60 or (dt == 'float32' and (n / nv > 30)):
                    continue
                a = (u * 2. ** (np.arange(n) / nv)).astype(dt)
                if n / nv < .2:     # indistinguishable from linear in single precision
                    continue
                for x in (a, a[::-1], a.reshape(-1, 1), a[::-1].reshape(-1, 1).copy()):
                    ty, v = ctx.call(infer_scaletype, x)
                    ctx.ok(ty == 'log' and abs(v) == nv, lambda: f'{dt} log vector (unit {u}, n={n}, nv={nv}) inferred as {ty}, {v}')
                    ctx.ok(logscale_transition_idx(x) is None, f'{dt} log vector (unit {u}, n={n}, nv={nv}): transition found')
                ctx.state((u, n, nv))
        elif c['kind'] == 'linear':
            for lo, hi in ((1, 2), (1, 50), (.1, .5), (3, 1000)):
                a = (u * np.linspace(lo, hi, n)).astype(dt)
                for x in (a, a[::-1], a.reshape(-1, 1), (u * np.arange(1, n + 1)).astype(dt)):
                    ty, v = ctx.call(infer_scaletype, x)
                    ctx.ok(ty == 'linear' and v is None, lambda: f'{dt} linear vector (unit {u}, n={n}, {lo}..{hi}) inferred as {ty}')
                ctx.state((u, n, lo))
        else:
            for nv, ds in itertools.product((1, 3, 8, 16, 32), (2, 3, 4, 8)):
                for i in range(2, n - 1) if n <= 12 else (2, 3, n // 2, n - 3, n - 2):
                    e = np.hstack([np.arange(i), i - 1 + ds * np.arange(1, n - i + 1)]) / nv
                    if np.log(u) + e[-1] * np.log(2) > 22:
                        continue
                    a = (u * 2. ** e).astype(dt)
                    for x in (a, a.reshape(-1, 1)):
                        what = f'{dt} piecewise vector (unit {u}, n={n}, nv={nv}, downsample={ds}, transition {i})'
                        ty, v = ctx.call(infer_scaletype, x)
                        ctx.ok(ty == 'log-piecewise', lambda: f'{what} inferred as {ty}')
                        ctx.ok(logscale_transition_idx(x) == i, lambda: f'{what}: transition found at {logscale_transition_idx(x)}')
                    v = np.asarray(v).ravel()
                    ctx.eq(v, np.hstack([np.full(i, float(nv)), np.full(n - i, nv / ds)]), what + ': density', rtol=1e-9 if dt == 'float64' else 2e-5 * nv)
                    ctx.state((u, n, nv, ds, i))


def h_reject(ctx, c):
    from ssqueezepy.utils.cwt_utils import infer_scaletype, process_scales
    base = []
    for n in (8, 12, 30):
        base += [('log', 2. ** (np.arange(n) / 8)), ('linear', np.linspace(2, 30, n)), ('pw', 2. ** (np.hstack([np.arange(n // 2), n // 2 - 1 + 4 * np.arange(1, n - n // 2 + 1)]) / 8))]
    bad = [2. ** (np.array([0, 1, 2, 3, 5, 7, 9, 13, 17, 21]) / 4), np.arange(1, 20.) ** 2, np.sin(np.arange(12.)) + 3, np.array([1., 2, 1, 2, 1, 2, 3])]
    for nm, a in base:
        infer_scaletype(a)
        for k in range(2, len(a) - 3):
            for f in (1.01, .99, 1.2):
                b = a.copy()
                b[k] *= f
                bad.append(b)
    for b in bad:
        for dt in ('float64', 'float32'):
            for fn in (lambda z: infer_scaletype(z), lambda z: process_scales(z, 50), lambda z: process_scales(z.reshape(-1, 1), 50, get_params=True)):
                ctx.step()
                try:
                    o = fn(b.astype(dt))
                except ValueError:
                    continue
                ctx.fail(f'{dt} vector {b[:12]} is neither linear, nor exponential, nor two exponential pieces, but was accepted as {o[0] if isinstance(o[0], str) else ""}')
            ctx.state((b.tobytes(), dt))
    good = 2. ** (np.arange(12) / 8)
    calls = [(good.reshape(3, 4), None), (good.reshape(2, 2, 3), None), (list(good), None), (good, 7), (good, 16), (good, -8), (good, 0), (good, 2.5), ('logs', 8), ('log:big', 8), ('log', 0), ('log', -4), ('log', 1.5), (np.arange(1, 9), None), (None, None), (3, None)]
    from ssqueezepy.wavelets import Wavelet
    w = Wavelet('gmw')
    for s, nv in calls:
        ctx.step()
        try:
            process_scales(s, 64, w, nv=nv)
        except (ValueError, TypeError):
            continue
        except Exception as e:
            ctx.ok('differs' in str(e), lambda: f'process_scales({s!r}, nv={nv}) failed by {type(e).__name__}: {e}')
            continue
        ctx.fail(f'process_scales({s!r}, nv={nv}) was accepted')
    for s in ('log', 'linear', 'log-piecewise'):
        try:
            process_scales(s, 64)
        except ValueError:
            continue
        ctx.fail(f'process_scales({s!r}) without wavelet was accepted')


def h_explicit(ctx, c):
    from ssqueezepy.utils.cwt_utils import process_scales
    from ssqueezepy import cwt
    x = np.cos(np.arange(40.) ** 1.3)
    for dt in ('float64', 'float32'):
        for a, nv in ((2. ** (1 + np.arange(20) / 8), 8), (np.linspace(2, 30, 15), None), (2. ** (np.hstack([np.arange(8, 20), 19 + 4 * np.arange(1, 6)]) / 8), 'arr')):
            a = a.astype(dt)
            for z in (a, a.reshape(-1, 1), a[::-1][::-1], np.asfortranarray(a.reshape(-1, 1)), np.repeat(a, 2)[::2]):
                keep = z.copy()
                for n2 in ((None, 8, 8.) if nv == 8 else (None,)):
                    o = ctx.call(process_scales, z, 40, None, nv=n2)
                    ctx.ok(o.shape == (len(a), 1) and np.array_equal(o[:, 0], a), 'explicit scales are changed')
                W, s = ctx.call(cwt, x, ('gmw', dict(dtype='float64')), scales=z)
                ctx.ok(np.array_equal(np.asarray(s).ravel(), a) and W.shape == (len(a), 40), 'cwt: explicit scales are changed')
                ctx.ok(np.array_equal(z, keep), 'scales passed in are modified')
                ctx.state((dt, str(nv), z.shape))
    from ssqueezepy.utils.cwt_utils import cwt_scalebounds
    for sc, nv in (('log', 8), ('log:maximal', 32), ('log-piecewise', 16), ('log-piecewise', 32), ('linear', 32)):
        for N in (40, 65):
            from ssqueezepy.wavelets import Wavelet
            for wv in ('gmw', 'morlet'):
                x = np.cos(np.arange(N * 1.) ** 1.3)
                for pad in ('reflect', None):
                    try:
                        s = process_scales(sc, N, Wavelet(wv), nv=nv)
                    except Exception as e:
                        if 'xi divisions' in str(e):
                            continue
                        raise
                    ctx.eq(np.asarray(ctx.call(cwt, x, wv, scales=sc, nv=nv, padtype=pad)[1]).ravel(), s.ravel(), f'cwt(scales={sc!r}, nv={nv}, padtype={pad}): scales', rtol=1e-6)


def dense_ref(P, span, tol, method, th, ntol):
    """(index of the first too dense group or None, whether a tie with the tolerance was met before it)"""
    n = len(P)
    for i in range(n - span - 1):
        g = P[i:i + span]
        nz = sum(int(v > th * row.max()) for row in g for v in row) / span
        if nz > ntol:
            continue
        pr = np.ones(P.shape[1])
        for row in g:
            pr = pr * row
        j = int(np.argmax(pr))
        d = [abs(k - j) for row in g for k in range(len(row)) if row[k] == row.max()]
        dense = dict(any=max(d) < tol, all=min(d) < tol, sum=sum(d) < tol)[method]
        if method == 'all' and tol in d and not dense:
            return 'tie'
        if dense:
            return i if i < n - span - 2 else None
    return None


def h_dense(ctx, c):
    from ssqueezepy.utils.cwt_utils import find_downsampling_scale
    n, span = c['n'], c['span']
    sc = 2. ** (np.arange(n) / 4)
    L = 6
    rows = [2. ** -np.minimum(2. * np.abs(np.arange(L) - p), 8) for p in (1, 2, 4)] + [2. ** -np.minimum(1. * np.abs(np.arange(L) - 4), 3)]
    rows = [np.hstack([r, np.zeros(L)]) for r in rows]
    full = not ctx.quick
    for pk in itertools.product(range(4), repeat=n):
        P = np.array([rows[p] for p in pk])
        for method, tol in (('sum', 3), ('sum', 1), ('any', 2), ('all', 1)) if not full else itertools.product(('sum', 'any', 'all'), (1, 2, 3)):
            for th, ntol in ((.02, 4.),) if n > 5 and not full else ((.02, 4.), (.3, 3.), (.1, 1.)):
                want = dense_ref(P[:, :L], span, tol, method, th, ntol)
                got = ctx.call(find_downsampling_scale, P, sc, span=span, tol=tol, method=method, nonzero_th=th, nonzero_tol=ntol)
                if want == 'tie':
                    continue
                ctx.ok(got == want and (got is None) == (want is None), lambda: f'find_downsampling_scale: filter peaks {pk}, span={span}, tol={tol}, {method}, nonzero_th={th}, nonzero_tol={ntol}: {got}, expected {want}')
        ctx.state(pk)
    for bad in (dict(method='none'), ):
        try:
            find_downsampling_scale(P, sc, **bad)
        except (ValueError, AssertionError):
            continue
        ctx.fail('unknown method accepted')
