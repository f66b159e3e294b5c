"""C12: calls have no side effects on the caller's objects or the library's settings, also when they fail at any internal step."""
import os, sys
import numpy as np
from ..core import Skip, REPO
from ..util import env, isolate_wisdom

TECH = "exhaustive fault-point exploration of the real code (an exception raised at every instruction that can fail, one run each) plus exhaustive exploration of call pairs, with full snapshots of every caller-owned object and library setting"
RULE = ("catalogue of public calls over one shared set of caller-owned objects: every call x argument variant alone, every ordered pair, every invalid call followed by every probe, "
        "and for each scenario a run for each fault point (instruction that calls, computes or indexes; quick: first and last execution of each, thorough: every execution); "
        "states = distinct (fault location) reached and distinct results")
BOUNDS = dict(quick="~110 calls, all ordered pairs of 44, 16 fault scenarios at the first and last execution of every fault point", thorough="all ordered pairs of all calls, 24 fault scenarios at every execution of every fault point")
ASSUMES = ["faults are Python exceptions raised by library code or anything it calls; clean-up code itself does not fail", "the functions documented to work in place (replace_*, zero_denormals, preserve_transform=False) are not in the catalogue",
           "CPU execution"]
CASE_LIMIT_S = 800

_BASE = {}


# ---------------------------------------------------------------------------------------------------------- caller-owned objects
class World(dict):
    __getattr__ = dict.__getitem__


def custom_fn(w):
    return np.exp(-(np.asarray(w) - 5.) ** 2)


def identity_fn(w):
    return w


_FROZEN = {}


def make_world():
    from ssqueezepy import Wavelet
    n = np.arange(48)
    W = World()
    x = np.cos(n * .7) + .4 * np.sin(n ** 2 * .02) + .1
    W['x'] = x
    W['x32'] = x.astype('float32')
    W['xi'] = np.round(x * 20).astype(int)
    W['xnan'] = np.where((n == 7) | (n == 20), np.nan, np.where(n == 30, np.inf, x))
    W['x2'] = np.stack([x[:24], x[24:]])
    W['xnc'] = np.stack([x, -x], 1)[::-1, 0]
    W['xlist'] = [float(v) for v in x[:24]]
    W['slog'] = 2. ** (np.arange(3, 13) / 3)
    W['slin'] = np.linspace(1.5, 10., 8)
    W['spw'] = 2. ** (np.hstack([np.arange(2, 10), np.arange(11, 18, 2)]) / 4)
    W['scol'] = W['slog'].reshape(-1, 1).copy()
    W['flog'] = np.geomspace(.03, .4, 10)
    W['flin'] = np.linspace(.03, .4, 9)
    W['flin_d'] = W['flin'][::-1].copy()
    W['t'] = 3. + n / 4.
    W['wo'] = Wavelet('gmw', N=40)
    W['wo64'] = Wavelet(('gmw', dict(beta=20., dtype='float64')), N=40)
    W['wlong'] = Wavelet('gmw', N=128)
    W['wmor'] = Wavelet(('morlet', dict(mu=7.)))
    W['wcus'] = Wavelet(custom_fn)
    W['wt0'] = ('gmw', {})
    W['wt1'] = ('gmw', {'beta': 40, 'gamma': 3})
    W['wt2'] = ('morlet', {'mu': 7., 'dtype': 'float64'})
    W['wt3'] = ('bump', {})
    W['orders'] = [0, 2]
    W['win'] = np.hanning(16) + .01
    W['wind'] = W['win'].copy()      # denormals, zeros, both precisions
    W['wind'][[0, 1, 15]] = 1e-310, 0, -3e-312
    W['wind32'] = W['wind'].astype('float32')
    W['wind32'][2] = 1e-41
    W['xden'] = W['x'].copy()
    W['xden'][[0, 5, 9]] = 2e-310, 0, -1e-309
    W['winl'] = [1., 2., 3., 2., 1., .5]
    W['cc'] = np.clip((4 + 3 * np.sin(np.arange(48) / 5)), 0, 9).astype(int).reshape(-1, 1)
    W['cw'] = np.full((48, 1), 2)
    W['cc1'] = W['cc'][:, 0].copy()
    W['seg'] = np.arange(40.)
    W['ridx'] = np.arange(5)
    W['targs'] = dict(cosine=dict(f=3))
    W['ttkw'] = dict(tmin=0, tmax=2)
    W['sigs'] = [('lchirp', dict(fmin=2, snr=4)), ('echirp', (dict(fmax=20.), dict(amin=.2))), 'am-cosine', ('lchirp:am-sine', (dict(fmax=9.), dict(f=2)))]
    W['mr'] = (.05, .4)
    W['mrt'] = ('peak', 2)
    if not _FROZEN:
        _FROZEN.update(derived(W))
    for k, v in _FROZEN.items():
        W[k] = v.copy()
    return W


def derived(W):
    """transforms handed back to the library by a caller (fixed data, independent of the library)"""
    r = np.arange(10)[:, None]
    c = np.arange(48)[None, :]
    g = (1 + np.cos(r * .7 + c * .31)) * np.exp(1j * (r * 1.1 + c * .4))
    g[3, 5] = 0
    g[7, 20:25] = 1e-12
    d = dict(Wx=g, dWx=g * 1j * (.03 + .04 * r) + .01, w=np.abs(.05 + .03 * r + .01 * np.sin(c)) + 0 * c, Wx3=np.stack([g[:8, :24], g[2:, :24]]), dWx3=np.stack([g[:8, :24], g[2:, :24]]) * .2j)
    d['w'][2, 3] = np.inf
    h = g.copy()
    h[0, :3] = 1e-310, 1e-309j, 0
    h[:, 11] = 0
    dh = d['dWx'].copy()
    dh[1, :3] = 1e-310, 1e-309j, np.nan
    dh[5, 7] = complex(np.inf, 1)
    d.update(Wxd=h, dWxd=dh, Wxd32=h.astype('complex64'), dWxd32=dh.astype('complex64'), Axd=np.abs(h), wd=np.where(d['w'] > .3, np.nan, d['w']))
    d['Wxd32'][4, 4] = 1e-41
    s = np.linspace(0, .5, 9)
    q = (1 + np.cos(np.arange(9)[:, None] * .5 + c * .23)) * np.exp(1j * (np.arange(9)[:, None] + c * .5))
    d.update(Sx=q, dSx=q * .3j + .02, Sfs=s, Ax=np.abs(g), A1=np.abs(g[0]), re=np.ascontiguousarray(g.real), idx=(np.arange(480).reshape(10, 48) * 7) % 10, Wx32=g.astype('complex64'), dWx32=(g * .2j).astype('complex64'))
    return d


def freeze(o):
    """canonical content of a caller-owned object"""
    if isinstance(o, np.ndarray):
        return ('a', str(o.dtype), o.shape, o.strides, o.flags.writeable, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(freeze(q) for q in o)
    if isinstance(o, dict):
        return ('d',) + tuple((k, freeze(v)) for k, v in o.items())
    if type(o).__name__ == 'Wavelet':
        return ('W', o.N, freeze(np.asarray(o.xi)), str(o.dtype), o.name, freeze(dict(o.config)), id(o.fn))
    return repr(o)


def settings(short=False):
    """library-wide settings, by public name"""
    import ssqueezepy
    from ssqueezepy import configs
    from ssqueezepy.utils import FFT_GLOBAL
    d = {}
    for k in ('patience', 'planning_timelimit', 'threads', 'cache_fftw_objects', 'wisdom_dir', 'verbose', 'wisdom32', 'wisdom64'):
        if hasattr(FFT_GLOBAL, k):
            v = getattr(FFT_GLOBAL, k)
            if not callable(v) and not (k.startswith('wisdom') and k != 'wisdom_dir'):
                d['FFT_GLOBAL.' + k] = repr(v)
    d['environ'] = repr(sorted(os.environ.items()))
    d['errstate'] = repr(sorted(np.geterr().items()))
    with open(os.path.join(REPO, 'ssqueezepy', 'configs.ini'), 'rb') as f:
        d['configs.ini'] = f.read()
    for name, m in list(sys.modules.items()):
        if name.startswith('ssqueezepy') and m is not None:
            for k, v in list(vars(m).items()):
                if k.isupper() and not k.startswith('_') and isinstance(v, (int, float, str, tuple, dict, list, np.ndarray, type(None))):
                    if isinstance(v, dict):
                        for a, b in v.items():
                            d[f'{name}.{k}[{a!r}]'] = repr(b)
                    else:
                        d[f'{name}.{k}'] = repr(v)
    d['SUPPORTED'] = repr((ssqueezepy.Wavelet.SUPPORTED, sorted(ssqueezepy.Wavelet.__dict__.get('VARS', ()))))
    return d


def changed(a, b):
    return [k for k in a if b.get(k) != a[k]]


def flat(r):
    if isinstance(r, (tuple, list)):
        return [q for s in r for q in flat(s)]
    if r is None:
        return [np.zeros(0)]
    if isinstance(r, dict):
        return [q for k in sorted(r, key=str) for q in flat(r[k])]
    if isinstance(r, (str, bool)):
        return [np.asarray(repr(r))]
    return [np.asarray(r)]


def tol(a):
    return 2e-5 if str(np.asarray(a).dtype) in ('float32', 'complex64') else 1e-9


# ---------------------------------------------------------------------------------------------------------- catalogue of calls
def calls():
    from ssqueezepy import (cwt, icwt, ssq_cwt, issq_cwt, stft, istft, ssq_stft, issq_stft, extract_ridges, ssqueeze, Wavelet, phase_cwt, phase_cwt_num, phase_stft, get_window, TestSignals)
    from ssqueezepy import experimental as E, algos, wavelets, _gmw, utils, toolkit, ridge_extraction
    from ssqueezepy.utils import common, cwt_utils, stft_utils, FFT_GLOBAL
    from ssqueezepy.wavelets import center_frequency, freq_resolution, time_resolution
    C = {}

    def add(name, f, pair=False, fault=0):
        C[name] = (f, pair, fault)      # fault: 1 quick+thorough, 2 thorough only

    for wn in ('gmw', 'wo', 'wo64', 'wmor', 'wcus', 'wt0', 'wt1', 'wt2', 'wt3'):
        add(f'cwt {wn}', lambda W, wn=wn: cwt(W.x, W.get(wn, wn), scales=W.slog, padtype='reflect'), pair=wn in ('gmw', 'wo', 'wo64', 'wt1'), fault=1 if wn in ('wo', 'wt1') else 0)
        add(f'ssq_cwt {wn}', lambda W, wn=wn: ssq_cwt(W.x, W.get(wn, wn), scales=W.slog), pair=wn in ('wo', 'wt1'), fault=1 if wn == 'wo' else 0)
        add(f'icwt {wn}', lambda W, wn=wn: icwt(W.Wx, W.get(wn, wn), scales=W.slog), pair=wn in ('wo',), fault=1 if wn == 'wo' else 0)
        add(f'issq_cwt {wn}', lambda W, wn=wn: issq_cwt(W.Wx, W.get(wn, wn)), pair=wn == 'wo64')
    for xn in ('x32', 'xi', 'xnan', 'x2', 'xnc'):
        for pad in ('reflect', None):
            add(f'cwt {xn} {pad}', lambda W, xn=xn, pad=pad: cwt(W[xn], W.wo, scales=W.slin, padtype=pad, nan_checks=True), pair=xn == 'xnan' and pad is None)
            add(f'stft {xn} {pad}', lambda W, xn=xn, pad=pad: stft(W[xn], W.win, n_fft=16, padtype=pad or 'zero', derivative=True))
        add(f'ssq_cwt {xn}', lambda W, xn=xn: ssq_cwt(W[xn], W.wo, scales=W.slog, nan_checks=True, padtype=None))
        if xn != 'x2':
            add(f'ssq_stft {xn}', lambda W, xn=xn: ssq_stft(W[xn], W.win, n_fft=16))
    for sn in ('slog', 'slin', 'spw', 'scol'):
        add(f'cwt {sn}', lambda W, sn=sn: cwt(W.x, W.wmor, scales=W[sn], t=W.t, derivative=True, l1_norm=False), pair=sn == 'spw')
        add(f'ssq_cwt {sn}', lambda W, sn=sn: ssq_cwt(W.x, W.wo64, scales=W[sn], t=W.t, padtype='wrap', get_w=True, get_dWx=True), pair=sn == 'spw')
        add(f'icwt {sn}', lambda W, sn=sn: icwt(W.Wx[:len(W[sn])], W.wo, scales=W[sn][:10], one_int=sn != 'slog'))
    for pad in ('zero', 'symmetric', 'wrap', 'replicate'):
        add(f'cwt pad {pad}', lambda W, pad=pad: cwt(W.x, W.wo, scales=W.slog, padtype=pad, rpadded=True))
        add(f'padsignal {pad}', lambda W, pad=pad: common.padsignal(W.x, pad, 100, get_params=True))
        add(f'padsignal2 {pad}', lambda W, pad=pad: common.padsignal(W.x2, pad))
    add('padsignal', lambda W: common.padsignal(W.x), pair=True, fault=2)
    add('cwt loop', lambda W: cwt(W.x, W.wo, scales=W.slog, vectorized=False, derivative=True), pair=True, fault=1)
    add('cwt loop L2', lambda W: cwt(W.x, W.wmor, scales=W.slog, vectorized=False, l1_norm=False, padtype=None))
    add('cwt cached', lambda W: cwt(W.x, W.wo, scales=W.slog, cache_wavelet=True), pair=True)
    add('cwt uncached', lambda W: cwt(W.x2, W.wo, scales=W.slog, cache_wavelet=False), pair=True)
    add('cwt orders', lambda W: cwt(W.x, W.wt0, scales=W.slog, order=W.orders, average=False), pair=True)
    add('cwt orders avg', lambda W: cwt(W.x, W.wt1, scales=W.slog, order=(0, 1), derivative=True), fault=2)
    add('cwt order1', lambda W: cwt(W.x, 'gmw', scales=W.slog, order=1), fault=2)
    add('cwt order1 tuple', lambda W: cwt(W.x, W.wt1, scales=W.slog, order=1))
    add('cwt patience', lambda W: cwt(W.x, W.wo, scales=W.slog, patience=(1, .01)), fault=1)
    add('ssq patience', lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, patience=(1, .01)), fault=2)
    add('cwt default scales', lambda W: cwt(W.x, W.wo64, nv=8), pair=True, fault=2)
    add('cwt log', lambda W: cwt(W.x, 'gmw', scales='log:maximal', nv=8), fault=2)
    add('cwt linear', lambda W: cwt(W.x, 'gmw', scales='log:maximal', nv=4))
    add('ssq freqs', lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, ssq_freqs=W.flog, flipud=False), pair=True, fault=1)
    add('ssq freqs lin', lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, ssq_freqs=W.flin), pair=True)
    add('ssq maprange', lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, maprange=W.mr))
    add('ssq maprange energy', lambda W: ssq_cwt(W.x, W.wo64, scales=W.slog, maprange='energy'))
    add('ssq abs', lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, squeezing='abs', get_w=True), fault=2)
    add('ssq lebesgue', lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, squeezing='lebesgue', preserve_transform=True))
    add('ssq default', lambda W: ssq_cwt(W.x, 'gmw', nv=8, preserve_transform=True), fault=2)
    add('ssq phase', lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, difftype='phase', get_w=True))
    add('ssq numeric', lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, difftype='numeric', difforder=2, get_w=True), pair=True, fault=2)
    add('ssq orders', lambda W: ssq_cwt(W.x, W.wt1, scales=W.slog, order=W.orders), fault=2)
    add('ssq batch', lambda W: ssq_cwt(W.x2, W.wo, scales=W.slog), pair=True)
    add('ssq fn', lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, squeezing=lambda a: np.abs(a) + 0j))
    for tn in ('Wx', 'Wx32'):
        add(f'ssqueeze {tn}', lambda W, tn=tn: ssqueeze(W[tn], W.w.astype('float32' if tn[-1] == '2' else 'float64'), ssq_freqs=W.flog, scales=W.slog, transform='cwt', wavelet=W.wo), pair=tn == 'Wx', fault=1 if tn == 'Wx' else 0)
        add(f'ssqueeze dWx {tn}', lambda W, tn=tn: ssqueeze(W[tn], dWx=W['d' + tn], ssq_freqs=W.flog, scales=W.slog, transform='cwt', gamma=1e-9, wavelet=W.wo, flipud=True), pair=tn == 'Wx')
    add('ssqueeze 3d', lambda W: ssqueeze(W.Wx3, dWx=W.dWx3, ssq_freqs=W.flin[:8], scales=W.slog[:8], gamma=1e-9, wavelet=W.wo))
    add('ssqueeze auto', lambda W: ssqueeze(W.Wx, W.w, scales=W.slog, maprange='maximal', t=W.t, wavelet=W.wo, squeezing='lebesgue'))
    add('ssqueeze abs', lambda W: ssqueeze(W.Wx, W.w, scales=W.slog, ssq_freqs='log', maprange='peak', t=W.t, wavelet=W.wo, squeezing='abs'))
    add('ssqueeze stft', lambda W: ssqueeze(W.Sx, dWx=W.dSx, Sfs=W.Sfs, ssq_freqs=W.Sfs, transform='stft', gamma=1e-9, fs=1.), pair=True, fault=2)
    add('ssqueeze stft w', lambda W: ssqueeze(W.Sx, np.abs(W.dSx), Sfs=W.Sfs, transform='stft', t=W.t, flipud=True))
    add('stft', lambda W: stft(W.x, n_fft=16), pair=True, fault=1)
    add('stft win', lambda W: stft(W.x, W.win, n_fft=24, win_len=16, hop_len=3, derivative=True, t=W.t), pair=True, fault=2)
    add('stft name', lambda W: stft(W.x, 'hann', n_fft=16, modulated=False, dtype='float64'))
    add('stft odd', lambda W: stft(W.x, 'hamming', n_fft=17, fs=4.))
    add('stft list', lambda W: stft(W.x2, W.win, n_fft=16, padtype='wrap'))
    add('istft', lambda W: istft(W.Sx, W.win, n_fft=16), pair=True, fault=1)
    add('istft hop', lambda W: istft(W.Sx[:, ::2], W.win, n_fft=16, hop_len=2, N=90, modulated=False, win_exp=2))
    add('istft exp0', lambda W: istft(W.Sx, W.win, n_fft=16, win_exp=0))
    add('ssq_stft', lambda W: ssq_stft(W.x, W.win, n_fft=16), pair=True, fault=1)
    add('ssq_stft all', lambda W: ssq_stft(W.x, W.win, n_fft=16, t=W.t, ssq_freqs=W.Sfs, get_w=True, get_dWx=True, flipud=True, squeezing='lebesgue', preserve_transform=True), pair=True)
    add('ssq_stft dW', lambda W: ssq_stft(W.x32, n_fft=16, dtype='float64', get_dWx=True))
    add('issq_stft', lambda W: issq_stft(W.Sx, W.win, n_fft=16), pair=True, fault=1)
    add('issq_stft cc', lambda W: issq_stft(W.Sx, W.win, W.cc // 2, W.cw, n_fft=16), pair=True)
    add('issq_cwt', lambda W: issq_cwt(W.Wx, W.wo), pair=True, fault=1)
    add('issq_cwt cc', lambda W: issq_cwt(W.Wx, W.wo, W.cc, W.cw), pair=True, fault=1)
    add('issq_cwt cc1', lambda W: issq_cwt(W.Wx, 'gmw', W.cc1, W.cw))
    add('issq_cwt cw 1d', lambda W: issq_cwt(W.Wx, 'gmw', W.cc1, W.cw[:, 0]))
    add('icwt mean', lambda W: icwt(W.Wx3, W.wo, scales=W.slog[:8], x_mean=np.array([.5, 1.])))
    add('icwt 2int', lambda W: icwt(W.Wx, W.wmor, scales=W.slog, one_int=False, l1_norm=False), pair=True, fault=2)
    add('ridges', lambda W: extract_ridges(W.Ax, W.slog, penalty=2, n_ridges=2, bw=2, get_params=True, parallel=False), pair=True, fault=1)
    add('ridges cplx', lambda W: extract_ridges(W.Wx, W.slog, n_ridges=1, bw=1, parallel=False), pair=True)
    add('ridges stft', lambda W: extract_ridges(W.Sx, W.Sfs, n_ridges=2, bw=2, transform='stft', get_params=True, parallel=True))
    add('phase_cwt', lambda W: phase_cwt(W.Wx, W.dWx, gamma=1e-8), pair=True, fault=2)
    add('phase_cwt phase', lambda W: phase_cwt(W.Wx, W.dWx, difftype='phase', gamma=1e-8))
    add('phase_cwt_num', lambda W: phase_cwt_num(W.Wx, .25, difforder=4, gamma=1e-8))
    add('phase_cwt_num 2', lambda W: phase_cwt_num(W.Wx, .25, difforder=1))
    add('phase_stft', lambda W: phase_stft(W.Sx, W.dSx, W.Sfs, gamma=1e-8), pair=True)
    add('phase_transform', lambda W: E.phase_transform(W.Wx, W.dWx, gamma=1e-8, get_w=True))
    add('phase_transform trig', lambda W: E.phase_transform(W.Wx, None, difftype='trig', gamma=1e-8, fs=1., get_w=True))
    add('phase_transform num', lambda W: E.phase_transform(W.Wx, None, difftype='numeric', gamma=1e-8, fs=1., get_w=True))
    add('phase_ssqueeze', lambda W: E.phase_ssqueeze(W.Wx, W.dWx, ssq_freqs=W.flog, scales=W.slog, gamma=1e-8, wavelet=W.wo, maprange='peak', get_w=True, get_dWx=True), fault=2)
    add('phase_ssqueeze stft', lambda W: E.phase_ssqueeze(W.Sx, W.dSx, Sfs=W.Sfs, ssq_freqs=W.Sfs, gamma=1e-8, transform='stft', get_w=True))
    add('freq_to_scale', lambda W: E.freq_to_scale(W.flog, W.wo, 128, fs=1))
    add('scale_to_freq', lambda W: E.scale_to_freq(W.slog, W.wo, 48, fs=4), pair=True, fault=1)
    add('scale_to_freq nopad', lambda W: E.scale_to_freq(W.slog, W.wt1, 48, padtype=None))
    add('trigdiff', lambda W: common.trigdiff(W.Wx, fs=2., padtype='reflect', rpadded=False), pair=True, fault=2)
    add('trigdiff None', lambda W: common.trigdiff(W.Wx))
    add('buffer', lambda W: stft_utils.buffer(W.seg, 8, 6, modulated=True))
    add('buffer par', lambda W: stft_utils.buffer(W.seg, 8, 6, modulated=False, parallel=True))
    add('unbuffer', lambda W: stft_utils.unbuffer(W.re.copy()[:, :40] if False else np.ascontiguousarray(W.re), W.win[:10], 1, 10, 48))
    add('unbuffer own', lambda W: stft_utils.unbuffer(W.re, W.win[:10], 1, 10, 48))
    add('window_norm', lambda W: stft_utils.window_norm(W.win, 2, 16, 40))
    add('window_resolution', lambda W: stft_utils.window_resolution(W.win))
    add('window_area', lambda W: stft_utils.window_area(W.win, time=True, frequency=True))
    add('get_window', lambda W: get_window(W.win, 16, n_fft=24, derivative=True), pair=True)
    add('get_window same', lambda W: get_window(W.win, 16))
    add('get_window dtype', lambda W: get_window(W.win, 16, 20, dtype='float32'))
    add('process_scales', lambda W: cwt_utils.process_scales(W.slog, 48, W.wo, get_params=True))
    add('process_scales col', lambda W: cwt_utils.process_scales(W.scol, 48, W.wo, get_params=True), pair=True)
    add('process_scales str', lambda W: cwt_utils.process_scales('log-piecewise', 48, W.wo, nv=8, get_params=True))
    add('infer_scaletype', lambda W: (cwt_utils.infer_scaletype(W.slog), cwt_utils.infer_scaletype(W.slin), cwt_utils.infer_scaletype(W.spw)))
    add('nv_from_scales', lambda W: (cwt_utils.nv_from_scales(W.scol), cwt_utils.nv_from_scales(W.spw.reshape(-1, 1)), cwt_utils.logscale_transition_idx(W.spw)))
    add('make_scales', lambda W: cwt_utils.make_scales(128, 2., 40., nv=8, wavelet=W.wo))
    add('bounds', lambda W: cwt_utils.cwt_scalebounds(W.wo, 128, preset='maximal'), pair=True, fault=2)
    add('downsampling_scale', lambda W: cwt_utils.find_downsampling_scale(W.wo, np.geomspace(2, 60, 40)))
    add('max_scale', lambda W: (cwt_utils.find_max_scale(W.wo, 128), cwt_utils.find_min_scale(W.wo), cwt_utils.adm_ssq(W.wo), cwt_utils.adm_cwt(W.wo)))
    add('find_closest', lambda W: (algos.find_closest(W.Ax, W.flin, parallel=False), algos.find_closest(W.Ax + .1, W.flog, logscale=True, parallel=False)), pair=True)
    add('find_closest desc', lambda W: algos.find_closest(W.Ax, W.flin_d, smart=True))
    add('find_closest brute', lambda W: algos.find_closest(W.Ax, W.flin, parallel=False, smart=False))
    add('indexed_sum', lambda W: algos.indexed_sum(W.Wx, W.idx), pair=True)
    add('onfly', lambda W: algos.indexed_sum_onfly(W.Wx, W.w, W.flin, const=W.slog, logscale=False, parallel=False))
    add('onfly col', lambda W: algos.indexed_sum_onfly(W.Wx, W.w, W.flog, const=W.scol, logscale=True, flipud=True, parallel=False))
    add('ssqueeze_fast', lambda W: algos.ssqueeze_fast(W.Wx, W.dWx, W.flin, W.slog, gamma=1e-8), pair=True)
    add('phase cpu', lambda W: (algos.phase_cwt_cpu(W.Wx, W.dWx, 1e-8), algos.phase_stft_cpu(W.Sx, W.dSx, W.Sfs, 1e-8)))
    add('Psih', lambda W: W.wo.Psih(W.slog), pair=True, fault=1)
    add('Psih half', lambda W: W.wo.Psih(W.scol, N=20, nohalf=False), pair=True)
    add('wavelet w', lambda W: (W.wo(W.x), W.wo64(W.x), W.wmor(W.x), W.wcus(W.x)), pair=True)
    add('wavelet half', lambda W: (W.wo(W.x, nohalf=False), W.wo64(W.x, nohalf=False), W.wcus(W.x, nohalf=False)))
    add('wavelet w2', lambda W: (W.wo64(W.re, nohalf=False), W.wcus(W.re, nohalf=False), W.wmor(W.re, nohalf=False)))
    add('psifn', lambda W: (W.wo.psifn(W.x), W.wo.psifn(scale=W.slog), W.wo.psifn(scale=W.scol, N=32)))
    add('xifn', lambda W: (W.wo.xifn(W.slog), W.wo.xifn(W.scol, N=10)))
    add('names', lambda W: [Wavelet(W[k]).N for k in ('wt0', 'wt1', 'wt2', 'wt3')])
    add('stats', lambda W: (W.wlong.reset_properties(), W.wlong.wc, W.wlong.std_t)[1:], pair=True, fault=2)
    add('center', lambda W: [center_frequency(W.wo, scale=5, N=128, kind=k) for k in ('energy', 'peak', 'peak-ct')], fault=2)
    add('resolution', lambda W: (freq_resolution(W.wo, 5, 128), time_resolution(W.wo, 5, 256)), pair=True, fault=2)
    add('gmw', lambda W: (_gmw.compute_gmw(64, 5., order=1), _gmw.morsewave(64, W.flin * 2)[0], _gmw.gmw(beta=5, gamma=2)(W.x)))
    add('fft', lambda W: (FFT_GLOBAL.fft(W.x, axis=-1), FFT_GLOBAL.ifft(W.Wx, axis=-1), FFT_GLOBAL.rfft(W.x2), FFT_GLOBAL.irfft(W.Sx.T[:3], n=16)) if hasattr(FFT_GLOBAL, 'rfft') else None)
    add('fftshift', lambda W: (utils.fft(W.x, axis=-1, astensor=False), utils.ifft(W.Wx, axis=-1), utils.rfft(W.x2, axis=0), utils.ifftshift(W.x), utils.fftshift(W.x)), pair=True)
    add('signals', lambda W: TestSignals(64, snr=5, seed=3).make_signals(W.sigs, N=64, get_params=True))
    add('signals args', lambda W: TestSignals(64, default_args=W.targs, default_tkw=W.ttkw).make_signals(['cosine', 'jumps']))
    add('toolkit', lambda W: (toolkit.cos_f([1, 4], 16), toolkit.mad_rms(W.x, W.x32), toolkit.where_amax(W.x), toolkit.lin_band(W.Wx, -.3, .5, .05) if False else 0))
    for wn in ('wind', 'wind32'):
        for dt in ('float32', 'float64', None):
            add(f'get_window {wn} {dt}', lambda W, wn=wn, dt=dt: (get_window(W[wn], 16, dtype=dt), get_window(W[wn], 16, 16, derivative=True, dtype=dt), get_window(W[wn], 16, 20, dtype=dt)))
            add(f'stft {wn} {dt}', lambda W, wn=wn, dt=dt: stft(W.xden, W[wn], n_fft=16, dtype=dt, derivative=True))
            add(f'istft {wn} {dt}', lambda W, wn=wn, dt=dt: istft(W.Sx, W[wn], n_fft=16), pair=wn == 'wind' and dt is None)
            add(f'ssq_stft {wn} {dt}', lambda W, wn=wn, dt=dt: (ssq_stft(W.xden, W[wn], n_fft=16, dtype=dt), issq_stft(W.Sx, W[wn], n_fft=16)), pair=wn == 'wind' and dt == 'float64')
    add('cwt denormals', lambda W: cwt(W.xden, W.wo64, scales=W.slog, derivative=True, nan_checks=True, padtype=None), pair=True)
    add('ssq_cwt denormals', lambda W: ssq_cwt(W.xden, W.wo64, scales=W.slog, padtype=None))
    for e in ('', '32'):
        add(f'phase edge {e}', lambda W, e=e: (phase_cwt(W['Wxd' + e], W['dWxd' + e], gamma=1e-8), phase_cwt(W['Wxd' + e], W['dWxd' + e], difftype='phase', gamma=1e-8), phase_cwt_num(W['Wxd' + e], .5)))
        add(f'ssqueeze edge {e}', lambda W, e=e: ssqueeze(W['Wxd' + e], dWx=W['Wxd' + e] * .2j, ssq_freqs=W.flog, scales=W.slog, gamma=1e-9, wavelet=W.wo), pair=not e)
        add(f'inverse edge {e}', lambda W, e=e: (icwt(W['Wxd' + e], W.wo, scales=W.slog), issq_cwt(W['Wxd' + e], W.wo, W.cc, W.cw), extract_ridges(W['Wxd' + e], W.slog, n_ridges=2, bw=2, get_params=True, parallel=False)), pair=not e)
    add('ridges edge', lambda W: extract_ridges(W.Axd, W.slog, n_ridges=3, bw=4, get_params=True, parallel=True))
    add('ridges col', lambda W: extract_ridges(W.Axd, W.scol, n_ridges=2, bw=4, get_params=False, parallel=False))
    add('phase stft edge', lambda W: phase_stft(W.Wxd, W.Wxd * .3j, W.flin if False else np.linspace(0, .5, 10), gamma=1e-8))
    add('misc', lambda W: (common.est_riskshrink_thresh(W.Wx, 8), common.mad(W.x2), common.p2up(48)))
    return C


def invalid():
    """calls that must be refused (or fail) at some depth, without a trace"""
    from ssqueezepy import cwt, icwt, ssq_cwt, issq_cwt, stft, istft, ssq_stft, issq_stft, extract_ridges, ssqueeze, Wavelet, phase_cwt
    from ssqueezepy.utils import common
    B = {}

    def boom(w):
        raise RuntimeError('boom')
    B['cwt padtype'] = lambda W: cwt(W.x, W.wo, scales=W.slog, padtype='nope')
    B['cwt scales'] = lambda W: cwt(W.x, W.wo, scales='nope')
    B['cwt patience'] = lambda W: cwt(W.x, W.wo, scales=W.slog, patience=7)
    B['cwt patience2'] = lambda W: cwt(W.x, W.wo, scales=W.slog, patience=(1, 'a'))
    B['cwt order str'] = lambda W: cwt(W.x, W.wt1, scales=W.slog, order='a')
    B['cwt order L2'] = lambda W: cwt(W.x, W.wt1, scales=W.slog, order=1, l1_norm=False)
    B['cwt order obj'] = lambda W: cwt(W.x, W.wo, scales=W.slog, order=1)
    B['cwt order morlet'] = lambda W: cwt(W.x, W.wt2, scales=W.slog, order=(0, 1))
    B['cwt 3d'] = lambda W: cwt(W.Wx3.real, W.wo, scales=W.slog)
    B['cwt fs'] = lambda W: cwt(W.x, W.wo, scales=W.slog, fs=-1)
    B['cwt t'] = lambda W: cwt(W.x, W.wo, scales=W.slog, t=W.t[:5])
    B['cwt t nonuni'] = lambda W: cwt(W.x, W.wo, scales=W.slog, t=W.t ** 2)
    B['cwt neg scales'] = lambda W: cwt(W.x, W.wo, scales=-W.slog)
    B['cwt wavelet'] = lambda W: cwt(W.x, 'nope', scales=W.slog)
    B['cwt wavelet cfg'] = lambda W: cwt(W.x, ('gmw', {'nope': 1}), scales=W.slog)
    B['cwt boom'] = lambda W: cwt(W.x, Wavelet(boom), scales=W.slog)
    B['cwt xstr'] = lambda W: cwt('abc', W.wo, scales=W.slog)
    B['cwt nan scales'] = lambda W: cwt(W.xnan, W.wo, scales=W.slog * np.nan)
    B['ssq maprange'] = lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, maprange='nope')
    B['ssq maprange t'] = lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, maprange=(1,))
    B['ssq squeezing'] = lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, squeezing='nope')
    B['ssq difftype'] = lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, difftype='nope')
    B['ssq difforder'] = lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, difftype='numeric', difforder=3)
    B['ssq freqs'] = lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, ssq_freqs='nope')
    B['ssq freqs len'] = lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, ssq_freqs=W.flog[:1])
    B['ssq fn'] = lambda W: ssq_cwt(W.x, W.wo, scales=W.slog, squeezing=boom)
    B['icwt scales'] = lambda W: icwt(W.Wx, W.wo, scales=W.slog[:4])
    B['icwt 1d'] = lambda W: icwt(W.x, W.wo, scales=W.slog)
    B['stft win'] = lambda W: stft(W.x, W.win, n_fft=8)
    B['stft winlen'] = lambda W: stft(W.x, W.win, n_fft=32, win_len=20)
    B['stft winname'] = lambda W: stft(W.x, 'nope', n_fft=16)
    B['stft pad'] = lambda W: stft(W.x, W.win, n_fft=16, padtype='nope')
    B['stft hop'] = lambda W: stft(W.x, W.win, n_fft=16, hop_len=0)
    B['stft t'] = lambda W: stft(W.x, W.win, n_fft=16, t=W.t ** 3)
    B['istft win'] = lambda W: istft(W.Sx, W.win[:3], n_fft=16)
    B['istft exp'] = lambda W: istft(W.Sx, W.win, n_fft=16, win_exp=-1)
    B['ssq_stft freqs'] = lambda W: ssq_stft(W.x, W.win, n_fft=16, ssq_freqs=W.flog[:2])
    B['ssq_stft hop'] = lambda W: ssq_stft(W.x, W.win, n_fft=16, hop_len=2)
    B['issq_stft hop'] = lambda W: issq_stft(W.Sx, W.win, n_fft=16, hop_len=2)
    B['issq cc'] = lambda W: issq_cwt(W.Wx, W.wo, W.cc[:3], W.cw)
    B['issq cc str'] = lambda W: issq_cwt(W.Wx, W.wo, 'a', W.cw)
    B['ridges scales'] = lambda W: extract_ridges(W.Ax, W.slog[:3], parallel=False)
    B['ridges transform'] = lambda W: extract_ridges(W.Ax, W.slog, transform='nope', parallel=False)
    B['ssqueeze'] = lambda W: ssqueeze(W.Wx, W.w)
    B['ssqueeze w neg'] = lambda W: ssqueeze(W.Wx, -W.w, ssq_freqs=W.flog, scales=W.slog)
    B['phase'] = lambda W: phase_cwt(W.Wx, W.dWx[:3])
    B['padsignal len'] = lambda W: common.padsignal(W.x, 'reflect', 5)
    B['Psih bad'] = lambda W: W.wo.Psih('a')
    B['Psih 2d'] = lambda W: W.wo.Psih(W.Ax)
    B['N bad'] = lambda W: setattr(W.wo, 'N', 'a')
    B['N neg'] = lambda W: setattr(W.wo, 'N', -3)
    return B


PROBES = ('cwt wo', 'ssq_cwt wo', 'cwt wt1', 'stft', 'ssq_stft', 'Psih', 'issq_cwt cc', 'ridges', 'icwt wo')


def setup(ctx):
    import gc
    isolate_wisdom()
    gc.collect()
    gc.freeze()


# ---------------------------------------------------------------------------------------------------------- cases
def names():
    return list(calls())


def gen(tier):
    q = tier == 'quick'
    C = calls()
    F = [n for n, (_, _, fl) in C.items() if fl and (fl == 1 or not q)]
    parts = 8
    for i in range(parts):
        for n in F:
            yield dict(h='fault', call=n, part=i, of=parts, every=not q)
    for n in C:
        yield dict(h='alone', call=n)
    for n in C:
        if C[n][1] or not q:
            yield dict(h='pairs', call=n)
    for b in invalid():
        yield dict(h='invalid', call=b)
    yield dict(h='seedless')


_CALLS = {}


def get(name):
    if not _CALLS:
        _CALLS.update(calls())
    return _CALLS[name][0]


def baseline(name):
    """result of the call in an otherwise unused world"""
    if name not in _BASE:
        W = make_world()
        _BASE[name] = [np.array(q, copy=True) for q in flat(get(name)(W))]
    return _BASE[name]


def same_result(ctx, r, base, what):
    r = flat(r)
    ctx.ok(len(r) == len(base), lambda: f'{what}: {len(r)} outputs, expected {len(base)}')
    for i, (a, b) in enumerate(zip(r, base)):
        ctx.eq(a, b, f'{what} output {i}', rtol=tol(b))


class Guard:
    """snapshots of a world and of the settings"""

    def __init__(self, W):
        self.W = W
        self.w0 = {k: freeze(v) for k, v in W.items()}
        self.ids = {k: id(v) for k, v in W.items()}
        self.s0 = settings()

    def check(self, ctx, what, light=False):
        for k, v in self.W.items():
            if freeze(v) != self.w0[k]:
                ctx.fail(f"{what}: the caller's {k!r} was modified" + (f": N={v.N} xi={len(v.xi)}" if hasattr(v, 'xi') else ''))
        s = settings()
        c = changed(self.s0, s)
        ctx.ok(not c, lambda: f"{what}: library setting {c[0]} changed from {self.s0[c[0]]!r} to {s.get(c[0])!r}")


def h_alone(ctx, c):
    name = c['call']
    for par in (False, True):
        with env(SSQ_PARALLEL='1' if par else '0'):
            W = make_world()
            g = Guard(W)
            r = ctx.call(get(name), W)
            g.check(ctx, name)
            first = [np.array(q, copy=True) for q in flat(r)]
            ctx.state((name, [q for q in first if q.dtype.kind in 'fciub']))
            for a in flat(r):
                if any(a is v for v in W.values() if isinstance(v, np.ndarray)):
                    continue
            r2 = ctx.call(get(name), W)
            g.check(ctx, name + ' (again)')
            same_result(ctx, r2, first, name + ': second identical call')
            for q, p in zip(flat(r), first):
                ctx.same(q, p, f'{name}: result of the first call after the second')


def h_pairs(ctx, c):
    A = c['call']
    C = calls()
    with env(SSQ_PARALLEL='0'):
        for B in C:
            if not (C[B][1] or not ctx.quick):
                continue
            base = baseline(B)
            W = make_world()
            g = Guard(W)
            ra = ctx.call(get(A), W)
            keep = [np.array(q, copy=True) for q in flat(ra)]
            rb = ctx.call(get(B), W)
            g.check(ctx, f'{A} then {B}')
            same_result(ctx, rb, base, f'{B} after {A}')
            for q, p in zip(flat(ra), keep):
                ctx.same(q, p, f'result of {A} after {B}')
            ctx.count('ordered pairs')


def h_invalid(ctx, c):
    f = invalid()[c['call']]
    with env(SSQ_PARALLEL='0'):
        for P in PROBES:
            base = baseline(P)
            for warm in (False, True):
                W = make_world()
                if warm:
                    get(P)(W)
                g = Guard(W)
                ctx.step()
                try:
                    f(W)
                    ctx.count('accepted')
                except Exception as e:
                    ctx.state((c['call'], type(e).__name__))
                g.check(ctx, f'failing call {c["call"]}')
                same_result(ctx, ctx.call(get(P), W), base, f'{P} after failing {c["call"]}')


_MON = []


def h_fault(ctx, c):
    from ..faults import Monitor, Injected
    if not _MON:
        _MON.append(Monitor())
    M = _MON[0]
    name = c['call']
    f = get(name)
    with env(SSQ_PARALLEL='0'):
        base = baseline(name)
        for warm in (False, True):
            if warm and not (c['every'] or name in ('cwt wo', 'Psih')):
                continue
            W = make_world()
            if warm:
                f(W)
            M.start()
            try:
                _, seq = M.record(lambda: f(W))
            finally:
                M.stop()
            g = Guard(W)
            if c['every']:
                ks = [k for k, p in enumerate(seq) if p is not None]
            else:
                first, last = {}, {}
                for k, p in enumerate(seq):
                    if p is not None:
                        first.setdefault(p, k)
                        last[p] = k
                ks = sorted(set(first.values()) | set(last.values()))
            ks = ks[c['part']::c['of']]
            ctx.count('fault points executed in scenario', len(seq) if c['part'] == 0 else 0)
            for k in ks:
                # the world is rebuilt for each fault: a fault must be harmless on its own
                W2 = make_world()
                if warm:
                    f(W2)
                g = Guard(W2)
                M.start()
                try:
                    e, r = M.inject(lambda: f(W2), k)
                finally:
                    M.stop()
                ctx.step()
                ctx.count('faults injected')
                p = seq[k]
                where = f'{name} with a fault in {p[1]} ({p[0]}:{p[2]})'
                ctx.state((name, p))
                if e is None:
                    ctx.count('faults absorbed by the library')
                g.check(ctx, where)
                same_result(ctx, ctx.call(f, W2), base, f'{where}: the same call made again')
                if name == 'Psih':
                    same_result(ctx, ctx.call(get('Psih half'), W2), baseline('Psih half'), f'{where}: next call')


def h_seedless(ctx, c):
    """settings are at their documented defaults in an unused process and stay there through the whole catalogue"""
    with env(SSQ_PARALLEL='0'):
        s0 = settings()
        W = make_world()
        g = Guard(W)
        for n in calls():
            ctx.call(get(n), W)
        g.check(ctx, 'whole catalogue')
        ctx.ok(not changed(s0, settings()), 'settings changed')
