"""Boring reference models, written from the documentation; nothing here imports ssqueezepy."""
import numpy as np
from math import log2


def p2up(n):
    """doubled nearest (in log sense) power of two, split left-heavy"""
    up = 2 ** (1 + int(np.round(np.log2(n))))
    n2 = (up - n) // 2
    return up, up - n - n2, n2


def ext_index(padtype, N, n1, n2):
    """For every output position the source index (or -1 for zero)."""
    out = []
    for j in range(-n1, N + n2):
        if 0 <= j < N:
            out.append(j)
        elif padtype == 'zero':
            out.append(-1)
        elif padtype == 'replicate':
            out.append(0 if j < 0 else N - 1)
        elif padtype == 'wrap':
            out.append(j % N)
        elif padtype == 'symmetric':
            m = j % (2 * N)
            out.append(m if m < N else 2 * N - 1 - m)
        elif padtype == 'reflect':
            if N == 1:
                out.append(0)
            else:
                m = j % (2 * N - 2)
                out.append(m if m < N else 2 * N - 2 - m)
        else:
            raise ValueError(padtype)
    return np.array(out)


def pad_amounts(N, padlength=None):
    if padlength is None:
        return p2up(N)
    d = padlength - N
    n2 = d // 2
    return padlength, d - n2, n2


def pad(x, padtype, padlength=None):
    x = np.asarray(x)
    N = x.shape[-1]
    up, n1, n2 = pad_amounts(N, padlength)
    idx = ext_index(padtype, N, n1, n2)
    xp = x[..., np.maximum(idx, 0)].copy()
    xp[..., idx == -1] = 0
    return xp, up, n1, n2


def xi(scale, N):
    """DFT frequency grid as documented: 0..pi*scale, then the negative frequencies.
    For even N the Nyquist sample is positive."""
    k = np.arange(N)
    k = np.where(k <= N // 2, k, k - N)
    return scale * 2 * np.pi * k / N


# --- wavelets (closed forms, double precision) ---------------------------------------------------------------
def gmw(w, gamma=3., beta=60., norm='bandpass', order=0, centered_scale=False, **_):
    from scipy.special import gammaln, eval_genlaguerre
    w = np.asarray(w, dtype='float64')
    wc = (beta / gamma) ** (1 / gamma)
    if centered_scale:
        w = w * wc
    r = (2 * beta + 1) / gamma
    pos = w > 0
    wp = np.where(pos, w, 1.)
    lag = eval_genlaguerre(order, r - 1, 2 * wp ** gamma)
    if norm == 'bandpass':
        lg = np.log(2) - beta * np.log(wc) + wc ** gamma + beta * np.log(wp) - wp ** gamma
        lg += .5 * (gammaln(r) + gammaln(order + 1) - gammaln(order + r))
    else:
        lg = .5 * (np.log(2 * np.pi * gamma) + r * np.log(2) + gammaln(order + 1) - gammaln(order + r))
        lg = lg + beta * np.log(wp) - wp ** gamma
    return np.where(pos, np.exp(lg) * lag, 0.)


def morlet(w, mu=13.4, **_):
    w = np.asarray(w, dtype='float64')
    cs = (1 + np.exp(-mu ** 2) - 2 * np.exp(-3 / 4 * mu ** 2)) ** -.5
    return np.sqrt(2) * cs * np.pi ** .25 * (np.exp(-.5 * (mu - w) ** 2) - np.exp(-.5 * mu ** 2) * np.exp(-.5 * w ** 2))


def bump(w, mu=5., s=1., om=0., **_):
    w = np.asarray(w, dtype='float64')
    u = (w - mu) / s
    ins = np.abs(u) < .999
    us = np.where(ins, u, 0.)
    out = np.where(ins, np.exp(-1 / (1 - us ** 2)), 0.) * np.exp(2j * np.pi * om * w) / s / .443993816053287
    return out if om else out.real


def cmhat(w, mu=1., s=1., **_):
    u = np.asarray(w, dtype='float64') - mu
    return 2 * np.sqrt(2 / 3) * np.pi ** (-1 / 4) * s ** 2.5 * u ** 2 * np.exp(-s ** 2 * u ** 2 / 2) * (u >= 0)


def hhhat(w, mu=5., **_):
    u = np.asarray(w, dtype='float64') - mu
    return 2 / np.sqrt(5) * np.pi ** (-1 / 4) * u * (1 + u) * np.exp(-.5 * u ** 2) * (1 + np.sign(u))


WAVELETS = dict(gmw=gmw, morlet=morlet, bump=bump, cmhat=cmhat, hhhat=hhhat)
# shipped defaults (configs.ini as documented)
DEFAULTS = dict(gmw=dict(gamma=3., beta=60., norm='bandpass', order=0, centered_scale=False), morlet=dict(mu=13.4),
                bump=dict(mu=5., s=1., om=0.), cmhat=dict(mu=1., s=1.), hhhat=dict(mu=5.))


def psih(spec, scales, N, half_nyquist=True, l1_norm=True):
    """spec: (name, opts). Returns [n_scales, N] samples of the wavelet at scale*xi."""
    name, opts = spec
    opts = {**DEFAULTS[name], **opts}
    opts.pop('dtype', None)
    sc = np.asarray(scales, dtype='float64').reshape(-1, 1)
    P = WAVELETS[name](sc * xi(1., N), **opts)
    if half_nyquist and N % 2 == 0:
        P = P.copy()
        P[:, N // 2] /= 2
    return P


def cwt(x, spec, scales, padtype='reflect', rpadded=False, l1_norm=True, dt=1.):
    """Definition of the CWT and its derivative. x: [..., N] -> [..., n_scales, N]. For GMW with l1_norm=False the
    wavelet norm must be 'energy'."""
    x = np.asarray(x, dtype='float64')
    N = x.shape[-1]
    if padtype is None:
        xp, n1 = x, 0
    else:
        xp, _, n1, _ = pad(x, padtype)
    M = xp.shape[-1]
    P = psih(spec, scales, M)
    X = np.fft.fft(xp)[..., None, :]
    W = np.fft.ifft(X * P)
    D = np.fft.ifft(X * P * (1j * xi(1., M) / dt))
    if not l1_norm:
        r = np.sqrt(np.asarray(scales, dtype='float64').reshape(-1, 1))
        W, D = W * r, D * r
    if not rpadded:
        W, D = W[..., n1:n1 + N], D[..., n1:n1 + N]
    return W, D
