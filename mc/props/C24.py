"""C24: figures show the data they were asked to show."""
import itertools, os, io, re, contextlib, tempfile, shutil, warnings
import numpy as np
from ..core import Skip
from .. import ref

TECH = "exhaustive enumeration of a bounded lattice of plotting calls; the artists present when the figure is shown are compared with the given data"
RULE = ("general helpers: every combination of data form x part (real, imaginary, absolute) x orientation x axes given or current x labels x limits x ticks x line markers; wavelet views: "
        "every wavelet x length x scales x option; all small directory states for the file name of an animation; states = distinct figures (curves, images, points, ticks, limits, labels)")
BOUNDS = dict(quick="data of 1-12 samples, 1-4 curves; wavelets of 16-65 samples", thorough="data of 1-33 samples, 1-7 curves; wavelets of 16-130 samples, all parameters of C19")
ASSUMES = ["what is drawn is read from matplotlib's artists, not from pixels", "tick labels carry two decimals", "order in which curves are drawn, colours and sizes are free"]


def gen(tier):
    q = tier == 'quick'
    for form in ('real', 'complex', 'list', 'col', 'row', 'two', 'f32', 'int'):
        for xy in ('y', 'none_y', 'xy'):
            for part in ('plain', 'abs', 'complex', 'complex2'):
                for vert in (0, 1):
                    yield dict(h='plot', form=form, xy=xy, part=part, vert=vert)
    for where in ('current', 'other', 'fig'):
        for fn in ('plot', 'scat', 'plotscat', 'imshow', 'hist'):
            yield dict(h='deco', fn=fn, where=where)
    for fn in ('plot', 'scat', 'plotscat'):
        for kind in ('vlines', 'hlines'):
            yield dict(h='marks', fn=fn, kind=kind)
    for form in ('real', 'complex', 'f32'):
        for part in ('plain', 'abs', 'complex'):
            for shape in ((1, 5), (4, 1), (3, 7)) + (() if q else ((1, 1), (12, 9), (33, 20), (2, 2))):
                yield dict(h='imshow', form=form, part=part, shape=list(shape))
    for n in range(1, 5 if q else 8):
        for form in ('x', 'xy', 'none_y', 'nested', 'single'):
            yield dict(h='plots', n=n, form=form)
    for part in ('plain', 'abs', 'complex'):
        for xy in ('y', 'none_y', 'xy'):
            yield dict(h='scat', part=part, xy=xy)
    yield dict(h='hist')
    yield dict(h='band')
    yield dict(h='orders')
    wavs = ['gmw', 'morlet', 'bump', 'cmhat', 'hhhat']
    Ns = (32, 64, 65) if q else (16, 32, 33, 64, 65, 128, 130)
    for wav in wavs:
        for N in Ns:
            for view in ('filterbank', 'waveforms', 'heatmap', 'tf', 'sweeps', 'bounds'):
                yield dict(h='view', view=view, wav=wav, N=N)
    for wav in wavs[:2]:
        for N in (16, 32):
            yield dict(h='anim', wav=wav, N=N)
    for N in (32, 64, 65):
        for norm in ('bandpass', 'energy'):
            yield dict(h='gmw_orders', N=N, norm=norm)
    yield dict(h='anim_path')
    for wav in wavs:
        for fn in ('scalebounds', 'wc', 'std_w', 'std_t', 'downsampling'):
            yield dict(h='vizopt', wav=wav, fn=fn)
    yield dict(h='testsignals')
    for names in ('one', 'two', 'noisy', 'par'):
        for kind in ('str', 'tuple', 'inst', 'list1', 'mixed') + (() if q else ('three',)):
            yield dict(h='wavcomp', names=names, kind=kind)
        for wav in ('gmw', 'tuple', 'inst'):
            for win in ('given', 'none', 'short'):
                yield dict(h='versus', names=names, wav=wav, win=win)
        for tf in ('cwt', 'stft'):
            yield dict(h='ridges', names=names, tf=tf)
    for wav in wavs:
        yield dict(h='info', wav=wav)
        if not q or wav in ('gmw', 'bump'):
            yield dict(h='viz', wav=wav)


# --- recording ---------------------------------------------------------------------------------------------------
class Rec:
    """Contents of the figures open when `show` was called, or at exit."""
    def __init__(self):
        self.shown, self.sizes, self.pars = [], [], []
        self.n = 0


def _axis(ax):
    ax.figure.canvas.draw_idle()
    d = dict(lines=[], marks=[], images=[], points=[], bars=[], texts=[t.get_text() for t in ax.texts])
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(orig=True)), np.asarray(l.get_ydata(orig=True))
        if l.get_transform() == ax.transData:
            d['lines'].append((x, y))
        else:  # axvline / axhline
            v = l.get_transform() == ax.get_xaxis_transform(which='grid')
            d['marks'].append(('v', float(np.ravel(x)[0])) if v else ('h', float(np.ravel(y)[0])))
    for im in ax.images:
        d['images'].append((np.ma.filled(im.get_array(), np.nan), im.get_clim()))
    for c in ax.collections:
        d['points'].append(np.ma.filled(c.get_offsets(), np.nan))
    d['bars'] = [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches]
    d['title'] = [ax.get_title(loc=k) for k in ('left', 'center', 'right')]
    d['xlabel'], d['ylabel'] = ax.get_xlabel(), ax.get_ylabel()
    d['xlim'], d['ylim'] = ax.get_xlim(), ax.get_ylim()
    for k in 'xy':
        d[k + 'ticks'] = np.asarray(getattr(ax, f'get_{k}ticks')(), dtype='float64')
        d[k + 'tl'] = [t.get_text() for t in getattr(ax, f'get_{k}ticklabels')()]
    d['legend'] = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
    d['borders'] = [s.get_visible() for s in ax.spines.values()]
    return d


@contextlib.contextmanager
def figures():
    import matplotlib
    import logging
    logging.getLogger('matplotlib').setLevel(logging.CRITICAL)
    matplotlib.use('Agg', force=True)
    import matplotlib.pyplot as plt
    plt.close('all')
    r = Rec()

    def take():
        for n in plt.get_fignums():
            f = plt.figure(n)
            r.shown.append([_axis(a) for a in f.axes])
            r.sizes.append(tuple(f.get_size_inches()))
            r.pars.append({k: getattr(f.subplotpars, k) for k in ('left', 'right', 'bottom', 'top', 'wspace', 'hspace')})
            plt.close(f)

    def show(*a, **k):
        r.n += 1
        take()
    old = plt.show
    plt.show = show
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as out:
            warnings.simplefilter('ignore')
            yield r
            r.out = out.getvalue()
        take()
        r.axes = [a for f in r.shown for a in f]
    finally:
        plt.show = old
        plt.close('all')


def same(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    fin = np.isfinite(b)
    m = np.abs(b[fin]).max() if fin.any() else 1.
    with np.errstate(all='ignore'):
        return bool(np.all(np.where(fin, np.abs(a - b) <= tol * max(m, 1e-300), (a == b) | (np.isnan(a) & np.isnan(b)))))


def has_lines(ctx, lines, want, what, tol=1e-9, exact=True):
    """Every expected curve is there once; with `exact`, nothing else is."""
    left = list(lines)
    for k, (x, y) in enumerate(want):
        hit = [i for i, (lx, ly) in enumerate(left) if same(lx, x, tol) and same(ly, y, tol)]
        ctx.ok(hit, lambda: f"{what}: curve {k} of {len(want)} isn't drawn: expected x={np.ravel(x)[:4]}.. y={np.ravel(y)[:4]}.. ({np.shape(x)}), "
               f"drawn: {[(np.ravel(a)[:4], np.ravel(b)[:4], np.shape(a)) for a, b in lines][:4]}")
        left.pop(hit[0])
        ctx.values += np.size(x)
    if exact:
        ctx.ok(not left, lambda: f"{what}: {len(left)} curves drawn that weren't asked for, e.g. {left[0]}")


def labelled(ctx, pos, labels, vec, what):
    """Each tick names the value at its position"""
    vec = np.asarray(vec, dtype='float64').ravel()
    ctx.ok(len(pos) == len(labels) and len(pos) > 0, f"{what}: {len(pos)} ticks, {len(labels)} labels")
    for p, l in zip(pos, labels):
        ctx.ok(float(p).is_integer() and 0 <= p < len(vec), f"{what}: tick at {p}, outside of {len(vec)} values")
        v = vec[int(p)]
        ctx.ok(l.strip() != '' and abs(float(l.replace('\u2212', '-')) - v) <= .0051, f"{what}: tick at {p} reads {l!r}, value there is {v}")
    ctx.ok(pos[0] == 0 and pos[-1] == len(vec) - 1, f"{what}: ticks {list(pos)} don't span {len(vec)} values")


def unchanged(ctx, before, after, what):
    def eq(a, b):
        if isinstance(a, np.ndarray):
            return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
        if isinstance(a, dict):
            return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
        return a is b or a == b
    ctx.ok(eq(before, after), f"{what}: argument changed from {before} to {after}")


def data(form, n=7):
    t = np.arange(n)
    y = np.cos(1.1 * t) * (1 + .3 * t)
    if form == 'complex':
        return y + 1j * np.sin(.7 * t + .2)
    return {'real': y, 'list': list(y), 'col': y[:, None], 'row': y[None], 'two': np.c_[y, y[::-1] + 2.], 'f32': y.astype('float32'), 'int': (10 * y).astype('int64')}[form]


# --- curves ----------------------------------------------------------------------------------------------------------
def parts(y, part):
    y = np.asarray(y)
    return {'plain': [y], 'abs': [np.abs(y)], 'complex': [y.real, y.imag], 'complex2': [y.real, y.imag, np.abs(y)]}[part]


def h_plot(ctx, case):
    from ssqueezepy import visuals
    from copy import deepcopy
    form, xy, part, vert = (case[k] for k in ('form', 'xy', 'part', 'vert'))
    if form == 'complex' and part == 'plain':
        raise Skip('real part of a complex curve must be requested')
    if form == 'list' and part.startswith('complex'):
        raise Skip('list has no parts')
    for n in ((1, 7) if ctx.quick and form != 'real' else (1, 2, 7)) if form != 'two' else (2, 7):
        y = data(form, n)
        ys = np.asarray(y).squeeze() if form != 'list' else np.asarray(y)
        x = .5 * np.arange(n) - 1 if xy == 'xy' else None
        if n == 1 and form != 'list':
            continue  # a squeezed sample has no length
        kw = {'abs': {'abs': 1}, 'complex': {'complex': 1}, 'complex2': {'complex': 2}}.get(part, {})
        args = (y,) if xy == 'y' else (x, y)
        keep = deepcopy(args)
        with figures() as r:
            ctx.call(visuals.plot, *args, vert=vert, **kw)
        ctx.ok(r.n == 0 and len(r.axes) == 1, f"plot: {r.n} shows, {len(r.axes)} axes")
        want = []
        xs = np.arange(n) if x is None else x
        for p in parts(ys, part):
            for col in (p.T if p.ndim == 2 else [p]):
                want.append((col, xs) if vert else (xs, col))
        has_lines(ctx, r.axes[0]['lines'], want, f"plot {case} n={n}")
        unchanged(ctx, keep, args, 'plot')
        if part == 'abs' and not vert:
            ctx.ok(r.axes[0]['ylim'][0] == 0, "plot(abs): y axis starts at 0")
        ctx.state((form, xy, part, vert, n, [np.asarray(l) for l in want]))


def h_scat(ctx, case):
    from ssqueezepy import visuals
    part, xy = case['part'], case['xy']
    for form in ('real', 'complex', 'list', 'f32', 'int'):
        if form == 'complex' and part == 'plain' or form == 'list' and part == 'complex':
            continue
        for n in (1, 2, 7):
            y = data(form, n)
            x = .5 * np.arange(n) - 1
            for fn in ('scat', 'plotscat'):
                if fn == 'plotscat' and n == 1:
                    continue
                args = {'y': (y,), 'none_y': (None, y), 'xy': (x, y)}[xy]
                kw = {'abs': {'abs': 1}, 'complex': {'complex': 1}}.get(part, {})
                with figures() as r:
                    ctx.call(getattr(visuals, fn), *args, **kw)
                xs = x if xy == 'xy' else np.arange(n)
                want = parts(y, part)
                pts = r.axes[0]['points']
                what = f"{fn} {form} {case} n={n}"
                ctx.ok(len(pts) == len(want), f"{what}: {len(pts)} point sets, expected {len(want)}")
                for w in want:
                    ctx.ok(any(same(p, np.c_[xs, w], 1e-7) for p in pts), lambda: f"{what}: points {np.c_[xs, w].tolist()[:3]} missing, drawn {[p.tolist()[:3] for p in pts]}")
                has_lines(ctx, r.axes[0]['lines'], [(xs, w) for w in want] if fn == 'plotscat' else [], what)
                ctx.state((what, [np.asarray(w) for w in want]))


def h_deco(ctx, case):
    """Titles, labels, limits, ticks, display: on the axes asked for, and on no others"""
    from ssqueezepy import visuals
    import matplotlib.pyplot as plt
    fn, where = case['fn'], case['where']
    y = data('real', 12)
    z = np.outer(np.arange(1., 6), y[:9])
    arg = z if fn == 'imshow' else y
    full = dict(title=('T1', {'color': 'k'}), xlabel='XL', ylabel='YL', show=1)
    if fn == 'imshow':
        full.update(xticks=list(np.arange(9) * .25), yticks=np.arange(5.) + 3)
    elif fn != 'hist':
        full.update(xlims=(-3, 20), ylims=(-9, 9), dx1=1)
    else:
        full.update(xlims=(-30, 30), ylims=(0, 5), bins=3)
    names = list(full)
    for k in range(len(names) + 1):
        for sub in itertools.combinations(names, k):
            if ctx.quick and len(sub) > (3 if where == 'other' and fn in ('plot', 'imshow') else 2) and len(sub) != len(names):
                continue
            kw = {s: full[s] for s in sub}
            kw0 = {s: (v if not isinstance(v, tuple) else tuple(dict(e) if isinstance(e, dict) else e for e in v)) for s, v in kw.items()}
            with figures() as r:
                if where == 'other':
                    f, axes = plt.subplots(1, 2)
                    kw['ax'] = axes[0]  # current: axes[1]
                elif where == 'fig':
                    f, ax = plt.subplots()
                    g = plt.figure()
                    kw.update(ax=ax, fig=f)
                ctx.call(getattr(visuals, fn), arg, **{'show': 0, **kw})
            what = f"{fn} {where} {sub}"
            ctx.ok((r.n > 0) == ('show' in sub), f"{what}: shown {r.n} times")
            ctx.ok(len(r.axes) == (2 if where == 'other' else 1), f"{what}: {len(r.axes)} axes exist")
            a = r.axes[0]
            ctx.ok(a['lines'] or a['points'] or a['images'] or a['bars'], f"{what}: nothing drawn on the axes asked for")
            if where == 'other':
                b = r.axes[1]
                ctx.ok(not (b['lines'] or b['points'] or b['images'] or b['bars'] or any(b['title']) or b['xlabel'] or b['ylabel']) and b['xlim'] == (0, 1)
                       and len(b['xticks']) == 6, f"{what}: changes the other axes: {b}")
            ctx.ok([t for t in a['title'] if t] == (['T1'] if 'title' in sub else []), f"{what}: title {a['title']}")
            for k2 in ('xlabel', 'ylabel'):
                ctx.ok(a[k2] == (full[k2] if k2 in sub else ''), f"{what}: {k2} {a[k2]!r}")
            for k2 in ('xlims', 'ylims'):
                if k2 in sub:
                    ctx.ok(tuple(a[k2[:-1]]) == full[k2], f"{what}: {k2} {a[k2[:-1]]}")
            if 'dx1' in sub:
                ctx.ok(same(a['xticks'], np.arange(12)), f"{what}: dx1 ticks {a['xticks']}")
            for k2 in ('xticks', 'yticks'):
                if k2 in sub:
                    labelled(ctx, a[k2], a[k2[0] + 'tl'], full[k2], f"{what} {k2}")
            for s in kw0:
                unchanged(ctx, kw0[s], kw[s], f"{what} {s}")
            ctx.state((what, a['title'], a['xlim'], a['ylim']))
    if fn in ('plot', 'scat', 'plotscat', 'imshow'):
        for tk in (0, 1) + (((0, 1), (1, 0), [0, 0]) if fn == 'plot' else ()):
            with figures() as r:
                ctx.call(getattr(visuals, fn), arg, ticks=tk)
            wx, wy = tk if isinstance(tk, (tuple, list)) else (tk, tk)
            ctx.ok((len(r.axes[0]['xticks']) > 0) == bool(wx) and (len(r.axes[0]['yticks']) > 0) == bool(wy), f"{fn} ticks={tk}: {r.axes[0]['xticks']} {r.axes[0]['yticks']}")
    if fn in ('plot', 'scat', 'plotscat'):
        for kw in (dict(ax_equal=1), dict(ax_equal=1, xlims=(-1, 2)), dict(ax_equal=1, auto_xlims=False), dict(auto_xlims=False), dict(auto_xlims=None), dict(w=.5), dict(h=.5), dict(w=.5, h=.7)):
            with figures() as r:
                ctx.call(getattr(visuals, fn), arg, **kw)
            a = r.axes[0]
            if 'xlims' in kw:
                ctx.ok(tuple(a['xlim']) == kw['xlims'], f"{fn} {kw}: xlim {a['xlim']}")
            elif 'ax_equal' in kw:
                ctx.ok(a['xlim'] == a['ylim'] and a['xlim'][0] == -a['xlim'][1] and a['xlim'][1] >= 11, f"{fn} {kw}: {a['xlim']} {a['ylim']}")
            else:
                ctx.ok(a['xlim'][0] <= 1e-9 and a['xlim'][1] >= 11 - 1e-9, f"{fn} {kw}: data cut off: {a['xlim']}")


def h_marks(ctx, case):
    from ssqueezepy import visuals
    fn, kind = case['fn'], case['kind']
    y = data('real', 7)
    forms = {'scalar': 2, 'float': 1.5, 'list': [1, 2.5], 'one': [1], 'array': np.array([1., 2.5, 4.]), 'tuple_list': ([1, 2.5], {'color': 'r'}), 'tuple_scalar': (2.5, {'color': 'r'}),
             'tuple_array': (np.array([1., 3.]), {'linestyle': '--'}), 'npscalar': np.float64(2.), 'zero_list': [0], 'one_array': np.array([2.])}
    for name, v in forms.items():
        with figures() as r:
            ctx.call(getattr(visuals, fn), y, **{kind: v})
        pos = np.ravel(np.asarray(v[0] if isinstance(v, tuple) else v, dtype='float64'))
        want = sorted((kind[0], float(p)) for p in pos) * (2 if fn == 'plotscat' else 1)
        got = sorted(r.axes[0]['marks'])
        ctx.ok(sorted(want) == got, f"{fn} {kind}={name}: markers {got}, asked for {want}")
        ctx.state((fn, kind, name))


def h_hist(ctx, case):
    from ssqueezepy import visuals
    for x in (data('real', 12), data('real', 12).reshape(3, 4), data('f32', 7), data('int', 7), list(data('real', 5))):
        for bins in (1, 3, 10, None):
            for stats in (0, 1):
                kw = {} if bins is None else {'bins': bins}
                with figures() as r:
                    out = ctx.call(visuals.hist, x, stats=stats, show=1, **kw)
                a = np.asarray(x)
                ctx.ok(r.n >= 1 and len(r.axes) == 1, f"hist: {r.n} shows")
                bars = r.axes[0]['bars']
                n = bins or 500
                ctx.ok(len(bars) == n, f"hist: {len(bars)} bars, asked for {n}")
                lo, hi = float(a.min()), float(a.max())
                cnt = np.histogram(a.ravel(), bins=n)[0]
                ctx.ok([b[2] for b in bars] == list(cnt), "hist: counts")
                ctx.ok(abs(bars[0][0] - lo) < 1e-6 * abs(hi - lo) and abs(sum(bars[-1][:2]) - hi) < 1e-6 * abs(hi - lo), "hist: range")
                if stats:
                    ctx.eq(np.array(out, dtype='float64'), np.array([a.mean(), a.std(), lo, hi]), 'hist statistics', rtol=1e-6)
                else:
                    ctx.ok(out is None, 'hist: returns without stats')
                ctx.state((np.asarray(cnt), stats))


# --- images ------------------------------------------------------------------------------------------------------------
def h_imshow(ctx, case):
    from ssqueezepy import visuals
    import matplotlib.pyplot as plt
    form, part, shape = case['form'], case['part'], case['shape']
    n = int(np.prod(shape))
    z = (np.cos(1.3 * np.arange(n)) * (1 + .1 * np.arange(n))).reshape(shape)
    if form == 'complex':
        z = z + 1j * np.sin(.4 * np.arange(n)).reshape(shape) * 2
    if form == 'f32':
        z = z.astype('float32')
    z0 = z.copy()
    kw0 = {'abs': {'abs': 1}, 'complex': {'complex': 1}}.get(part, {})
    mx = np.abs(z).max()
    yt, xt = np.linspace(3, 9, shape[0]), np.arange(shape[1]) + 10
    for norm, ns, ridge, ticks, lab, borders, cmap, title in itertools.product((None, (-.5, 2)), (1, .5), (0, 1), (1, 0), (0, 1), (1, 0), (None, 'jet'), (None, 'A')):
        if ctx.quick and (form == 'f32') + (ridge + (not ticks) + lab + (not borders) + (cmap is not None) + (ns != 1) + (title is not None)) > 2:
            continue
        kw = dict(kw0, norm=norm, norm_scaling=ns, ridge=ridge, ticks=ticks, borders=borders, cmap=cmap, title=title)
        if lab:
            kw.update(xticks=xt, yticks=yt, xlabel='a', ylabel='b')
        with figures() as r:
            ctx.call(visuals.imshow, z, **kw)
        what = f"imshow {case} {kw}"
        want = {'plain': [z.real], 'abs': [np.abs(z)], 'complex': [z.real, z.imag]}[part]
        ctx.ok(r.n == 1 and len(r.axes) == len(want), f"{what}: {r.n} shows, {len(r.axes)} axes")
        lim = np.array(norm if norm else ((0, mx) if part == 'abs' else (-mx, mx))) * ns
        for a, w in zip(r.axes, want):
            ctx.ok(len(a['images']) == 1 and same(a['images'][0][0], w, 1e-7), f"{what}: image differs from data")
            ctx.ok(same(np.array(a['images'][0][1]), lim, 1e-6), f"{what}: colour limits {a['images'][0][1]}, expected {lim}")
            if ridge:
                m = np.abs(z)
                pts = {(float(j), float(i)) for i in range(shape[0]) for j in range(shape[1]) if m[i, j] == m[:, j].max()}
                got = {tuple(map(float, p)) for q in a['points'] for p in q}
                ctx.ok(got == pts, lambda: f"{what}: ridge at {sorted(got)[:4]}, maxima at {sorted(pts)[:4]}")
            else:
                ctx.ok(not a['points'], f"{what}: points drawn")
            if lab:
                labelled(ctx, a['xticks'], a['xtl'], xt, f"{what} x")
                labelled(ctx, a['yticks'], a['ytl'], yt, f"{what} y")
                ctx.ok(a['xlabel'] == 'a' and a['ylabel'] == 'b', f"{what}: labels")
            elif not ticks:
                ctx.ok(len(a['xticks']) == 0 and len(a['yticks']) == 0, f"{what}: ticks drawn")
            ctx.ok(all(a['borders']) if borders else not any(a['borders']), f"{what}: borders {a['borders']}")
        ctx.ok([t for a in r.axes for t in a['title'] if t][:1] == ([title] if title else []), f"{what}: title")
        ctx.state((what, lim))
    ctx.ok(np.array_equal(z, z0), "imshow changed its input")


# --- several plots ------------------------------------------------------------------------------------------------------
def h_plots(ctx, case):
    from ssqueezepy import visuals
    n = case['n']
    sig = [data('real', 5 + k) + k for k in range(n)]
    tt = [np.arange(5 + k) * .5 for k in range(n)]
    grids = [dict()] + [dict(nrows=k) for k in range(1, n + 1)] + [dict(ncols=k) for k in range(1, n + 1)]
    grids += [dict(nrows=a, ncols=b) for a in range(1, n + 1) for b in range(1, n + 1) if a * b >= n]
    form = case['form']
    if form == 'single' and n > 1:
        raise Skip('one signal only')
    for g in grids:
        for sc in (0, 1):
            for tight in (True, False, {'left': .1}):
                if ctx.quick and (sc + (tight is not True) + (form not in ('x', 'single')) + (n > 3) + (len(g) > 1)) > 1:
                    continue
                pkw = [{'title': f't{k}', 'xlabel': f'x{k}', 'ylabel': f'y{k}'} for k in range(n)]
                X, Y = {'x': (sig, None), 'xy': (tt, sig), 'none_y': ([None] * n, sig), 'nested': ([[None, t] for t in tt], [[s, s * 2] for s in sig]), 'single': (sig[0], None)}[form]
                p = [[q, {}] for q in pkw] if form == 'nested' else pkw
                tight0 = dict(tight) if isinstance(tight, dict) else tight
                with figures() as r:
                    ctx.call(visuals.plots, X, Y, _scat=sc, tight=tight, pkw=p, **g)
                what = f"plots n={n} {g} {form} scat={sc} tight={tight}"
                ctx.ok(r.n == 1 and len(r.axes) >= n, f"{what}: {r.n} shows, {len(r.axes)} axes")
                if 'nrows' in g and 'ncols' in g:
                    ctx.ok(len(r.axes) == g['nrows'] * g['ncols'], f"{what}: {len(r.axes)} axes")
                ctx.ok(len(r.axes) - n < max(g.get('nrows', 1), g.get('ncols', 1)) or len(g) == 2, f"{what}: {len(r.axes)} axes for {n} signals")
                for k in range(n):
                    x = tt[k] if form == 'xy' else np.arange(len(sig[k]))
                    want = [(np.arange(len(sig[k])), sig[k]), (tt[k], sig[k] * 2)] if form == 'nested' else [(x, sig[k])]
                    has_lines(ctx, r.axes[k]['lines'], want, f"{what}, axes {k}")
                    ctx.ok(len(r.axes[k]['points']) == (len(want) if sc else 0), f"{what}, axes {k}: points")
                    a = r.axes[k]
                    ctx.ok(f't{k}' in a['title'] and a['xlabel'] == f'x{k}' and a['ylabel'] == f'y{k}', f"{what}, axes {k}: labels {a['title']} {a['xlabel']} {a['ylabel']}")
                ctx.ok(tight == tight0, f"{what}: `tight` changed to {tight}")
                ctx.state((n, sorted(g.items()), form, sc))


# --- wavelet views ---------------------------------------------------------------------------------------------------------
def psi_time(wav, scale, N):
    """sampled closed form, centred, with the shared Nyquist sample halved"""
    h = ref.psih(wav, scale * ref.xi(1, N)) if False else None


def wavelet(wav, N):
    from ssqueezepy import Wavelet
    return Wavelet(wav, N=N)


def usable(wav, N):
    """scales at which the wavelet is resolved"""
    from ssqueezepy.utils import process_scales
    try:
        return process_scales('log', N, wavelet(wav, N))
    except Exception:
        raise Skip('no scales')


def h_view(ctx, case):
    from ssqueezepy import visuals, wavelets
    from ssqueezepy.utils import process_scales
    view, wav, N = case['view'], case['wav'], case['N']
    W = wavelet(wav, N)
    half = N // 2 + 1
    grid = ref.xi(1, N)[:half]
    F = lambda w: np.asarray(ref.WAVELETS[wav](np.asarray(w, dtype='float64')))
    tol = 1e-5
    if view == 'filterbank':
        sc = 2. ** (np.arange(6, 18) / 4)[:, None]
        for skips, positives, get, show, app in itertools.product((0, 1, 2), (False, True), (False, True), (True, False), (None, ' more')):
            with figures() as r:
                out = ctx.call(visuals.wavelet_filterbank, W, N, sc, skips=skips, positives=positives, get=get, show=show, title_append=app)
            what = f"filterbank {case} skips={skips} positives={positives}"
            ctx.ok(r.n == int(show) and len(r.axes) == 1, f"{what}: {r.n} shows")
            a = r.axes[0]
            shown = sc[::skips + 1]
            ctx.ok(len(a['lines']) == len(shown), f"{what}: {len(a['lines'])} curves for {len(shown)} scales")
            for s in shown[:, 0]:
                ok = False
                for x, y in a['lines']:
                    xx = grid_at(x, positives, N)
                    wv = np.where(xx <= np.pi + 1e-9, F(s * xx), F(s * (xx - 2 * np.pi)))
                    k = np.abs(xx - np.pi) > 1e-6
                    ok |= len(x) >= N // 2 and np.abs(y[k] - wv[k].real).max() <= 1e-4 * np.abs(wv).max() + 1e-300
                ctx.ok(ok, f"{what}: no curve shows the wavelet at scale {s} against frequency")
            ctx.ok(any('%.3f, %.1f' % (shown.min(), shown.max()) in t for t in a['texts']), f"{what}: scale range {a['texts']}")
            if get:
                ctx.ok(np.shape(out) == (len(sc), N), f"{what}: returned {np.shape(out)}")
                ctx.eq(np.asarray(out)[:, :half - 1].real, F(sc * grid[None, :half - 1]).real, what, rtol=1e-5)
            ctx.state((what, np.round(shown, 6)))
    elif view == 'heatmap':
        sc = 2. ** (np.arange(4, 17) / 4)[:, None]
        for arg in (sc, 'log'):
            if isinstance(arg, str):
                try:
                    s = process_scales('log', N, W, use_padded_N=False)
                except Exception:
                    continue
            else:
                s = sc
            with figures() as r:
                ctx.call(visuals.wavelet_heatmap, W, scales=arg, N=N)
            ctx.ok(r.n == 3 and len(r.axes) == 3, f"heatmap: {r.n} shows")
            P = np.array([np.asarray(W.psifn(scale=float(k), N=N)) for k in s[:, 0]])
            H = F(s * grid)
            for a, want in zip(r.axes, (P.real, np.abs(P), np.abs(H))):
                ctx.ok(len(a['images']) == 1, 'heatmap: images')
                ctx.eq(a['images'][0][0], want, f"heatmap {case}", rtol=tol)
                labelled(ctx, a['yticks'], a['ytl'], s, f"heatmap {case} scales")
                ctx.ok(a['ylabel'] == 'scales', 'heatmap ylabel')
            labelled(ctx, r.axes[2]['xticks'], r.axes[2]['xtl'], grid, f"heatmap {case} frequencies")
            ctx.state((case, s))
    elif view == 'waveforms':
        from ssqueezepy.algos import find_maximum
        for scale in (2., 5., 9.):
            for zoom in (True, False):
                with figures() as r:
                    ctx.call(visuals.wavelet_waveforms, W, N, scale, zoom)
                what = f"waveforms {case} scale={scale} zoom={zoom}"
                ctx.ok(r.n == 3 and len(r.axes) == 3, f"{what}: {r.n} shows")
                a, b, c = r.axes
                x, y = a['lines'][0]
                ctx.ok(len(x) >= 4096 and x[0] == 0, f"{what}: reference curve")
                ctx.eq(np.real(y), F(x).real, f"{what}: continuous", rtol=1e-5)
                want = np.c_[scale * grid, F(scale * grid).real]
                ctx.ok(any(p.shape == want.shape and np.abs(p - want).max() <= 1e-5 * np.abs(want).max() for p in a['points']), lambda: f"{what}: sampled at {a['points'][0][:3].tolist()}.., the transform samples it at {want[:3].tolist()}..")
                x, y = b['lines'][0]
                k = len(x)
                ctx.ok(3 <= k <= half and (zoom or k == half), f"{what}: {k} samples")
                ctx.eq(np.asarray(x), grid[:k], f"{what}: frequencies", rtol=1e-6)
                ctx.eq(np.real(y), F(scale * grid).real[:k], f"{what}: spectrum", rtol=1e-5)
                ctx.ok(k == half or np.abs(F(scale * grid)[k:]).max() <= 1e-3 * np.abs(F(scale * grid)).max(), f"{what}: zoom cuts the wavelet")
                p = np.asarray(W.psifn(scale=scale, N=N))
                t = np.arange(-N / 2, N / 2)
                x = c['lines'][0][0]
                i0 = int(np.argmin(np.abs(t - x[0])))
                ctx.ok(len(x) >= 3 and (zoom or len(x) == N), f"{what}: {len(x)} samples in time")
                sl = slice(i0, i0 + len(x))
                has_lines(ctx, c['lines'], [(t[sl], p.real[sl]), (t[sl], p.imag[sl]), (t[sl], np.abs(p)[sl])], what, tol=1e-5)
                ctx.state((what, len(x), k))
    elif view == 'tf':
        for scale in (4., 7.):
            for notext in (False, True):
                with figures() as r:
                    try:
                        ctx.call(visuals.wavelet_tf, W, N=N, scale=scale, notext=notext)
                    except Exception as e:
                        if 'decay timespan' in str(e):
                            continue
                        raise
                what = f"tf {case} scale={scale}"
                ctx.ok(r.n == 1 and len(r.axes) == 1, f"{what}: shows")
                check_tf(ctx, r.axes[0]['lines'], W, F, scale, N, what)
                if not notext:
                    wc, sw, st = wavelets.center_frequency(W, scale, N), wavelets.freq_resolution(W, scale, N, nondim=0), wavelets.time_resolution(W, scale, N, nondim=0, min_decay=1)
                    txt = r.axes[0]['texts'][0]
                    nums = [float(v) for v in re.findall(r'= *([0-9.]+)', txt)]
                    ctx.ok(all(abs(g - w) <= 1.1e-4 for g, w in zip(nums, (wc, st, sw, st * sw))), f"{what}: text {nums} != {(wc, st, sw, st * sw)}")
    elif view == 'sweeps':
        sc = 2. ** (np.arange(8, 14) / 4)
        for fn, one in (('sweep_std_t', wavelets.time_resolution), ('sweep_std_w', wavelets.freq_resolution)):
            for nd in (False, True):
                for fi in (True, False):
                    kw = dict(nondim=nd, force_int=fi)
                    kw1 = dict(kw, min_decay=1) if fn == 'sweep_std_t' else kw
                    want = np.array([float(np.squeeze(one(W, scale=float(s), N=N, **kw1))) for s in sc])
                    for get in (True, False):
                        with figures() as r:
                            out = ctx.call(getattr(visuals, fn), W, N, sc, get=get, **kw)
                        ctx.ok(r.n == 1 and len(r.axes) == 1, f"{fn}: shows")
                        has_lines(ctx, r.axes[0]['lines'], [(np.log2(sc), want)], f"{fn} {case} {kw}", tol=1e-5)
                        if get:
                            ctx.eq(out, want, f"{fn} {case} {kw}", rtol=1e-5)
                        else:
                            ctx.ok(out is None, f"{fn}: get=False returns")
                    ctx.state((fn, case, nd, fi, want))
        with figures() as r:
            ha, sw, st = ctx.call(visuals.sweep_harea, W, N, sc, get=True)
        t1 = np.array([float(np.squeeze(wavelets.time_resolution(W, scale=float(s), N=N, nondim=False, min_decay=1))) for s in sc])
        w1 = np.array([float(np.squeeze(wavelets.freq_resolution(W, scale=float(s), N=N, nondim=False))) for s in sc])
        ctx.eq(st, t1, 'harea std_t', rtol=1e-5); ctx.eq(sw, w1, 'harea std_w', rtol=1e-5); ctx.eq(ha, t1 * w1, 'harea', rtol=1e-5)
        has_lines(ctx, [l for a in r.axes for l in a['lines']], [(np.log2(sc), w1), (np.log2(sc), t1), (np.log2(sc), t1 * w1)], 'harea', tol=1e-5)
        for nm in ('sweep_std_t', 'sweep_std_w'):
            with figures():
                try:
                    getattr(visuals, nm)(W, N, sc, nonexistent=1)
                except (ValueError, TypeError):
                    pass
                else:
                    ctx.fail(f"{nm}: accepts an unknown argument")
    elif view == 'bounds':
        for mn, mx in ((2., None), (None, 5.), (2., 5.)):
            for st in (None, 3.):
                with figures() as r:
                    ctx.call(visuals._viz_cwt_scalebounds, W, N, min_scale=mn, max_scale=mx, std_t=st, cutoff=-.5)
                ctx.ok(r.n == (mn is not None) + (mx is not None), f"bounds: {r.n} shows")
                axes = list(r.axes)
                if mn is not None:
                    a = axes.pop(0)
                    x, y = a['lines'][0]
                    ctx.eq(x, grid, 'bounds grid', rtol=1e-6)
                    wv = F(mn * grid).real
                    k = grid < np.pi - 1e-6
                    ctx.eq(np.real(y)[k], wv[k], f"bounds {case}", rtol=1e-5)
                    fine = F(np.linspace(0, 20, 200001)).real.max()
                    ctx.ok(len(a['marks']) == 1 and abs(a['marks'][0][1] - .5 * fine) <= 1e-3 * fine, f"bounds {case}: cutoff drawn at {a['marks']}, peak {fine}")
                if mx is not None:
                    a = axes.pop(0)
                    x, y = a['lines'][0]
                    n2 = ref.p2up(N)[0]
                    ctx.eq(y, np.abs(np.asarray(W.psifn(scale=mx, N=n2))) ** 2, f"bounds {case}", rtol=1e-5)
                    ctx.ok(len(x) == n2 and np.allclose(np.diff(x), 1), 'bounds: time axis')
                    s = st if st is not None else float(wavelets.time_resolution(W, mx, N, nondim=False, min_decay=1))
                    m = sorted(v for _, v in a['marks'])
                    ctx.ok(np.allclose(m, sorted([s, 2 * s, -N / 2, N / 2 - 1]), rtol=1e-5), f"bounds {case}: markers {m}, std {s}")
                ctx.state((case, mn, mx, st))


def grid_at(x, positives, N):
    """frequency at each drawn abscissa"""
    return np.asarray(x) * (2 * np.pi / N) if positives else np.asarray(x)


def check_tf(ctx, lines, W, F, scale, N, what):
    from ssqueezepy import wavelets
    half = N // 2 + 1
    grid = ref.xi(1, N)[:half]
    p = np.asarray(W.psifn(scale=scale, N=N))
    t = np.arange(-N / 2, N / 2)
    c = grid.max() / np.abs(p).max() / 5
    H = F(scale * grid).real
    H = H * (t.max() / H.max()) / 5 + t.min()
    has_lines(ctx, lines, [(t, p.real * c), (t, p.imag * c), (t, np.abs(p) * c), (H[::-1], grid)], what, tol=2e-5, exact=False)
    # bounds: at +- one deviation about the centre, to the nearest sample
    wc = wavelets.center_frequency(W, scale, N)
    sw = wavelets.freq_resolution(W, scale, N, nondim=0)
    st = wavelets.time_resolution(W, scale, N, nondim=0, min_decay=1)
    segs = [(np.asarray(x, dtype='float64'), np.asarray(y, dtype='float64')) for x, y in lines if len(x) == 2]
    vert = sorted(float(x[0]) for x, y in segs if x[0] == x[1])
    hor = sorted(float(y[0]) for x, y in segs if y[0] == y[1] and x[0] != x[1])
    for want, got, step in ((-st, vert, 1), (st, vert, 1), (np.pi - wc - sw, hor, 2 * np.pi / N), (np.pi - wc + sw, hor, 2 * np.pi / N)):
        lo, hi = (t.min(), t.max()) if got is vert else (0, np.pi)
        w = min(max(want, lo), hi)
        ctx.ok(any(abs(g - w) <= step * .51 for g in got), f"{what}: no bound at {want} (drawn {got})")


def h_anim(ctx, case):
    """every frame shows the wavelet at the scale it names"""
    from ssqueezepy import visuals
    import matplotlib.animation as ma
    wav, N = case['wav'], case['N']
    W = wavelet(wav, N)
    F = lambda w: np.asarray(ref.WAVELETS[wav](np.asarray(w, dtype='float64')))
    sc = np.linspace(2, 3, 5) * (N / 16 if wav != 'gmw' else 1)
    got = {}

    class Fake:
        def __init__(self, fig, func, frames=None, **kw):
            got.update(fig=fig, func=func, frames=list(frames))

        def save(self, path, **kw):
            got['path'] = path
    old = ma.FuncAnimation
    ma.FuncAnimation = Fake
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.chdir(d)
        with figures() as r:
            ctx.call(visuals.wavelet_tf_anim, W, N=N, scales=sc)
            ctx.ok('func' in got and got['path'] == 'wavanim.gif' and not os.listdir(d), 'animation not made')
            for i in got['frames']:
                got['func'](i)
                a = _axis(got['fig'].axes[0])
                s = [float(re.search(r'scale=([0-9.]+)', x).group(1)) for x in a['texts'] if 'scale=' in x]
                ctx.ok(len(s) == 1, 'frame names its scale')
                # the label is rounded; find the scale it stands for from the curve itself
                p = [ly for lx, ly in a['lines'] if len(lx) == N]
                best = min(np.linspace(s[0] - .006, s[0] + .006, 25), key=lambda q: np.abs(np.abs(np.asarray(W.psifn(scale=q, N=N))) / np.abs(np.asarray(W.psifn(scale=q, N=N))).max() - p[2] / p[2].max()).max())
                q = np.asarray(W.psifn(scale=float(best), N=N))
                c = ref.xi(1, N)[:N // 2 + 1].max() / np.abs(q).max() / 5
                for k, want in enumerate((q.real, q.imag, np.abs(q))):
                    ctx.ok(any(np.abs(y - want * c).max() <= 2e-2 * np.abs(want * c).max() for y in p), f"frame {i}: scale {s[0]}, curve {k} isn't the wavelet there")
                ctx.state((case, i, s[0]))
            ctx.ok(len(set(got['frames'])) > 4, 'frames')
    finally:
        ma.FuncAnimation = old
        os.chdir(cwd)
        shutil.rmtree(d)


def h_anim_path(ctx, case):
    """an existing file is never overwritten, whatever the directory holds"""
    from ssqueezepy import visuals
    W = wavelet('morlet', 16)
    sc = np.linspace(3, 8, 5)
    names = ('wavanim.gif', 'wavanim1.gif', 'wavanim2.gif', 'wavanim10.gif', 'wavanim_old.gif', 'mywavanim3.gif', 'wavanim1.txt')
    d = tempfile.mkdtemp()
    try:
        import itertools as it
        for k in range(len(names) + 1):
            for sub in it.combinations(names, k):
                if ctx.quick and 3 < k < len(names):
                    continue
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
                for f in sub:
                    open(os.path.join(d, f), 'w').close()
                with figures() as r:
                    ctx.call(visuals.wavelet_tf_anim, W, N=16, scales=sc, savepath=os.path.join(d, 'wavanim.gif'), testing=True)
                m = re.search(r'Will save to: (\S+)', r.out)
                ctx.ok(m, f"no file named: {r.out!r}")
                ctx.ok(os.path.dirname(m.group(1)) == d and m.group(1).endswith('.gif') and not os.path.exists(m.group(1)), f"with {sub}, would save to {m.group(1)}")
                ctx.ok('wavanim.gif' in sub or os.path.basename(m.group(1)) == 'wavanim.gif', f"with {sub}, would save to {m.group(1)}")
                ctx.ok(sorted(os.listdir(d)) == sorted(sub), 'directory changed')
                ctx.state(sub)
    finally:
        shutil.rmtree(d)


def h_gmw_orders(ctx, case):
    from ssqueezepy import visuals, Wavelet
    N, norm = case['N'], case['norm']
    half = N // 2 + 1
    grid = ref.xi(1, N)[:half]
    for n_orders in (1, 2, 3):
        for scale in (4, 6.5):
            for g, b in ((3, 60), (3, 20)):
                with figures() as r:
                    ctx.call(visuals.viz_gmw_orders, N, n_orders, scale, g, b, norm)
                what = f"orders {case} n={n_orders} scale={scale} {g},{b}"
                lines = [l for a in r.axes for l in a['lines'] if len(l[0])]
                want = []
                for k in range(n_orders):
                    h = ref.gmw(scale * grid, gamma=g, beta=b, norm=norm, order=k) * (1 if norm == 'bandpass' else 1)
                    p = np.asarray(Wavelet(('gmw', dict(gamma=g, beta=b, norm=norm, order=k)), N=N).psifn(scale=scale, N=N))
                    t = np.arange(N)
                    want += [(t, p.real), (t, p.imag), (t, np.abs(p))]
                    hit = False
                    for x, y in lines:
                        if len(x) == half and same(x, grid, 1e-6):
                            q = grid < np.pi - 1e-6
                            num = np.vdot(y[q], h[q]).real / np.sqrt(np.vdot(y[q], y[q]).real * np.vdot(h[q], h[q]).real)
                            hit |= num > 1 - 1e-6 and (norm == 'energy' or np.abs(y[q] - h[q]).max() < 1e-4 * np.abs(h).max())
                    ctx.ok(hit, f"{what}: spectrum of order {k} isn't drawn against its frequencies")
                rest = [l for l in lines if not (len(l[0]) == half and same(l[0], grid, 1e-6))]
                has_lines(ctx, rest, want, what, tol=1e-5)
                ctx.state((what,))


def h_orders(ctx, case):
    from ssqueezepy import visuals
    Wk = [np.outer(np.arange(1., 6), data('complex', 7)) * (k + 1) * (1 + .5j) ** k for k in range(4)]
    sc = 2. ** (np.arange(5) / 2)[:, None]
    for n in range(1, 5):
        for scales in (None, sc):
            for wav in (None, 'gmw', ('gmw', {'beta': 20})):
                for kw in ({}, {'norm': (0, 3)}, {'ticks': 0}):
                    for form in ('list', 'array'):
                        arg = [w.copy() for w in Wk[:n]] if form == 'list' else Wk[0].copy()
                        k0 = dict(kw)
                        with figures() as r:
                            ctx.call(visuals.viz_cwt_higher_order, arg, scales, wav, **kw)
                        want = [np.abs(w) for w in Wk[:n]] + [np.mean([np.abs(w) for w in Wk[:n]], axis=0)] if form == 'list' else [np.abs(Wk[0])]
                        ctx.ok(r.n == len(want) == len(r.axes), f"higher order: {r.n} shows for {n} orders")
                        for a, w in zip(r.axes, want):
                            ctx.eq(a['images'][0][0], w, 'higher order image', rtol=1e-7)
                            if scales is not None and kw.get('ticks', 1):
                                labelled(ctx, a['yticks'], a['ytl'], sc, 'higher order scales')
                            if 'norm' in kw:
                                ctx.ok(tuple(a['images'][0][1]) == (0, 3), 'higher order norm')
                        ctx.ok(kw == k0, 'kwargs changed')
                        ctx.state((n, form, scales is None, str(wav), sorted(kw)))


def h_band(ctx, case):
    from ssqueezepy.toolkit import lin_band
    for na, N in ((4, 6), (20, 30), (1, 3), (50, 11)):
        Tx = np.outer(np.arange(1., na + 1), data('complex', N))
        for slope in (0, .5, 1, -.7):
            for off in (0, .1, -1.):
                for bw in (.025, .2, 0):
                    with figures() as r:
                        C, f = ctx.call(lin_band, Tx, slope, off, bw)
                    t = np.linspace(0, 1, N)
                    ideal = slope * (t + off) * na
                    ctx.ok(C.shape == (N,) and f.shape == (N,) and C.dtype.kind == f.dtype.kind == 'i', 'band: integer curves')
                    ctx.ok(np.all(np.abs(C - ideal) < 1 + 1e-9) and np.all(np.abs(f - bw * na) < 1 + 1e-9), f"band: {C} for {ideal}")
                    a = r.axes[0]
                    ctx.ok(r.n == 1 and len(r.axes) == 1 and len(a['images']) == 1, 'band: one figure')
                    ctx.eq(a['images'][0][0], np.abs(Tx), 'band image', rtol=1e-9)
                    has_lines(ctx, a['lines'], [(np.arange(N), C + f), (np.arange(N), C - f)], 'band')
                    ctx.state((C, f))


def h_vizopt(ctx, case):
    """asking for a plot never changes what is computed"""
    from ssqueezepy import utils, wavelets
    wav, fn = case['wav'], case['fn']
    W = wavelet(wav, 64)
    runs = []
    if fn == 'scalebounds':
        for N in (64, 100):
            for preset in ('maximal', 'naive', None):
                for v in (1, 2, 3):
                    if v == 3 and preset != 'maximal':
                        continue
                    runs.append((utils.cwt_scalebounds, (W, N), dict(preset=preset), dict(viz=v)))
    elif fn == 'wc':
        for N in (64, 65):
            for kind in ('energy', 'peak', 'peak-ct'):
                for s in (None, 5.):
                    runs.append((wavelets.center_frequency, (W,), dict(scale=s, N=N, kind=kind), dict(viz=True)))
    elif fn in ('std_w', 'std_t'):
        f = wavelets.freq_resolution if fn == 'std_w' else wavelets.time_resolution
        for N in (64, 65):
            for s in (3., 8., 20.):
                for fi in (True, False):
                    for nd in (True, False):
                        kw = dict(scale=s, N=N, force_int=fi, nondim=nd)
                        if fn == 'std_t':
                            kw['min_decay'] = 1
                        runs.append((f, (W,), kw, dict(viz=True)))
    else:
        sc = 2. ** (np.arange(8, 60) / 8)[:, None]
        for method in ('any', 'all', 'sum'):
            for span in (3, 5):
                for tol in (1, 3):
                    for v in (dict(viz=True), dict(viz_last=True), dict(viz=True, viz_last=True)):
                        runs.append((utils.find_downsampling_scale, (W, sc), dict(method=method, span=span, tol=tol, N=128), v))
    for f, a, kw, v in runs:
        try:
            want = f(*a, **kw)
        except Exception as e:
            continue
        with figures() as r:
            got = ctx.call(f, *a, **kw, **v)
        ctx.ok(repr(want) == repr(got) or np.allclose(np.asarray(want, dtype='float64'), np.asarray(got, dtype='float64'), rtol=1e-12), f"{f.__name__} {kw}: {want} without, {got} with {v}")
        if fn in ('wc', 'std_w', 'std_t'):
            ctx.ok(r.axes, f"{f.__name__} {kw} {v}: nothing drawn")
        ctx.state((f.__name__, str(kw), str(v), str(want)))


def h_testsignals(ctx, case):
    from ssqueezepy import TestSignals
    for dft in (None, 'rows', 'cols'):
        ts = TestSignals(N=64, warn_alias=False)
        for names in (['lchirp', 'sine'], 'all', [('cosine', dict(f=4))]):
            with figures() as r:
                ctx.call(ts.demo, names, dft=dft)
            data_ = TestSignals(N=64, warn_alias=False).make_signals(names, get_params=True)
            ctx.ok(r.n == len(data_), f"demo: {r.n} figures for {len(data_)} signals")
            for fig, (nm, (x, t, _)) in zip(r.shown, data_.items()):
                ctx.ok(len(fig) == (2 if dft else 1), f"demo: {len(fig)} axes")
                has_lines(ctx, fig[0]['lines'], [(np.asarray(t), np.asarray(x))], f"demo {nm}")
                if dft:
                    X = np.abs(np.fft.rfft(x))
                    has_lines(ctx, fig[1]['lines'], [(np.arange(len(X)), X)], f"demo {nm} dft", tol=1e-6)
                ctx.state((nm, dft))
    ts = TestSignals(N=64, warn_alias=False)
    Z = {}

    def fn(x, t, params):
        Z[params[0]] = np.outer(np.arange(1, 4), x)
        return Z[params[0]] if False else (Z[params[0]], {})
    with figures() as r:
        ctx.call(ts.test_transforms, fn, ['lchirp', 'sine', '#echirp'])
    ctx.ok(r.n == 3 == len(r.axes), 'test_transforms figures')
    for a, z in zip(r.axes, Z.values()):
        ctx.eq(a['images'][0][0], np.abs(z), 'test_transforms image', rtol=1e-9)
    for own in ({}, dict(title='mine'), dict(abs=0)):
        pkw = dict(own)
        with figures() as r:
            ctx.call(ts.test_transforms, lambda x, t, params: (np.outer(np.arange(1., 4), x), pkw), ['lchirp', 'sine', '#echirp'])
        for a, nm in zip(r.axes, ('lchirp', 'sine', '#echirp')):
            title = ' '.join(a['title']).strip()
            ctx.ok(title == 'mine' if 'title' in own else title.startswith(nm + ' '), f"test_transforms: transform of {nm} is titled {title!r}")
        ctx.ok(pkw == own, f"test_transforms: keyword arguments changed from {own} to {pkw}")


SIGNALS = dict(one='lchirp', two=['sine', ('echirp', dict(fmin=4))], noisy=[('cosine', dict(f=9, snr=20))], par=['#par-lchirp', ('sine:am-cosine', (dict(f=20, phi0=1), dict(amin=.3)))])


def show_all(ctx, fn, names, N, **kw):
    """(figure, name, x, t) for each signal; figure: its axes and size"""
    from ssqueezepy import TestSignals
    ts = TestSignals(N=N, warn_alias=False)
    ts.seed = 0
    data_ = TestSignals(N=N, warn_alias=False)
    data_.seed = 0
    data_ = data_.make_signals(SIGNALS[names], N, get_params=True)
    with figures() as r:
        ctx.call(getattr(ts, fn), signals=SIGNALS[names], N=N, **kw)
    ctx.ok(len(r.shown) == len(data_), f"{fn}: {len(r.shown)} figures for {len(data_)} signals")
    return [(fig, size, pars, nm, np.asarray(x), np.asarray(t)) for fig, size, pars, (nm, (x, t, _)) in zip(r.shown, r.sizes, r.pars, data_.items())]


def by_freq(Tf, f, up=False):
    f = np.asarray(f, dtype='float64').ravel()
    return np.abs(np.asarray(Tf))[np.argsort(f if up else -f, kind='stable')]


def shown(ctx, ax, want, what):
    ctx.ok(len(ax['images']) == 1, f"{what}: {len(ax['images'])} images")
    ctx.eq(ax['images'][0][0], want, what, rtol=1e-6)


def spacing(ctx, pars, want, what):
    for k, v in want.items():
        ctx.ok(abs(pars[k] - v) < 1e-12, f"{what}: tight_kw {k}={v}, figure has {pars[k]}")


def h_wavcomp(ctx, case):
    """a row per wavelet: its CWT and synchrosqueezed CWT, high frequencies on top"""
    from ssqueezepy import Wavelet, ssq_cwt
    kind = case['kind']
    G = ('gmw', {'beta': 12, 'gamma': 3})
    wavs = {'str': 'gmw', 'tuple': G, 'inst': Wavelet(G), 'list1': [G], 'mixed': ['bump', Wavelet(G)], 'three': [G, 'morlet', 'gmw']}[kind]
    if kind == 'tuple':
        wavs = [G, ('morlet', {'mu': 7.})]
    each = wavs if isinstance(wavs, list) else [wavs]
    for N in (64,) if ctx.quick else (64, 81):
        for w, h in ((1.2, None), (.5, .6)):
            for tight in (None, {}, dict(left=.1, top=.8), dict(wspace=.3, hspace=.4, right=.9, bottom=.05)):
                tk = None if tight is None else dict(tight)
                for fig, size, pars, nm, x, t in show_all(ctx, 'wavcomp', case['names'], N, wavelets=wavs, w=w, h=h, tight_kw=tk):
                    what = f"wavcomp {kind} {nm} N={N}"
                    ctx.ok(len(fig) == 2 * len(each), f"{what}: {len(fig)} axes")
                    ctx.ok(abs(size[0] - 12 * w) < 1e-9 and (h is None or abs(size[1] - 12 * h) < 1e-9), f"{what}: size {size} for w={w}, h={h}")
                    spacing(ctx, pars, tight or {}, what)
                    for i, wv in enumerate(each):
                        Tx, Wx, f, sc, *_ = ssq_cwt(x, wv, t=t, astensor=False)
                        shown(ctx, fig[2 * i], by_freq(Wx, 1 / sc), what + ' CWT')
                        shown(ctx, fig[2 * i + 1], by_freq(Tx, f), what + ' SSQ')
                        W = Wavelet._init_if_not_isinstance(wv)
                        title = ' '.join(fig[2 * i]['title'])
                        ctx.ok(W.name.split(' ')[0] in title, f"{what}: title {title!r} without the wavelet {W.name}")
                    ctx.state((kind, nm, N, w, str(tight)))
                ctx.ok(tk == tight, f"wavcomp: tight_kw changed from {tight} to {tk}")


def h_versus(ctx, case):
    from ssqueezepy import Wavelet, ssq_cwt, ssq_stft
    G = ('gmw', {'beta': 12, 'gamma': 3})
    wav = {'gmw': 'gmw', 'tuple': G, 'inst': Wavelet(G)}[case['wav']]
    for N in (64,) if ctx.quick else (64, 81):
        n = {'given': N, 'none': None, 'short': N // 2}[case['win']]
        win = None if n is None else np.hanning(n + 2)[1:-1]
        for n_fft in (N, 32):
            if n and n > n_fft:
                continue
            for w, h, tight in ((1.2, .9, None), (.5, .6, dict(left=.1, top=.8)), (1., 1., dict(wspace=.3, hspace=.4))):
                tk = None if tight is None else dict(tight)
                for fig, size, pars, nm, x, t in show_all(ctx, 'cwt_vs_stft', case['names'], N, wavelet=wav, window=win, win_len=n, n_fft=n_fft, window_name='Hann', w=w, h=h, tight_kw=tk):
                    what = f"cwt_vs_stft {case['wav']} {nm} N={N}"
                    ctx.ok(len(fig) == 4, f"{what}: {len(fig)} axes")
                    ctx.ok(abs(size[0] - 12 * w) < 1e-9 and abs(size[1] - 12 * h) < 1e-9, f"{what}: size {size} for w={w}, h={h}")
                    spacing(ctx, pars, tight or {}, what)
                    Tx, Wx, f, sc, *_ = ssq_cwt(x, wav, t=t, astensor=False)
                    Ts, Sx, fs, Sfs, *_ = ssq_stft(x, win, win_len=n, n_fft=n_fft, t=t, astensor=False)
                    shown(ctx, fig[0], by_freq(Wx, 1 / sc), what + ' CWT')
                    shown(ctx, fig[1], by_freq(Tx, f), what + ' SSQ_CWT')
                    shown(ctx, fig[2], by_freq(Sx, Sfs), what + ' STFT')
                    shown(ctx, fig[3], by_freq(Ts, fs), what + ' SSQ_STFT')
                    ctx.state((case['wav'], nm, N, n_fft, w, str(tight)))
                ctx.ok(tk == tight, f"cwt_vs_stft: tight_kw changed from {tight} to {tk}")


def h_ridges(ctx, case):
    """each ridge is drawn over the points of the transform it's made of"""
    from ssqueezepy import ssq_cwt, ssq_stft, extract_ridges
    tf = case['tf']
    for N in (64, 81):
        for nr in (1, 2):
            for pen, bw in ((20, None), (.5, 3), (2, (4, 1))):
                for w, h in ((1.2, .4), (.7, .5)):
                    for fig, size, pars, nm, x, t in show_all(ctx, 'ridgecomp', case['names'], N, n_ridges=nr, penalty=pen, bw=bw, transform=tf, w=w, h=h):
                        what = f"ridgecomp {tf} {nm} N={N}"
                        ctx.ok(len(fig) == 2, f"{what}: {len(fig)} axes")
                        ctx.ok(abs(size[0] - 12 * w) < 1e-9 and abs(size[1] - 12 * h) < 1e-9, f"{what}: size {size} for w={w}, h={h}")
                        Ts, Tf, f, sc, *_ = (ssq_cwt if tf == 'cwt' else ssq_stft)(x, t=t, astensor=False)
                        b = (10, 2) if bw is None else bw if isinstance(bw, tuple) else (bw, bw)
                        for ax, T, s, k in ((fig[0], Tf, sc, 0), (fig[1], Ts, f, 1)):
                            R = np.asarray(extract_ridges(T, s, penalty=pen, n_ridges=nr, bw=b[k], transform=tf))
                            ctx.ok(len(ax['images']) == 1, f"{what}: {len(ax['images'])} images")
                            im, A = ax['images'][0][0], np.abs(np.asarray(T))
                            flip = not same(im, A, 1e-6)
                            ctx.ok(not flip or same(im, A[::-1], 1e-6), f"{what}: image {k} isn't the transform")
                            pos = np.arange(len(A))[::-1 if flip else 1]
                            has_lines(ctx, ax['lines'], [(np.arange(len(x)), pos[R[:, j]]) for j in range(nr)], what + (' SSQ' if k else ' TF'))
                        ctx.state((tf, nm, N, nr, pen, str(bw), w))


def h_info(ctx, case):
    """printed quantities are the wavelet's"""
    from ssqueezepy import Wavelet
    for N in (256, 513):
        W, V = wavelet(case['wav'], N), wavelet(case['wav'], N)
        for nondim in (True, False):
            for reset in (False, True):
                if reset:
                    M = 2 * N
                    W.N = M
                    V = wavelet(case['wav'], M)
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    ctx.call(W.info, nondim=nondim, reset=reset)
                txt = out.getvalue()
                num = lambda k: float(re.search(k + r"[^:]*:\s+([-+0-9.einfa]+)", txt).group(1))
                st, sw, wc = (V.std_t, V.std_w, V.wc_ct) if nondim else (V.std_t_d, V.std_w_d, V.wc)
                for k, v in (('Center frequency', wc), ('Time resolution', st), ('Freq resolution', sw), ('Heisenberg area', st * sw)):
                    ctx.ok(abs(num(k) - v) <= 1e-6 + 1e-6 * abs(v), f"info {case['wav']} N={W.N} nondim={nondim} reset={reset}: {k} {num(k)}, is {v}")
                ctx.state((case['wav'], W.N, nondim, reset))
                W.N = N
                if reset:
                    W.reset_properties()
                    V = wavelet(case['wav'], N)


def h_viz(ctx, case):
    """Wavelet.viz draws what the visual of that name does, of this wavelet and its length"""
    from ssqueezepy import visuals, Wavelet
    W = wavelet(case['wav'], 64)
    fns = {'heatmap': visuals.wavelet_heatmap, 'waveforms': visuals.wavelet_waveforms, 'filterbank': visuals.wavelet_filterbank, 'time-frequency': visuals.wavelet_tf,
           'harea': visuals.sweep_harea, 'std_t': visuals.sweep_std_t, 'std_w': visuals.sweep_std_w}
    sc = np.array([6., 8., 11.])

    def same_figs(a, b, what):
        ctx.ok(len(a) == len(b) and len(a) > 0, f"{what}: {len(a)} axes, {len(b)} expected")
        for p, q_ in zip(a, b):
            ctx.ok(p['title'] == q_['title'], f"{what}: title {p['title']}, {q_['title']} expected")
            ctx.ok(len(p['lines']) == len(q_['lines']) and all(same(u[0], v[0]) and same(u[1], v[1]) for u, v in zip(p['lines'], q_['lines'])), f"{what}: other curves")
            ctx.ok(len(p['images']) == len(q_['images']) and all(same(u[0], v[0]) for u, v in zip(p['images'], q_['images'])), f"{what}: other images")
    for name, fn in fns.items():
        for N in (None, 100):
            kw = {} if N is None else dict(N=N)
            if name in ('waveforms', 'time-frequency'):
                kw['scale'] = 8.
            elif name in ('heatmap', 'filterbank', 'harea', 'std_t', 'std_w'):
                kw['scales'] = sc if N else sc[:, None]
            with figures() as a:
                ctx.call(W.viz, name, **kw)
            with figures() as b:
                ctx.call(fn, W, **{**kw, 'N': N or 64})
            same_figs(a.axes, b.axes, f"viz {name} N={N}")
            ctx.state((case['wav'], name, N))
