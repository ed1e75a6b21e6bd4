"""P28: what is plotted is the data, at the right place, in the right units."""
import os, glob, time, weakref
import numpy as np, torch as t
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.backend_bases import KeyEvent, MouseEvent, PickEvent
from matplotlib.widgets import Slider
from cdtools import models
from cdtools.tools import plotting as p
from vf import gen, ref, models as vm
from vf.core import tonp, Skip

RULE = ('random arrays of up to five dimensions in random bases, units and view bases, random histories of slider moves, keys, clicks, '
        'scrolls and repeated plots; random models of all classes through histories of training-like changes, inspections, closed '
        'windows and replots; distinct by the kind of plot, shapes, options and history')
ASSUMPTIONS = ['figures are drawn by the Agg canvas, events are delivered through the canvas of the figure',
               'the colours of drawn pixels are compared at the centres of data pixels at least 4 screen pixels wide']
REQUIRE = {'nanomap_named': 8, 'translation_style': 8, 'image': 100, 'image_basis': 60, 'image_view_basis': 20, 'drawn_pixels': 1000, 'slider': 60, 'key': 100, 'replot': 60,
           'elsewhere_not_current': 30, 'elsewhere_subfigure': 12, 'other_shape': 15, 'cleared': 15, 'explicit_limits': 60, 'colorized': 30, 'legend_colours': 1000, 'scatter': 60,
           'nanomap_events': 150, 'dataset_views': 60, 'inspections': 60, 'model_images': 200, 'model_replot': 30,
           'trace_calls': 300, 'trace_closed': 40, 'trace_panel': 30, 'saved_figures': 30, 'comparisons': 60, 'plotting_options': 15, 'wavefront_amplitude': 50, 'wavefront_phase': 50,
           'wavefront_root_sum_intensity': 50, 'fourier_wavefronts': 5}

UNITS = {'m': 1, 'cm': 1e2, 'mm': 1e3, 'um': 1e6, '$\\mu$m': 1e6, 'nm': 1e9, 'A': 1e10, 'pm': 1e12}


def closing(f):
    def g(ctx):
        plt.close('all')
        try:
            f(ctx)
        finally:
            plt.close('all')
    g.__name__ = f.__name__
    return g


made = []     # weak references to all sliders
_init = Slider.__init__


def _watched(self, *a, **kw):
    _init(self, *a, **kw)
    made.append(weakref.ref(self))


Slider.__init__ = _watched


def sliders(fig):
    """The sliders in a figure, from top to bottom"""
    live = [x for x in (r() for r in made) if x is not None]
    made[:] = [weakref.ref(x) for x in live]
    return sorted([x for x in live if x.ax in fig.axes], key=lambda x: -x.ax.get_position().y0)


def centre(ax):
    b = ax.get_window_extent()
    return (b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2


def key(fig, ax, k):
    x, y = centre(ax)
    c = fig.canvas
    c.callbacks.process('key_press_event', KeyEvent('key_press_event', c, k, x, y))
    c.callbacks.process('key_release_event', KeyEvent('key_release_event', c, k, x, y))


def scroll(fig, ax, b):
    x, y = centre(ax)
    c = fig.canvas
    c.callbacks.process('scroll_event', MouseEvent('scroll_event', c, x, y, button=b, step=1 if b == 'up' else -1))


def shown(fig, n=0):
    """The array of the image shown in the first axes"""
    ims = fig.axes[n].images
    return ims[-1] if ims else None


def geometry(ctx, fig, shape, basis, units, view=None, tag='image'):
    """The pixels (i,j) of the image appear at i b0 + j b1, in the plane of the view"""
    ax = fig.axes[0]
    im = shown(fig)
    N, M = shape
    ii, jj = np.meshgrid(np.arange(N), np.arange(M), indexing='ij')
    if basis is None:
        want = np.stack([jj, ii], -1).reshape(-1, 2).astype(float)
        corners = np.array([[-0.5, -0.5], [M - 0.5, N - 0.5]])
        labels = ('pixels', 'pixels')
    else:
        b = np.asarray(tonp(basis), dtype=np.float64) * UNITS[units]
        if view is None:
            vx = b[:, 1] / np.linalg.norm(b[:, 1])
            vy = b[:, 0] - vx * (vx @ b[:, 0])
            vy = vy / np.linalg.norm(vy)
        else:
            v = np.asarray(tonp(view), dtype=np.float64)
            vy, vx = v[:, 0] / np.linalg.norm(v[:, 0]), v[:, 1] / np.linalg.norm(v[:, 1])
        V = np.stack([vx, vy], 1)
        A = np.linalg.pinv(V) @ np.stack([b[:, 1], b[:, 0]], 1)
        pos = lambda j, i: (A @ np.stack([np.ravel(j), np.ravel(i)]).astype(float)).T
        want = pos(jj, ii)
        corners = pos(np.array([-0.5, M - 0.5, -0.5, M - 0.5]), np.array([-0.5, -0.5, N - 0.5, N - 0.5]))
        labels = (units, units)
    # where the artist puts the pixels
    x0, x1, y0, y1 = im.get_extent()
    px = x0 + (np.ravel(jj) + 0.5) * (x1 - x0) / M
    py = (y1 if im.origin == 'upper' else y0) + (np.ravel(ii) + 0.5) * ((y0 - y1) if im.origin == 'upper' else (y1 - y0)) / N
    got = ax.transData.inverted().transform(im.get_transform().transform(np.stack([px, py], 1)))
    size = np.abs(corners).max() + np.ptp(corners)
    ctx.close(got, want, tag + '_positions', rtol=1e-5, scale=size)
    xl, yl = ax.get_xlim(), ax.get_ylim()
    ctx.expect(yl[0] > yl[1] and xl[0] < xl[1], tag + '_directions', f'{xl} {yl}')
    ctx.close(np.array([xl[0], xl[1], yl[1], yl[0]]),
              np.array([corners[:, 0].min(), corners[:, 0].max(), corners[:, 1].min(), corners[:, 1].max()]),
              tag + '_limits', rtol=1e-5, scale=size)
    ctx.expect(labels[0] in ax.get_xlabel() and labels[1] in ax.get_ylabel(), tag + '_units', f'{ax.get_xlabel()} {ax.get_ylabel()}')
    return want


def drawn(ctx, fig, positions, values, cmap, clim, shape, tag='drawn'):
    """The colours on the canvas at the centres of the pixels"""
    fig.canvas.draw()
    buf = np.asarray(fig.canvas.buffer_rgba())
    H = buf.shape[0]
    ax = fig.axes[0]
    disp = ax.transData.transform(positions)
    grid = disp.reshape(shape + (2,))
    e0 = grid[1, 0] - grid[0, 0]
    e1 = grid[0, 1] - grid[0, 0]
    if abs(e0[0] * e1[1] - e0[1] * e1[0]) < 40 or min(np.linalg.norm(e0), np.linalg.norm(e1)) < 6:
        return
    # width across the narrow side of the parallelogram
    if abs(e0[0] * e1[1] - e0[1] * e1[0]) / max(np.linalg.norm(e0), np.linalg.norm(e1)) < 5:
        return
    c, r = np.floor(disp[:, 0]).astype(int), (H - 1 - np.floor(disp[:, 1])).astype(int)
    if values.ndim == len(shape):
        norm = matplotlib.colors.Normalize(*clim)
        want = np.asarray(matplotlib.colormaps[cmap](norm(values.ravel())))[:, :3]
    else:
        want = values.reshape(-1, 3)
    got = buf[r, c, :3] / 255.
    bad = np.abs(got - want).max(axis=1) > 6 / 255
    ctx.note('drawn_pixels', len(bad))
    ctx.expect(not bad.any(), tag + '_colours', f'{bad.sum()} of {len(bad)} pixels differ, the first at '
               f'{np.argmax(bad)}: {got[np.argmax(bad)]} for {want[np.argmax(bad)]}')


def random_basis(ctx):
    s = 10 ** ctx.uniform(-9, -5)
    how = ctx.choice(['square', 'square', 'rectangular', 'skew'])
    if how != 'skew':
        b = np.array([[0, -1.], [-1, 0], [0, 0]])
        b = b * np.array([ctx.uniform(0.5, 2), 1]) if how == 'rectangular' else b
        if ctx.flip(0.4):
            b = gen.rot(ctx.rng.normal(size=3), ctx.uniform(0, 1)) @ b
    else:
        b = ctx.rng.normal(size=(3, 2))
        b /= np.linalg.norm(b, axis=0)
        if np.abs(b[:, 0] @ b[:, 1]) > 0.7:
            b[:, 0] = np.cross(b[:, 1], ctx.rng.normal(size=3))
            b /= np.linalg.norm(b, axis=0)
    return b * s


FUNCS = {'real': (p.plot_real, np.real, 'viridis'), 'imag': (p.plot_imag, np.imag, 'viridis'),
         'amplitude': (p.plot_amplitude, np.abs, 'viridis'), 'phase': (p.plot_phase, np.angle, 'cividis'),
         'cyclic': (p.plot_phase, np.angle, None)}


def random_image(ctx, kind, dims, shape):
    a = ctx.rng.normal(size=dims + shape)
    if kind == 'image':
        return a
    if kind in ('real', 'amplitude') and ctx.flip(0.2):
        return a
    return a + 1j * ctx.rng.normal(size=dims + shape) if ctx.flip(0.8) else (a + 1j * ctx.rng.normal(size=dims + shape)).astype(np.complex64)


def wrap(ctx, a, lazy=True):
    if ctx.flip(0.5):
        if lazy and a.dtype.kind in 'fc' and ctx.flip(0.15):
            # tensors which are conjugated or negated when they are looked at
            ctx.note('lazy_tensors')
            return t.as_tensor(a.conj().copy()).conj() if a.dtype.kind == 'c' else t.complex(t.zeros(a.shape, dtype=t.as_tensor(a).dtype), t.as_tensor(-a)).conj().imag
        x = t.as_tensor(a.copy())
        if ctx.flip(0.3):
            x.requires_grad_(True)
        return x
    if ctx.flip(0.3):
        # arrays of any layout
        return ctx.choice([np.asfortranarray, lambda x: x[..., ::-1].copy()[..., ::-1], lambda x: x.astype(x.dtype.newbyteorder('>'))])(a.copy())
    return a.copy()


@closing
def images(ctx):
    kind = ctx.choice(list(FUNCS))
    func, of, cmap = FUNCS[kind]
    dims = tuple(ctx.choice([[], [], [2], [3], [1], [2, 3], [1, 3], [3, 1], [2, 1, 2], [2, 2, 2]]))
    shape = (ctx.integer(3, 14), ctx.integer(3, 14))
    a = random_image(ctx, kind, dims, shape)
    kw = {}
    basis = view = None
    if ctx.flip(0.7):
        basis = random_basis(ctx)
        kw['basis'] = wrap(ctx, basis, False)
        ctx.note('image_basis')
        if ctx.flip(0.3):
            view = random_basis(ctx)
            n = np.cross(view[:, 0], view[:, 1])
            if abs(n @ np.cross(basis[:, 0], basis[:, 1])) / np.linalg.norm(n) / np.linalg.norm(np.cross(basis[:, 0], basis[:, 1])) < 0.3:
                view = None
            else:
                kw['view_basis'] = wrap(ctx, view, False)
                ctx.note('image_view_basis')
    units = ctx.choice(list(UNITS)) if ctx.flip(0.8) else '$\\mu$m'
    if units != '$\\mu$m' or ctx.flip():
        kw['units'] = units
    clim = None
    if kind == 'cyclic':
        kw['cmap'] = ctx.choice(['cyclic', 'phase', 'cmocean_phase'])
        clim = (-np.pi, np.pi)
    elif ctx.flip(0.35):
        lo = ctx.uniform(-1, 0.5)
        clim = (lo, lo + ctx.uniform(0.5, 3))
        kw.update(vmin=clim[0], vmax=clim[1])
    if clim:
        ctx.note('explicit_limits')
    if kind != 'cyclic' and ctx.flip(0.3):
        cmap = kw['cmap'] = ctx.choice(['gray', 'twilight', 'magma'])
    title = None
    if ctx.flip(0.5):
        title = kw['title'] = 'Title %d' % ctx.integer(0, 99)
    if dims and ctx.flip(0.4):
        kw['additional_axis_labels'] = ['axis of mine']
    if ctx.flip(0.15):
        kw['show_cbar'] = False
    fig = plt.figure() if ctx.flip(0.3) else None
    arg = wrap(ctx, a)
    keep = tonp(arg).copy()
    ctx.note('image')
    f = func(arg, fig=fig, **kw)
    ctx.expect(fig is None or f is fig, 'figure_given', kind)
    fig = f
    state = dict(a=a, dims=dims, shape=shape, pos=0)

    def check(tag, draw=False):
        a, dims, shape = state['a'], state['dims'], state['shape']
        idx = np.unravel_index(state['pos'], dims) if dims else ()
        want = of(a[idx])
        im = shown(fig)
        ctx.require(im is not None, tag + '_nothing_shown', kind)
        ctx.close(np.asarray(im.get_array(), dtype=float), want.astype(float), tag + '_values', rtol=1e-6, msg=f'{kind} {dims} at {idx}')
        lim = clim or (want.min(), want.max())
        ctx.close(np.array(im.get_clim(), dtype=float), np.array(lim, dtype=float), tag + '_colour_limits', rtol=1e-6, msg=f'{kind} {kw}')
        pos = geometry(ctx, fig, shape, basis, units, view)
        if title is not None:
            ctx.expect(fig.axes[0].get_title() == title, tag + '_title', fig.axes[0].get_title())
        if cmap is not None and (draw or ctx.flip(0.15)):
            drawn(ctx, fig, pos, want, cmap, lim, shape)

    check('plotted', draw=ctx.flip(0.4))
    ctx.equal(tonp(arg), keep, 'data_unchanged')
    hist = []
    for step in range(ctx.integer(1, 6)):
        dims = state['dims']
        total = int(np.prod(dims)) if dims else 1
        act = ctx.choice(['key', 'key', 'slider', 'slider', 'replot', 'other_shape', 'cleared'])
        if act == 'key':
            k = ctx.choice(['up', 'down', 'x', 'down', None]) or 'left'
            for _ in range(ctx.integer(1, 4)):
                key(fig, fig.axes[0], k)
                d = {'up': -1, 'down': 1}.get(k, 0)
                state['pos'] = (state['pos'] + d) % total
            if total > 1:
                ctx.note('key')
        elif act == 'slider':
            sl = sliders(fig)
            live = [k for k in range(len(dims)) if dims[k] > 1]
            ctx.expect(len(sl) == len(live), 'number_of_sliders', f'{len(sl)} for {dims}')
            if not live:
                continue
            n = ctx.integer(0, len(live) - 1)
            idx = list(np.unravel_index(state['pos'], dims))
            idx[live[n]] = ctx.integer(0, dims[live[n]] - 1)
            sl[n].set_val(idx[live[n]])
            state['pos'] = int(np.ravel_multi_index(idx, dims))
            ctx.note('slider')
        elif act == 'replot':
            state['a'] = random_image(ctx, kind, dims, state['shape'])
            func(wrap(ctx, state['a']), fig=fig, **kw)
            ctx.note('replot')
        elif act == 'other_shape':
            state['shape'] = (ctx.integer(3, 14), ctx.integer(3, 14))
            new = tuple(ctx.choice([[], [2], [4], [1], [2, 2], [3, 2, 1]]))
            if (new, state['shape']) == (dims, state['a'].shape[-2:]):
                continue
            if new != dims or True:
                state['pos'] = 0
            state['dims'] = new
            state['a'] = random_image(ctx, kind, new, state['shape'])
            if state['a'].shape == a.shape:
                continue
            func(wrap(ctx, state['a']), fig=fig, **kw)
            ctx.note('other_shape')
        else:
            fig.clear()
            func(wrap(ctx, state['a']), fig=fig, **kw)
            state['pos'] = 0
            ctx.note('cleared')
        hist.append(act)
        if state['pos'] or act in ('key', 'slider'):
            sl = sliders(fig)
            live = [k for k in range(len(state['dims'])) if state['dims'][k] > 1]
            idx = np.unravel_index(state['pos'], state['dims']) if state['dims'] else ()
            ctx.expect([int(x.val) for x in sl] == [int(idx[k]) for k in live], 'slider_positions', f'{hist} {idx}')
        check(act, draw=ctx.flip(0.2))
    ctx.sig('image', kind, len(dims), basis is not None, view is not None, clim is not None, tuple(hist))


@closing
def colorized(ctx):
    """The colours of complex images are those of the legend beside them"""
    dims = tuple(ctx.choice([[], [], [3], [2, 2]]))
    shape = (ctx.integer(3, 12), ctx.integer(3, 12))
    a = ctx.rng.normal(size=dims + shape) + 1j * ctx.rng.normal(size=dims + shape)
    kw = {}
    if ctx.flip(0.4):
        kw['use_cmocean'] = ctx.flip()
    scaling = ctx.choice([None, np.sqrt, lambda x: x ** 2])
    if scaling is not None:
        kw['amplitude_scaling'] = scaling
    basis = random_basis(ctx) if ctx.flip(0.5) else None
    units = ctx.choice(list(UNITS))
    ctx.note('colorized')
    fig = p.plot_colorized(wrap(ctx, a), basis=basis, units=units, **kw)
    ctx.require(fig is plt.gcf(), 'returned_figure', f'plot_colorized returned {fig!r}')
    pos = 0
    total = int(np.prod(dims)) if dims else 1
    for step in range(ctx.integer(1, 4)):
        if step:
            if ctx.flip(0.5) and total > 1:
                key(fig, fig.axes[0], 'down')
                pos = (pos + 1) % total
            else:
                a = ctx.rng.normal(size=dims + shape) + 1j * ctx.rng.normal(size=dims + shape)
                p.plot_colorized(wrap(ctx, a), fig=fig, basis=basis, units=units, **kw)
        z = a[np.unravel_index(pos, dims) if dims else ()]
        rgb = np.asarray(shown(fig).get_array(), dtype=float)
        ctx.require(rgb.shape == shape + (3,), 'colorized_shape', str(rgb.shape))
        where = geometry(ctx, fig, shape, basis, units, tag='colorized')
        # the legend: amplitude along x, phase along y
        legend = [ax for ax in fig.axes[1:] if ax.images and ax.images[-1].get_array().ndim == 3]
        ctx.require(len(legend) == 1, 'legend', str(len(legend)))
        lim = legend[0].images[-1]
        L = np.asarray(lim.get_array(), dtype=float)
        x0, x1, y0, y1 = lim.get_extent()
        ctx.close(np.array([x0, x1, y0, y1]), np.array([0, 1, -np.pi, np.pi]), 'legend_extent', rtol=1e-6)
        up = lim.origin == 'lower'
        amp = np.abs(z) / np.abs(z).max()
        ph = np.angle(z)
        # sampled at the ends of the axes
        xi = amp * (L.shape[1] - 1)
        yi = (ph + np.pi) / (2 * np.pi) * (L.shape[0] - 1)
        if not up:
            yi = L.shape[0] - 1 - yi
        want = np.stack([ref.bilinear(L[..., k], yi, xi) for k in range(3)], -1)
        ctx.note('legend_colours', want[..., 0].size)
        dev = np.abs(rgb - want).max(axis=-1)
        # the square root is steep at zero
        ok = amp > 0.05
        ctx.expect(np.all(dev[ok] < 0.03), 'legend_colours', f'{dev[ok].max()} {kw}')
        # independent of the legend: brightness goes with the amplitude, phases are told apart
        s = (scaling or (lambda x: x))(amp)
        one = np.exp(1j * ph)
        full = np.asarray(p.colorize(np.concatenate([one.ravel(), [1]])[None], use_cmocean=kw.get('use_cmocean', True)), dtype=float)
        full = full.reshape(-1, 3)[:-1].reshape(shape + (3,))
        ctx.close(rgb, full * s[..., None], 'brightness', rtol=1e-6, scale=1.)
        top = np.unravel_index(np.argmax(np.abs(z)), shape)
        ctx.close(rgb[top], full[top], 'brightest', rtol=1e-6, scale=1.)
        if ctx.flip(0.4):
            drawn(ctx, fig, where, rgb, None, None, shape, tag='colorized')
    th = np.linspace(-np.pi, np.pi, 721)
    z = ctx.rng.normal(size=(3, 4)) + 1j * ctx.rng.normal(size=(3, 4))
    ctx.close(p.colorize(z), p.colorize(z, use_cmocean=True), 'colorize_default', rtol=0, atol=1e-9)
    ctx.expect(np.abs(np.asarray(p.colorize(z)) - p.colorize(z, use_cmocean=False)).max() > 0.05, 'colorize_maps', 'both maps are the same')
    w = np.asarray(p.colorize(np.exp(1j * th)[None], use_cmocean=kw.get('use_cmocean', True)), dtype=float).reshape(-1, 3)
    ctx.expect(np.abs(np.diff(w, axis=0)).max() < 0.05 and np.abs(w[0] - w[-1]).max() < 0.05, 'continuous_colours',
               str(np.abs(np.diff(w, axis=0)).max()))
    ctx.expect(np.linalg.norm(w[:360] - w[360:720], axis=1).min() > 0.15, 'opposite_phases_look_alike',
               str(np.linalg.norm(w[:360] - w[360:720], axis=1).min()))
    ctx.sig('colorized', len(dims), basis is not None, sorted(kw))


@closing
def scatter(ctx):
    """Maps of positions and values"""
    n = ctx.integer(2, 30)
    T = ctx.rng.normal(size=(n, ctx.choice([2, 3]))) * 10 ** ctx.uniform(-8, -4)
    units = ctx.choice(list(UNITS))
    inv = ctx.flip()
    arg = wrap(ctx, T, False)
    keep = tonp(arg).copy()
    ctx.note('scatter')
    which = ctx.choice(['translations', 'nanomap'])
    fig = plt.figure() if ctx.flip(0.3) else None
    if fig is not None and ctx.flip():
        fig.add_axes([0, 0, 0.3, 0.3]).plot([0, 1])
    if which == 'translations':
        lines = ctx.flip()
        look = dict(color='#123456', marker='s') if ctx.flip(0.4) else {}
        fig = p.plot_translations(arg, fig=fig, units=units, lines=lines, invert_xaxis=inv, label='first', **look)
        more = ctx.flip(0.4)
        if more:
            T2 = T + ctx.rng.normal(size=T.shape) * 0.1 * T.std()
            p.plot_translations(T2, fig=fig, units=units, lines=lines, invert_xaxis=inv, clear_fig=False, label='second')
        ax = fig.axes[0]
        ctx.require(len(fig.axes) == 1 and len(ax.lines) == 1 + more, 'translation_lines', f'{len(fig.axes)} {len(ax.lines)}')
        ctx.close(np.asarray(ax.lines[0].get_xydata()), T[:, :2] * UNITS[units], 'translations_shown', rtol=1e-6)
        if more:
            ctx.close(np.asarray(ax.lines[1].get_xydata()), T2[:, :2] * UNITS[units], 'more_translations_shown', rtol=1e-6)
        if look:
            ln = ax.lines[0]
            ctx.expect(ln.get_color() == '#123456' and ln.get_marker() == 's', 'translation_style', '')
            ctx.note('translation_style')
        ctx.expect(ax.lines[0].get_label() == 'first', 'translation_style', 'label')
        ctx.expect(all((ln.get_linestyle() == '-') == lines and ln.get_marker() not in ('None', '', None) for ln in ax.lines), 'lines', str(lines))
    else:
        v = ctx.rng.normal(size=n)
        conv = ctx.choice(['probe', 'obj', 'Probe'])
        va = wrap(ctx, v)
        fig = p.plot_nanomap(arg, va, fig=fig, units=units, convention=conv, invert_xaxis=inv, cmap_label='label of mine')
        ax = fig.axes[0]
        ctx.require(len(ax.collections) == 1, 'nanomap_points', str(len(ax.collections)))
        sgn = 1 if conv.lower() == 'probe' else -1
        ctx.close(np.asarray(ax.collections[0].get_offsets()), sgn * T[:, :2] * UNITS[units], 'nanomap_positions', rtol=1e-6)
        ctx.close(np.asarray(ax.collections[0].get_array()), v, 'nanomap_values', rtol=1e-6)
        ctx.close(np.array(ax.collections[0].get_clim()), np.array([v.min(), v.max()]), 'nanomap_limits', rtol=1e-6)
        ctx.expect(any('label of mine' in a.get_ylabel() + a.get_xlabel() for a in fig.axes), 'nanomap_label', '')
    ax = fig.axes[0]
    ctx.equal(tonp(arg), keep, 'positions_unchanged')
    xl, yl = ax.get_xlim(), ax.get_ylim()
    ctx.expect((xl[0] > xl[1]) == inv and yl[0] < yl[1], 'map_directions', f'{xl} {yl} {inv}')
    ctx.expect(units in ax.get_xlabel() and units in ax.get_ylabel(), 'map_units', ax.get_xlabel())
    lo, hi = (T[:, :2] * UNITS[units]).min(axis=0), (T[:, :2] * UNITS[units]).max(axis=0)
    if which == 'nanomap' and sgn < 0:
        lo, hi = -hi, -lo
    ctx.expect(min(xl) <= lo[0] and max(xl) >= hi[0] and min(yl) <= lo[1] and max(yl) >= hi[1], 'points_in_view', f'{xl} {yl}')
    ctx.sig('scatter', which, inv, units)


class Browser:
    """Reference of the state of plot_nanomap_with_images"""
    def __init__(self, n, modes):
        self.n, self.modes, self.idx, self.mode = n, modes, 0, 0


def browse(ctx, fig, get, n, T, values, tag, steps=8):
    modes = np.asarray(tonp(get(0))).reshape((-1,) + np.asarray(tonp(get(0))).shape[-2:]).shape[0] if np.asarray(tonp(get(0))).ndim > 2 else None
    b = Browser(n, modes)

    def check(what):
        im = np.asarray(tonp(get(b.idx)))
        if b.modes is not None:
            im = im.reshape((-1,) + im.shape[-2:])[b.mode]
        got = np.asarray(fig.axes[1].images[-1].get_array(), dtype=float)
        ctx.close(got, im.astype(float), tag + '_image', rtol=1e-6, msg=f'after {what}: exposure {b.idx}, mode {b.mode}')
        if im.min() != im.max():
            ctx.close(np.array(fig.axes[1].images[-1].get_clim(), dtype=float), np.array([im.min(), im.max()]), tag + '_colour_limits', rtol=1e-6)
        pts = fig.axes[0].collections[0]
        sz = np.asarray(pts.get_sizes())
        ctx.expect(len(sz) == n and int(np.argmax(sz)) == b.idx and (n == 1 or np.sum(sz == sz.max()) == 1), tag + '_highlight',
                   f'{np.argmax(sz)} for {b.idx}')
        ctx.close(np.asarray(pts.get_offsets()), T, tag + '_map_positions', rtol=1e-6)
        if values is not None:
            ctx.close(np.asarray(pts.get_array(), dtype=float), np.asarray(values, dtype=float), tag + '_map_values', rtol=1e-5)
        ctx.note('nanomap_events')
    check('plotting')
    hist = []
    for _ in range(steps):
        on_image = ctx.flip(0.4)
        ax = fig.axes[1] if on_image else fig.axes[0]
        act = ctx.choice(['key', 'scroll', 'pick', 'other'])
        if act == 'pick':
            k = ctx.integer(0, n - 1)
            c = fig.canvas
            x, y = centre(fig.axes[0])
            button = ctx.choice([1, 1, 3])
            me = MouseEvent('button_press_event', c, x, y, button=button)
            c.callbacks.process('pick_event', PickEvent('pick_event', c, me, fig.axes[0].collections[0], ind=np.array([k])))
            if button == 1:
                b.idx = k
        else:
            d = ctx.choice([-1, 1])
            if act == 'key':
                key(fig, ax, {-1: 'left', 1: 'right'}[d])
            elif act == 'scroll':
                scroll(fig, ax, {-1: 'up', 1: 'down'}[d])
            else:
                key(fig, ax, 'q')
                d = 0
            if on_image and b.modes is not None:
                b.mode = (b.mode + d) % b.modes
            else:
                b.idx = (b.idx + d) % n
        hist.append((act, on_image))
        check(hist[-1])
    return hist


@closing
def nanomaps(ctx):
    """Browsing through images attached to positions"""
    n = ctx.integer(1, 12)
    shape = tuple(ctx.choice([[], [], [3], [2, 2]])) + (ctx.integer(2, 9), ctx.integer(2, 9))
    ims = ctx.rng.normal(size=(n,) + shape)
    T = ctx.rng.normal(size=(n, ctx.choice([2, 3]))) * 10 ** ctx.uniform(-8, -4)
    values = None if ctx.flip(0.3) else ctx.rng.uniform(1, 5, n)
    units = ctx.choice(list(UNITS))
    conv = ctx.choice(['probe', 'obj'])
    kw = {}
    basis = None
    if ctx.flip(0.4):
        basis = random_basis(ctx)
        kw.update(basis=wrap(ctx, basis, False), image_units=ctx.choice(list(UNITS)))
    named = ctx.flip(0.3)
    if named:
        kw.update(image_title='this image', image_colorbar_title='of images', nanomap_colorbar_title='of points')
        if values is not None:
            kw['cmap'] = 'magma'
    fig = None
    if ctx.flip(0.3):
        # a figure which was used before: its old callbacks are gone
        fig = p.plot_nanomap_with_images(T[::-1] + 1, lambda k: ims[k] * 0, values=values)
    fig = p.plot_nanomap_with_images(wrap(ctx, T, False), lambda k: ims[k], values=values, nanomap_units=units, convention=conv, fig=fig, **kw)
    want = T[:, :2] * UNITS[units] * (1 if conv == 'probe' else -1)
    hist = browse(ctx, fig, lambda k: ims[k], n, want, values, 'nanomap', steps=ctx.integer(2, 10))
    if named:
        titles = [a.get_title() for a in fig.axes]
        ctx.expect(titles[1] == 'this image' and 'of images' in titles and ('of points' in titles) == (values is not None), 'nanomap_titles', str(titles))
        if values is not None:
            ctx.expect(fig.axes[0].collections[0].get_cmap().name == fig.axes[1].images[-1].get_cmap().name == 'magma', 'nanomap_colormap', '')
        ctx.note('nanomap_named')
    xl = fig.axes[0].get_xlim()
    ctx.expect(xl[0] > xl[1], 'nanomap_directions', str(xl))
    ctx.expect(units in fig.axes[0].get_xlabel(), 'nanomap_units', fig.axes[0].get_xlabel())
    if basis is not None:
        e = fig.axes[1].images[-1].get_extent()
        f = UNITS[kw['image_units']] * np.linalg.norm(basis, axis=0)
        ctx.close(np.array([e[1] - e[0], abs(e[3] - e[2])]), np.array([shape[-1] * f[1], shape[-2] * f[0]]), 'nanomap_image_size', rtol=1e-6)
    ctx.sig('nanomap', n > 1, len(shape), values is None, conv, basis is None, len(hist))


@closing
def dataset(ctx):
    """Ptycho2DDataset.inspect shows masked patterns and integrated intensities"""
    s = gen.make_spec(ctx.rng, n=ctx.integer(4, 23), min_side=4, max_side=10)
    gen.decorate(ctx.rng, s, mask=ctx.flip(0.7), background=ctx.flip(0.3))
    ds = gen.build(s)
    log = ctx.flip()
    units = ctx.choice(list(UNITS))
    off = ctx.choice([1, 1, 0.5, 7])
    kw = dict(logarithmic=log, units=units)
    if off != 1 or ctx.flip():
        kw['log_offset'] = off
    kw['plot_mean_pattern'] = ctx.flip(0.3)
    kw['plot_mask'] = ctx.flip(0.3)
    before = {k: tonp(v).copy() for k, v in dict(p=ds.patterns, m=ds.mask, t=ds.translations).items()}
    fig = ds.inspect(**kw)
    M = tonp(ds.mask).astype(float)
    P = tonp(ds.patterns).astype(float)
    get = lambda k: np.log10(P[k] * M + off) if log else P[k] * M
    hist = browse(ctx, fig, get, s.n, tonp(ds.translations)[:, :2] * UNITS[units], (P * M).sum(axis=(1, 2)), 'dataset', steps=ctx.integer(1, 6))
    for k, v in dict(p=ds.patterns, m=ds.mask, t=ds.translations).items():
        ctx.equal(tonp(v), before[k], 'dataset_unchanged')
    # further figures for the mask and the mean pattern
    others = [plt.figure(i) for i in plt.get_fignums() if plt.figure(i) is not fig]
    ctx.expect(len(others) == kw['plot_mean_pattern'] + kw['plot_mask'], 'dataset_figures', str(len(others)))
    if kw['plot_mask']:
        f = [o for o in others if o.axes[0].get_title() == 'Dataset Mask']
        ctx.require(len(f) == 1, 'mask_figure', '')
        ctx.equal(np.asarray(shown(f[0]).get_array(), dtype=float), M, 'mask_shown')
    ctx.note('dataset_views')
    ctx.sig('dataset', log, off, kw['plot_mean_pattern'], kw['plot_mask'], s.mask is None)


# ------------------------------------------------------------------------------------ models

def real_space(m, fourier):
    pr = tonp(m.probe).astype(np.complex128)
    return np.array([ref.iff(x) for x in pr]) if fourier else pr


def expected(md):
    """title -> (array of the image, basis), or (positions, values), of the plots with images"""
    m = md.model
    obj = tonp(m.obj).astype(np.complex128)
    ob = tonp(m.obj_basis) if hasattr(m, 'obj_basis') and m.obj_basis is not None else None
    pb = tonp(m.probe_basis) if getattr(m, 'probe_basis', None) is not None else None
    out = {}
    if md.kind == 'simple':
        pr = tonp(m.probe)
        out = {'Probe Amplitude': (np.abs(pr), pb), 'Probe Phase': (np.angle(pr), pb), 'Object Amplitude': (np.abs(obj), pb),
               'Object Phase': (np.angle(obj), pb)}
    elif md.kind == 'rpi':
        w = tonp(m.weights) if m.weights is not None else None
        out = {'Object Phase': (np.angle(obj), ob), 'Object Amplitude': (np.abs(obj), ob), 'Real Part of T': (obj.real, ob),
               'Imaginary Part of T': (obj.imag, ob)}
    elif md.kind == 'fancy':
        c = md.crop
        v = obj[..., c:-c, c:-c] if c > 0 else obj
        rs = real_space(m, m.fourier_probe)
        pr = tonp(m.probe).astype(np.complex128)
        fs = pr if m.fourier_probe else np.array([ref.ff(x) for x in pr])
        out = {'Object Phase': (np.angle(v), ob), 'Object Amplitude': (np.abs(v), ob), 'Real Part of T': (v.real, ob),
               'Imaginary Part of T': (v.imag, ob), 'Probe Modes, Amplitude': (np.abs(rs), pb),
               'Probe Modes, Fourier Amplitude': (np.abs(fs), None),
               'Detector Background': (tonp(m.background).astype(float) ** 2, None)}
        if m.weights.dim() >= 2:
            out['Mean Weight Matrix Amplitudes'] = (np.nanmean(np.abs(tonp(m.weights)), axis=0), None)
        if getattr(m, 'qe_mask', None) is not None:
            out['Quantum Efficiency Mask'] = (np.abs(tonp(m.qe_mask)), None)
    elif md.kind == 'multislice':
        c = md.crop
        v = obj[..., c:-c, c:-c] if c > 0 else obj
        rs = real_space(m, m.fourier_probe)
        out = {'Object Amplitude': (np.abs(v), ob), 'Object Phase': (np.angle(v), ob), 'Object (T) Imaginary Part': (v.imag, ob),
               'Object (T) Real Part': (v.real, ob), 'Object Product Amplitude': (np.abs(v.prod(axis=0)), ob),
               'Object (T) Sum Imaginary Part': (v.imag.sum(axis=0), ob), 'Object (T) Sum Real Part': (v.real.sum(axis=0), ob),
               'Basis Probe Real Space Amplitudes': (np.abs(rs), pb)}
    elif md.kind == 'bragg':
        c = md.crop
        v = obj[c:-c, c:-c] if c > 0 else obj
        pr = tonp(m.probe)
        out = {'Basis Probe Real Space Amplitudes, Surface Normal View': (np.abs(pr), pb),
               'Basis Probe Real Space Phases, Surface Normal View': (np.angle(pr), pb),
               'Object Amplitude, Surface Normal View': (np.abs(v), ob), 'Object Phase, Surface Normal View': (np.angle(v), ob),
               'Object Amplitude, Beam View': (np.abs(v), (ob, np.array([[0, -1.], [-1, 0], [0, 0]]))),
               'Object Phase, Detector View': (np.angle(v), (ob, tonp(m.det_basis))),
               'Background': (tonp(m.background).astype(float) ** 2, 'raw')}
    return out


def parts(md, m, figs):
    """(title, figure or subfigure) of every plot on the screen"""
    out = []
    for f in figs:
        subs = list(getattr(f, 'subfigs', []))
        if not subs:
            out.append((f.get_label(), f))
            continue
        panel = [q for q in m.plot_panel_list if q['title'] == f.get_label()][0]
        names = [q['title'] for q in panel['plots'] if q.get('condition') is None or q['condition'](m)]
        out += list(zip(names, subs)) if len(names) == len(subs) else [(None, x) for x in subs]
    return out


def wanted_figures(m, panel, level):
    """Titles of the figures of a first inspection"""
    ok = lambda q: q.get('condition') is None or q['condition'](m)
    pl = getattr(m, 'plot_panel_list', None) or []
    sl = getattr(m, 'plot_list', None) or []
    names = []
    if panel:
        names += [q['title'] for q in pl if q.get('plot_level', 1) <= level and ok(q)]
    else:
        names += [r['title'] for q in pl for r in q['plots'] if q.get('plot_level', 1) <= level and ok(r)]
    return names + [q['title'] for q in sl if q.get('plot_level', 1) <= level and ok(q)]


@closing
def inspections(ctx):
    kind = ctx.choice(['fancy', 'fancy', 'fancy', 'simple', 'rpi', 'multislice', 'bragg'])
    level = ctx.choice([1, 2, 3, np.inf])
    panel = ctx.flip()
    own = kind != 'simple' and ctx.flip(0.6)
    cfg = {}
    if own:
        # options of the constructors
        cfg = dict(plot_level=level, panel_plot_mode=panel)
        if kind in ('fancy', 'multislice', 'bragg') and ctx.flip(0.7):
            cfg['units'] = ctx.choice(['um', 'nm', 'A', 'mm', 'pm'])
    md = vm.make(ctx, kind, n=ctx.integer(3, 5), min_side=8, max_side=10, cfg=cfg)
    m, ds = md.model, md.dataset
    if own:
        ctx.expect(m.plot_level == level and bool(m.panel_plot_mode) == panel, 'plotting_options', f'{kind} {m.plot_level} {m.panel_plot_mode}')
        if 'units' in cfg:
            ctx.expect(m.units == cfg['units'], 'units_option', f'{kind} {m.units}')
        ctx.note('plotting_options')
    md.crop = 0
    if hasattr(m, 'obj_view_slice'):
        sl = m.obj_view_slice[-1]
        md.crop = sl.start or 0
    if not own:
        m.plot_level, m.panel_plot_mode = level, panel
    params = {k: v.detach().clone() for k, v in m.state_dict().items()}
    m.loss_history = list(ctx.rng.uniform(1, 9, ctx.integer(1, 6)))
    titles0 = None
    hist = []
    for rnd in range(ctx.integer(1, 4)):
        if rnd:
            with t.no_grad():
                for k, v in m.named_parameters():
                    if v.is_floating_point() or v.is_complex():
                        v.mul_(1 + 0.2 * t.rand_like(v.real if v.is_complex() else v))
            m.loss_history.append(float(ctx.rng.uniform(0.1, 1)))
        state = {k: v.detach().clone() for k, v in m.state_dict().items()}
        rng_state = t.get_rng_state()
        kw = dict(dataset=ds) if ctx.flip(0.7) else {}
        replot = rnd > 0 and ctx.flip(0.4)
        if replot:
            kw['replot_all'] = True
            ctx.note('model_replot')
        closed = []
        if rnd and ctx.flip(0.5):
            f = ctx.choice(list(m.figs)) if m.figs else None
            if f is not None and f.get_label():
                closed = [f.get_label()]
                plt.close(f)
        if 'dataset' in kw and ctx.flip():
            m.inspect(kw.pop('dataset'), **kw)
        else:
            m.inspect(**kw)
        ctx.note('inspections')
        hist.append((replot, bool(closed)))
        for k, v in m.state_dict().items():
            ctx.equal(tonp(v), tonp(state[k]), 'inspect_changes_the_model')
        ctx.expect(bool(t.equal(t.get_rng_state(), rng_state)), 'inspect_draws_random_numbers', kind)
        titles = sorted(f.get_label() for f in m.figs)
        if rnd == 0:
            titles0 = titles
            want = sorted(set(wanted_figures(m, panel, level)))
            ctx.expect(sorted(set(titles)) == want, 'figures_of_the_model', f'{kind} {set(titles) ^ set(want)}')
        elif replot:
            ctx.expect(titles == titles0, 'replotted_figures', f'{set(titles) ^ set(titles0)}')
        else:
            gone = set(closed)
            open_before = [x for x in last if x not in gone]
            ctx.expect(titles == sorted(open_before), 'updated_figures', f'{set(titles) ^ set(open_before)}')
        last = list(titles)
        exp = expected(md)
        units = getattr(m, 'units', 'um') if kind != 'simple' else '$\\mu$m'
        for title, f in parts(md, m, m.figs):
            ctx.require(title is not None, 'subplots', f'{kind} {[x.get_label() for x in m.figs]}')
            if title in exp and title:
                want, basis = exp[title]
                ctx.require(bool(f.axes) and shown(f) is not None, 'nothing_shown', f'{kind}: {title}')
                while want.ndim > 2:
                    want = want[0]
                got = np.asarray(shown(f).get_array(), dtype=float)
                ctx.require(got.shape == want.shape, 'model_image_shape', f'{title}: {got.shape} {want.shape}')
                if 'Phase' in title:
                    amp_ok = np.abs(np.abs(want) - np.pi) > 1e-3
                    ctx.expect(np.all(np.abs(got - want)[amp_ok] < 3e-3), 'model_images', f'{kind}: {title}')
                else:
                    ctx.close(got, want.astype(float), 'model_images', rtol=3e-5, msg=f'{kind}: {title}')
                ctx.note('model_images')
                if isinstance(basis, str):
                    continue
                view = None
                if isinstance(basis, tuple):
                    basis, view = basis
                geometry(ctx, f, want.shape, basis, units, view, tag='model')
            elif title == 'Loss History':
                ctx.close(np.asarray(f.axes[0].lines[-1].get_ydata(), dtype=float), np.array(m.loss_history), 'loss_history_shown', rtol=1e-6)
                ctx.expect(f.axes[0].get_yscale() == 'log' and len(f.axes[0].lines) == 1, 'loss_history_axes', '')
            elif title == 'Illumination Intensity' and md.cfg.get('probe_support_radius') is None:
                W = tonp(m.weights)
                if W.ndim == 1:
                    v = np.abs(W) ** 2
                else:
                    pr = tonp(m.probe).astype(np.complex128)
                    v = (np.abs(np.einsum('nlk,kij->nlij', W, pr)) ** 2).sum(axis=(1, 2, 3)) / (np.abs(pr) ** 2).sum()
                ctx.close(np.asarray(f.axes[0].collections[0].get_array(), dtype=float), v, 'illumination_shown', rtol=1e-4)
                T = tonp(m.corrected_translations(ds))[:, :2] * UNITS[units]
                ctx.close(np.asarray(f.axes[0].collections[0].get_offsets()), T, 'illumination_positions', rtol=1e-5)
            elif title == 'Corrected Translations':
                T = tonp(m.corrected_translations(ds))[:, :2] * UNITS[units]
                L = f.axes[0].lines
                ctx.close(np.asarray(L[-1].get_xydata()), T, 'translations_shown_by_model', rtol=1e-5)
                if kind == 'fancy':
                    ctx.close(np.asarray(L[0].get_xydata()), tonp(ds.translations)[:, :2] * UNITS[units], 'original_translations_shown', rtol=1e-5)
            elif title == '% of Power in Top Mode':
                pr = tonp(m.probe).astype(np.complex128)
                W = tonp(m.weights)
                v = []
                for w in W:
                    e = np.linalg.svd(np.tensordot(w, pr, axes=1).reshape(w.shape[0], -1), compute_uv=False) ** 2
                    v.append(100 * e[0] / e.sum())
                if W.dtype.kind == 'f' or True:
                    ctx.close(np.asarray(f.axes[0].collections[0].get_array(), dtype=float), np.array(v), 'mode_power_shown', rtol=1e-3)
        if rnd and ctx.flip(0.3):
            # browsing a stack does not disturb the next inspection
            for _, f in parts(md, m, m.figs):
                if sliders(f):
                    sliders(f)[0].set_val(1)
                    sliders(f)[0].set_val(0)
    if ctx.flip(0.4) and m.figs:
        pre = os.path.join(ctx.dir, 'fig_')
        m.save_figures(prefix=pre, extension='.png')
        got = sorted(os.path.basename(x)[4:-4] for x in glob.glob(glob.escape(pre) + '*.png'))
        named = sorted(set(f.get_label() for f in m.figs if f.get_label()))
        ctx.expect(set(named) <= set(got) and len(got) <= len(named) + 1, 'saved_figures', f'{kind} {set(named) ^ set(got)}')
        ctx.note('saved_figures', len(got))
    ctx.sig('inspect', kind, panel, level, tuple(hist), bool(params))


@closing
def wavefronts(ctx):
    """Maps of the probes of each exposure"""
    kind = ctx.choice(['fancy', 'multislice'])
    nm = ctx.choice([1, 2, 3])
    units = ctx.choice(['um', 'nm', 'A', 'mm', 'pm'])
    md = vm.make(ctx, kind, n=ctx.integer(3, 6), min_side=8, max_side=11, cfg=dict(n_modes=nm, n_obj_modes=1, dm_rank=ctx.choice([-1, ctx.integer(1, nm)]), units=units, fourier_probe=ctx.flip(0.4))
                 if kind == 'fancy' else dict(n_modes=nm, dm_rank=ctx.choice([-1, ctx.integer(1, nm)]), units=units, fourier_probe=ctx.flip(0.4)))
    m, ds = md.model, md.dataset
    ctx.require(m.weights.dim() == 3, 'weight_matrices', str(m.weights.shape))
    n = m.weights.shape[0]
    W = tonp(m.weights).astype(np.complex128)
    pr = tonp(m.probe).astype(np.complex128)
    rs = tonp(m.probe).astype(np.complex128) * tonp(m.probe_support)
    if m.fourier_probe:
        rs = np.array([ref.iff(x) for x in rs])
        ctx.note('fourier_wavefronts')
    P = np.einsum('nlk,kij->nlij', W, rs)
    modes = []
    for k in range(n):
        u, sv, vh = np.linalg.svd(P[k].reshape(P.shape[1], -1), full_matrices=False)
        modes.append((sv[:, None] * vh).reshape(P[k].shape))
    total = (np.abs(np.einsum('nlk,kij->nlij', W, pr)) ** 2).sum(axis=(1, 2, 3))
    if kind == 'fancy':
        total = total / (np.abs(pr) ** 2).sum()
    T = tonp(m.corrected_translations(ds if ctx.flip() else None))[:, :2] * UNITS[units]
    basis = tonp(m.probe_basis)
    for mode in ['amplitude', 'root_sum_intensity', 'phase']:
        name = ctx.choice([mode, mode, mode.upper(), mode.capitalize()])
        kw = {} if mode == 'amplitude' and ctx.flip(0.3) else dict(mode=name)
        if ctx.flip(0.4):
            kw['dataset'] = ds
        kw['image_title'] = title = ctx.choice(['a', 'Some Probes'])
        fig = plt.figure()
        before = {k: v.detach().clone() for k, v in m.state_dict().items()}
        m.plot_wavefront_variation(fig=fig, **kw)
        what = f'{kind} {kw} {units}'
        ctx.expect(fig.axes[1].get_title() == title, 'wavefront_title', fig.axes[1].get_title())
        b = Browser(n, None if mode == 'root_sum_intensity' else P.shape[1])

        def check(why):
            im = modes[b.idx]
            got = np.asarray(fig.axes[1].images[-1].get_array(), dtype=float)
            ctx.require(got.shape == im.shape[-2:], 'wavefront_shape', f'{got.shape} {im.shape} {what}')
            top = np.abs(im).max()
            if mode == 'root_sum_intensity':
                w = np.sqrt((np.abs(im) ** 2).sum(axis=0))
                ctx.close(got, w, 'wavefront_intensity', rtol=3e-4, scale=w.max(), msg=f'{what} {why}')
            else:
                # modes are only defined if their strengths differ
                e = np.array([np.linalg.norm(x) for x in im])
                q = b.mode
                gap = min([abs(e[q] - x) for j, x in enumerate(e) if j != q] + [np.inf])
                if gap < 0.05 * e[0] or e[q] < 0.05 * e[0]:
                    ctx.note('wavefront_degenerate')
                    return
                if mode == 'amplitude':
                    ctx.close(got, np.abs(im[q]), 'wavefront_amplitude', rtol=3e-4 / min(1, gap / e[0]), scale=top, msg=f'{what} {why} {b.idx} {q}')
                else:
                    # each mode has a phase of its own
                    ok = np.abs(im[q]) > 0.2 * np.abs(im[q]).max()
                    ctx.expect(np.all(np.abs(got) <= np.pi + 1e-4), 'wavefront_phase_range', what)
                    z = np.exp(1j * got[ok]) * np.exp(-1j * np.angle(im[q][ok]))
                    ctx.expect(np.abs(z - z[0]).max() < 2e-2, 'wavefront_phase', f'{what} {why} {np.abs(z - z[0]).max()}')
            ctx.note('wavefront_' + mode)
            pts = fig.axes[0].collections[0]
            sz = np.asarray(pts.get_sizes())
            ctx.expect(int(np.argmax(sz)) == b.idx, 'wavefront_highlight', what)
        pts = fig.axes[0].collections[0]
        ctx.close(np.asarray(pts.get_offsets()), T, 'wavefront_positions', rtol=1e-4, msg=what)
        ctx.close(np.asarray(pts.get_array(), dtype=float), total, 'wavefront_totals', rtol=1e-3, msg=what)
        for ax in fig.axes[:2]:
            for lab in (ax.get_xlabel(), ax.get_ylabel()):
                ctx.expect('(' + units + ')' in lab, 'wavefront_units', f'{lab} {what}')
        e = np.asarray(fig.axes[1].images[-1].get_extent(), dtype=float)
        f = UNITS[units] * np.linalg.norm(basis, axis=0)
        ctx.close(np.array([e[1] - e[0], abs(e[3] - e[2])]), np.array([P.shape[-1] * f[1], P.shape[-2] * f[0]]), 'wavefront_size', rtol=1e-4, msg=what)
        check('plotting')
        for _ in range(ctx.integer(1, 5)):
            on_image = ctx.flip()
            d = ctx.choice([-1, 1])
            ax = fig.axes[1] if on_image else fig.axes[0]
            if ctx.flip():
                key(fig, ax, {-1: 'left', 1: 'right'}[d])
            else:
                scroll(fig, ax, {-1: 'up', 1: 'down'}[d])
            if on_image and b.modes is not None:
                b.mode = (b.mode + d) % b.modes
            else:
                b.idx = (b.idx + d) % n
            check((on_image, d))
        for k, v in m.state_dict().items():
            ctx.equal(tonp(v), tonp(before[k]), 'wavefront_changes_the_model')
    ctx.sig('wavefront', kind, units, n, P.shape[1], bool(m.fourier_probe), nm)


class Recorder:
    def __init__(self):
        self.calls = []


@closing
def trace(ctx):
    """Which plots are updated by a history of inspections"""
    md = vm.make(ctx, 'simple', n=3, min_side=8, max_side=9)
    m, ds = md.model, md.dataset
    rec = Recorder()
    flags = {}

    def plot(name, needs):
        def f(self, fig):
            rec.calls.append((name, 'fig', fig))
            ax = fig.gca() if not fig.axes else fig.axes[0]
            ax.plot([0, len(rec.calls)])

        def g(self, fig, dataset):
            rec.calls.append((name, 'data', fig))
            ctx.expect(dataset is ds, 'dataset_given_to_plot', name)
            fig.add_axes([0.1, 0.1, 0.8, 0.8]).plot([0, 1])
        return g if needs else f

    def entry(name):
        e = dict(title=name, plot_func=plot(name, needs[name]))
        if name in levels:
            e['plot_level'] = levels[name]
        if name in conds:
            if conds[name]:
                e['condition'] = lambda self, dataset: flags[name]
            else:
                e['condition'] = lambda self: flags[name]
        return e
    n1, n2 = ctx.integer(0, 3), ctx.integer(0, 4)
    names = [f'plot {k}' for k in range(n1 * 3 + n2)]
    needs = {k: ctx.flip(0.3) for k in names}
    levels = {k: ctx.choice([1, 2, 3]) for k in names if ctx.flip(0.6)}
    conds = {k: ctx.flip(0.3) for k in names if ctx.flip(0.5)}
    flags.update({k: ctx.flip(0.7) for k in names})
    panels, used = [], 0
    for q in range(n1):
        k = ctx.integer(1, 3)
        title = f'panel {q}'
        e = dict(title=title, grid=(2, 2), plots=[])
        for r in range(k):
            en = entry(names[used])
            en.pop('plot_level', None)
            en['subplot'] = (r // 2, r % 2)
            e['plots'].append(en)
            used += 1
        if ctx.flip(0.6):
            e['plot_level'] = ctx.choice([1, 2, 3])
        if ctx.flip(0.3):
            flags[title] = ctx.flip(0.7)
            if ctx.flip(0.4):
                e['condition'] = (lambda title: lambda self, dataset: flags[title])(title)
            else:
                e['condition'] = (lambda title: lambda self: flags[title])(title)
        panels.append(e)
    singles = [entry(names[used + k]) for k in range(n2)]
    m.plot_panel_list, m.plot_list = panels, singles
    panel = m.panel_plot_mode = ctx.flip()
    level = m.plot_level = ctx.choice([1, 2, 3, np.inf])
    if panel:
        ctx.note('trace_panel')
    first = True
    known = set()                       # figures which are on the screen
    hist = []
    callbacks = {}
    for step in range(ctx.integer(1, 6)):
        data = ds if ctx.flip(0.7) else None
        if data is None:
            # conditions with two arguments need one
            pass
        replot = ctx.flip(0.2)
        wait = ctx.choice([None, None, 0, 1e6])
        for k in flags:
            if ctx.flip(0.15):
                flags[k] = not flags[k]
        if known and ctx.flip(0.4):
            x = ctx.choice(sorted(known))
            plt.close(x)
            known.discard(x)
            ctx.note('trace_closed')
        rec.calls.clear()
        m.inspect(data, replot_all=replot, min_interval=wait)
        want = []
        if not (wait == 1e6 and not first):
            lv = lambda q: q.get('plot_level', 1)
            ok = lambda q: 'condition' not in q or flags[q['title']]
            alive = lambda title: first or replot or title in known
            todo = []
            if panel:
                for q in panels:
                    if lv(q) <= level and ok(q) and alive(q['title']):
                        known.add(q['title'])
                        todo += [(r, q['title']) for r in q['plots'] if ok(r)]
            else:
                for q in panels:
                    for r in q['plots']:
                        if lv(q) <= level and ok(r) and alive(r['title']):
                            known.add(r['title'])
                            todo.append((r, r['title']))
            for r in singles:
                if lv(r) <= level and ok(r) and alive(r['title']):
                    known.add(r['title'])
                    todo.append((r, r['title']))
            for r, where in todo:
                nm = r['title']
                if not needs[nm]:
                    want.append((nm, 'fig', where))
                elif data is not None:
                    want.append((nm, 'data', where))
            first = False
        got = []
        for nm, how, f in rec.calls:
            top = f
            while getattr(top, 'figure', top) is not top and top.figure is not None:
                top = top.figure
            got.append((nm, how, top.get_label()))
        ctx.note('trace_calls', len(got) + 1)
        ctx.expect(sorted(got) == sorted(want), 'plots_updated',
                   f'{set(got) ^ set(want)} step {step} panel {panel} level {level} replot {replot} wait {wait} {hist}')
        ctx.expect(sorted(x for x in plt.get_figlabels()) == sorted(known), 'windows', f'{sorted(plt.get_figlabels())} {sorted(known)}')
        hist.append((replot, wait, data is None, len(known)))
        for x in known:
            c = plt.figure(x).canvas
            nc = sum(len(v) for v in c.callbacks.callbacks.values())
            if x in callbacks and callbacks[x][0] is c:
                callbacks[x][1].append(nc)
            else:
                callbacks[x] = (c, [nc])
    ctx.sig('trace', panel, level, n1, n2, tuple(hist))


@closing
def callbacks(ctx):
    """Repeated inspections do not pile up callbacks, and each event acts once"""
    md = vm.make(ctx, 'fancy', n=3, min_side=8, max_side=9, cfg=dict(n_modes=3), rich=False)
    m = md.model
    m.panel_plot_mode, m.plot_level = ctx.flip(), ctx.choice([1, 2])
    count = []
    for k in range(4):
        m.inspect(md.dataset)
        count.append([sum(len(v) for v in f.canvas.callbacks.callbacks.values()) for f in m.figs])
    ctx.expect(count[3] == count[1], 'callbacks_pile_up', str(count))
    want = {'Probe Modes, Amplitude': np.abs(tonp(m.probe))}
    for title, f in parts(md, m, m.figs):
        if title in want and m.probe.shape[0] == 3:
            top = f if not hasattr(f, 'figure') or f.figure is f or f.figure is None else f.figure
            top.canvas.draw()
            for k in [1, 2, 0, 2]:
                key(top, f.axes[0], 'up' if k == 2 and True and int(sliders(f)[0].val) == 0 else 'down')
                ctx.close(np.asarray(shown(f).get_array(), dtype=float), want[title][k], 'mode_shown', rtol=1e-6, msg=f'mode {k}')
                ctx.note('key')
            # and the mode stays when the figure is updated, or returns to the first one when it is made again
            with t.no_grad():
                m.probe.mul_(2)
            m.inspect(md.dataset)
            g = dict(parts(md, m, m.figs))[title]
            j = int(sliders(g)[0].val)
            ctx.close(np.asarray(shown(g).get_array(), dtype=float), 2 * want[title][j], 'mode_shown_after_update', rtol=1e-6, msg=f'mode {j}')
            break
    ctx.sig('callbacks', m.panel_plot_mode, m.plot_level)


@closing
def compare(ctx):
    """model.compare shows simulated and measured patterns and their difference"""
    kind = ctx.choice(['fancy', 'simple', 'multislice'])
    md = vm.make(ctx, kind, n=ctx.integer(2, 5), min_side=8, max_side=10)
    m, ds = md.model, md.dataset
    log = ctx.flip(0.4)
    if log and (not hasattr(m, 'background') or True):
        # logarithms need positive patterns
        with t.no_grad():
            ds.patterns += 1
    m.compare(ds, logarithmic=log)
    fig = plt.gcf()
    n = len(ds)
    k = 0
    mask = tonp(m.mask).astype(float) if getattr(m, 'mask', None) is not None else 1.

    def check(what):
        with t.no_grad():
            inp, out = ds[k:k + 1]
            sim = tonp(m.forward(*inp))[0].astype(float)
        meas = tonp(out)[0].astype(float)
        if log:
            sim, meas = np.log10(sim), np.log10(meas)
        sc = max(np.abs(meas).max(), np.abs(sim).max())
        got = [np.asarray(a.images[-1].get_array(), dtype=float) for a in fig.axes[:3]]
        ctx.close(got[0] * mask, sim * mask, 'compared_simulation', rtol=1e-5, scale=sc, msg=f'{what} {k}')
        ctx.close(got[1], meas * mask, 'compared_measurement', rtol=1e-5, scale=sc, msg=f'{what} {k}')
        ctx.close(got[2], (sim - meas) * mask, 'compared_difference', rtol=1e-5, scale=sc, msg=f'{what} {k}')
        ctx.note('comparisons')
    check('first')
    for _ in range(ctx.integer(1, 4)):
        act = ctx.choice(['up', 'down', 'scroll_up', 'scroll_down', 'slider'])
        if act == 'slider':
            k = ctx.integer(0, n - 1)
            m.slider.set_val(k)
        else:
            d = -1 if act.endswith('up') else 1
            (scroll if act.startswith('scroll') else key)(fig, fig.axes[0], 'up' if d < 0 else 'down')
            k = (k + d) % n
        check(act)
    ctx.sig('compare', kind, log)


@closing
def interval(ctx):
    """The shortest time between two inspections counts from the last one which was made"""
    m = vm.make(ctx, 'simple', n=3, min_side=8, max_side=9, rich=False).model
    calls = []
    m.plot_panel_list = []
    m.plot_list = [dict(title='one', plot_func=lambda self, fig: calls.append(fig))]
    gap = 1.5
    m.inspect()
    ctx.expect(len(calls) == 1, 'interval_first', str(len(calls)))
    last = time.monotonic()
    time.sleep(gap * 1.1)
    before = time.monotonic()
    m.inspect(min_interval=gap)
    ctx.expect(len(calls) == 2, 'interval_waited', f'{time.monotonic() - last} s after the last one, {gap} asked for')
    skipped = 0
    for k in range(3):
        m.inspect(min_interval=gap)
        if time.monotonic() - before < gap:
            ctx.expect(len(calls) == 2, 'interval_not_waited', f'{len(calls)} after {k + 1}')
            skipped += 1
    ctx.note('interval', skipped)
    n = len(calls)
    m.inspect(min_interval=0 if ctx.flip() else None)
    ctx.expect(len(calls) == n + 1, 'interval_none', '')
    ctx.sig('interval', ctx.integer(0, 5))


def elsewhere(ctx):
    """A plot goes to the figure it is given, and to no other, whichever figure is the current one"""
    plt.close('all')
    figs = [plt.figure() for k in range(ctx.integer(2, 4))]
    for f in figs:
        for k in range(ctx.integer(0, 2)):
            f.add_subplot(1, 2, k + 1).plot([1, 2])
    target, current = ctx.choice(figs), ctx.choice(figs)
    n = ctx.integer(2, 6)
    im = ctx.rng.normal(size=(5, 4)) + 1j * ctx.rng.normal(size=(5, 4))
    T, v = ctx.rng.normal(size=(n, 2)) * 1e-6, ctx.rng.uniform(1, 2, n)
    kind = ctx.choice(['loss', 'real', 'imag', 'amplitude', 'phase', 'colorized', 'translations', 'nanomap', 'images', 'pieces'])
    fig = target
    if kind not in ('images',) and ctx.flip(0.3):
        target.clear()
        fig = target.subfigures(1, 2)[ctx.integer(0, 1)]
        ctx.note('elsewhere_subfigure')
    plt.figure(current.number)

    def look(f):
        return [(type(a).__name__, a.get_title(), a.get_xlabel(), a.get_ylabel(), len(a.get_children()), tuple(np.ravel(a.get_position().bounds)),
                 a.get_xscale(), a.get_yscale(), a.get_aspect(), a.xaxis_inverted()) for a in f.axes]
    before = {f.number: look(f) for f in figs if f is not target}
    from cdtools.models.base import CDIModel
    if kind == 'loss':
        m = CDIModel()
        m.loss_history = list(ctx.rng.uniform(1, 9, 4))
        out = m.plot_loss_history(fig)
        ctx.expect(any(a.get_title() == 'Loss History' for a in fig.axes), 'elsewhere_title', 'no title')
    elif kind in ('real', 'imag', 'amplitude', 'phase', 'colorized'):
        out = getattr(p, 'plot_' + kind)(wrap(ctx, im), fig=fig, title='a title')
        ctx.expect(any(a.get_title() == 'a title' for a in fig.axes), 'elsewhere_title', 'no title')
    elif kind == 'translations':
        out = p.plot_translations(wrap(ctx, T, False), fig=fig)
    elif kind == 'pieces':
        out = p.plot_translations(wrap(ctx, T, False), fig=fig)
        plt.figure(current.number)
        out = p.plot_translations(wrap(ctx, T * 1.1, False), fig=fig, clear_fig=False)
        ctx.expect(len(fig.axes) == 1, 'elsewhere_axes', lambda: f'{len(fig.axes)}')
    elif kind == 'nanomap':
        out = p.plot_nanomap(wrap(ctx, T, False), wrap(ctx, v, False), fig=fig)
    else:
        ims = np.abs(ctx.rng.normal(size=(n, 4, 4)))
        out = p.plot_nanomap_with_images(T, lambda k: ims[k], values=v, fig=fig)
    ctx.expect(len(fig.axes) >= 1, 'elsewhere_drawn', kind)
    ctx.expect(sorted(plt.get_fignums()) == sorted(f.number for f in figs), 'elsewhere_figures', lambda: f'{kind}: {plt.get_fignums()}')
    for f in figs:
        if f is not target:
            ctx.expect(look(f) == before[f.number], 'elsewhere_drawn_on', lambda: f'{kind}: {before[f.number]} became {look(f)}')
            ctx.note('elsewhere_others')
    ctx.note('elsewhere_not_current', int(target is not current))
    plt.close('all')
    ctx.sig('e', kind, len(figs), fig is target, target is current)


WORKLOADS = {'elsewhere': (elsewhere, 120, 600), 'images': (images, 140, 1200), 'colorized': (colorized, 45, 350), 'scatter': (scatter, 120, 800),
             'nanomaps': (nanomaps, 60, 500), 'dataset': (dataset, 120, 500), 'inspections': (inspections, 70, 500), 'wavefronts': (wavefronts, 30, 250),
             'trace': (trace, 130, 900), 'callbacks': (callbacks, 12, 80), 'interval': (interval, 4, 12), 'compare': (compare, 50, 350)}
