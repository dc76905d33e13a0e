"""P29 plots show the data they are given"""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import spec
from harness.core import Sub, check, close, raises
from harness.gen import small_seed

os.environ['MPLBACKEND'] = 'Agg'

RULE = ('lines: drawn 1-D spectra and collections (points or bin edges, '
        'repeated abscissae, labels from arguments, metadata or none, '
        'keyword arguments, existing lines and legend on the axes) given to '
        'plot_1d_to_axis and, as 1-4 panels, to plot_1d; the lines, limits, '
        'ticks, legend and panel widths of the figure are compared with the '
        'data.  images: drawn 2-D spectra to plot_2d(_to_axis), in equal or '
        'mixed units; the figure is rendered and the colour of the pixel at '
        'the centre of every bin compared with the colour map of the value '
        'there.  refusals: unequal units, wrong numbers of labels and wrong '
        'types.  Every input is checked to be unchanged.  Non-trivial: '
        'several lines, panels or bins.')
TECHNIQUE = ('property-based testing: inspection of the figure and of '
             'rendered pixels against the drawn data')
ASSUMPTIONS = ['Agg rendering', 'a pixel is judged if bins are at least 5 '
               'pixels wide', 'for bilinear interpolation only limits and '
               'colour scale are judged']
OTHER = {'meV': 'eV', 'THz': 'GHz', '1/cm': '1/m', 'eV': 'meV',
         'hartree': 'eV', '1/angstrom': '1/nm', '1/bohr': '1/angstrom',
         '1/meV': '1/eV', 'mbarn/meV': 'barn/meV', 'barn': 'mbarn',
         'dimensionless': 'dimensionless',
         'angstrom**2/THz': 'bohr**2/THz'}
TEXTS = ['A', 'band 1', '', 'Total', '$\\alpha$', 'Na']


def pyplot():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    return plt


@st.composite
def line_cases(draw):
    n = draw(st.integers(1, 4))
    cls = draw(st.sampled_from([('Spectrum1D',), ('Spectrum1DCollection',),
                                ('Spectrum1D', 'Spectrum1DCollection')]))
    p = [draw(spec.spectra(cls, max_n=7, min_n=2)) for _ in range(n)]
    for x in p:
        x.update(mag=p[0]['mag'])
    nl = p[0]['nl']
    return dict(
        panels=p, nl=nl, seed=draw(small_seed),
        repeat=draw(st.booleans()),
        labels=draw(st.sampled_from([None, None, 'list', 'tuple', 'str'])),
        texts=[draw(st.sampled_from(TEXTS)) for _ in range(nl)],
        kw=draw(st.sampled_from([{}, {}, {'lw': 2.5}, {'color': 'k'},
                                 {'ls': '--', 'alpha': .5},
                                 {'marker': 'x', 'color': 'C3'}])),
        ymin=draw(st.sampled_from([None, None, 0., -2.5])),
        ymax=draw(st.sampled_from([None, None, 4., 10.])),
        title=draw(st.sampled_from(['', 'TITLE'])),
        xlabel=draw(st.sampled_from(['', 'XLABEL'])),
        ylabel=draw(st.sampled_from(['', 'YLABEL'])),
        single=draw(st.sampled_from(['one', 'tuple', 'list'])),
        existing=draw(st.booleans()), big=draw(st.integers(0, 3)))


def line_model(c, k):
    d = dict(c['panels'][k])
    d['nl'] = c['nl'] if c['labels'] is None or k else c['nl']
    d['lines'] = (None if d['lines'] is None else
                  [dict(d['lines'][i % len(d['lines'])])
                   for i in range(c['nl'])])
    for key in ('x_unit', 'd_unit'):
        d[key] = c['panels'][0][key]
    m = spec.model(d)
    if c['repeat'] and not d['edges'] and len(m.x) > 2:
        rng = np.random.default_rng([c['seed'], 102, k])
        for i in rng.integers(1, len(m.x), 2):
            m.x[i:] -= m.x[i] - m.x[i - 1]
            # exact repetition
            m.x[i] = m.x[i - 1]
    if k == c['big']:
        m.d = m.d * 30
    return m


def centres(x, n):
    return x if len(x) == n else .5 * (x[1:] + x[:-1])


def rows(m):
    return m.d if m.coll else m.d[None]


def expect_lines(ax, m, labels, kw, offset=0):
    """lines of the axes must be those of the model; -> legend labels"""
    import matplotlib.colors as mc
    x = centres(m.x, rows(m).shape[1])
    br = [0]
    if len(m.x) == len(x):
        br += [i for i in range(1, len(x)) if x[i] == x[i - 1]]
    br.append(None)
    lines = ax.get_lines()[offset:]
    n = (len(br) - 1) * len(rows(m))
    check(len(lines) == n, f'{len(lines)} lines drawn for '
          f'{len(rows(m))} spectra in {len(br) - 1} segments')
    it = iter(lines)
    out = []
    for i, y in enumerate(rows(m)):
        colour = None
        for a, b in zip(br[:-1], br[1:]):
            ln = next(it)
            close(ln.get_xdata(), x[a:b], 1e-12, 1e-12, f'abscissa of line '
                  f'{i} from point {a}')
            close(ln.get_ydata(), y[a:b], 1e-12, 0, f'values of line {i} '
                  f'from point {a}')
            if colour is not None:
                check(ln.get_color() == colour, 'colour differs between '
                      'segments of a line')
            colour = ln.get_color()
            lab = ln.get_label()
            exp = labels[i] if a == 0 else None
            if exp in (None, ''):
                check(lab.startswith('_') or lab == '',
                      f'line {i}, segment at {a} has label {lab!r}')
            else:
                check(lab == str(exp), f'line {i} has label {lab!r}, '
                      f'expected {exp!r}')
            for k, v in kw.items():
                got = {'lw': ln.get_linewidth, 'ls': ln.get_linestyle,
                       'alpha': ln.get_alpha, 'color': ln.get_color,
                       'c': ln.get_color, 'marker': ln.get_marker}[k]()
                if k in ('c', 'color'):
                    got, v = mc.to_rgba(got), mc.to_rgba(v)
                check(got == v, f'{k} is {got}, given {v}')
        if labels[i] not in (None, '') and not str(labels[i]).startswith('_'):
            out.append(str(labels[i]))
    return out


def expect_ticks(ax, m):
    if not m.labels:
        return
    pos = m.x[[i for i, _ in m.labels]]
    close(ax.get_xticks(), pos, 1e-12, 1e-12, 'tick positions')
    # labels at the same abscissa cannot be told apart
    one = [list(pos).count(p) == 1 for p in pos]
    got = [x.get_text() for x in ax.get_xticklabels()]
    check(len(got) == len(pos) and all(
        g == s for g, (_, s), o in zip(got, m.labels, one) if o),
        lambda: f'tick labels {got}, expected {m.labels}')


def expect_xlim(ax, lo, hi):
    close(ax.get_xlim(), (lo, hi), 1e-12, 1e-12, 'x limits')


def legend(ax):
    lg = ax.get_legend()
    return [] if lg is None else [x.get_text() for x in lg.get_texts()]


def expect_widths(axes, ranges):
    w = np.array([a.get_position().width for a in axes])
    return any(np.allclose(w / w[0], np.array(r) / r[0], rtol=1e-6)
               for r in ranges)


def given_labels(c, n):
    t = (c['texts'] * n)[:n]
    if c['labels'] is None:
        return None, None
    if c['labels'] == 'str' and n == 1:
        return t[0], t
    return (tuple(t) if c['labels'] == 'tuple' else list(t)), t


def run_lines(c, t):
    import euphonic.plot as ep
    plt = pyplot()
    ms = [line_model(c, k) for k in range(len(c['panels']))]
    if c['labels'] is not None:
        # one set of labels for all panels: equal numbers of lines
        n = len(rows(ms[0]))
        ms = [m for m in ms if len(rows(m)) == n]
    objs = [spec.make(m) for m in ms]
    before = [snapshot(o) for o in objs]
    t.tag(f'{len(ms)} panels', 'edges' if len(ms[0].x) != rows(
        ms[0]).shape[1] else 'points', 'labels' if c['labels'] else
        'metadata labels')
    t.hit(len(ms) > 1 or len(rows(ms[0])) > 1)
    for m in ms:
        if abs(m.x[-1] - m.x[0]) <= 1e-9 * np.abs(m.x).max():
            # matplotlib widens limits that (almost) coincide
            return

    def labels_of(m):
        arg, exp = given_labels(c, len(rows(m)))
        if exp is None:
            exp = [x.get('label') for x in m.metas]
        return arg, exp
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            # one axis
            fig, ax = plt.subplots()
            off, old = 0, []
            if c['existing']:
                ax.plot([0, 1], [0, 1], label='old')
                ax.legend()
                off, old = 1, ['old']
            arg, exp = labels_of(ms[0])
            r = ep.plot_1d_to_axis(objs[0], ax, **(
                {} if arg is None else dict(labels=arg)), **c['kw'])
            check(r is None, f'plot_1d_to_axis returned {r!r}')
            lab = expect_lines(ax, ms[0], exp, c['kw'], off)
            check(legend(ax) == (old + lab if c['existing'] else []),
                  f'legend {legend(ax)}, expected '
                  f'{old + lab if c["existing"] else []}')
            expect_xlim(ax, ms[0].x.min(), ms[0].x.max())
            expect_ticks(ax, ms[0])
            check(fig.axes == [ax], 'axes added')
            # figure
            arg = objs if c['single'] == 'list' else tuple(objs)
            if len(objs) == 1 and c['single'] == 'one':
                arg = objs[0]
            kw = dict(c['kw'])
            for k in ('title', 'xlabel', 'ylabel', 'ymin', 'ymax'):
                if c[k] not in ('', None):
                    kw[k] = c[k]
            la, _ = labels_of(ms[0])
            if la is not None:
                kw['labels'] = la
            fig = ep.plot_1d(arg, **kw)
            check(type(fig).__name__ == 'Figure', f'{type(fig)} returned')
            axes = fig.axes[:len(ms)]
            lo = min(np.nanmin(rows(m)) for m in ms)
            hi = max(np.nanmax(rows(m)) for m in ms)
            for k, (ax, m) in enumerate(zip(axes, ms)):
                lab = expect_lines(ax, m, labels_of(m)[1], c['kw'])
                check(legend(ax) == (lab if k == 0 else []),
                      f'panel {k}: legend {legend(ax)}, labels {lab}')
                expect_xlim(ax, m.x.min(), m.x.max())
                expect_ticks(ax, m)
                y = ax.get_ylim()
                if c['ymin'] is not None:
                    close(y[0], c['ymin'], 1e-12, 0, 'ymin')
                elif c['ymax'] is None or c['ymax'] > lo:
                    check(y[0] <= lo, f'panel {k}: lower limit {y[0]} hides '
                          f'data down to {lo}')
                if c['ymax'] is not None:
                    close(y[1], c['ymax'], 1e-12, 0, 'ymax')
                elif c['ymin'] is None or c['ymin'] < hi:
                    check(y[1] >= hi, f'panel {k}: upper limit {y[1]} hides '
                          f'data up to {hi}')
            rng = [m.x.max() - m.x.min() for m in ms]
            check(expect_widths(axes, [rng]), lambda: f'panel widths '
                  f'{[a.get_position().width for a in axes]}, x ranges '
                  f'{rng}')
            x0 = [a.get_position().x0 for a in axes]
            check(x0 == sorted(x0), f'panels from left to right at {x0}')
            expect_texts(fig, c)
    finally:
        plt.close('all')
    for b, o in zip(before, objs):
        same(b, snapshot(o), 'spectrum after plotting')


def expect_texts(fig, c):
    xs = [a.get_xlabel() for a in fig.axes if a.get_xlabel()]
    ys = [a.get_ylabel() for a in fig.axes if a.get_ylabel()]
    check(xs == ([c['xlabel']] if c['xlabel'] else []), f'x label {xs}')
    check(ys == ([c['ylabel']] if c['ylabel'] else []), f'y label {ys}')
    s = fig._suptitle.get_text() if fig._suptitle is not None else ''
    check(s == c['title'], f'title {s!r}, expected {c["title"]!r}')
    # a frame that only carries the common labels has no scale of its own
    for a in fig.axes:
        if not a.get_lines() and not a.images and not a.collections:
            stray = [q.get_text() for q in
                     a.get_xticklabels() + a.get_yticklabels()
                     if q.get_visible() and q.get_color() != 'none'
                     and q.get_text()]
            check(not stray or not a.axison, f'labels {stray} of an empty '
                  'frame')


# -------------------------------------------------------------------- images

@st.composite
def image_cases(draw):
    n = draw(st.integers(1, 3))
    p = [draw(spec.spectra(('Spectrum2D',), max_n=6, min_n=2, nan=True))
         for _ in range(n)]
    for x in p:
        x.update(mag=p[0]['mag'])
    return dict(
        panels=p,
        mixed=draw(st.booleans()),
        which=[draw(st.integers(0, 7)) for _ in range(n)],
        vmin=draw(st.sampled_from([None, None, 0., .5])),
        vmax=draw(st.sampled_from([None, None, 1., 2.5])),
        cmap=draw(st.sampled_from([None, 'viridis', 'bone', 'object'])),
        interp=draw(st.sampled_from(['nearest', 'nearest', 'bilinear'])),
        norm=draw(st.booleans()),
        title=draw(st.sampled_from(['', 'TITLE'])),
        xlabel=draw(st.sampled_from(['', 'XLABEL'])),
        ylabel=draw(st.sampled_from(['', 'YLABEL'])),
        yshift=draw(st.sampled_from([0., 0., 3.])),
        zscale=draw(st.sampled_from([1., 1., 8.])),
        tup=draw(st.booleans()))


def edges_of(x, n):
    if len(x) == n + 1:
        return x
    d = np.diff(x) / 2
    return np.concatenate(([x[0]], x[:-1] + d, [x[-1]]))


def factor(a, b):
    import euphonic as E
    return E.Quantity(1., a).to(b).magnitude


def expect_image(fig, ax, m, z, cmap, vmin, vmax, fx, fy, pixels=True):
    import matplotlib as mpl
    nx, ny = z.shape
    xe, ye = edges_of(m.x, nx) * fx, edges_of(m.y, ny) * fy
    expect_xlim(ax, xe.min(), xe.max())
    close(ax.get_images()[0].norm.vmin, vmin, 1e-9, 1e-12, 'colour minimum')
    close(ax.get_images()[0].norm.vmax, vmax, 1e-9, 1e-12, 'colour maximum')
    if not pixels:
        return 0
    buf = np.asarray(fig.canvas.buffer_rgba())
    h = buf.shape[0]
    cm = mpl.colormaps[mpl.rcParams['image.cmap'] if cmap is None else cmap
                       ] if not hasattr(cmap, 'N') else cmap
    xc, yc = centres(m.x, nx) * fx, centres(m.y, ny) * fy
    box = ax.get_window_extent()
    px = ax.transData.transform([(x, yc[0]) for x in xc])[:, 0]
    py = ax.transData.transform([(xc[0], y) for y in yc])[:, 1]
    okx = (px > box.x0 + 3) & (px < box.x1 - 3)
    oky = (py > box.y0 + 3) & (py < box.y1 - 3)
    for p, ok in ((px, okx), (py, oky)):
        d = np.abs(np.diff(p))
        ok[1:] &= d > 5
        ok[:-1] &= d > 5
    seen = 0
    for i in np.where(okx)[0]:
        for j in np.where(oky)[0]:
            if np.isnan(z[i, j]):
                continue
            u = 0. if vmax == vmin else (z[i, j] - vmin) / (vmax - vmin)
            got = buf[h - 1 - int(py[j]), int(px[i])][:3].astype(int)
            seen += 1
            near = [np.array(cm(float(np.clip(u + e, 0, 1)))[:3]) * 255
                    for e in (-.006, 0, .006)]
            lo, hi = np.min(near, 0) - 3, np.max(near, 0) + 3
            check(np.all((got >= lo) & (got <= hi)), lambda: f'colour at '
                  f'bin {i}, {j} (value {z[i, j]:.4g} in [{vmin:.4g}, '
                  f'{vmax:.4g}]) is {got}, expected '
                  f'{np.round(near[1]).astype(int)}')
    return seen


def run_images(c, t):
    import matplotlib as mpl
    import matplotlib.colors as mc
    import euphonic as E
    import euphonic.plot as ep
    plt = pyplot()
    ms, objs, factors = [], [], []
    for k, d in enumerate(c['panels']):
        d = dict(d)
        for key in ('x_unit', 'y_unit', 'd_unit'):
            d[key] = c['panels'][0][key]
            if c['mixed'] and k and c['which'][k] >> ('x_unit', 'y_unit',
                                                      'd_unit').index(
                                                          key) & 1:
                d[key] = OTHER[d[key]]
        m = spec.model(d)
        first = c['panels'][0]
        f = [factor(d[key], first[key])
             for key in ('x_unit', 'y_unit', 'd_unit')]
        # comparable magnitudes in the first panel's units
        m.x, m.y, m.d = m.x / f[0], (m.y + (c['yshift'] if k else 0)
                                     ) / f[1], m.d / f[2]
        if k == len(c['panels']) - 1:
            m.d = m.d * c['zscale']
        if np.isnan(m.d).all():
            return
        ms.append(m)
        factors.append(f)
        objs.append(spec.make(m))
    before = [snapshot(o) for o in objs]
    cmap = mpl.colormaps['plasma'] if c['cmap'] == 'object' else c['cmap']
    t.tag(f'{len(ms)} panels', 'mixed units' if c['mixed'] and len(ms) > 1
          else 'equal units', c['interp'])
    t.hit()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fig, ax = plt.subplots()
            kw = {}
            m = ms[0]
            vmin, vmax = np.nanmin(m.d), np.nanmax(m.d)
            if c['norm']:
                vmin, vmax = vmin - .3, vmax + 1
                kw['norm'] = mc.Normalize(vmin, vmax)
            if cmap is not None:
                kw['cmap'] = cmap
            if c['interp'] != 'nearest':
                kw['interpolation'] = c['interp']
            im = ep.plot_2d_to_axis(objs[0], ax, **kw)
            check(im in ax.get_images() and len(ax.get_images()) == 1,
                  'image on the axes')
            fig.canvas.draw()
            ye = edges_of(m.y, m.d.shape[1])
            close(ax.get_ylim(), (ye[0], ye[-1]), 1e-12, 1e-12, 'y limits')
            expect_ticks(ax, m)
            n = expect_image(fig, ax, m, m.d, cmap, vmin, vmax, 1, 1,
                             c['interp'] == 'nearest')
            # several panels
            kw = {k: c[k] for k in ('vmin', 'vmax', 'title', 'xlabel',
                                    'ylabel') if c[k] not in (None, '')}
            if cmap is not None:
                kw['cmap'] = cmap
            arg = tuple(objs) if c['tup'] else objs
            if len(objs) == 1 and c['tup']:
                arg = objs[0]
            zs = [x.d * f[2] for x, f in zip(ms, factors)]
            vmin = c['vmin'] if c['vmin'] is not None else min(
                np.nanmin(z) for z in zs)
            vmax = c['vmax'] if c['vmax'] is not None else max(
                np.nanmax(z) for z in zs)
            if vmin > vmax:
                return
            fig = ep.plot_2d(arg, **kw)
            axes = fig.axes[:len(ms)]
            fig.canvas.draw()
            ye = [edges_of(x.y, x.d.shape[1]) * f[1]
                  for x, f in zip(ms, factors)]
            ylim = (min(y[0] for y in ye), max(y[-1] for y in ye))
            for k, (a, x, z, f) in enumerate(zip(axes, ms, zs, factors)):
                close(a.get_ylim(), ylim, 1e-9, 1e-9, 'y limits')
                n += expect_image(fig, a, x, z, cmap, vmin, vmax, f[0],
                                  f[1])
                if x.labels:
                    pos = x.x[[i for i, _ in x.labels]] * f[0]
                    close(a.get_xticks(), pos, 1e-9, 1e-12, 'ticks')
                    check([q.get_text() for q in a.get_xticklabels()]
                          == [s for _, s in x.labels], 'tick labels')
            r1 = [(x.x[-1] - x.x[0]) * f[0] for x, f in zip(ms, factors)]
            r2 = []
            for x, f in zip(ms, factors):
                e = edges_of(x.x, x.d.shape[0])
                r2.append((e[-1] - e[0]) * f[0])
            check(expect_widths(axes, [r1, r2]), lambda: f'panel widths '
                  f'{[a.get_position().width for a in axes]}, x ranges {r1}')
            x0 = [a.get_position().x0 for a in axes]
            check(x0 == sorted(x0), f'panels at {x0}')
            expect_texts(fig, c)
            t.tag('pixels judged' if n else 'no pixel judged')
    finally:
        plt.close('all')
    for b, o in zip(before, objs):
        same(b, snapshot(o), 'spectrum after plotting')


# ------------------------------------------------------------------ refusals

@st.composite
def refuse_cases(draw):
    return dict(
        a=draw(spec.spectra(('Spectrum1D', 'Spectrum1DCollection'), max_n=5,
                            min_n=2)),
        b=draw(spec.spectra(('Spectrum2D',), max_n=5, min_n=2)),
        kind=draw(st.sampled_from(
            ['x unit', 'y unit', 'scaled unit', 'labels', 'type', 'type 1d',
             '2d unit'])), order=draw(st.booleans()),
        extra=draw(st.sampled_from([-1, 1, 2])), axis=draw(st.integers(0, 2)),
        n=draw(st.integers(2, 4)))


def run_refuse(c, t):
    import euphonic.plot as ep
    plt = pyplot()
    m = spec.model(c['a'])
    o = spec.make(m)
    t.tag(c['kind'])
    t.hit()
    try:
        k = c['kind']
        if k in ('x unit', 'y unit', 'scaled unit'):
            m2 = spec.model(c['a'])
            if k == 'scaled unit':
                m2.x_unit = OTHER[m2.x_unit]
            elif k == 'x unit':
                m2.x_unit = 'kelvin'
            else:
                m2.d_unit = 'kelvin'
            seq = [o] * (c['n'] - 1) + [spec.make(m2)]
            if not c['order']:
                seq = seq[::-1]
            raises(ValueError, lambda: ep.plot_1d(seq), f'plot_1d with '
                   f'unequal {k}')
        elif k == 'labels':
            n = len(rows(m)) + c['extra']
            if n < 0:
                return
            lab = [str(i) for i in range(n)]
            fig, ax = plt.subplots()
            raises(ValueError, lambda: ep.plot_1d_to_axis(o, ax, lab),
                   f'{n} labels for {len(rows(m))} lines')
            raises(ValueError, lambda: ep.plot_1d(o, labels=lab),
                   f'{n} labels for {len(rows(m))} lines')
        elif k == 'type':
            fig, ax = plt.subplots()
            raises(TypeError, lambda: ep.plot_1d_to_axis(
                spec.make(spec.model(c['b'])), ax), 'Spectrum2D as lines')
        elif k == 'type 1d':
            raises(Exception, lambda: ep.plot_2d(o), '1-D spectrum as image')
        else:
            m1, m2 = spec.model(c['b']), spec.model(c['b'])
            setattr(m2, ('x_unit', 'y_unit', 'd_unit')[c['axis']], 'radian*K')
            seq = [spec.make(m1), spec.make(m2)]
            raises(Exception, lambda: ep.plot_2d(seq), 'plot_2d with '
                   'incompatible units')
    finally:
        plt.close('all')


SUBS = [Sub('lines', line_cases(), run_lines, 350, 6000),
        Sub('images', image_cases(), run_images, 250, 4500),
        Sub('refusals', refuse_cases(), run_refuse, 150, 2500)]
