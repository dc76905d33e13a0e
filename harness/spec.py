"""Generated spectra of all four classes, with a plain model of each:
x, y[, z] arrays in the drawn units, tick labels, one flat metadata dict per
line."""
import numpy as np
from hypothesis import strategies as st

from harness.gen import nice_float, small_seed

CLASSES = ['Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D',
           'Spectrum2DCollection']
LABELS = ['X', '$\\Gamma$', '', 'M', 'K', 'Γ', '1/2 0 0', 'A\nB',
          '1/2+1/4 0 3/4']
KEYS = ['species', 'index', 'label', 'weighting', 'T']
VALUES = ['Na', 'Cl', 'coherent', 'incoherent', 'O', 0, 1, 2, -7, '0', '']


@st.composite
def metadata(draw, max_keys=3):
    ks = draw(st.lists(st.sampled_from(KEYS), max_size=max_keys,
                       unique=True))
    return {k: draw(st.sampled_from(VALUES[:6] if k == 'species'
                                    else VALUES)) for k in ks}


@st.composite
def spectra(draw, classes=CLASSES, max_n=9, min_n=1, edges=None,
            regular=None, nan=False, max_lines=5, min_lines=1, y_edges=None,
            labels=True, big=0):
    """one case in `big` has long axes or many lines"""
    cls = draw(st.sampled_from(list(classes)))
    nx = draw(st.integers(min_n, max_n))
    c = dict(
        cls=cls, nx=nx, ny=draw(st.integers(min_n, max_n)),
        nl=draw(st.integers(min_lines, max_lines)),
        edges=draw(st.booleans()) if edges is None else edges,
        y_edges=draw(st.booleans()) if y_edges is None else y_edges,
        regular=draw(st.booleans()) if regular is None else regular,
        seed=draw(small_seed), scale=draw(nice_float(0.01, 20)),
        sparse=draw(st.booleans()), negative=draw(st.booleans()),
        start=draw(st.sampled_from([0.0, 0.0, -3.0, 1.7])),
        # axes in very small or large numbers, or far from 0
        mag=draw(st.sampled_from([0] * 9 + [-13, -9, -5, 4])),
        far=draw(st.sampled_from([0] * 9 + [3000., -20000.])),
        x_unit=draw(st.sampled_from(['meV', '1/angstrom', 'THz', '1/cm',
                                     'hartree', '1/bohr'])),
        y_unit=draw(st.sampled_from(['meV', 'THz', '1/cm', 'eV'])),
        d_unit=draw(st.sampled_from(['1/meV', 'mbarn/meV', 'barn', 'THz',
                                     'dimensionless', '1/cm',
                                     'angstrom**2/THz'])),
        nan=nan and draw(st.booleans()),
        labels=None, meta={}, lines=None)
    if labels and draw(st.booleans()):
        idx = draw(st.lists(st.integers(0, nx - 1 + c['edges']), max_size=5,
                            unique=True))
        c['labels'] = [[i, draw(st.sampled_from(LABELS))]
                       for i in sorted(idx)]
    c['meta'] = draw(metadata())
    if cls.endswith('Collection') and draw(st.integers(0, 3)):
        c['lines'] = [
            {k: v for k, v in draw(metadata()).items() if k not in c['meta']}
            for _ in range(c['nl'])]
    if big:
        k = draw(st.integers(0, 2 * big - 1))
        if k == 2 * big - 1:
            c['nx'] += draw(st.sampled_from([60, 130, 257, 520, 1030, 2060]))
            if draw(st.booleans()):
                c['nx'], c['ny'] = c['ny'], c['nx']
                c['labels'] = c['labels'] and [
                    x for x in c['labels'] if x[0] < c['nx']]
        elif k == 2 * big - 2 and cls.endswith('Collection'):
            n = draw(st.sampled_from([11, 24, 70]))
            if c['lines'] is not None:
                c['lines'] = (c['lines'] * n)[:n]
            c['nl'] = n
    return c


class SModel:
    pass


def axis(rng, n, regular, start, scale):
    if regular:
        return start + np.arange(n) * scale
    return start + np.cumsum(rng.uniform(0.2, 1.7, n)) * scale


def model(c):
    rng = np.random.default_rng([c['seed'], 6])
    m = SModel()
    m.cls = c['cls']
    m.coll = m.cls.endswith('Collection')
    m.two = '2D' in m.cls
    m.x = axis(rng, c['nx'] + c['edges'], c['regular'], c['start'],
               c['scale'])
    m.x = (m.x + c.get('far', 0) * c['scale']) * 10. ** c.get('mag', 0)
    m.y = None
    sh = (c['nx'],)
    if m.two:
        m.y = axis(rng, c['ny'] + c['y_edges'], c['regular'], -2.0, 0.7)
        sh = sh + (c['ny'],)
    if m.coll:
        sh = (c['nl'],) + sh
    d = rng.uniform(-1 if c['negative'] else 0, 3, sh)
    if c['sparse']:
        d = d * (rng.uniform(size=sh) < 0.4)
    if c['nan']:
        d = np.where(rng.uniform(size=sh) < .15, np.nan, d)
    m.d = d
    m.labels = None if c['labels'] is None else [
        (int(i), s) for i, s in c['labels']]
    m.meta = dict(c['meta'])
    m.line_data = None
    if m.coll:
        ld = c['lines']
        if ld is not None:
            m.line_data = [dict(x) for x in ld]
        m.metas = [dict(m.meta, **(ld[i] if ld else {}))
                   for i in range(c['nl'])]
    else:
        m.metas = [dict(m.meta)]
    m.x_unit, m.y_unit, m.d_unit = c['x_unit'], c['y_unit'], c['d_unit']
    return m


def make(m):
    import euphonic as E
    from euphonic.spectra import Spectrum2DCollection
    cls = {'Spectrum1D': E.Spectrum1D, 'Spectrum2D': E.Spectrum2D,
           'Spectrum1DCollection': E.Spectrum1DCollection,
           'Spectrum2DCollection': Spectrum2DCollection}[m.cls]
    args = [E.Quantity(m.x.copy(), m.x_unit)]
    if m.two:
        args.append(E.Quantity(m.y.copy(), m.y_unit))
    args.append(E.Quantity(m.d.copy(), m.d_unit))
    meta = dict(m.meta)
    if m.line_data is not None:
        meta['line_data'] = [dict(x) for x in m.line_data]
    kw = {}
    if m.labels is not None:
        kw['x_tick_labels'] = [tuple(x) for x in m.labels]
    if meta:
        kw['metadata'] = meta
    return cls(*args, **kw)


def data(s):
    """the spectral data quantity of any spectrum class"""
    return s.z_data if hasattr(s, 'z_data') else s.y_data


def lines(s):
    """flat metadata of every line of a spectrum or collection"""
    md = dict(s.metadata)
    if hasattr(s, '__len__'):
        ld = md.pop('line_data', None)
        n = data(s).shape[0]
        return [dict(md, **(ld[i] if ld else {})) for i in range(n)]
    return [md]
