"""P24 Bins, splitting and x-axis labels stay consistent with the data"""
import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import gen, spec
from harness.core import Skip, Sub, check, close, raises

RULE = ('A case is a spectrum of any class (edges or centres on each axis, '
        'regular or irregular axis with drawn gaps, tick labels, metadata, '
        'any units).  bins: edges/centres/widths of both axes against the '
        'documented construction, repeated after a unit change, and '
        'assert_regular_bins against the spread of the widths.  split: '
        'pieces for drawn indices (list, tuple, array) or tolerance against '
        'plain slicing.  labels: accepted and rejected label lists.  '
        'Non-trivial: at least two bins (bins), at least two pieces (split).')
TECHNIQUE = ('property-based testing: documented construction, slicing model '
             'and invariants')
ASSUMPTIONS = ['x_data increases', 'splitting an edge-type axis gives pieces '
               'of which only the last keeps its trailing edge (existing '
               'tests require it)']

UNIT = {'meV': 'eV', 'THz': 'GHz', '1/cm': '1/m', 'hartree': 'meV',
        '1/angstrom': '1/nm', '1/bohr': '1/angstrom', 'eV': 'meV'}


@st.composite
def bin_cases(draw):
    s = draw(spec.spectra(max_n=8, big=20))
    s['convert'] = draw(st.booleans())
    s['perturb'] = draw(st.sampled_from([0, 0, 1e-7, 1e-3, 0.1]))
    return s


def run_bins(c, t):
    import euphonic as E
    m = spec.model(c)
    rng = np.random.default_rng([c['seed'], 41])
    if c['perturb'] and len(m.x) > 1:
        i = int(rng.integers(1, len(m.x)))
        m.x[i] += c['perturb'] * np.diff(m.x).min() * 0.5
    s = spec.make(m)
    t.tag(m.cls, 'x edges' if c['edges'] else 'x centres')
    axes = ['x'] + (['y'] if m.two else [])
    t.hit(c['nx'] > 1)
    before = snapshot(s)
    for ax in axes:
        v = m.x if ax == 'x' else m.y
        unit = m.x_unit if ax == 'x' else m.y_unit
        n = c['nx'] if ax == 'x' else c['ny']
        is_edge = c['edges'] if ax == 'x' else c['y_edges']
        if is_edge:
            edges, centres = v, (v[1:] + v[:-1]) / 2
        else:
            centres = v
            edges = np.concatenate(([v[0]], (v[1:] + v[:-1]) / 2, [v[-1]]))
        if c['convert']:
            # other unit of the same dimension: same bins, converted
            f = E.Quantity(1.0, unit).to(UNIT[unit],
                                         'reciprocal_spectroscopy').magnitude
            setattr(s, f'{ax}_data_unit', UNIT[unit])
            edges, centres, unit = edges * f, centres * f, UNIT[unit]
        tol = 1e-12 * np.abs(edges).max()
        args = (ax,) if m.two else ()
        if m.two and ax == 'x':
            close(s.get_bin_edges().magnitude, edges, 1e-12, tol,
                  'default axis')
        for name, exp in (('edges', edges), ('centres', centres),
                          ('widths', np.diff(edges))):
            q = getattr(s, f'get_bin_{name}')(*args)
            check(q.units == E.Quantity(1, unit).units,
                  f'{m.cls} {ax} {name}: unit {q.units}, expected {unit}')
            close(q.magnitude, exp, 1e-12, 2 * tol, f'{m.cls} {ax} bin {name}')
        e = getattr(s, 'get_bin_edges')(*args).magnitude
        ce = getattr(s, 'get_bin_centres')(*args).magnitude
        check(len(e) == n + 1 and len(ce) == n, 'count of edges and centres')
        if is_edge or n > 1:
            check(np.all((ce >= e[:-1] - tol) & (ce <= e[1:] + tol)),
                  f'{ax}: centre outside its bin')
        w = np.diff(edges)
        if len(w) and w[0] != 0:
            spread = np.abs(w - w[0]).max() / abs(w[0])
            def regular():
                try:
                    s.assert_regular_bins(*args)
                except AssertionError:
                    return False
                return True
            if spread < 5e-6:
                check(regular(), f'{ax}: regular bins refused')
                t.tag('regular')
            elif spread > 2e-5:
                check(not regular(), f'{ax}: bins {w} accepted as regular')
                t.tag('irregular')
            if spread > 1e-12:
                s.assert_regular_bins(*args, rtol=spread * 1.01 + 1e-9)
            if spread > 1e-9:
                raises(AssertionError, lambda: s.assert_regular_bins(
                    *args, rtol=spread * .99 - 1e-11), 'rtol')
        # returned arrays are not views of the data
        q = s.get_bin_edges(*args)
        q.magnitude[...] = -77
        q = s.get_bin_centres(*args)
        q.magnitude[...] = -78
    if not c['convert']:
        same(before, snapshot(s), 'spectrum after bin queries')

@st.composite
def split_cases(draw):
    s = draw(spec.spectra(max_n=12, max_lines=4, big=20))
    nx = s['nx']
    s['how'] = draw(st.sampled_from(['indices', 'indices', 'btol', 'default',
                                     'auto', 'both']))
    s['type'] = draw(st.sampled_from(['list', 'tuple', 'array', 'int32']))
    idx = draw(st.lists(st.integers(1, max(nx - 1, 1)), max_size=5,
                        unique=True))
    s['indices'] = sorted(i for i in idx if i < nx)
    s['gaps'] = sorted(i for i in draw(st.lists(
        st.integers(1, max(nx - 1, 1)), max_size=3, unique=True)) if i < nx)
    s['btol'] = draw(st.sampled_from([1.2, 2, 5.0, 30.0, 1000.0]))
    s['gap'] = draw(st.sampled_from([1.5, 4, 12, 40, 3000]))
    s['convert'] = draw(st.booleans())
    return s


def run_split(c, t):
    import euphonic as E
    m = spec.model(c)
    for g in c['gaps']:
        step = np.median(np.diff(m.x))
        m.x[g:] += c['gap'] * step
    s = spec.make(m)
    fx = 1.0
    xu = m.x_unit
    if c['convert']:
        fx = E.Quantity(1.0, xu).to(UNIT[xu],
                                    'reciprocal_spectroscopy').magnitude
        xu = UNIT[xu]
        s.x_data_unit = xu
    before = snapshot(s)
    how = c['how']
    conv = {'list': list, 'tuple': tuple, 'array': np.array,
            'int32': lambda x: np.array(x, dtype=np.int32)}[c['type']]
    idx = c['indices']
    if how == 'both':
        raises(ValueError, lambda: s.split(indices=conv(idx), btol=5.0),
               'split with both indices and btol')
        return
    if how == 'indices':
        pieces = s.split(indices=conv(idx))
        if c['type'] == 'list':
            p2 = s.split(idx)
            check(len(p2) == len(pieces), 'positional indices')
    else:
        btol = c['btol'] if how == 'btol' else 10.0
        dx = np.diff(m.x)
        if not len(dx):
            raise Skip('single point')
        ratio = dx / np.median(dx)
        if np.any(np.abs(ratio / btol - 1) < 1e-6):
            raise Skip('gap at tolerance')
        idx = [int(i) + 1 for i in np.where(ratio > btol)[0]]
        if idx and idx[-1] >= c['nx']:
            raise Skip('gap in the last edge')
        pieces = s.split(btol=btol) if how == 'btol' else s.split()
        t.tag(f'{how}: {min(len(idx), 3)} gaps')
    t.tag(m.cls, how)
    bounds = [0, *idx, None]
    exp = [slice(a, b) for a, b in zip(bounds[:-1], bounds[1:])]
    check(len(pieces) == len(exp),
          f'{m.cls}: {len(pieces)} pieces, expected {len(exp)} '
          f'(split at {idx})')
    t.hit(len(pieces) > 1)
    ax = 1 if m.coll else 0
    for p, sl in zip(pieces, exp):
        check(type(p) is type(s), f'{type(p).__name__} from {m.cls}')
        # interior pieces of an edge-type axis hold the points of the slice
        close(p.x_data.magnitude, m.x[sl] * fx, 1e-12, 1e-13, 'x of piece')
        check(str(p.x_data.units) == str(E.Quantity(1, xu).units), 'x unit')
        close(spec.data(p).magnitude, m.d[(slice(None),) * ax + (sl,)],
              1e-12, 1e-13, f'{m.cls} data of piece {sl}')
        check(spec.data(p).units == spec.data(s).units, 'data unit')
        if m.two:
            close(p.y_data.magnitude, m.y, 1e-12, 1e-13, 'y of piece')
            check(p.y_data.units == s.y_data.units, 'y unit')
        if m.labels is None:
            check(p.x_tick_labels is None, f'labels {p.x_tick_labels}')
        else:
            a, b = sl.start, sl.stop
            el = [(i - a, x) for i, x in m.labels
                  if i >= a and (b is None or i < b)]
            check(p.x_tick_labels == el, f'{m.cls}: labels of piece {sl}: '
                  f'{p.x_tick_labels}, expected {el}')
            check(all(type(i) is int for i, _ in p.x_tick_labels),
                  'label index type')
        check(spec.lines(p) == m.metas and p.metadata == s.metadata,
              f'metadata of piece {p.metadata}, expected {s.metadata}')
    # independent of source and of each other
    if len(pieces) > 1:
        pieces[0].metadata['new'] = 1
        for ld in pieces[0].metadata.get('line_data', []):
            ld['changed'] = 2
        pieces[0].x_data = pieces[0].x_data * 2
        pieces[0] *= 3
        check(pieces[1].metadata == s.metadata, 'pieces share metadata')
        q = pieces[1]
        q *= 0
    same(before, snapshot(s), 'spectrum after split')


@st.composite
def label_cases(draw):
    s = draw(spec.spectra(max_n=6, max_lines=3, big=20))
    s['new'] = draw(st.lists(st.tuples(
        st.integers(0, 20), st.sampled_from(spec.LABELS)), max_size=4))
    s['np'] = draw(st.sampled_from(['int', 'int64', 'int32', 'uint8']))
    s['bad'] = draw(st.sampled_from(
        [None, 'list element', 'float', 'label int', 'three', 'str', 'number',
         'flat', 'set', 'one']))
    s['ctor'] = draw(st.booleans())
    return s


def run_labels(c, t):
    m = spec.model(c)
    s = spec.make(m)
    f = {'int': int, 'int64': np.int64, 'int32': np.int32,
         'uint8': np.uint8}[c['np']]
    new = [(f(i), x) for i, x in c['new']]
    bad = {'list element': [[0, 'X']], 'float': [(0.5, 'X')],
           'label int': [(0, 1)], 'three': [(0, 'X', 'Y')], 'str': 'GX',
           'number': 3, 'flat': [0, 'X'], 'set': {(0, 'X')},
           'one': [(0,)]}.get(c['bad'])
    t.hit(bool(new) or bad is not None)
    t.tag(m.cls, c['bad'])
    if bad is not None:
        if isinstance(bad, list):
            bad = new + bad
        old = s.x_tick_labels
        raises(TypeError, lambda: setattr(s, 'x_tick_labels', bad),
               f'labels {bad}')
        check(s.x_tick_labels == old, 'labels changed by a refused value')
        if c['ctor']:
            m.labels = None
            args = [s.x_data] + ([s.y_data] if m.two else []) + [spec.data(s)]
            raises(TypeError, lambda: type(s)(*args, x_tick_labels=bad),
                   f'constructor with labels {bad}')
        return
    if c['ctor']:
        args = [s.x_data] + ([s.y_data] if m.two else []) + [spec.data(s)]
        s = type(s)(*args, x_tick_labels=new)
    else:
        s.x_tick_labels = new if c['seed'] % 2 else tuple(new)
    check([tuple(x) for x in s.x_tick_labels]
          == [(int(i), x) for i, x in new], f'labels {s.x_tick_labels}')
    check(all(type(i) is int for i, _ in s.x_tick_labels),
          'tick label index is not a plain int')
    cp = s.copy()
    check(cp.x_tick_labels == s.x_tick_labels, 'labels of copy')
    s.x_tick_labels = None
    check(s.x_tick_labels is None and cp.x_tick_labels is not None,
          'labels of copy shared')


SUBS = [
    Sub('bins', bin_cases(), run_bins, 1600),
    Sub('split', split_cases(), run_split, 1600),
    Sub('labels', label_cases(), run_labels, 500),
]
