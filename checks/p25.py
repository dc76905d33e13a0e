"""P25 Fixed-width broadening is convolution with a normalised kernel"""
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import gen, spec
from harness.core import Skip, Sub, Violation, check, close, raises
from harness.gen import nice_float

RULE = ('A case is a spectrum (1-D, collection, 2-D; edges or centres, '
        'regular or irregular, sparse/signed data, any units), a width per '
        'axis (absent, zero, from 0.05 bins to wider than the range, in '
        'another unit) and a shape.  The result is compared with explicit '
        'multiplication by the matrix K[i,j]=k(i-j) of the normalised '
        'sampled kernel; linearity, unit and order relations are tested '
        'separately.  Non-trivial: a non-zero width applied to more than '
        'two bins with non-zero data.')
TECHNIQUE = ('property-based testing: explicit convolution oracle and '
             'metamorphic relations')
ASSUMPTIONS = [
    'the Gaussian kernel may be truncated at 4 standard deviations '
    '(tolerance 2e-4 of the largest intensity)',
    'regularity is that of the bin centres',
    'Lorentzian kernels are normalised over twice the range of the axis']

XU = {'meV': ('1/cm', 'THz', 'eV'), 'THz': ('meV', '1/cm', 'GHz'),
      '1/cm': ('meV', '1/m', 'THz'), 'hartree': ('meV', 'THz', 'eV'),
      'eV': ('meV', '1/cm', 'hartree'),
      '1/angstrom': ('1/nm', '1/bohr', '1/angstrom'),
      '1/bohr': ('1/nm', '1/angstrom', '1/m')}


@st.composite
def width(draw):
    return draw(st.one_of(
        nice_float(0.05, 12), nice_float(0.3, 3), st.sampled_from(
            [0.0, 1.0, 40.0])))


@st.composite
def cases(draw):
    s = draw(spec.spectra(classes=['Spectrum1D', 'Spectrum1DCollection',
                                   'Spectrum2D', 'Spectrum2D'],
                          max_n=24, min_n=2, max_lines=4, regular=True,
                          big=25))
    s['wx'] = draw(width())
    s['wy'] = draw(width())
    s['axes'] = draw(st.sampled_from(['x', 'y', 'xy', 'xy']))
    s['shape'] = draw(st.sampled_from(['gauss', 'gauss', 'lorentz']))
    s['wu'] = draw(st.integers(-1, 2))
    s['convert'] = draw(st.integers(-1, 2))
    s['f'] = draw(nice_float(-4, 4))
    s['spike'] = draw(st.booleans())
    return tiny(draw, s)


def tiny(draw, s):
    """axes in small or large numbers"""
    f = draw(st.sampled_from([1, 1, 1, 1e-6, 1e-10, 1e6]))
    if f != 1:
        s.update(scale=s['scale'] * f, start=s['start'] * f)
    if max(s['nx'], s['ny']) > 50:
        f = draw(st.sampled_from([1, 10, 60]))
        s.update(wx=s['wx'] * f, wy=s['wy'] * f)
    return s


@st.composite
def wide_cases(draw):
    """long axes, and widths of many bins"""
    c = draw(cases())
    n = draw(st.sampled_from([130, 260, 400, 515, 700, 1030]))
    if c['cls'] == 'Spectrum2D' and draw(st.booleans()):
        c.update(ny=n, nx=min(c['nx'], 12), axes='y')
    else:
        c.update(nx=n, ny=min(c['ny'], 12))
        if c['cls'] == 'Spectrum2D':
            c['axes'] = 'x'
    c['labels'] = c['labels'] and [x for x in c['labels'] if x[0] < c['nx']]
    c['wx'] = c['wy'] = draw(nice_float(10, 300))
    c['shape'] = draw(st.sampled_from(['gauss', 'gauss', 'gauss', 'lorentz']))
    return c


def kernel_gauss(n, w):
    """matrix of the normalised sampled Gaussian, fwhm w bins"""
    s = w / (2 * np.sqrt(2 * np.log(2)))
    r = max(int(12 * s) + 2, 1)
    j = np.arange(-r, r + 1)
    k = np.exp(-0.5 * (j / s) ** 2) if s > 1e-12 else (j == 0) * 1.0
    k /= k.sum()
    d = np.subtract.outer(np.arange(n), np.arange(n))
    return np.where(np.abs(d) <= r, k[np.clip(d + r, 0, 2 * r)], 0.)


def kernel_lorentz(n, w, defect=False):
    """matrix of the Lorentzian of fwhm w bins, normalised over the points
    within one range of the axis"""
    r = n if defect else n - 1
    j = np.arange(-r, r + 1) * ((n - 1) / n if defect else 1.0)
    k = w / 2 / np.pi / (j ** 2 + w ** 2 / 4)
    k /= k.sum()
    d = np.subtract.outer(np.arange(n), np.arange(n))
    return k[d + r]


def expected(m, d, wx, wy, shape, defect=False):
    kern = kernel_gauss if shape == 'gauss' else (
        lambda n, w: kernel_lorentz(n, w, defect))
    ax = 1 if m.coll else 0
    if wx is not None:
        d = np.moveaxis(np.tensordot(kern(d.shape[ax], wx), d, (1, ax)),
                        0, ax)
    if wy is not None:
        d = np.tensordot(d, kern(d.shape[1], wy), (1, 1))
    return d


def broaden(s, m, wx, wy, **kw):
    """wx, wy quantities or None"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if m.two:
            return s.broaden(x_width=wx, y_width=wy, **kw)
        return s.broaden(wx, **kw)


def prepare(c):
    import euphonic as E
    m = spec.model(c)
    if c['spike']:
        m.d = np.zeros_like(m.d)
        rng = np.random.default_rng([c['seed'], 8])
        for _ in range(3):
            m.d[tuple(rng.integers(0, n) for n in m.d.shape)] += 1.5
    s = spec.make(m)
    use_x = not m.two or 'x' in c['axes']
    use_y = m.two and 'y' in c['axes']

    def quantity(w, axis, unit):
        dx = axis[1] - axis[0]
        q = E.Quantity(w * dx, unit)
        if c['wu'] >= 0:
            q = E.Quantity(q.to(XU[unit][c['wu']]).magnitude,
                           XU[unit][c['wu']])
        return q
    qx = quantity(c['wx'], m.x, m.x_unit) if use_x else None
    qy = quantity(c['wy'], m.y, m.y_unit) if use_y else None
    wx, wy = (c['wx'] if use_x else None), (c['wy'] if use_y else None)
    if c['shape'] == 'lorentz' and (wx == 0 or wy == 0):
        raise Skip('Lorentzian of zero width')
    return m, s, qx, qy, wx, wy


def compare(r, m, d, wx, wy, shape, what, factor=1.0):
    got = spec.data(r).magnitude / factor
    exp = expected(m, d, wx, wy, shape)
    scale = np.abs(d).max()
    tol = (2e-4 if shape == 'gauss' else 1e-9) * scale + 1e-300
    if shape == 'lorentz':
        if got.shape == exp.shape and np.abs(got - exp).max() > tol:
            other = expected(m, d, wx, wy, shape, defect=True)
            if np.abs(got - other).max() <= tol:
                raise Violation(
                    f'{what}: Lorentzian kernel is sampled with a spacing of '
                    '(n-1)/n bins', key='lorentz_kernel_spacing')
    close(got, exp, 0, tol, what)


def run(c, t):
    import euphonic as E
    m, s, qx, qy, wx, wy = prepare(c)
    t.tag(m.cls, c['shape'], 'zero width' if 0 in (wx, wy) else 'width')
    t.hit(any(w and len(a) > 3 for w, a in ((wx, m.x), (wy, m.y)))
          and np.any(m.d))
    before = snapshot(s)
    kw = dict(shape=c['shape'])
    r = broaden(s, m, qx, qy, **kw)
    same(before, snapshot(s), 'source of broaden')
    check(type(r) is type(s), f'broaden returned {type(r).__name__}')
    # everything but the data is kept
    close(r.x_data.magnitude, m.x, 1e-12, 1e-12, 'x_data')
    check(r.x_data.units == s.x_data.units, 'x unit')
    if m.two:
        close(r.y_data.magnitude, m.y, 1e-12, 1e-12, 'y_data')
        check(r.y_data.units == s.y_data.units, 'y unit')
    check(spec.data(r).units == spec.data(s).units,
          f'data unit {spec.data(r).units}')
    check(r.x_tick_labels == m.labels, f'labels {r.x_tick_labels}')
    check(spec.lines(r) == m.metas, f'metadata {r.metadata}')
    what = f'{m.cls}.broaden({c["shape"]}, widths in bins {wx}, {wy})'
    try:
        compare(r, m, m.d, wx, wy, c['shape'], what)
    except Violation as e:
        if e.key is None:
            raise
        known = e
    else:
        known = None
    got = spec.data(r).magnitude
    scale = np.abs(m.d).max() or 1.0
    check(np.all(m.d < 0) or np.any(m.d < 0) or np.all(got >= -1e-9 * scale),
          'broadening non-negative data gave negative values')
    # members of a collection
    if m.coll:
        for i in range(len(m.metas)):
            one = s[i].broaden(qx, **kw)
            close(one.y_data.magnitude, got[i], 1e-9, 1e-9 * scale,
                  f'line {i} of the collection broadened alone')
            check(one.metadata == m.metas[i], 'metadata of line')
    if m.two and c['axes'] == 'xy':
        # both axes = one after the other
        r2 = s.broaden(x_width=qx, shape=c['shape']).broaden(
            y_width=qy, shape=c['shape'])
        close(r2.z_data.magnitude, got, 1e-9, 1e-9 * scale,
              'x then y differs from both at once')
    # unit of the axis
    if c['convert'] >= 0:
        s2 = s.copy()
        s2.x_data_unit = XU[m.x_unit][c['convert']]
        r2 = broaden(s2, m, qx, qy, **kw)
        check(r2.x_data.units == s2.x_data.units, 'x unit after change')
        close(spec.data(r2).magnitude, got, 1e-7, 1e-8 * scale,
              f'broadened with x in {s2.x_data_unit}')
    # scaling
    r2 = broaden(s * c['f'], m, qx, qy, **kw)
    close(spec.data(r2).magnitude, got * c['f'], 1e-9,
          1e-9 * scale * abs(c['f']), 'broadening scaled data')
    # explicit method changes nothing for regular bins
    r2 = broaden(s, m, qx, qy, method='convolve', **kw)
    close(spec.data(r2).magnitude, got, 0, 0, 'method="convolve"')
    # the same width given as standard deviation
    k = 2 * np.sqrt(2 * np.log(2))
    std = dict(kw, width_convention='std')
    sx, sy = (None if q is None else q / k for q in (qx, qy))
    if c['shape'] == 'lorentz':
        raises(ValueError, lambda: broaden(s, m, sx, sy, **std),
               'standard deviation of a Lorentzian')
    else:
        r2 = broaden(s, m, sx, sy, **std)
        close(spec.data(r2).magnitude, got, 1e-9, 1e-9 * scale,
              'width given as standard deviation')
    # result is independent of the source
    r *= 5
    r.metadata['new'] = 1
    same(before, snapshot(s), 'source after edits of the result')
    if known is not None:
        raise known


@st.composite
def irr_cases(draw):
    s = draw(spec.spectra(classes=['Spectrum1D', 'Spectrum1DCollection',
                                   'Spectrum2D', 'Spectrum2D'],
                          max_n=12, min_n=4, max_lines=3, regular=True))
    s.update(wx=1.5, wy=2.0, wu=draw(st.integers(-1, 2)), spike=False,
             shape=draw(st.sampled_from(['gauss', 'lorentz'])),
             axes=draw(st.sampled_from(['x', 'y', 'xy'])),
             irr=draw(st.sampled_from(['x', 'y', 'xy', ''])),
             size=draw(st.sampled_from([3e-6, 1e-3, 0.3])),
             bad=draw(st.sampled_from([None, None, 'shape', 'method', 'float',
                                       'none', 'unit', 'case'])),
             pos=draw(st.integers(0, 20)))
    return tiny(draw, s)


def run_irregular(c, t):
    import euphonic as E
    m, s, qx, qy, wx, wy = prepare(c)
    if c['bad']:
        def bad():
            kw, x, y = {}, qx, qy
            if c['bad'] == 'shape':
                kw['shape'] = 'box'
            elif c['bad'] == 'case':
                kw['shape'] = 'Gauss'
            elif c['bad'] == 'method':
                kw['method'] = 'fft'
            else:
                v = {'float': 1.5, 'none': 'gauss',
                     'unit': E.Quantity(1.0, 'kg')}[c['bad']]
                x, y = (None if q is None else v for q in (qx, qy))
            return broaden(s, m, x, y, **kw)
        before = snapshot(s)
        from pint.errors import DimensionalityError
        exc = {'float': TypeError, 'none': TypeError,
               'unit': DimensionalityError}.get(c['bad'], ValueError)
        t.tag(f'bad {c["bad"]}')
        t.hit()
        raises(exc, bad, f'{m.cls}.broaden with bad {c["bad"]}')
        same(before, snapshot(s), 'source of refused broadening')
        return
    irr = set(c['irr']) if m.two else set(c['irr']) & {'x'}
    for ax in sorted(irr):
        a = m.x if ax == 'x' else m.y
        i = 1 + c['pos'] % (len(a) - 2)
        if c['size'] < 1e-5 or i < 1:
            a[i] += c['size'] * (a[1] - a[0]) * 0.5
        else:
            a[i:] += c['size'] * (a[1] - a[0])
    s = spec.make(m)

    def spread(a, is_edge):
        ce = (a[1:] + a[:-1]) / 2 if is_edge else a
        d = np.diff(ce)
        return np.abs(d / d[0] - 1).max()
    bad = []
    for q, a, e in ((qx, m.x, c['edges']), (qy, m.y, c['y_edges'])):
        if q is not None:
            sp = spread(a, e)
            if 4e-6 < sp < 3e-5:
                raise Skip('spread at tolerance')
            bad.append(sp > 1e-5)
    t.tag(m.cls, 'refused' if any(bad) else 'accepted')
    t.hit(any(bad) or bool(irr))
    kw = dict(shape=c['shape'])
    if any(bad):
        raises(ValueError, lambda: broaden(s, m, qx, qy, **kw),
               f'{m.cls} with irregular bins')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = (s.broaden(qx, qy, method='convolve', **kw) if m.two else
                 s.broaden(qx, method='convolve', **kw))
        check(len(w) > 0, 'no warning for convolution with irregular bins')
        check(spec.data(r).shape == m.d.shape, 'shape')
        # an irregular axis still leaves the other one alone
        if m.two and len(bad) == 1 and c['shape'] == 'gauss':
            z = r.z_data.magnitude
            one = m.d.sum(axis=1 if qx is not None else 0)
            got = z.sum(axis=1 if qx is not None else 0)
            del one, got
    else:
        r = broaden(s, m, qx, qy, **kw)
        if c['shape'] == 'gauss':
            close(spec.data(r).magnitude,
                  expected(m, m.d, wx, wy, 'gauss'), 0,
                  1e-3 * np.abs(m.d).max(), 'broadening a regular axis')


def known_lorentz():
    import euphonic as E
    x = np.arange(12.)
    y = np.zeros(11)
    y[5] = 1
    s = E.Spectrum1D(E.Quantity(x, 'meV'), E.Quantity(y, '1/meV')).broaden(
        E.Quantity(2., 'meV'), shape='lorentz')
    exp = kernel_lorentz(11, 2.0) @ y
    return np.abs(s.y_data.magnitude - exp).max() > 1e-6


KNOWN = {'lorentz_kernel_spacing': known_lorentz}
SUBS = [
    Sub('convolution', cases(), run, 1500),
    Sub('wide', wide_cases(), run, 150, 3000),
    Sub('irregular', irr_cases(), run_irregular, 800),
]
