"""P16 Adaptive and variable-width broadening match the exact sum within
tolerance"""
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import p15
from checks.p08 import same, snapshot
from harness import gen, spec
from harness.core import Skip, Sub, check, close, raises
from harness.gen import nice_float

RULE = ('reference/fast: phonon modes with one width each (up to a factor of '
        '50 between widths, with a lower limit), total and partial DOS, '
        'against the explicit sum of kernels.  kernels: the broadening '
        'function itself for both shapes and fits and requested errors from '
        '1e-4 to 0.1.  spectrum: 1-D, collection and 2-D spectra broadened '
        'with a drawn width function (polynomial, step, reciprocal) against '
        'the explicit sum over bins.  Error is the integrated absolute '
        'difference relative to the total weight, allowed twice the '
        'requested one (three times for the cubic fit).  Non-trivial: at '
        'least two different widths and a non-zero result.')
TECHNIQUE = ('property-based testing against the explicit sum of kernels '
             'with the error bound the caller requests')
ASSUMPTIONS = [
    'fast method: regular bins; modes are placed at their bin centre; '
    'contributions further than half the range of the bins, and from '
    'outside the bins, may be missing',
    'kernels at least 0.8 bins wide (sampled kernels)',
    'cubic fit: requested error 1e-3 to 0.1',
    'the lower limit applies to the standard deviation of Gaussian kernels']


def gauss(x, s):
    return np.exp(-0.5 * (x / s) ** 2) / (s * np.sqrt(2 * np.pi))


def lorentz(x, g):
    return g / (2 * np.pi * (x ** 2 + g * g / 4))


KERN = {'gauss': gauss, 'lorentz': lorentz}


# ------------------------------------------------------- adaptive DOS
@st.composite
def dos_cases(draw):
    c = draw(p15.cases(max_atoms=3))
    c['bins']['on_edge'] = False
    c['bins']['n'] = min(c['bins']['n'], 150 if len(c['q']) < 50 else 14)
    c['wseed'] = draw(gen.small_seed)
    c['wmax'] = draw(nice_float(0.005, 0.3))
    c['wmin'] = draw(st.sampled_from([None, 0.002, 0.05]))
    c['wunit'] = draw(st.sampled_from(['meV', 'THz', '1/cm', 'eV']))
    c['spread'] = draw(st.sampled_from([0.0, 1.0, 3.0]))
    c['err'] = draw(st.sampled_from([0.001, 0.005, 0.01, 0.03, 0.09]))
    c['fit'] = draw(st.sampled_from(['cubic', 'cheby-log']))
    c['defaults'] = draw(st.booleans())
    return c


def widths_of(c, m):
    rng = np.random.default_rng([c['wseed'], 2])
    wid = c['emax'] * c['wmax'] * np.exp(
        -c['spread'] * rng.uniform(0, 1, m.f.shape))
    wid[rng.uniform(size=wid.shape) < 0.05] = 0.0
    kw, lo = {}, 0.01
    if c['wmin'] is not None:
        import euphonic as E
        lo = c['wmin'] * c['emax']
        kw['mode_widths_min'] = E.Quantity(lo / gen.EUNIT[c['wunit']],
                                           c['wunit'])
    return wid, np.maximum(wid, lo), kw


def run_reference(c, t):
    import euphonic as E
    m = gen.modes_model(c)
    e = p15.bins_of(c, m)
    wid, w_eff, kw = widths_of(c, m)
    unit = c['bins']['unit']
    eu = gen.EUNIT[unit]
    bins = E.Quantity(e / eu, unit)
    modes = gen.make_modes(m)
    kw['mode_widths'] = E.Quantity(wid / gen.EUNIT[c['wunit']], c['wunit'])
    if not c['defaults']:
        kw['adaptive_method'] = 'reference'
    centres = (e[1:] + e[:-1]) / 2
    pdf = gauss(centres[:, None, None] - m.f, w_eff)
    q = (m.w / m.w.sum())[:, None]
    exp = (pdf * q / m.n_atoms).sum((1, 2))
    before = snapshot(modes)
    dos = modes.calculate_dos(bins, **kw)
    t.hit(exp.max() > 1e-12 and len(np.unique(w_eff)) > 1)
    t.tag(c['weights'], unit, 'default minimum' if c['wmin'] is None
          else 'minimum')
    peak = (q / w_eff).sum()
    # last digits of the unit conversions, on narrow peaks
    slope = 1e-9 * c['emax'] / w_eff ** 2
    tol = 1e-8 * peak + (q * slope).sum()
    close(dos.y_data.magnitude / eu, exp, 1e-7, tol, 'adaptive DOS')
    close(dos.x_data.magnitude, e / eu, 1e-12, 1e-15, 'bins')
    d2 = gen.make_modes(m, 'frequencies').calculate_dos(bins, **kw)
    close(d2.y_data.magnitude, dos.y_data.magnitude, 1e-12, 0,
          'QpointFrequencies adaptive DOS')
    ckw, cs = p15.cross_sections(c, m)
    pdos = modes.calculate_pdos(bins, **kw, **ckw)
    f = 1.0
    if cs is None:
        cs = np.ones(m.n_atoms)
    else:
        f = E.Quantity(1, pdos.y_data.units / E.Quantity(
            1, p15.dos_unit(unit)).units).to('mbarn').magnitude
        cs = cs * m.mass_amu.mean() / m.mass_amu
    ew = (np.abs(m.evecs) ** 2).sum(-1)
    for i in range(m.n_atoms):
        exp_i = (pdf * q * ew[:, :, i]).sum((1, 2)) * cs[i] / m.n_atoms
        close(pdos.y_data.magnitude[i] * f / eu, exp_i, 1e-7, tol * cs[i],
              f'adaptive PDOS of atom {i}')
    dmap = modes.calculate_dos_map(
        bins, **{k: v for k, v in kw.items() if k != 'adaptive_method'})
    rows = pdf.sum(2).T / m.n_atoms
    if c['weights'] != 'zeros':
        close(dmap.z_data.magnitude / eu, rows, 1e-7,
              1e-8 * (1 / w_eff).sum() + slope.sum(1).max(),
              'adaptive DOS map')
    same(before, snapshot(modes), 'modes')
    raises(ValueError, lambda: modes.calculate_dos(
        bins, mode_widths=kw['mode_widths'], adaptive_method='slow'),
        'adaptive_method="slow"')


def run_fast(c, t):
    """regular bins wide enough for all modes, modes at bin centres"""
    import euphonic as E
    m = gen.modes_model(c)
    n = 120 + 7 * c['bins']['n']
    lo, hi = -1.2 * c['emax'], 2.2 * c['emax']
    e = np.linspace(lo, hi, n + 1)
    dx = e[1] - e[0]
    centres = (e[1:] + e[:-1]) / 2
    m.f = centres[np.clip(np.searchsorted(e, m.f) - 1, 0, n - 1)]
    wid, w_eff, kw = widths_of(c, m)
    kw['mode_widths_min'] = E.Quantity(max(1.0, c['wmin'] or 1.) * dx, 'meV')
    w_eff = np.maximum(wid, max(1.0, c['wmin'] or 1.) * dx)
    unit = c['bins']['unit']
    eu = gen.EUNIT[unit]
    bins = E.Quantity(e / eu, unit)
    modes = gen.make_modes(m, 'frequencies' if c['op'] == 0 else None)
    kw['mode_widths'] = E.Quantity(wid / gen.EUNIT[c['wunit']], c['wunit'])
    kw['adaptive_method'] = 'fast'
    err, fit = c['err'], c['fit']
    if c['defaults']:
        err, fit = 0.01, 'cubic'
    else:
        kw.update(adaptive_error=err, adaptive_error_fit=fit)
    d = centres[:, None, None] - m.f
    pdf = gauss(d, w_eff)
    q = (m.w / m.w.sum())[:, None]
    t.hit(len(np.unique(w_eff)) > 1)
    t.tag(f'{fit} {err}', c['weights'])
    far = np.abs(d) >= (n // 2 - 1) * dx
    factor = 3.0 if fit == 'cubic' else 2.0

    def compare(y, weights, what):
        exp = (pdf * weights).sum((1, 2))
        total = (weights * np.ones_like(m.f)).sum()
        lost = (pdf * far * weights).sum() * dx
        diff = np.abs(y - exp).sum() * dx
        check(diff <= factor * err * total + lost + 1e-7 * total,
              lambda: f'{what}: fast differs from exact by {diff} of {total}'
              f' ({fit}, requested error {err})')
        si, se = y.sum() * dx, exp.sum() * dx
        check(abs(si - se) <= lost + max(1e-2 * err, 1e-6) * total,
              f'{what}: fast method integral {si}, exact {se}')
        check(y.min() >= -1e-3 * err * max(y.max(), 1e-300),
              f'{what}: negative intensity {y.min()} (max {y.max()})')
    dos = modes.calculate_dos(bins, **kw)
    compare(dos.y_data.magnitude / eu, q / m.n_atoms, 'DOS')
    if c['op']:
        pdos = modes.calculate_pdos(bins, **kw)
        ew = (np.abs(m.evecs) ** 2).sum(-1)
        for i in range(m.n_atoms):
            compare(pdos.y_data.magnitude[i] / eu,
                    q * ew[:, :, i] / m.n_atoms, f'PDOS of atom {i}')
        close(pdos.sum().y_data.magnitude, dos.y_data.magnitude, 1e-7,
              1e-7 * dos.y_data.magnitude.max(),
              'fast PDOS does not sum to the fast DOS')


# ------------------------------------------------------- the kernel sum
@st.composite
def kernel_cases(draw):
    shape = draw(st.sampled_from(['gauss', 'gauss', 'lorentz']))
    fit = draw(st.sampled_from(['cubic', 'cheby-log'])
               if shape == 'gauss' else st.just('cheby-log'))
    lim = {'cubic': (-3, -1.0), 'cheby-log': (-3.99, -1.01)}[fit]
    if shape == 'lorentz':
        lim = (-3.99, -1.36)
    return dict(shape=shape, fit=fit, logerr=draw(nice_float(*lim)),
                n=draw(st.integers(40, 260)), k=draw(st.integers(1, 12)),
                seed=draw(gen.small_seed), dx=draw(nice_float(0.01, 5)),
                spread=draw(st.sampled_from([0.0, 0.3, 1.0, 2.5])),
                start=draw(st.sampled_from([0.0, -30.0, 12.5])),
                unit=draw(st.sampled_from(['meV', 'THz', '1/cm',
                                           '1/angstrom'])),
                u2=draw(st.booleans()), nd=draw(st.booleans()),
                off=draw(st.booleans()))


def run_kernels(c, t):
    import euphonic as E
    from euphonic.broadening import width_interpolated_broadening
    rng = np.random.default_rng([c['seed'], 51])
    n, dx, k = c['n'], c['dx'], c['k']
    e = c['start'] + np.arange(n + 1) * dx
    centres = (e[1:] + e[:-1]) / 2
    idx = rng.integers(int(n * .1), int(n * .9), k)
    x = centres[idx]
    if c['off']:
        x = x + rng.uniform(-.45, .45, k) * dx
    wid = dx * np.exp(c['spread'] * rng.uniform(0, 1, k))
    wt = rng.uniform(0, 2, k)
    err = 10 ** c['logerr']
    unit = c['unit']
    other = {'meV': 'eV', 'THz': 'GHz', '1/cm': '1/m',
             '1/angstrom': '1/nm'}[unit] if c['u2'] else unit
    f = {'eV': 1e-3, 'GHz': 1e3, '1/m': 100., '1/nm': 10.}.get(other, 1.)
    sh = (k,)
    if c['nd'] and k % 2 == 0:
        sh = (2, k // 2)
    args = [E.Quantity(x.reshape(sh) * f, other),
            E.Quantity(wid.reshape(sh) * f, other), wt.reshape(sh).copy()]
    keep = [a.magnitude.copy() if hasattr(a, 'magnitude') else a.copy()
            for a in args]
    r = width_interpolated_broadening(
        E.Quantity(e, unit), *args, err, shape=c['shape'], fit=c['fit'])
    for a, b in zip(args, keep):
        close(a.magnitude if hasattr(a, 'magnitude') else a, b, 0, 0,
              'argument modified')
    y = r.to(1 / E.Quantity(1, unit).units).magnitude
    check(y.shape == (n,), f'shape {y.shape}')
    d = centres[:, None] - centres[idx]     # modes count at their bin centre
    ker = KERN[c['shape']](d, wid)
    far = np.abs(d) >= (n // 2 - 1) * dx
    exp = (ker * wt).sum(1)
    lost = (ker * far * wt).sum() * dx
    tot = wt.sum()
    t.hit(k > 1 and c['spread'] > 0)
    t.tag(c['shape'], c['fit'], f'error 1e{round(c["logerr"])}')
    diff = np.abs(y - exp).sum() * dx
    factor = 3.0 if c['fit'] == 'cubic' else 2.0
    check(diff <= factor * err * tot + lost + 1e-7 * tot,
          f'{c["shape"]} {c["fit"]}: differs from exact by {diff / tot} of '
          f'the total, requested error {err} (out of reach {lost / tot})')
    # conserved intensity (same part of the tails)
    near = (ker * ~far * wt).sum() * dx
    inside = c['shape'] == 'gauss' and near > (1 - 1e-7) * tot
    slack = (0.01 if inside else 1.5) * err
    check(near - (slack + 1e-5) * tot <= y.sum() * dx
          <= near + lost + (slack + 1e-5) * tot,
          f'intensity {y.sum() * dx / tot}, exact {near / tot} + '
          f'{lost / tot}')
    check(y.min() >= -1e-3 * err * y.max(), f'negative intensity {y.min()}')


@st.composite
def bad_cases(draw):
    return dict(kind=draw(st.sampled_from(
        ['std lorentz', 'cubic lorentz', 'fit', 'convention', 'error big',
         'error small', 'irregular 1d', 'shape', 'unit'])),
        coll=draw(st.booleans()), n=draw(st.integers(4, 20)))


def run_bad(c, t):
    import euphonic as E
    from pint.errors import DimensionalityError
    x = np.arange(c['n'] + 1.)
    if c['kind'] == 'irregular 1d':
        x[-1] += 0.3
    y = np.ones((2, c['n'])) if c['coll'] else np.ones(c['n'])
    s = (E.Spectrum1DCollection if c['coll'] else E.Spectrum1D)(
        E.Quantity(x, 'meV'), E.Quantity(y, '1/meV'))
    kw = {'std lorentz': dict(width_convention='std', shape='lorentz'),
          'cubic lorentz': dict(width_fit='cubic', shape='lorentz'),
          'fit': dict(width_fit='spline'),
          'convention': dict(width_convention='hwhm'),
          'error big': dict(width_interpolation_error=0.5),
          'error small': dict(width_interpolation_error=1e-6),
          'shape': dict(shape='box')}.get(c['kind'], {})

    def fn(e):
        if c['kind'] == 'unit':
            return E.Quantity(e.to('meV').magnitude, 'kg')
        return E.Quantity(1.5 + .01 * e.to('meV').magnitude, 'meV')
    t.hit()
    t.tag(c['kind'])
    before = snapshot(s)
    exc = {'irregular 1d': AssertionError,
           'unit': (DimensionalityError, ValueError)}.get(
        c['kind'], ValueError)
    raises(exc, lambda: s.broaden(fn, **kw), f'broaden with {c["kind"]}')
    same(before, snapshot(s), 'source')


# ------------------------------------------------------- spectra
@st.composite
def spec_cases(draw):
    s = draw(spec.spectra(classes=['Spectrum1D', 'Spectrum1DCollection',
                                   'Spectrum2D', 'Spectrum2D'],
                          max_n=60, min_n=20, max_lines=3, regular=True,
                          edges=True, y_edges=True))
    s.update(
        fn=draw(st.sampled_from(['const', 'linear', 'poly', 'step',
                                 'recip'])),
        a=draw(nice_float(0.3, 3)), b=draw(nice_float(0, 3)),
        conv=draw(st.sampled_from(['fwhm', 'std'])),
        shape=draw(st.sampled_from(['gauss', 'gauss', 'lorentz'])),
        fit=draw(st.sampled_from(['cheby-log', 'cubic'])),
        err=draw(st.sampled_from([None, 0.002, 0.01, 0.04])),
        limit=draw(st.sampled_from([None, None, 1.5, 3.0, 0.8])),
        axis=draw(st.sampled_from(['x', 'y', 'y', 'both'])),
        u=draw(st.integers(-1, 2)), op=draw(st.integers(0, 3)))
    s['negative'] = False
    return s


def width_function(c, a, dx):
    """function of the axis value (float, axis unit) -> width in axis unit"""
    lo, rng = a[0], a[-1] - a[0]

    def fn(x):
        u = (np.asarray(x, float) - lo) / rng     # 0..1
        return dx * {
            'const': lambda: c['a'] + 0 * u,
            'linear': lambda: c['a'] + c['b'] * u,
            'poly': lambda: c['a'] + c['b'] * u ** 2 - 0.2 * u,
            'step': lambda: np.where(u > .6, c['a'] + c['b'], c['a']),
            'recip': lambda: c['a'] + c['b'] / (1 + 3 * u)}[c['fn']]()
    return fn


def run_spectrum(c, t):
    import euphonic as E
    from checks.p25 import XU
    m = spec.model(c)
    s = spec.make(m)
    shape, conv, fit = c['shape'], c['conv'], c['fit']
    if shape == 'lorentz':
        conv, fit = 'fwhm', 'cheby-log'
    axes = [c['axis']] if c['axis'] != 'both' else ['x', 'y']
    if not m.two:
        axes = ['x']
    kw = dict(shape=shape, width_convention=conv, width_fit=fit)
    err = 0.01
    if c['err'] is not None:
        err = kw['width_interpolation_error'] = c['err']
    mats, args = [], {}
    for ax in axes:
        a = m.x if ax == 'x' else m.y
        unit = m.x_unit if ax == 'x' else m.y_unit
        dx = a[1] - a[0]
        fn = width_function(c, a, dx)
        ce = (a[1:] + a[:-1]) / 2
        w = fn(ce)
        if shape == 'gauss' and conv == 'fwhm':
            w = w / (2 * np.sqrt(2 * np.log(2)))
        lim = (1.0 if c['limit'] is None else c['limit']) * dx
        w = np.maximum(w, lim)
        if w.max() / w.min() > 60:
            raise Skip('range of widths')
        ker = KERN[shape](ce[:, None] - ce, w) * dx
        far = np.abs(ce[:, None] - ce) >= (len(ce) // 2 - 1) * dx
        mats.append((ker, ker * far, len(np.unique(np.round(w / dx, 9)))))
        u2 = unit if c['u'] < 0 else XU[unit][c['u']]
        fac = E.Quantity(1.0, unit).to(
            u2, 'reciprocal_spectroscopy').magnitude

        def quantity_fn(q, fn=fn, unit=unit, u2=u2, fac=fac):
            # works for the axis in any unit, answers in another one
            v = q.to(unit, 'reciprocal_spectroscopy').magnitude
            return E.Quantity(fn(v) * fac, u2)
        if m.two:
            args[f'{ax}_width'] = quantity_fn
            if c['limit'] is not None:
                args[f'{ax}_width_lower_limit'] = E.Quantity(lim * fac, u2)
        else:
            args['x_width'] = quantity_fn
            if c['limit'] is not None:
                args['width_lower_limit'] = E.Quantity(lim * fac, u2)
    before = snapshot(s)
    r = s.broaden(**args, **kw)
    same(before, snapshot(s), 'source of broaden')
    t.tag(m.cls, shape, conv, fit, c['fn'], '/'.join(axes))
    t.hit(any(k > 1 for _, _, k in mats) and np.any(m.d))
    check(type(r) is type(s), 'type')
    close(r.x_data.magnitude, m.x, 1e-12, 1e-12, 'x')
    check(r.x_data.units == s.x_data.units and spec.data(r).units.
          is_compatible_with(spec.data(s).units), 'units')
    check(r.x_tick_labels == m.labels and spec.lines(r) == m.metas,
          'labels and metadata')
    du = spec.data(s).units
    got = spec.data(r).to(du).magnitude
    exp = m.d
    lost = 0.0
    for ax, (ker, far, _) in zip(axes, mats):
        dim = (1 if m.coll else 0) if ax == 'x' else 1
        lost = lost + np.abs(np.tensordot(far, exp, (1, dim))).sum()
        exp = np.moveaxis(np.tensordot(ker, exp, (1, dim)), 0, dim)
    tot = m.d.sum()
    factor = (3.0 if fit == 'cubic' else 2.0) * len(axes)
    diff = np.abs(got - exp).sum()
    check(diff <= factor * err * tot + lost + 1e-7 * tot,
          lambda: f'{m.cls}.broaden({c["fn"]} width of {axes}, {kw}): '
          f'differs from the exact sum by {diff / tot} of the total '
          f'intensity (requested error {err}, out of reach {lost / tot})')
    check(got.min() >= -1e-3 * err * max(got.max(), 1e-300)
          or tot == 0, f'negative intensity {got.min()}')
    top = max(np.abs(got).max(), 1e-300)
    # linear in the data
    rng = np.random.default_rng([c['seed'], 17])
    other = rng.uniform(0, 2, m.d.shape)
    def with_data(d):
        q = s.copy()
        if m.two:
            q.z_data = E.Quantity(d, m.d_unit)
        else:
            q.y_data = E.Quantity(d, m.d_unit)
        return q
    o = spec.data(with_data(other).broaden(**args, **kw)).to(du).magnitude
    b = spec.data(with_data(2 * m.d - 0.5 * other).broaden(
        **args, **kw)).to(du).magnitude
    close(b, 2 * got - 0.5 * o, 1e-7, 1e-7 * max(top, np.abs(o).max()),
          'broadening is not linear')
    # unit of the axis
    for ax in axes:
        unit = m.x_unit if ax == 'x' else m.y_unit
        s2 = s.copy()
        setattr(s2, f'{ax}_data_unit', XU[unit][c['op'] % 3])
        r2 = spec.data(s2.broaden(**args, **kw)).to(du).magnitude
        # the set of kernels may differ by rounding of the widths
        check(np.abs(r2 - got).sum() <= (1e-6 + factor * err * .5)
              * max(tot, 1e-300) + lost,
              f'broadened with {ax} in {XU[unit][c["op"] % 3]}')
    if m.coll:
        for i in range(len(m.metas)):
            one = s[i].broaden(**args, **kw)
            close(one.y_data.to(du).magnitude, got[i], 1e-9, 1e-9 * top,
                  f'line {i} broadened alone')


SUBS = [
    Sub('reference', dos_cases(), run_reference, 400),
    Sub('fast', dos_cases(), run_fast, 400),
    Sub('kernels', kernel_cases(), run_kernels, 2000),
    Sub('spectrum', spec_cases(), run_spectrum, 800),
    Sub('refused', bad_cases(), run_bad, 150),
]
