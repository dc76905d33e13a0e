"""P14 inconsistent objects cannot be constructed"""
import contextlib
import copy
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.p31 import Scratch
from harness import gen, spec
from harness import phonopy as pw
from harness.core import Skip, Sub, check, close
from harness.gen import small_seed

RULE = ('construct: a consistent set of constructor arguments of any data '
        'class is generated and 0-2 of its arguments are changed (type, '
        'container, number of dimensions, length of an axis, dimension of '
        'the unit, missing); an independent predicate (the documented types, '
        'shapes and dimensions) says whether the set is still consistent: '
        'then it must be accepted and stored unchanged, otherwise a '
        'TypeError, ValueError or unit error must be raised.  Non-trivial: '
        'at least one argument changed.  options: a string not among the '
        'documented values is given to every enumerated option and must '
        'raise ValueError, a documented one must not.')
TECHNIQUE = ('property-based testing against a reference predicate of '
             'consistent arguments')
ASSUMPTIONS = ['element types inside arrays are not checked',
               'the energy/length/temperature equivalences of the enabled '
               'Pint contexts are accepted dimensions of an energy']

KINDS = ['Crystal', 'ForceConstants', 'QpointFrequencies',
         'QpointPhononModes', 'StructureFactor', 'DebyeWaller'] \
    + spec.CLASSES
WRONG_UNITS = ['tesla', 'mol', 'candela', '', 'volt*second**3']
CHANGES = ['bare', 'quantity', 'list', 'str', 'float', 'int', 'dict', 'none',
           'scalar', 'unit', 'more', 'less', 'empty', 'more', 'less',
           'extra_last', 'extra_first', 'flat', 'item', 'transpose',
           'array']

change = st.tuples(st.integers(0, 20), st.sampled_from(CHANGES),
                   st.integers(0, 200))


@st.composite
def cases(draw):
    k = draw(st.sampled_from(KINDS))
    c = dict(kind=k, seed=draw(small_seed), temp=draw(st.booleans()),
             weights=draw(st.booleans()), born=draw(st.booleans()),
             changes=draw(st.lists(change, max_size=2)),
             keyword=draw(st.booleans()))
    if k in spec.CLASSES:
        c['spec'] = draw(spec.spectra(classes=[k]))
    elif k == 'ForceConstants':
        c['fc'] = draw(gen.force_constants(3, 4, polar=c['born']))
    else:
        c['modes'] = draw(gen.phonon_modes(3, 4))
    return c


def arguments(c):
    """-> class, {name: value} in the order of the signature"""
    import euphonic as E
    from euphonic import Quantity as Q
    from euphonic.spectra import Spectrum2DCollection
    k = c['kind']
    rng = np.random.default_rng([c['seed'], 14])
    if k in spec.CLASSES:
        m = spec.model(c['spec'])
        cls = {'Spectrum2DCollection': Spectrum2DCollection}.get(
            k) or getattr(E, k)
        kw = dict(x_data=Q(m.x, m.x_unit))
        if m.two:
            kw['y_data'] = Q(m.y, m.y_unit)
        kw['z_data' if m.two else 'y_data'] = Q(m.d, m.d_unit)
        kw['x_tick_labels'] = m.labels
        meta = dict(m.meta)
        if m.line_data is not None:
            meta['line_data'] = m.line_data
        kw['metadata'] = meta if meta or rng.integers(2) else None
        return cls, kw
    if k == 'ForceConstants':
        m = gen.fc_model(c['fc'])
        kw = dict(crystal=gen.make_crystal(m),
                  force_constants=Q(m.fc, 'hartree/bohr**2'),
                  sc_matrix=m.sc_matrix, cell_origins=m.origins)
        if m.born is not None:
            kw.update(born=Q(m.born, 'e'),
                      dielectric=Q(m.eps, 'e**2/(bohr*hartree)'))
        else:
            kw.update(born=None, dielectric=None)
        return E.ForceConstants, kw
    m = gen.modes_model(c['modes'])
    if k == 'Crystal':
        return E.Crystal, dict(
            cell_vectors=Q(m.cell_ang, 'angstrom'), atom_r=m.atom_r,
            atom_type=m.atom_type, atom_mass=Q(m.mass_amu, 'amu'))
    cr = gen.make_modes_crystal(m)
    if k == 'DebyeWaller':
        return E.DebyeWaller, dict(
            crystal=cr, debye_waller=Q(rng.normal(size=(m.n_atoms, 3, 3)),
                                       'angstrom**2'),
            temperature=Q(float(rng.uniform(0, 300)), 'K'))
    kw = dict(crystal=cr, qpts=m.q,
              frequencies=Q(m.f / gen.EUNIT[m.freq_unit], m.freq_unit))
    w = m.w if c['weights'] else None
    if k == 'QpointFrequencies':
        return E.QpointFrequencies, dict(kw, weights=w)
    if k == 'QpointPhononModes':
        return E.QpointPhononModes, dict(kw, eigenvectors=m.evecs, weights=w)
    return E.StructureFactor, dict(
        kw, structure_factors=Q(rng.uniform(0, 9, m.f.shape), 'mbarn'),
        weights=w, temperature=Q(float(rng.uniform(0, 300)), 'K')
        if c['temp'] else None)


def changed(name, v, kind, n, original):
    """the changed value, or raise Skip"""
    from euphonic import Quantity
    Q = Quantity
    if kind in ('str', 'float', 'int', 'dict', 'none'):
        return dict(str='meV', float=1.5, int=2, dict={'a': 1},
                    none=None)[kind]
    if isinstance(v, (list, type(None))) and name == 'x_tick_labels':
        return [[(0,)], [('a', 0)], [[0, 'a']], [(0.5, 'a')],
                [(0, 'a', 1)], [(1, 'a'), 'b'], [(0, 'ok')], [], [(0, 1)],
                [(0, 'a'), (2, 'b')]][n % 10]
    if name == 'metadata':
        if not isinstance(v, (dict, type(None))):
            raise Skip('no such change')
        ld = (v or {}).get('line_data')
        if ld is None:
            ld = []
        new = dict(v or {})
        if n % 3 == 0:
            new['line_data'] = list(ld) + [{}]
        elif n % 3 == 1:
            new['line_data'] = list(ld)[1:]
        else:
            return [v]
        return new
    if isinstance(v, Quantity):
        m = np.asarray(v.magnitude)
        if kind == 'bare':
            return v.magnitude
        if kind == 'unit':
            return Q(v.magnitude, WRONG_UNITS[n % len(WRONG_UNITS)])
        if kind == 'scalar':
            return Q(1.25, v.units)
        if m.ndim == 0:
            if kind == 'array':
                return Q(np.full(1 + n % 3, float(m)), v.units)
            raise Skip('no such change')

        def back(x):
            return Q(x, v.units)
    elif isinstance(v, np.ndarray):
        m = v
        if kind == 'list':
            return v.tolist()
        if kind == 'quantity':
            if v.dtype.kind not in 'fi':
                raise Skip('no such change')
            return Q(v, 'meV')

        def back(x):
            return x
    else:
        raise Skip('no such change')
    if m.ndim == 0:
        raise Skip('no such change')
    ax = n % m.ndim
    if kind == 'more':
        return back(np.concatenate([m, m.take([0], ax)], ax)
                    if m.shape[ax] else m)
    if kind == 'less':
        return back(np.delete(m, n % m.shape[ax], ax)
                    if m.shape[ax] else m)
    if kind == 'empty':
        return back(m.take([], ax))
    if kind == 'extra_last':
        return back(m[..., None])
    if kind == 'extra_first':
        return back(m[None])
    if kind == 'flat':
        return back(m.ravel())
    if kind == 'item':
        if not len(m):
            raise Skip('no such change')
        return back(m[0])
    if kind == 'transpose':
        return back(m.T)
    raise Skip('no such change')


ENERGY = {'meV', 'THz', '1/cm', 'hartree', 'eV', 'K'}
DIMS = {'cell_vectors': ('angstrom',), 'atom_mass': ('amu',),
        'force_constants': ('hartree/bohr**2',), 'born': ('e',),
        'dielectric': ('e**2/(bohr*hartree)',),
        'structure_factors': ('mbarn',), 'debye_waller': ('angstrom**2',),
        'temperature': ('K',), 'frequencies': tuple(ENERGY)}


def consistent(kind, kw, units):
    """Is the set of arguments consistent, by the documentation alone?
    `units`: names of arguments with a wrong unit"""
    from euphonic import Crystal, Quantity

    def q(x):
        return isinstance(x, Quantity)

    def a(x):
        return isinstance(x, np.ndarray)

    def sh(x):
        return np.shape(x.magnitude) if q(x) else np.shape(x)

    g = kw.get
    if kind in spec.CLASSES:
        two, coll = '2D' in kind, 'Coll' in kind
        d = g('z_data' if two else 'y_data')
        if not q(d) or len(sh(d)) != 1 + two + coll:
            return False
        if coll and sh(d)[0] == 0:
            raise Skip('collection without spectra')
        n = sh(d)[1 if coll else 0]
        if not q(g('x_data')) or sh(g('x_data')) not in ((n,), (n + 1,)):
            return False
        if two and (not q(g('y_data')) or sh(g('y_data')) not in (
                (sh(d)[-1],), (sh(d)[-1] + 1,))):
            return False
        t = g('x_tick_labels')
        if t is not None and not (isinstance(t, list) and all(
                isinstance(x, tuple) and len(x) == 2 and isinstance(
                    x[0], int) and isinstance(x[1], str) for x in t)):
            return False
        md = g('metadata')
        if md is not None and not isinstance(md, dict):
            return False
        if coll and md and 'line_data' in md \
                and len(md['line_data']) != sh(d)[0]:
            return False
        return True
    if units:
        return False
    if kind == 'Crystal':
        if not (q(g('cell_vectors')) and a(g('atom_r')) and a(g('atom_type'))
                and q(g('atom_mass'))):
            return False
        n = len(g('atom_r')) if sh(g('atom_r')) else -1
        if n == 0:
            raise Skip('no atoms')
        return (sh(g('cell_vectors')) == (3, 3) and sh(g('atom_r')) == (n, 3)
                and sh(g('atom_type')) == (n,) == sh(g('atom_mass')))
    cr = g('crystal')
    if not isinstance(cr, Crystal):
        return False
    n = cr.n_atoms
    if kind == 'ForceConstants':
        if not (q(g('force_constants')) and a(g('sc_matrix'))
                and a(g('cell_origins')) and sh(g('sc_matrix')) == (3, 3)):
            return False
        nc = abs(round(np.linalg.det(g('sc_matrix'))))
        b, e = g('born'), g('dielectric')
        if (b is None) != (e is None):
            return False
        if b is not None and not (q(b) and q(e) and sh(b) == (n, 3, 3)
                                  and sh(e) == (3, 3)):
            return False
        return (sh(g('force_constants')) == (nc, 3 * n, 3 * n)
                and sh(g('cell_origins')) == (nc, 3))
    T = g('temperature')
    if kind == 'DebyeWaller':
        return (q(g('debye_waller')) and sh(g('debye_waller')) == (n, 3, 3)
                and q(T) and sh(T) == ())
    if not (a(g('qpts')) and len(sh(g('qpts'))) == 2
            and sh(g('qpts'))[1] == 3):
        return False
    nq = len(g('qpts'))
    f = g('frequencies')
    if nq == 0:
        raise Skip('no q-points')
    if not (q(f) and len(sh(f)) == 2 and sh(f)[0] == nq):
        return False
    if kind != 'QpointFrequencies' and sh(f)[1] != 3 * n:
        return False
    w = g('weights')
    if w is not None and not (a(w) and not q(w) and sh(w) == (nq,)):
        return False
    if kind == 'QpointPhononModes':
        e = g('eigenvectors')
        return a(e) and sh(e) == (nq, 3 * n, n, 3)
    if kind == 'StructureFactor':
        s = g('structure_factors')
        return (q(s) and sh(s) == (nq, 3 * n)
                and (T is None or q(T) and sh(T) == ()))
    return True


def stored(o, kw, kind):
    from euphonic import Crystal, Quantity
    for k, v in kw.items():
        got = getattr(o, k)
        if isinstance(v, Quantity):
            check(str(got.units) == str(v.units),
                  f'{k}: unit {got.units} != {v.units}')
            m = np.asarray(v.magnitude, float)
            check(np.shape(got.magnitude) == m.shape,
                  f'{k}: shape {np.shape(got.magnitude)} != {m.shape}')
            close(got.magnitude, m, 1e-13, 1e-15 * np.abs(m).max()
                  if m.size else 0, k)
        elif isinstance(v, np.ndarray):
            check(np.array_equal(got, v), f'{k} is not as given')
        elif isinstance(v, Crystal):
            check(got is v or got.to_dict().keys() == v.to_dict().keys(),
                  f'{k} is another crystal')
            close(got.atom_r, v.atom_r, 0, 0, 'crystal.atom_r')
        elif v is None and k == 'weights':
            close(got, np.full(o.n_qpts, 1 / o.n_qpts), 1e-14, 0,
                  'default weights')
        elif v is None and k == 'metadata':
            check(got == {}, f'default metadata {got}')
        else:
            check(got == v, f'{k}: {got!r} != {v!r}')
    n = dict(Crystal=lambda: (o.n_atoms, len(kw['atom_r'])),
             ForceConstants=lambda: (o.n_cells_in_sc,
                                     len(kw['cell_origins']))).get(
        kind, lambda: (o.n_qpts, len(kw['qpts'])) if 'qpts' in kw else (0, 0))
    check(n()[0] == n()[1], f'count {n()[0]} != {n()[1]}')


def run(c, t):
    cls, kw = arguments(c)
    names = list(kw)
    what, units = [], set()
    for i, kind, n in c['changes']:
        k = names[i % len(names)]
        kw[k] = changed(k, kw[k], kind, n, kw)
        what.append(f'{k}: {kind}')
        if kind == 'unit' and k in DIMS:
            units.add(k)
        elif kind == 'quantity' and k in DIMS:
            units.discard(k)
            if k != 'frequencies':
                units.add(k)
        elif kind in ('str', 'float', 'int', 'dict', 'none', 'bare'):
            units.discard(k)
    ok = consistent(c['kind'], kw, units)
    given = copy.deepcopy(kw)
    name = f'{c["kind"]}({", ".join(what)})'
    t.hit(bool(what))
    for x in what:
        t.tag(x.split(': ')[1] + (' accepted' if ok else ' rejected'))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            o = cls(**kw) if c['keyword'] else cls(*kw.values())
        except (TypeError, ValueError) as e:
            check(not ok, f'{name}: consistent arguments are rejected: {e!r}')
            return
        except Exception as e:
            check(False, f'{name}: {e!r} instead of TypeError/ValueError')
    if not ok:
        shapes = {k: np.shape(getattr(v, 'magnitude', v)) if isinstance(
            v, np.ndarray) or hasattr(v, 'magnitude') else v
            for k, v in kw.items()}
        check(False, f'{name}: accepted inconsistent arguments {shapes}')
    stored(o, given, c['kind'])


# ----------------------------------------------------------------- options

OPTIONS = {
    'asr': ('realspace', 'reciprocal'),
    'asr_frequencies': ('realspace', 'reciprocal'),
    'adaptive_method': ('reference', 'fast'),
    'adaptive_method_pdos': ('reference', 'fast'),
    'adaptive_error_fit': ('cheby-log', 'cubic'),
    'weighting': ('coherent', 'incoherent', 'coherent-plus-incoherent'),
    'shape1': ('gauss', 'lorentz'), 'shapec': ('gauss', 'lorentz'),
    'shape2x': ('gauss', 'lorentz'), 'shape2y': ('gauss', 'lorentz'),
    'shape_function1': ('gauss', 'lorentz'),
    'shape_function2': ('gauss', 'lorentz'),
    'method1': ('convolve',), 'methodc': ('convolve',),
    'method2': ('convolve',),
    'width_convention1': ('fwhm', 'std'), 'width_conventionc': (
        'fwhm', 'std'),
    'width_convention2': ('fwhm', 'std'),
    'width_convention_function1': ('fwhm', 'std'),
    'width_convention_function2': ('fwhm', 'std'),
    'width_fit1': ('cheby-log', 'cubic'),
    'width_fit2': ('cheby-log', 'cubic'),
    'bin_edges': ('x', 'y'), 'bin_centres': ('x', 'y'),
    'bin_widths': ('x', 'y'), 'regular': ('x', 'y'),
    'sampling_dos': ('golden', 'sphere-projected-grid',
                     'spherical-polar-grid', 'spherical-polar-improved',
                     'random-sphere'),
    'sampling_sf': ('golden', 'random-sphere'),
    'sampling_pdos': ('golden', 'random-sphere'),
    'weighting_powder': ('coherent', 'incoherent',
                         'coherent-plus-incoherent'),
    'kernel_shape': ('gauss', 'lorentz'),
    'kernel_fit': ('cheby-log', 'cubic'),
    'grid_type': (), 'collection': ('Sears1992',),
    'physical_property': ('coherent_scattering_length',),
    'phonon_format': (), 'fc_format': ()}


@st.composite
def option_cases(draw):
    name = draw(st.sampled_from(sorted(OPTIONS)))
    valid = OPTIONS[name]
    bad = st.one_of(
        st.sampled_from(['rubbish', 'gaus', 'Gauss', 'none', 'None', 'all',
                         'real_space', 'Lorentz', 'hwhm', 'sigma', 'z',
                         'golden-sphere', 'refrence', 'quadratic', 'txt',
                         'xml', 'plus', 'both']),
        st.text('abcdefghijklmnopqrstuvwxyz-', min_size=1, max_size=12))
    if valid:
        v = draw(st.sampled_from(valid))
        bad = st.one_of(bad, st.sampled_from(
            [v + 's', v[:-1], v + ' ', v[::-1], v.replace('-', '_'),
             v + '-' + v, v.swapcase()]))
    value = draw(st.one_of(bad, bad, bad, st.sampled_from(valid))
                 if valid else bad)
    return dict(name=name, value=value, fc=draw(gen.force_constants(
        2, 2, polar=False)), modes=draw(gen.phonon_modes(2, 2)),
        seed=draw(small_seed))


def run_options(c, t):
    import euphonic as E
    from euphonic import Quantity as Q
    from euphonic import broadening, powder
    from euphonic.util import get_reference_data
    name, r = c['name'], c['value']
    valid = OPTIONS[name]
    insens = name.startswith('width_convention') or \
        name.startswith('sampling')
    ok = r in valid or insens and r.lower() in valid
    if insens and not ok and r.strip().lower() in valid:
        raise Skip('whitespace')
    # accepted aliases which are not the subject here
    if name in ('phonon_format', 'fc_format') and r in (
            'yaml', 'yml', 'yl', 'hdf5', 'hd5', 'h5', 'phonopy'):
        raise Skip('valid')
    if name == 'grid_type' and r in ('trellis', 'mesh', 'nest'):
        raise Skip('valid')
    if name.startswith('sampling') and r.lower() in OPTIONS['sampling_dos']:
        ok = True
    if r in ('__init__', '') or name == 'collection' and not ok and \
            not r.strip().isalnum():
        raise Skip('may name a file')
    m = gen.modes_model(c['modes'])
    if name.startswith('asr') or 'powder' in name or 'sampling' in name \
            or name == 'grid_type':
        fm = gen.fc_model(c['fc'])
        fc = gen.make_fc(fm)
    modes = gen.make_modes(m)
    modes.crystal.atom_type = np.array(['Al'] * modes.crystal.n_atoms)
    bins = Q(np.linspace(0, 100, 11), 'meV')
    w = Q(np.full(m.f.shape, 12.), 'meV')
    q = np.array([[.1, .2, .3]])
    rng = np.random.default_rng([c['seed'], 15])
    x = Q(np.arange(8.), 'meV')
    if name[-1] == '1':
        s = E.Spectrum1D(x, Q(rng.uniform(size=7), '1/meV'))
    elif name[-1] == 'c':
        s = E.Spectrum1DCollection(x, Q(rng.uniform(size=(2, 7)), '1/meV'))
    else:
        s = E.Spectrum2D(x, Q(np.arange(6.), 'THz'),
                         Q(rng.uniform(size=(7, 5)), '1/THz'))
    wx, wy = Q(1.4, 'meV'), Q(1.3, 'THz')

    def fx(z):
        return z * 0 + wx

    def fy(z):
        return z * 0 + wy
    Aq = Q(1.1, '1/angstrom')
    if 'sampling' in name or 'powder' in name:
        fc.crystal.atom_type = np.array(['Al'] * fc.crystal.n_atoms)

    def bro(key, fx_, fy_):
        if name[-1] in '1c':
            return lambda: s.broaden(fx_, **{key: r})
        if name[-1] == 'x':
            return lambda: s.broaden(x_width=fx_, **{key: r})
        return lambda: s.broaden(y_width=fy_, **{key: r})
    calls = {
        'asr': lambda: fc.calculate_qpoint_phonon_modes(
            q, asr=r, n_threads=1),
        'asr_frequencies': lambda: fc.calculate_qpoint_frequencies(
            q, asr=r, n_threads=1),
        'adaptive_method': lambda: modes.calculate_dos(
            bins, mode_widths=w, adaptive_method=r),
        'adaptive_method_pdos': lambda: modes.calculate_pdos(
            bins, mode_widths=w, adaptive_method=r),
        'adaptive_error_fit': lambda: modes.calculate_dos(
            bins, mode_widths=w, adaptive_method='fast',
            adaptive_error_fit=r),
        'weighting': lambda: modes.calculate_pdos(bins, weighting=r),
        'bin_edges': lambda: s.get_bin_edges(r),
        'bin_centres': lambda: s.get_bin_centres(r),
        'bin_widths': lambda: s.get_bin_widths(r),
        'regular': lambda: s.assert_regular_bins(r),
        'sampling_dos': lambda: powder.sample_sphere_dos(
            fc, Aq, sampling=r, npts=8, energy_bins=bins, n_threads=1),
        'sampling_pdos': lambda: powder.sample_sphere_pdos(
            fc, Aq, sampling=r, npts=8, energy_bins=bins, n_threads=1),
        'sampling_sf': lambda: powder.sample_sphere_structure_factor(
            fc, Aq, sampling=r, npts=8, energy_bins=bins, n_threads=1,
            scattering_lengths={'Al': Q(3., 'fm')}),
        'weighting_powder': lambda: powder.sample_sphere_pdos(
            fc, Aq, weighting=r, npts=8, energy_bins=bins, n_threads=1),
        'kernel_shape': lambda: broadening.width_interpolated_broadening(
            bins, Q(np.array([20., 41]), 'meV'), Q(np.array([11., 19]),
                                                   'meV'),
            np.ones(2), .01, shape=r),
        'kernel_fit': lambda: broadening.width_interpolated_broadening(
            bins, Q(np.array([20., 41]), 'meV'), Q(np.array([11., 19]),
                                                   'meV'),
            np.ones(2), .01, fit=r),
        'collection': lambda: get_reference_data(collection=r),
        'physical_property': lambda: get_reference_data(
            physical_property=r),
    }
    if name in calls:
        f = calls[name]
    elif name.startswith('shape_function'):
        f = bro('shape', fx, fy)
    elif name.startswith('shape'):
        f = bro('shape', wx, wy)
    elif name.startswith('method'):
        f = bro('method', wx, wy)
    elif name.startswith('width_convention_function'):
        f = bro('width_convention', fx, fy)
    elif name.startswith('width_convention'):
        f = bro('width_convention', wx, wy)
    elif name.startswith('width_fit'):
        f = bro('width_fit', fx, fy)
    elif name == 'grid_type':
        from euphonic.brille import BrilleInterpolator
        f = (lambda: BrilleInterpolator.from_force_constants(
            fc, grid_type=r))
    elif name == 'phonon_format':
        f = (lambda: E.QpointPhononModes.from_phonopy(
            phonon_name='mesh.yaml', phonon_format=r))
    else:
        fm = gen.fc_model(c['fc'])
        F = pw.model(fm, 'primitive', None)

        def f():
            with Scratch() as d:
                (d / 'phonopy.yaml').write_text(pw.summary(F, 'vasp'))
                (d / 'FORCE_CONSTANTS').write_text(pw.force_constants_text(
                    F, 'vasp', 'full', False))
                E.ForceConstants.from_phonopy(fc_format=r)
    t.hit(not ok)
    t.tag(name + (': valid' if ok else ': invalid'))
    with warnings.catch_warnings(), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            f()
        except ValueError as e:
            check(not ok, f'{name}={r!r} is documented but {e!r}')
            return
        except Exception as e:
            check(False, f'{name}={r!r}: {e!r}')
    check(ok, f'{name}={r!r} is not documented but is accepted')


SUBS = [Sub('construct', cases(), run, 6000, 200000),
        Sub('options', option_cases(), run_options, 1500, 40000)]
