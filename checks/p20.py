"""P20 Powder averages are the spherical average of the direct calculation"""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from checks import p15
from checks.p08 import same, snapshot
from harness import gen
from harness.core import Skip, Sub, check, close, raises
from harness.gen import nice_float, small_seed

RULE = ('A case is a drawn force-constants object (any lattice, 1-3 atoms, '
        'some polar), |q| in 1/angstrom, 1/bohr or 1/nm, a cell in any unit, '
        'a sampling scheme (in any capitalisation), 1-40 points, jitter, '
        'a numpy seed, bins and one of the three powder functions with its '
        'weighting, scattering lengths, temperature and Debye-Waller options. '
        'The q-points requested from the force constants are recorded; the '
        'result is compared with the plain mean of one-q-point calculations '
        'on the same points of the sphere (in the large cases, of up to '
        '2100 points, with the mean over small blocks of points).  Non-trivial: more than one '
        'q-point and a spectrum that is not zero.')
TECHNIQUE = ('property-based testing: differential comparison with '
             'independent averaging of direct one-q-point calculations')
ASSUMPTIONS = ['cases with a mode within rounding of a bin edge are skipped',
               'random schemes draw from numpy\'s global generator']
SCHEMES = ['golden', 'sphere-projected-grid', 'spherical-polar-grid',
           'spherical-polar-improved', 'random-sphere']
# angstrom**-1 per unit
QU = {'1/angstrom': 1.0, '1/bohr': 1 / gen.BOHR_ANG, '1/nm': 0.1}


@st.composite
def cases(draw):
    scheme = draw(st.sampled_from(SCHEMES))
    return dict(
        fc=draw(gen.force_constants(3, 4, polar=draw(st.integers(0, 5)) == 0,
                                    modes=('spring',))),
        modq=draw(nice_float(0.15, 4.0)), q_unit=draw(st.sampled_from(
            sorted(QU))),
        cell_unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
        scheme=scheme,
        case=draw(st.sampled_from(['lower', 'lower', 'upper', 'title'])),
        npts=draw(st.integers(1, 40)),
        jitter=draw(st.sampled_from([None, False, True])),
        np_seed=draw(st.integers(0, 2 ** 31)), seed=draw(small_seed),
        bins=draw(st.sampled_from([None, 'regular', 'irregular', 'cut'])),
        bin_unit=draw(st.sampled_from(['meV', 'THz', '1/cm'])),
        nbins=draw(st.integers(1, 15)),
        what=draw(st.sampled_from(['dos', 'pdos', 'sf', 'sf'])),
        weighting=draw(st.sampled_from(
            [None, 'coherent', 'incoherent', 'coherent-plus-incoherent'])),
        cs=draw(st.sampled_from(['default', 'BlueBook', 'dict', 'dict2'])),
        csseed=draw(small_seed),
        T=draw(st.sampled_from([None, 'default', 0.0, 5.0, 300.0])),
        dw=draw(st.sampled_from(['auto', 'auto', 'given', 'clash'])),
        sl=draw(st.sampled_from(['default', 'Sears1992', 'dict'])),
        asr=draw(st.sampled_from([None, None, 'realspace', 'reciprocal'])),
        use_c=draw(st.sampled_from([None, True, False])))


def sphere(c):
    """unit vectors of the scheme, with the numbers of points documented"""
    import euphonic.sampling as s
    n, kw = c['npts'], {}
    if c['jitter'] is not None:
        kw['jitter'] = c['jitter']
    k = 1
    while 2 * k * k < n:
        k += 1
    np.random.seed(c['np_seed'])
    p = {'golden': lambda: s.golden_sphere(n, **kw),
         'sphere-projected-grid':
             lambda: s.sphere_from_square_grid(2 * k, k, **kw),
         'spherical-polar-grid':
             lambda: s.spherical_polar_grid(2 * k, k, **kw),
         'spherical-polar-improved':
             lambda: s.spherical_polar_improved(n, **kw),
         'random-sphere': lambda: s.random_sphere(n)}[c['scheme']]()
    return np.array([tuple(x) for x in p])


@st.composite
def large_cases(draw):
    """numbers of points in everyday use, averaged in blocks"""
    c = draw(cases())
    c['npts'] = draw(st.one_of(st.integers(41, 2100),
                               st.sampled_from([100, 128, 200, 500, 512, 513,
                                                999, 1000, 1001, 1024, 1025,
                                                2048, 2049])))
    c['block'] = draw(st.sampled_from([37, 64, 97]))
    return c


class Spy:
    """records the q-points requested from a force-constants object"""

    def __init__(self, fc):
        self.calls = []
        self.fc = fc
        for name in ('calculate_qpoint_frequencies',
                     'calculate_qpoint_phonon_modes'):
            setattr(fc, name, self.wrap(getattr(fc, name), name))

    def wrap(self, f, name):
        def g(qpts, *a, **kw):
            self.calls.append((name, np.array(qpts), dict(kw)))
            return f(qpts, *a, **kw)
        return g

    def off(self):
        for name in ('calculate_qpoint_frequencies',
                     'calculate_qpoint_phonon_modes'):
            delattr(self.fc, name)


def scattering(c, m):
    """(keyword for the powder function, dictionary for the direct one)"""
    import euphonic as E
    from euphonic.util import get_reference_data
    if c['sl'] == 'dict':
        rng = np.random.default_rng([c['seed'], 5])
        d = {s: E.Quantity(round(float(rng.uniform(-8, 12)), 3), 'fm')
             for s in sorted(set(m.atom_type.tolist()))}
        return dict(scattering_lengths=d), d
    d = get_reference_data(collection='Sears1992',
                           physical_property='coherent_scattering_length')
    if any(s not in d for s in m.atom_type):
        raise Skip('species without scattering length')
    return ({} if c['sl'] == 'default'
            else dict(scattering_lengths='Sears1992')), d


def run(c, t):
    import euphonic as E
    from euphonic import powder
    from euphonic.util import mp_grid
    m = gen.fc_model(c['fc'])
    fc = gen.make_fc(m)
    fc.crystal.cell_vectors_unit = c['cell_unit']
    B = 2 * np.pi * np.linalg.inv(m.cell_ang)      # columns, 1/angstrom
    modq = E.Quantity(c['modq'] / QU[c['q_unit']], c['q_unit'])
    scheme = getattr(c['scheme'], c['case'])()
    kw = dict(sampling=scheme, npts=c['npts'])
    if c['scheme'] == 'golden' and c['case'] == 'title':
        kw.pop('sampling')                         # the default
    if c['jitter'] is not None:
        kw['jitter'] = c['jitter']
    ckw = dict(n_threads=1)
    if c['asr']:
        ckw['asr'] = c['asr']
    if c['use_c'] is not None:
        ckw['use_c'] = c['use_c']
    t.tag(c['what'], c['scheme'], c['q_unit'], c['cell_unit'])
    if c['npts'] < 6 and c['scheme'] == 'spherical-polar-improved':
        f = {'dos': powder.sample_sphere_dos,
             'pdos': powder.sample_sphere_pdos,
             'sf': powder.sample_sphere_structure_factor}[c['what']]
        k2 = {'temperature': None} if c['what'] == 'sf' else {}
        raises(ValueError, lambda: f(fc, modq, **kw, **k2, **ckw),
               'too few points')
        return
    u = sphere(c)
    q = u * c['modq'] @ np.linalg.inv(B.T)
    block = c.get('block', 1)
    parts = [q[i:i + block] for i in range(0, len(q), block)]
    ph = [fc.calculate_qpoint_phonon_modes(x, **ckw) for x in parts]
    freq = np.concatenate([p.frequencies.to('meV').magnitude for p in ph])
    fmax = freq.max()
    eu = gen.EUNIT[c['bin_unit']]
    rng = np.random.default_rng([c['seed'], 6])
    if c['bins'] is None:
        e = np.linspace(0, 1.05 * fmax, 1001)
    elif c['bins'] == 'regular':
        e = np.linspace(-1.1 * fmax if c['what'] == 'sf' else 0., 1.1 * fmax,
                        c['nbins'] + 1)
    else:
        s = np.cumsum(rng.uniform(.1, 1, c['nbins'] + 1))
        e = (s - s[0]) / (s[-1] - s[0]) * (
            .7 if c['bins'] == 'cut' else 1.2) * fmax
    if c['bins'] is not None:
        bins = E.Quantity(e / eu, c['bin_unit'])
        kw['energy_bins'] = E.Quantity(e / eu, c['bin_unit'])
    else:
        bins = E.Quantity(e, 'meV')
    near = min(np.abs(freq[..., None] - e).min(),
               np.abs(freq[..., None] + e).min())
    if near < 2e-7 * fmax:
        raise Skip('mode on a bin edge')

    dwq = None
    if c['what'] == 'dos':
        one = [p.calculate_dos(bins) for p in ph]

        def f():
            return powder.sample_sphere_dos(fc, modq, **kw, **ckw)
    elif c['what'] == 'pdos':
        pkw = p15.cross_sections(c, m)[0]
        one = [p.calculate_pdos(bins, **pkw) for p in ph]

        def f():
            return powder.sample_sphere_pdos(fc, modq, **kw, **pkw, **ckw)
    else:
        if freq.min() < 1e-3 * fmax:
            raise Skip('soft mode')
        skw, lengths = scattering(c, m)
        T = None
        if c['T'] is not None:
            T = 273.0 if c['T'] == 'default' else c['T']
            if c['T'] != 'default':
                skw['temperature'] = E.Quantity(T, 'K')
        else:
            skw['temperature'] = None
        big = np.linalg.norm(2 * np.pi * np.linalg.inv(m.cell_ang),
                             axis=0).max()
        dw = None
        if c['dw'] != 'auto':
            gq = mp_grid([2, 1, 2])
            Tdw = T if T is not None else 50.0
            dw = fc.calculate_qpoint_phonon_modes(
                gq, **ckw).calculate_debye_waller(E.Quantity(Tdw, 'K'))
            skw['dw'] = dw
            if c['dw'] == 'clash' and T is not None:
                skw['temperature'] = E.Quantity(T + 10., 'K')
                raises(ValueError, lambda:
                       powder.sample_sphere_structure_factor(
                           fc, modq, **kw, **skw, **ckw),
                       'temperature differs from the one of dw')
                t.tag('temperature clash')
                t.hit()
                return
        elif T is not None:
            sp = big / 2.5
            skw['dw_spacing'] = E.Quantity(sp / QU[c['q_unit']], c['q_unit'])
            dwq = mp_grid(fc.crystal.get_mp_grid_spec(skw['dw_spacing']))
            dw = fc.calculate_qpoint_phonon_modes(
                dwq, **ckw).calculate_debye_waller(E.Quantity(T, 'K'))
        one = [p.calculate_structure_factor(
            scattering_lengths=lengths, dw=dw).calculate_1d_average(bins)
            for p in ph]
        t.tag('dw ' + c['dw'] if dw is not None else 'no dw')

        def f():
            return powder.sample_sphere_structure_factor(
                fc, modq, **kw, **skw, **ckw)
    before = snapshot(fc)
    spy = Spy(fc)
    np.random.seed(c['np_seed'])
    with contextlib.redirect_stdout(io.StringIO()):
        got = f()
    spy.off()
    same(before, snapshot(fc), 'force constants')
    # q-points used
    calls = [x for x in spy.calls]
    if dwq is not None and calls:
        calls = [x for x in calls if len(x[1]) != len(dwq)
                 or not np.allclose(x[1], dwq)]
    if calls:
        qs = np.concatenate([x[1] for x in calls])
        check(len(qs) == len(u), f'{len(qs)} q-points used, the scheme '
              f'{c["scheme"]} has {len(u)} for npts={c["npts"]}')
        close(np.linalg.norm(qs @ B.T, axis=1), np.full(len(qs), c['modq']),
              1e-9, 0, '|q| of the sampled q-points (1/angstrom)')
        close(qs, q, 1e-8, 1e-8, 'sampled q-points')
    # average
    check(type(got) is type(one[0]), f'{type(got).__name__} returned')
    check(got.y_data.units == one[0].y_data.units,
          f'unit {got.y_data.units}, direct {one[0].y_data.units}')
    exp = np.average([x.y_data.magnitude for x in one], axis=0,
                     weights=[len(x) for x in parts])
    y = got.y_data.magnitude
    t.hit(len(q) > 1 and exp.max() > 0)
    x = got.x_data.to('meV').magnitude
    close(x, e, 1e-9, 1e-9 * fmax, 'bins')
    if c['bins'] is not None:
        check(got.x_data.units == bins.units, 'unit of bins')
    tol = 1e-6 if c['what'] == 'sf' else 1e-7
    if c['bins'] is None:
        # edges differ by rounding
        y, exp = y * np.diff(x), exp * np.diff(e)
    close(y, exp, tol, tol * max(np.abs(exp).max(), 1e-300),
          f'{c["what"]} and mean of {len(q)} one-q-point spectra')
    if c['what'] == 'pdos':
        a = list(got.iter_metadata())
        b = list(one[0].iter_metadata())
        check(a == b, f'metadata {a}, direct {b}')


# ---------------------------------------------------------------- defaults

@st.composite
def default_cases(draw):
    return dict(fc=draw(gen.force_constants(2, 2, polar=False,
                                            modes=('spring',))),
                modq=draw(nice_float(0.15, 4.0)),
                what=draw(st.sampled_from(['dos', 'pdos', 'sf'])),
                spacing=draw(st.sampled_from([None, None, 0.05])),
                arg=draw(st.sampled_from(['asr', 'use_c', 'dipole',
                                          'n_threads'])),
                bad=draw(st.integers(0, 3)) == 0)


class Stop(Exception):
    pass


def run_default(c, t):
    """what is requested from the force constants by default"""
    import euphonic as E
    from euphonic import powder
    m = gen.fc_model(c['fc'])
    fc = gen.make_fc(m)
    B = 2 * np.pi * np.linalg.inv(m.cell_ang)
    modq = E.Quantity(c['modq'], '1/angstrom')
    f = {'dos': powder.sample_sphere_dos, 'pdos': powder.sample_sphere_pdos,
         'sf': powder.sample_sphere_structure_factor}[c['what']]
    t.tag(c['what'])
    t.hit()
    if c['bad']:
        kw = {'temperature': None} if c['what'] == 'sf' else {}
        raises(ValueError, lambda: f(fc, modq, sampling='no-such', **kw),
               'unknown sampling')
        return
    seen = []
    value = {'asr': 'reciprocal', 'use_c': False, 'dipole': False,
             'n_threads': 2}[c['arg']]
    small = fc.calculate_qpoint_phonon_modes(np.array([[.2, .1, .3]]))

    def stop(qpts, *a, **kw):
        seen.append((np.array(qpts), kw))
        if c['what'] == 'sf' and len(seen) == 1:
            return small       # stands for the Debye-Waller grid
        raise Stop
    fc.calculate_qpoint_frequencies = stop
    fc.calculate_qpoint_phonon_modes = stop
    kw = {c['arg']: value}
    sp = 0.025
    if c['what'] == 'sf' and c['spacing'] is not None:
        sp = c['spacing']
        kw['dw_spacing'] = E.Quantity(sp, '1/angstrom')
    try:
        f(fc, modq, **kw)
    except Stop:
        pass
    if not seen:
        raise Skip('force constants not used this way')
    for qpts, k in seen:
        check(k.get(c['arg']) == value, f'{c["arg"]} is not passed on: {k}')
    if c['what'] == 'sf':
        n = int(np.prod(fc.crystal.get_mp_grid_spec(
            E.Quantity(sp, '1/angstrom'))))
        check(len(seen[0][0]) == n, f'{len(seen[0][0])} q-points in the '
              f'Debye-Waller grid, expected {n}')
    import euphonic.sampling as s
    u = np.array([tuple(x) for x in s.golden_sphere(1000)])
    close(seen[-1][0], u * c['modq'] @ np.linalg.inv(B.T), 1e-8, 1e-8,
          'default q-points')


SUBS = [Sub('average', cases(), run, quick=350, thorough=9000),
        Sub('large', large_cases(), run, quick=60, thorough=1500),
        Sub('defaults', default_cases(), run_default, quick=60,
            thorough=600)]
