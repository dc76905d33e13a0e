"""P15 DOS, PDOS and DOS maps account for every mode exactly once"""
import json
import pathlib

import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import gen
from harness.core import Skip, Sub, check, close, raises
from harness.gen import nice_float

RULE = ('A case is a set of phonon modes (any lattice, up to 4 atoms, 8 '
        'q-points, degenerate and negative frequencies, weights normalised, '
        'unnormalised or partly zero) and energy bins (regular or irregular, '
        'covering or cutting the spectrum, with or without modes exactly on '
        'an edge, any unit).  The histogram is compared bin by bin with a '
        'direct count; merging bins, reordering and splitting q-points, '
        'partial DOS sums and DOS maps are compared with the total; DOS with '
        'a width for each mode is compared with the sum of kernels.  '
        'Non-trivial: some mode lies inside the bins.')
TECHNIQUE = ('property-based testing: direct counting oracle and '
             'metamorphic relations')
ASSUMPTIONS = ['a mode within 1e-9 (relative) of an edge may be counted in '
               'either bin', 'a mode exactly at the last edge may be out of '
               'range']


@st.composite
def cases(draw, max_atoms=4):
    c = draw(gen.phonon_modes(max_atoms=max_atoms, big=20))
    c['bins'] = dict(
        n=draw(st.one_of(st.integers(1, 14), st.integers(1, 14),
                         st.sampled_from([40, 150, 700, 2500]))), regular=draw(st.booleans()),
        lo=draw(st.sampled_from([-0.5, -0.2, 0.0, 0.0, 0.13])),
        hi=draw(st.sampled_from([0.5, 0.9, 1.1, 1.0001, 2.0])),
        seed=draw(gen.small_seed),
        unit=draw(st.sampled_from(['meV', 'THz', '1/cm', 'hartree', 'eV'])),
        on_edge=draw(st.booleans()))
    c['weighting'] = draw(st.sampled_from(
        [None, 'coherent', 'incoherent', 'coherent-plus-incoherent']))
    c['cs'] = draw(st.sampled_from(['BlueBook', 'BlueBook', 'default',
                                    'dict', 'dict2']))
    c['csseed'] = draw(gen.small_seed)
    c['op'] = draw(st.integers(0, 3))
    return c


def bins_of(c, m):
    """edges in meV; with on_edge some modes are moved onto edges"""
    b = c['bins']
    rng = np.random.default_rng([b['seed'], 3])
    lo, hi = b['lo'] * c['emax'], b['hi'] * c['emax']
    if b['regular']:
        e = lo + (hi - lo) * np.arange(b['n'] + 1) / b['n']
    else:
        s = np.cumsum(rng.uniform(0.1, 1, b['n'] + 1))
        e = lo + (hi - lo) * (s - s[0]) / (s[-1] - s[0])
    if b['on_edge']:
        # the same number in the same unit on both sides
        m.freq_unit = b['unit']
        k = rng.integers(0, len(e), m.f.shape)
        mask = rng.uniform(size=m.f.shape) < .15
        m.f = np.where(mask & (np.abs(e[k]) > 0), e[k], m.f)
        # not sorted any more: modes may be in any order
    return e


def near(f, e, c):
    """modes whose bin depends on rounding"""
    i = np.clip(np.searchsorted(e, f), 1, len(e) - 1)
    return np.minimum(np.abs(f - e[i - 1]),
                      np.abs(f - e[i])) < 1e-8 * c['emax']


def bounds(f, w, e, c):
    """[lowest, highest] possible content of each bin; f: (rows, modes)
    -> two (rows, bins) arrays"""
    amb = near(f, e, c)
    n = len(e) - 1
    lo = np.zeros((len(f), n))
    sure = ~amb & (f >= e[0]) & (f < e[-1])
    r, k = np.nonzero(sure)
    np.add.at(lo, (r, np.searchsorted(e, f[r, k], 'right') - 1), w[r, k])
    hi = lo.copy()
    tol = 2e-8 * c['emax']
    for r, k in np.argwhere(amb):
        x = f[r, k]
        hi[r] += w[r, k] * ((np.abs(x - e[:-1]) < tol)
                            | (np.abs(x - e[1:]) < tol))
    return lo, hi


def total_bounds(f, w, e, c):
    tol = 2e-8 * c['emax']
    inner = (f > e[0] + tol) & (f < e[-1] - tol)
    outer = (f > e[0] - tol) & (f < e[-1] + tol)
    return (w * inner).sum(), (w * outer).sum()


def verify(y, width, f, w, e, c, what, scale):
    """y: values in 1/meV"""
    lo, hi = (x.sum(0) for x in bounds(f, w, e, c))
    n = y * width
    tol = 1e-9 * scale
    bad = (n < lo - tol) | (n > hi + tol)
    check(not bad.any(), lambda: f'{what}: content of bins '
          f'{np.where(bad)[0].tolist()} is {n[bad]}, expected between '
          f'{lo[bad]} and {hi[bad]}')
    a, b = total_bounds(f, w, e, c)
    check(a - tol <= n.sum() <= b + tol,
          f'{what}: integral {n.sum()}, expected {a}..{b}')


_TABLE = {}


def table(prop):
    if prop not in _TABLE:
        import euphonic
        p = pathlib.Path(euphonic.__file__).parent / 'data/bluebook.json'
        d = json.loads(p.read_text())['physical_property'][prop]
        f = {'barn': 1000.0, 'mbarn': 1.0}[d['__units__']]
        _TABLE[prop] = {k: v * f for k, v in d.items()
                        if not k.startswith('__') and
                        isinstance(v, (int, float))}
    return _TABLE[prop]


def cross_sections(c, m):
    """(kwargs, per-atom values in mbarn or None)"""
    import euphonic as E
    wt, cs = c['weighting'], c['cs']
    if cs.startswith('dict'):
        rng = np.random.default_rng([c['csseed'], 5])
        val = {s: rng.uniform(0.1, 80) for s in sorted(set(m.atom_type))}
        unit = 'barn' if cs == 'dict' else 'angstrom**2'
        d = {s: E.Quantity(v / (1 if cs == 'dict' else 1e8), unit)
             for s, v in val.items()}
        if c['csseed'] % 3 == 0:
            # one unit for each species
            for k, s in enumerate(d):
                d[s] = d[s].to(['barn', 'mbarn', 'angstrom**2', 'fm**2'][
                    (k + c['csseed']) % 4])
        return (dict(cross_sections=d, weighting=wt),
                np.array([val[s] * 1000. for s in m.atom_type]))
    kw = {} if cs == 'default' else dict(cross_sections=cs)
    if wt is None:
        return dict(kw), None
    props = {'coherent': ['coherent'], 'incoherent': ['incoherent']}.get(
        wt, ['coherent', 'incoherent'])
    for p in props:
        if any(s not in table(f'{p}_cross_section') for s in m.atom_type):
            raise Skip('species without tabulated cross section')
    return dict(kw, weighting=wt), np.array(
        [sum(table(f'{p}_cross_section')[s] for p in props)
         for s in m.atom_type])


def run(c, t):
    import euphonic as E
    m = gen.modes_model(c)
    e = bins_of(c, m)
    unit = c['bins']['unit']
    eu = gen.EUNIT[unit]
    modes = gen.make_modes(m)
    qf = gen.make_modes(m, 'frequencies')
    bins = E.Quantity(e / eu, unit)
    bins_before = bins.magnitude.copy()
    n_at = m.n_atoms
    w = (m.w / m.w.sum())[:, None] * np.ones_like(m.f)
    t.tag(f'{n_at} atoms', c['weights'], 'on edge' if c['bins']['on_edge']
          else 'off edge')
    t.hit(np.any((m.f > e[0]) & (m.f < e[-1])))
    before = snapshot(modes)
    width = np.diff(e)

    def values(s, target='1/meV'):
        """in 1/meV without the unit library"""
        return s.y_data.magnitude / eu
    dos = modes.calculate_dos(bins)
    check(type(dos) is E.Spectrum1D, 'type of DOS')
    check(str(dos.x_data.units) == str(bins.units), 'unit of the bins')
    close(dos.x_data.magnitude, bins_before, 1e-12, 1e-15, 'DOS bins')
    if unit != '1/cm':
        check(dos.y_data.units == (1 / bins).units,
              f'DOS unit {dos.y_data.units} for bins in {unit}')
    else:
        check(dos.y_data.check('[length]'), f'DOS unit {dos.y_data.units}')
    verify(values(dos), width, m.f, w / n_at, e, c, 'DOS', 3)
    dos2 = qf.calculate_dos(bins)
    close(dos2.y_data.magnitude, dos.y_data.magnitude, 1e-12, 0,
          'QpointFrequencies DOS')
    y = dos.y_data.magnitude
    check(np.all(y >= 0), 'negative DOS')
    scale = y.max() if y.size and y.max() > 0 else 1

    # merged bins
    if len(e) > 2 and c['op'] in (0, 1):
        rng = np.random.default_rng([c['bins']['seed'], 4])
        keep = np.sort(rng.choice(np.arange(1, len(e) - 1), replace=False,
                                  size=int(rng.integers(0, len(e) - 1))))
        keep = np.concatenate(([0], keep, [len(e) - 1])).astype(int)
        merged = modes.calculate_dos(E.Quantity(e[keep] / eu, unit))
        close(merged.y_data.magnitude * np.diff(e[keep]),
              np.add.reduceat(y * width, keep[:-1]), 1e-9,
              1e-9 * (y * width).sum(), 'DOS of merged bins')
    # order and splitting of q-points
    rng = np.random.default_rng([c['seed'], 33])
    nq = len(m.q)
    p = rng.permutation(nq)
    k = int(rng.integers(nq))
    part = rng.uniform(0.1, 0.9)
    idx = np.concatenate((p, [k]))
    ww = m.w[idx].copy()
    ww[-1] = part * m.w[k]
    ww[np.where(p == k)[0][0]] = (1 - part) * m.w[k]
    q2 = E.QpointFrequencies(gen.make_modes_crystal(m), m.q[idx],
                             E.Quantity(m.f[idx] / gen.EUNIT[m.freq_unit],
                                        m.freq_unit), ww * 3.7)
    close(q2.calculate_dos(bins).y_data.magnitude, y, 1e-9, 1e-9 * scale,
          'DOS after permuting and splitting q-points')
    # unit of frequencies
    modes.frequencies_unit = 'THz' if m.freq_unit != 'THz' else 'meV'
    if not c['bins']['on_edge'] and not near(m.f, e, c).any():
        close(modes.calculate_dos(bins).y_data.magnitude, y, 1e-9,
              1e-9 * scale, 'DOS after change of frequencies_unit')
    modes.frequencies_unit = m.freq_unit
    same(before, snapshot(modes), 'modes after DOS')
    close(bins.magnitude, bins_before, 0, 0, 'bins passed in')


def run_pdos(c, t):
    import euphonic as E
    m = gen.modes_model(c)
    e = bins_of(c, m)
    unit = c['bins']['unit']
    eu = gen.EUNIT[unit]
    modes = gen.make_modes(m)
    bins = E.Quantity(e / eu, unit)
    n_at = m.n_atoms
    kw, cs = cross_sections(c, m)
    before = snapshot(modes)
    pdos = modes.calculate_pdos(bins, **kw)
    same(before, snapshot(modes), 'modes after PDOS')
    t.tag(c['weighting'], c['cs'])
    t.hit(np.any((m.f > e[0]) & (m.f < e[-1])))
    check(type(pdos) is E.Spectrum1DCollection and len(pdos) == n_at,
          f'PDOS type/length {type(pdos)}')
    meta = [dict(species=str(s), index=i)
            for i, s in enumerate(m.atom_type)]
    got = list(pdos.iter_metadata())
    for g, x in zip(got, meta):
        check(g.get('species') == x['species'] and g.get('index')
              == x['index'], f'PDOS metadata {got}')
        if kw.get('weighting') is not None:
            check(g.get('weighting') == c['weighting'],
                  f'PDOS weighting metadata {g}')
    f = 1.0
    if cs is not None:
        f = E.Quantity(1, pdos.y_data.units / (
            E.Quantity(1, dos_unit(unit)).units)).to('mbarn').magnitude
        cs = cs * m.mass_amu.mean() / m.mass_amu
    else:
        cs = np.ones(n_at)
    y = pdos.y_data.magnitude * f / eu
    check(np.all(y >= 0), 'negative PDOS')
    ew = (np.abs(m.evecs) ** 2).sum(-1)
    w = (m.w / m.w.sum())[:, None]
    width = np.diff(e)
    for i in range(n_at):
        verify(y[i], width, m.f, w * ew[:, :, i] * cs[i] / n_at, e, c,
               f'PDOS of atom {i} ({m.atom_type[i]}) weighting '
               f'{c["weighting"]}', 3 * cs.max())
    total = pdos.sum()
    dos = modes.calculate_dos(bins)
    if c['weighting'] is None and not c['cs'].startswith('dict'):
        close(total.y_data.magnitude, dos.y_data.magnitude, 1e-9,
              1e-9 * max(dos.y_data.magnitude.max(), 1e-300),
              'PDOS does not sum to the DOS')
        check(total.y_data.units == dos.y_data.units, 'unit of the sum')
    # selection by species
    for s in set(m.atom_type):
        sel = pdos.select(species=str(s))
        close(sel.y_data.magnitude, pdos.y_data.magnitude[
            [x == s for x in m.atom_type]], 0, 0, 'PDOS of a species')


def dos_unit(unit):
    return {'1/cm': 'cm'}.get(unit, f'1/{unit}')


def run_map(c, t):
    import euphonic as E
    m = gen.modes_model(c)
    e = bins_of(c, m)
    unit = c['bins']['unit']
    eu = gen.EUNIT[unit]
    if c['weights'] == 'zeros':
        raise Skip('zero weight')
    modes = gen.make_modes(m, 'frequencies' if c['op'] % 2 else None)
    bins = E.Quantity(e / eu, unit)
    wid = None
    kw = {}
    if c['op'] >= 2:
        rng = np.random.default_rng([c['seed'], 34])
        wid = rng.uniform(0, 0.2, m.f.shape) * c['emax']
        kw = dict(mode_widths=E.Quantity(wid / eu, unit),
                  mode_widths_min=E.Quantity(0.05 * c['emax'], 'meV'))
    before = snapshot(modes)
    s = modes.calculate_dos_map(bins, **kw)
    same(before, snapshot(modes), 'modes after map')
    t.tag('broadened' if wid is not None else 'histogram', m.cell_unit)
    t.hit(np.any((m.f > e[0]) & (m.f < e[-1])) and len(m.q) > 1)
    check(type(s) is E.Spectrum2D, 'type of map')
    check(s.z_data.shape == (len(m.q), len(e) - 1), f'{s.z_data.shape}')
    close(s.y_data.magnitude, e / eu, 1e-12, 1e-15, 'energy axis')
    disp = modes.get_dispersion()
    close(s.x_data.magnitude, disp.x_data.magnitude, 1e-12, 0, 'q axis')
    check(s.x_data.units == disp.x_data.units
          and s.x_tick_labels == disp.x_tick_labels, 'q axis and labels')
    z = s.z_data.magnitude / eu
    width = np.diff(e)
    total = np.zeros(len(width))
    some = np.arange(len(m.q))
    if len(some) > 40:
        some = np.random.default_rng([c['seed'], 36]).choice(some, 40, False)
    for i in range(len(m.q)):
        if i not in some:
            total += m.w[i] / m.w.sum() * s.z_data.magnitude[i]
            continue
        if wid is None:
            verify(z[i], width, m.f[i:i+1],
                   np.full((1, m.f.shape[1]), 1 / m.n_atoms), e, c,
                   f'map at q-point {i}', 3)
        one = E.QpointFrequencies(
            gen.make_modes_crystal(m), m.q[i:i+1],
            E.Quantity(m.f[i:i+1] / gen.EUNIT[m.freq_unit], m.freq_unit))
        if wid is not None:
            k1 = dict(kw, mode_widths=kw['mode_widths'][i:i+1])
        else:
            k1 = {}
        y = one.calculate_dos(bins, **k1).y_data.magnitude
        close(s.z_data.magnitude[i], y, 1e-9, 1e-9 * max(y.max(), 1e-300),
              f'row {i} of the map and DOS of that q-point')
        total += m.w[i] / m.w.sum() * y
    y = modes.calculate_dos(bins, **kw).y_data.magnitude
    close(total, y, 1e-9, 1e-9 * max(y.max(), 1e-300),
          'weighted mean of the map and DOS')


@st.composite
def adaptive_cases(draw):
    from checks import p16
    return draw(p16.dos_cases())


def run_adaptive(c, t):
    from checks import p16
    (p16.run_reference if c['op'] % 2 else p16.run_fast)(c, t)


@st.composite
def refused_cases(draw):
    return dict(modes=draw(gen.phonon_modes(max_atoms=3)),
                kind=draw(st.sampled_from(['unit', 'type', 'missing', 'word',
                                           'label', 'number'])),
                k=draw(st.integers(0, 9)), w=draw(st.sampled_from(
                    [None, 'coherent', 'coherent-plus-incoherent'])))


def run_refused(c, t):
    """weightings and cross sections that mean nothing"""
    import euphonic as E
    m = gen.modes_model(c['modes'])
    modes = gen.make_modes(m)
    bins = E.Quantity(np.linspace(0, c['modes']['emax'], 5), 'meV')
    kinds = sorted(set(m.atom_type.tolist()))
    cs = {s: E.Quantity(2., 'barn') for s in kinds}
    k, kw = c['k'], dict(weighting=c['w'])
    err = (ValueError, TypeError, KeyError)
    if c['kind'] == 'unit':
        u = ['fm', 'meV', 'barn/meV', 'dimensionless', 'amu',
             'angstrom**3'][k % 6]
        kw['cross_sections'] = {s: E.Quantity(2., u) for s in kinds}
        err = ValueError
    elif c['kind'] == 'type':
        kw['cross_sections'] = [3, list(cs.values()), 2.5, True][k % 4]
        if c['w'] is None:
            kw.pop('weighting')
        err = TypeError
    elif c['kind'] == 'missing':
        cs.pop(kinds[k % len(kinds)])
        cs['Zz'] = E.Quantity(1., 'barn')
        kw['cross_sections'] = cs
        err = KeyError
    elif c['kind'] == 'word':
        kw['weighting'] = ['coherrent', 'Coherent', '', 'coherent+incoherent',
                           'bound'][k % 5]
        err = ValueError
    elif c['kind'] == 'label':
        kw.update(cross_sections='NoSuchTable', weighting='coherent')
        err = (ValueError, OSError)
    else:
        kw['cross_sections'] = dict.fromkeys(kinds, 2.0)
        err = (AttributeError, TypeError, ValueError)
    t.tag(c['kind'])
    t.hit()
    before = snapshot(modes)
    raises(err, lambda: modes.calculate_pdos(bins, **kw),
           f'calculate_pdos {c["kind"]} {kw}')
    same(before, snapshot(modes), 'modes')


SUBS = [
    Sub('refused', refused_cases(), run_refused, 200),
    Sub('dos', cases(), run, 1200),
    Sub('pdos', cases(), run_pdos, 800),
    Sub('map', cases(max_atoms=3), run_map, 400),
    Sub('adaptive', adaptive_cases(), run_adaptive, 240),
]
