"""P19 S(Q,w) maps and averages conserve intensity and obey detailed balance"""
import numpy as np
from hypothesis import strategies as st

from checks import p15
from checks.p08 import same, snapshot
from harness import gen
from harness.core import Skip, Sub, check, close, raises
from harness.gen import nice_float

RULE = ('A case is a structure factor object (drawn frequencies incl. '
        'degenerate, negative, coinciding with bin edges; intensities, '
        'weights, q-points), energy bins (regular or not, symmetric about '
        'zero or one-sided, any unit), a temperature that is stored, passed, '
        'both or absent (0 to 3000 K, K/degC/mK) and calc_bose.  Each bin '
        'is compared with a direct sum over the modes; merged bins, the 1-D '
        'average and contradicting temperatures are tested.  Non-trivial: '
        'some mode falls in range on the energy-loss or the energy-gain '
        'side.')
TECHNIQUE = ('property-based testing: direct counting oracle and '
             'metamorphic relations')
ASSUMPTIONS = [
    'modes within 1e-8 (relative) of an edge may be in either bin',
    'imaginary modes (negative frequencies) are treated as in the '
    'expression with their signed frequency',
    'no exactly zero frequencies at finite temperature']

SU = {'mbarn': 1.0, 'barn': 1e-3, 'angstrom**2': 1e-11,
      'bohr**2': 1e-11 / gen.BOHR_ANG ** 2}


@st.composite
def cases(draw):
    c = draw(p15.cases(max_atoms=3))
    c['bins']['lo'] = draw(st.sampled_from([-1.3, -1.3, -1.1, -0.5, 0.0,
                                            0.13]))
    c['bins']['hi'] = draw(st.sampled_from([1.3, 1.3, 1.1, 0.5, 2.0]))
    c['T'] = draw(st.sampled_from([0.0, 0.0, 1.0, 5.0, 77.0, 300.0,
                                   3000.0]))
    c['T_unit'] = draw(st.sampled_from(['K', 'K', 'K', 'degC', 'mK']))
    c['where'] = draw(st.sampled_from(['stored', 'passed', 'both', 'none',
                                       'clash']))
    c['bose'] = draw(st.sampled_from([None, True, True, False]))
    c['sf_unit'] = draw(st.sampled_from(sorted(SU)))
    c['dT'] = draw(st.sampled_from([-1.0, 0.1, 50.0]))
    c['avg_w'] = draw(st.sampled_from([None, 'random', 'zeros']))
    return c


def temperature(c, T=None, unit=None):
    import euphonic as E
    T = c['T'] if T is None else T
    u = unit or c['T_unit']
    if u == 'degC':
        return E.Quantity(T - 273.15, 'degC')
    return E.Quantity(T * (1e3 if u == 'mK' else 1), u)


def bose(f, T):
    with np.errstate(over='ignore'):
        return 1 / np.expm1(np.abs(f) / (gen.KB_MEV * T)) if T > 0 else \
            np.zeros_like(f)


def expected(m, c, e, sf, n_up, n_down):
    """lower and upper bound of the content (mbarn) of every bin"""
    lo = np.zeros((len(m.q), len(e) - 1))
    hi = lo.copy()
    for f, w in ((m.f, n_up * sf), (-m.f, n_down * sf)):
        a, b = p15.bounds(f, w, e, c)
        lo += a
        hi += b
    return lo, hi


def run(c, t):
    import euphonic as E
    m = gen.modes_model(c)
    e = p15.bins_of(c, m)
    unit = c['bins']['unit']
    eu = gen.EUNIT[unit]
    if np.any(np.abs(m.f) < 1e-6 * c['emax']):
        raise Skip('zero frequency')
    rng = np.random.default_rng([c['seed'], 81])
    sf = rng.uniform(0, 30, m.f.shape) * (rng.uniform(size=m.f.shape) < .85)
    T = c['T']
    if c['T_unit'] == 'degC' and T == 0:
        T = 5.0
    c = dict(c, T=T)
    kw, pkw = {}, {}
    if c['where'] in ('stored', 'both', 'clash'):
        kw['temperature'] = temperature(c)
    if c['where'] in ('passed', 'both'):
        pkw['temperature'] = temperature(
            c, unit='K' if c['where'] == 'both' else None)
    elif c['where'] == 'clash':
        pkw['temperature'] = temperature(c, T=abs(T + c['dT']))
    if c['bose'] is not None:
        pkw['calc_bose'] = c['bose']
    o = E.StructureFactor(
        gen.make_modes_crystal(m), m.q.copy(),
        E.Quantity(m.f / gen.EUNIT[m.freq_unit], m.freq_unit),
        E.Quantity(sf * SU[c['sf_unit']], c['sf_unit']),
        None if m.w_arg is None else m.w_arg.copy(), **kw)
    bins = E.Quantity(e / eu, unit)
    before = snapshot(o)
    t.tag(c['where'], f'bose={c["bose"]}', f'T={T}',
          'on edge' if c['bins']['on_edge'] else 'off edge')
    if c['where'] == 'clash' and c['bose'] is not False:
        raises(ValueError, lambda: o.calculate_sqw_map(bins, **pkw),
               f'temperatures {kw} and {pkw}')
        raises(ValueError, lambda: o.calculate_1d_average(bins, **pkw),
               f'temperatures {kw} and {pkw}')
        same(before, snapshot(o), 'object after refusal')
        t.hit()
        return
    s = o.calculate_sqw_map(bins, **pkw)
    same(before, snapshot(o), 'object after map')
    with_T = c['bose'] is not False and c['where'] != 'none'
    if with_T:
        n = bose(m.f, T)
        up, down = 1 + n, n
    else:
        up = down = np.ones_like(m.f)
    lo, hi = expected(m, c, e, sf, up, down)
    width = np.diff(e)
    check(type(s) is E.Spectrum2D, 'type')
    check(s.z_data.shape == lo.shape, f'shape {s.z_data.shape}')
    zu = E.Quantity(1, s.z_data.units * E.Quantity(1, unit).units)
    z = s.z_data.magnitude * zu.to('mbarn').magnitude / eu * width
    t.hit(hi.max() > 0)
    total = sf * np.maximum(up, down)
    tol = 1e-8 * lo + 1e-9 * total.max()
    bad = (z < lo - tol) | (z > hi + tol)
    check(not bad.any(), lambda: f'content of (q-point, bin) '
          f'{np.argwhere(bad)[0]} is {z[bad][0]}, expected {lo[bad][0]}..'
          f'{hi[bad][0]} (temperature {c["where"]} {T}, bose {c["bose"]})')
    # everything inside the range is counted exactly once
    for k in range(len(m.q)):
        a = b = 0
        for f, w in ((m.f[k], sf[k] * up[k]), (-m.f[k], sf[k] * down[k])):
            x, y = p15.total_bounds(f, w, e, c)
            a, b = a + x, b + y
        tl = 1e-8 * abs(b) + 1e-9 * total.max()
        check(a - tl <= z[k].sum() <= b + tl,
              f'q-point {k}: integral {z[k].sum()}, expected {a}..{b}')
    # axes
    close(s.y_data.magnitude, e / eu, 1e-12, 1e-15, 'energy axis')
    check(s.y_data.units == bins.units, 'unit of energy axis')
    disp = o.get_dispersion()
    close(s.x_data.magnitude, disp.x_data.magnitude, 1e-12, 0, 'q axis')
    check(s.x_tick_labels == disp.x_tick_labels, 'q labels')
    # merged bins
    if len(e) > 2:
        keep = np.unique(np.concatenate(
            ([0], rng.choice(len(e), 2), [len(e) - 1])))
        s2 = o.calculate_sqw_map(E.Quantity(e[keep] / eu, unit), **pkw)
        z2 = s2.z_data.magnitude * zu.to('mbarn').magnitude / eu \
            * np.diff(e[keep])
        close(z2, np.add.reduceat(z, keep[:-1], axis=1), 1e-8,
              1e-9 * total.max(), 'merged bins')
    # 1-D average
    w = m.w
    akw = dict(pkw)
    if c['avg_w'] is not None:
        w = rng.uniform(0.1, 3, len(m.q))
        if c['avg_w'] == 'zeros' and len(w) > 1:
            w[0] = 0
        akw['weights'] = w.copy()
    a = o.calculate_1d_average(bins, **akw)
    check(type(a) is E.Spectrum1D, 'type of average')
    check(a.y_data.units == s.z_data.units, 'unit of average')
    exp = (w[:, None] * s.z_data.magnitude).sum(0) / w.sum()
    close(a.y_data.magnitude, exp, 1e-9, 1e-10 * max(
        np.abs(s.z_data.magnitude).max(), 1e-300), '1-D average')
    close(a.x_data.magnitude, e / eu, 1e-12, 1e-15, 'axis of average')
    same(before, snapshot(o), 'object after average')
    # order of q-points
    p = rng.permutation(len(m.q))
    o2 = E.StructureFactor(
        gen.make_modes_crystal(m), m.q[p],
        E.Quantity(m.f[p] / gen.EUNIT[m.freq_unit], m.freq_unit),
        E.Quantity(sf[p] * SU[c['sf_unit']], c['sf_unit']), m.w[p] * 7, **kw)
    close(o2.calculate_1d_average(bins, **pkw).y_data.magnitude,
          (m.w[:, None] * s.z_data.magnitude).sum(0) / m.w.sum(), 1e-8,
          1e-10 * max(np.abs(s.z_data.magnitude).max(), 1e-300),
          'average over permuted q-points with scaled weights')


@st.composite
def db_cases(draw):
    c = draw(gen.phonon_modes(max_atoms=3, max_q=4, negative=False))
    c['T'] = draw(nice_float(2, 900))
    c['n'] = draw(st.integers(1, 12))
    c['unit'] = draw(st.sampled_from(['meV', 'THz', '1/cm']))
    c['dw'] = draw(st.booleans())
    return c


def run_balance(c, t):
    """through calculate_structure_factor and symmetric bins"""
    import euphonic as E
    m = gen.modes_model(c)
    modes = gen.make_modes(m)
    T = E.Quantity(c['T'], 'K')
    if c['dw']:
        sf = modes.calculate_structure_factor(
            dw=modes.calculate_debye_waller(T))
        kw = {}
    else:
        sf = modes.calculate_structure_factor()
        kw = dict(temperature=T)
    eu = gen.EUNIT[c['unit']]
    h = 1.07 * c['emax']
    e = np.linspace(0, h, c['n'] + 1)
    e = np.concatenate((-e[:0:-1], e))
    if p15.near(m.f, e, dict(emax=c['emax'])).any():
        raise Skip('mode on an edge')
    bins = E.Quantity(e / eu, c['unit'])
    z = sf.calculate_sqw_map(bins, **kw).z_data.magnitude
    z0 = sf.calculate_sqw_map(bins, calc_bose=False).z_data.magnitude
    scale = max(np.abs(z).max(), np.abs(z0).max())
    t.hit(scale > 0)
    t.tag('dw' if c['dw'] else 'no dw')
    gain, loss = z[:, :c['n']][:, ::-1], z[:, c['n']:]
    close(z0[:, :c['n']][:, ::-1], z0[:, c['n']:], 1e-7, 1e-9 * scale,
          'without population factor both sides are equal')
    close(loss - gain, z0[:, c['n']:], 1e-6, 1e-8 * scale,
          'energy loss minus energy gain is not the bare intensity')
    # detailed balance bin by bin: between the factors at the edges
    lo = np.exp(-e[c['n']+1:] / (gen.KB_MEV * c['T']))
    hi = np.exp(-e[c['n']:-1] / (gen.KB_MEV * c['T']))
    bad = (gain < lo * loss * (1 - 1e-6) - 1e-9 * scale) | (
        gain > hi * loss * (1 + 1e-6) + 1e-9 * scale)
    check(not bad.any(), lambda: f'detailed balance: gain {gain[bad][0]}, '
          f'loss {loss[bad][0]} at {c["T"]} K')


SUBS = [
    Sub('map', cases(), run, 1200),
    Sub('balance', db_cases(), run_balance, 500),
]
