"""P17 Debye-Waller exponents follow the thermal-displacement formula"""
import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import gen, ref
from harness.core import Skip, Sub, check, close, raises
from harness.gen import nice_float

RULE = ('A case is a set of phonon modes (any lattice; special or random '
        'positions; 1-2100 q-points; equal, unnormalised or partly zero '
        'weights; negative, zero, degenerate frequencies), a temperature '
        '(0, tiny, up to 3000 K, in K, degC or mK), a frequency_min and the '
        'symmetrise option.  The tensors are compared with the explicit '
        'mode sum, and with its average over the space group found by brute '
        'force.  Non-trivial: at least one mode is above frequency_min.')
TECHNIQUE = ('property-based testing: explicit formula, brute-force symmetry '
             'group and metamorphic relations')
ASSUMPTIONS = ['symmetry cases keep clear of the 1e-5 angstrom tolerance',
               'frequency_min is positive']


@st.composite
def cases(draw, special=None, max_atoms=4):
    c = draw(gen.phonon_modes(max_atoms=max_atoms, special=special,
                              big=None if special else 20))
    c['T'] = draw(st.sampled_from([0.0, 0.0, 1e-3, 0.04, 0.3, 0.99, 1.0, 5.0,
                                   77.0, 300.0, 295.5, 3000.0]))
    # modes soft enough to be excited below 1 K
    c['soft'] = draw(st.sampled_from([1.0, 1.0, 1.0, 0.02, 0.002]))
    c['T_unit'] = draw(st.sampled_from(['K', 'K', 'degC', 'mK']))
    c['fmin'] = draw(st.sampled_from([None, 0.005, 0.5, 5.0, 40.0, 1e4]))
    c['fmin_unit'] = draw(st.sampled_from(['meV', 'THz', '1/cm']))
    c['big'] = draw(st.sampled_from([0] * 12 + [999, 1000, 1001, 2000,
                                               2001]))
    c['zero'] = draw(st.booleans())
    if special is True and draw(st.integers(0, 3)):
        # equivalent atoms
        sp = c['crystal']['species']
        c['crystal']['species'] = [sp[0] if i < 3 else sp[i]
                                   for i in range(len(sp))]
        c['crystal']['iso'] = False
    c['wmul'] = draw(st.sampled_from([0.01, 2.0, 360.0]))
    return c


def modes_of(c):
    if c['big']:
        c = dict(c, crystal=dict(c['crystal'],
                                 species=c['crystal']['species'][:1]))
        rng = np.random.default_rng([c['seed'], 90])
        c['q'] = rng.uniform(-.5, .5, (c['big'], 3)).tolist()
    m = gen.modes_model(c)
    m.f = m.f * c.get('soft', 1.0)
    if c['zero']:
        m.f = m.f.copy()
        m.f[0, 0] = 0.0
        m.f[-1, -1] = 0.0
    return m


def temperature(c):
    import euphonic as E
    u = c['T_unit']
    if u == 'degC':
        return E.Quantity(c['T'] - 273.15, 'degC')
    return E.Quantity(c['T'] * (1e3 if u == 'mK' else 1), u)


def formula(m, T, fmin):
    """(n_atoms, 3, 3) in bohr**2: explicit sum in hartree atomic units"""
    out = np.zeros((m.n_atoms, 3, 3))
    f = m.f / gen.HARTREE_MEV
    keep = m.f >= fmin
    with np.errstate(all='ignore'):
        if T > 0:
            x = m.f / (2 * gen.KB_MEV * T)
            term = 1 / (f * np.tanh(x))
        else:
            term = 1 / f
    term = np.where(keep, term, 0.0) * m.w[:, None]
    for k in range(m.n_atoms):
        e = m.evecs[:, :, k]
        out[k] = np.real(np.einsum('qm,qma,qmb->ab', term, e, e.conj())) \
            / (4 * m.mass[k])
    return out / m.w.sum()


def check_domain(m, c, fmin):
    if np.any(np.abs(m.f / fmin - 1) < 1e-8):
        raise Skip('frequency at the limit')


def kwargs(c):
    import euphonic as E
    fmin, kw = 0.01, {}
    if c['fmin'] is not None:
        fmin = c['fmin']
        kw['frequency_min'] = E.Quantity(fmin / gen.EUNIT[c['fmin_unit']],
                                         c['fmin_unit'])
    return fmin, kw


def get(dw):
    return dw.debye_waller.to('bohr**2').magnitude


def run(c, t):
    import euphonic as E
    m = modes_of(c)
    fmin, kw = kwargs(c)
    check_domain(m, c, fmin)
    T = temperature(c)
    modes = gen.make_modes(m)
    before = snapshot(modes)
    dw = modes.calculate_debye_waller(T, symmetrise=False, **kw)
    same(before, snapshot(modes), 'modes')
    tk = max(c['T'], 0)
    if c['T_unit'] == 'degC' and c['T'] < 1:
        tk = None       # rounding of the offset decides
    t.tag(f'{len(m.q)} q' if len(m.q) > 9 else 'few q', f'T={c["T"]}',
          c['weights'], 'degC' if c['T_unit'] == 'degC' else 'other')
    t.hit(np.any(m.f >= fmin))
    check(type(dw) is E.DebyeWaller, 'type')
    check(dw.temperature.units == T.units, f'unit {dw.temperature.units}')
    close(dw.temperature.magnitude, T.magnitude, 1e-9, 1e-9, 'temperature')
    check(dw.debye_waller.shape == (m.n_atoms, 3, 3), 'shape')
    close(dw.crystal.cell_vectors.to('angstrom').magnitude, m.cell_ang,
          1e-9, 1e-9, 'crystal')
    got = get(dw)
    if tk is not None:
        exp = formula(m, tk, fmin)
        scale = max(np.abs(exp).max(), 1e-300)
        close(got, exp, 1e-7, 1e-8 * scale, f'exponent at {tk} K')
    scale = max(np.abs(got).max(), 1e-300)
    close(got, np.swapaxes(got, 1, 2), 0, 1e-10 * scale, 'symmetric')
    check(np.linalg.eigvalsh(got).min() >= -1e-9 * scale,
          'exponent is not positive semi-definite')
    # temperature
    hotter = get(modes.calculate_debye_waller(
        E.Quantity(c['T'] * 1.3 + 2.0, 'K'), symmetrise=False, **kw))
    check(np.linalg.eigvalsh(hotter - got).min() >= -1e-7 * np.abs(
        hotter).max(), 'exponent decreases with temperature')
    # order of q-points and scale of weights
    rng = np.random.default_rng([c['seed'], 91])
    p = rng.permutation(len(m.q))
    q2 = E.QpointPhononModes(
        gen.make_modes_crystal(m), m.q[p],
        E.Quantity(m.f[p] / gen.EUNIT[m.freq_unit], m.freq_unit),
        m.evecs[p], m.w[p] * c['wmul'])
    close(get(q2.calculate_debye_waller(T, symmetrise=False, **kw)), got,
          1e-9, 1e-9 * scale, 'permuted q-points with scaled weights')
    # units
    modes.frequencies_unit = 'THz' if m.freq_unit != 'THz' else '1/cm'
    modes.crystal.cell_vectors_unit = 'nm'
    d2 = modes.calculate_debye_waller(T, symmetrise=False, **kw)
    close(get(d2), got, 1e-9, 1e-9 * scale, 'other units')
    # additive over q-points: union of two halves
    if len(m.q) > 1:
        k = int(rng.integers(1, len(m.q)))
        tot, ws = 0, 0
        for sl in (slice(0, k), slice(k, None)):
            if m.w[sl].sum() == 0:
                continue
            h = E.QpointPhononModes(
                gen.make_modes_crystal(m), m.q[sl],
                E.Quantity(m.f[sl] / gen.EUNIT[m.freq_unit], m.freq_unit),
                m.evecs[sl], m.w[sl])
            tot = tot + m.w[sl].sum() * get(h.calculate_debye_waller(
                T, symmetrise=False, **kw))
            ws += m.w[sl].sum()
        close(tot / ws, got, 1e-8, 1e-9 * scale,
              'weighted mean over two sets of q-points')


def run_symmetry(c, t):
    import euphonic as E
    c = dict(c, big=0)
    m = modes_of(c)
    fmin, kw = kwargs(c)
    check_domain(m, c, fmin)
    T = E.Quantity(c['T'], 'K')
    ops = ref.symmetry_ops(m.cell_ang, m.atom_r, m.atom_type, 1e-6)
    loose = ref.symmetry_ops(m.cell_ang, m.atom_r, m.atom_type, 1e-4)
    if len(ops) != len(loose):
        raise Skip('near-symmetry')
    modes = gen.make_modes(m)
    before = snapshot(modes)
    dw = modes.calculate_debye_waller(T, **kw)
    same(before, snapshot(modes), 'modes')
    raw = formula(m, c['T'], fmin)
    exp = np.zeros_like(raw)
    for w, _, p in ops:
        R = ref.cartesian_rotation(m.cell_ang, w)
        for k in range(m.n_atoms):
            exp[p[k]] += R @ raw[k] @ R.T
    exp /= len(ops)
    t.tag(f'{len(ops)} operations', c['crystal']['lattice'],
          'permuting' if any(list(p) != sorted(p) for *_, p in ops)
          else 'no permutation')
    t.hit(len(ops) > 1 and np.any(raw))
    got = get(dw)
    scale = max(np.abs(exp).max(), 1e-300)
    close(got, exp, 1e-6, 1e-6 * scale,
          f'symmetrised exponent ({len(ops)} operations)')
    for w, _, p in ops:
        R = ref.cartesian_rotation(m.cell_ang, w)
        close(got[p], np.einsum('ij,kjl,ml->kim', R, got, R), 1e-6,
              1e-6 * scale, 'not invariant under a symmetry operation')
    # a set closed under the group gives the same with and without
    fs, es, qs = [], [], []
    if len(ops) <= 48 and len(m.q) * len(ops) <= 400:
        for w, _, p in ops:
            R = ref.cartesian_rotation(m.cell_ang, w)
            e = np.empty_like(m.evecs)
            e[:, :, p] = np.einsum('ij,qmkj->qmki', R, m.evecs)
            es.append(e)
            fs.append(m.f)
            qs.append(m.q)     # positions in q do not matter here
        full = E.QpointPhononModes(
            gen.make_modes_crystal(m), np.concatenate(qs),
            E.Quantity(np.concatenate(fs), 'meV'), np.concatenate(es),
            np.tile(m.w, len(ops)))
        a = get(full.calculate_debye_waller(T, symmetrise=False, **kw))
        b = get(full.calculate_debye_waller(T, symmetrise=True, **kw))
        # with different masses of equivalent atoms the unsymmetrised
        # exponents do not have the symmetry of the crystal
        if not c['crystal']['iso']:
            close(b, a, 1e-6, 1e-6 * scale,
                  'symmetrising a symmetric exponent changes it')
            close(a, exp, 1e-6, 1e-6 * scale, 'sum over the star')


SUBS = [
    Sub('formula', cases(), run, 1600),
    Sub('symmetry', cases(special=True), run_symmetry, 400),
    Sub('orbits', cases(special='orbit'), run_symmetry, 300),
]
