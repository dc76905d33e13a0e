"""P18 One-phonon structure factors follow the documented formula and its
symmetries"""
import json
import os
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks import p04
from checks.p08 import same, snapshot
from harness import gen, ref
from harness.core import Skip, Sub, check, close, raises
from harness.gen import nice_float

RULE = ('formula: drawn phonon modes (any lattice, up to 4 atoms, elements '
        'with real or complex scattering length, Q up to 4 reciprocal '
        'lattice vectors), scattering lengths from a table, a user file or '
        'a dictionary in several units, optional anisotropic Debye-Waller '
        'tensors, compared with the explicit expression; then relations '
        '(phases, rotation within degenerate modes, origin shift, atom '
        'order, scaling) on the same case.  force_constants: intensities '
        'interpolated from force constants before and after relabelling or '
        'rotating the crystal.  Non-trivial: some intensity is positive.')
TECHNIQUE = ('property-based testing: explicit formula and metamorphic '
             'relations')
ASSUMPTIONS = ['no exactly zero frequencies (the expression diverges)']

EXOTIC = ['B', 'Cd', 'Gd', 'Sm', 'Eu', 'In']
LU = {'fm': 1e-5, 'angstrom': 1.0, 'bohr': gen.BOHR_ANG, 'nm': 10.0}


@st.composite
def cases(draw):
    c = draw(gen.phonon_modes(max_atoms=4, big=20))
    c['exotic'] = draw(st.integers(0, 5)) == 0
    c['sl'] = draw(st.sampled_from(['default', 'Sears1992', 'dict', 'dict',
                                    'file']))
    c['sl_unit'] = draw(st.sampled_from(['fm', 'angstrom', 'bohr']))
    c['dw'] = draw(st.sampled_from(['none', 'aniso', 'iso', 'other cell']))
    c['dw_size'] = draw(nice_float(0.001, 0.05))
    c['T'] = draw(st.sampled_from([0.0, 5.0, 300.0]))
    c['f'] = draw(st.sampled_from([2.0, -1.0, 0.3]))
    c['degen'] = draw(st.booleans())
    return c


_TABLE = {}


def table():
    if not _TABLE:
        import euphonic
        p = pathlib.Path(euphonic.__file__).parent / 'data/sears-1992.json'
        d = json.loads(p.read_text())['physical_property'][
            'coherent_scattering_length']
        f = LU[d['__units__']]
        for k, v in d.items():
            if isinstance(v, dict):
                v = complex(v['real'], v['imag'])
            if not k.startswith('__') and isinstance(
                    v, (int, float, complex)):
                _TABLE[k] = v * f
    return _TABLE


def model(c):
    m = gen.modes_model(c)
    if c['exotic']:
        rng = np.random.default_rng([c['seed'], 71])
        m.atom_type = np.array([EXOTIC[i] for i in rng.integers(
            0, len(EXOTIC), m.n_atoms)])
    if c['degen']:
        # pairs of equal frequencies at every q-point
        m.f = m.f.copy()
        m.f[:, 1] = m.f[:, 0]
    return m


def lengths(c, m, tmp):
    """(argument, per-atom lengths in angstrom)"""
    import euphonic as E
    rng = np.random.default_rng([c['seed'], 72])
    kinds = sorted(set(m.atom_type.tolist()))
    val = {s: round(float(rng.uniform(-8, 12)), 4) for s in kinds}  # fm
    if c['sl'] in ('default', 'Sears1992'):
        tb = table()
        if any(s not in tb for s in kinds):
            raise Skip('species without tabulated scattering length')
        return (() if c['sl'] == 'default' else (c['sl'],)), np.array(
            [tb[s] for s in m.atom_type])
    b = np.array([val[s] * 1e-5 for s in m.atom_type])
    if c['sl'] == 'dict':
        u = c['sl_unit']
        us = [u] * len(val)
        if c['seed'] % 3 == 0:     # every element in a unit of its own
            us = rng.choice(list(LU), len(val)).tolist()
        d = {s: E.Quantity(v * 1e-5 / LU[x], x)
             for x, (s, v) in zip(us, val.items())}
        d['Zz'] = E.Quantity(3.0, 'fm')
        return (d,), b
    p = os.path.join(tmp, 'lengths.json')
    with open(p, 'w') as f:
        json.dump({'physical_property': {'coherent_scattering_length': dict(
            val, __units__='fm')}}, f)
    return (p,), b


def formula(m, b, W=None):
    """mbarn per atom; b, W in angstrom, angstrom**2"""
    Q = m.q @ gen.recip(m)
    ph = np.exp(2j * np.pi * (m.q @ m.atom_r.T))          # q, k
    Qe = np.einsum('qmka,qa->qmk', m.evecs.conj(), Q)
    amp = Qe * (ph * b / np.sqrt(m.mass))[:, None, :]
    if W is not None:
        amp = amp * np.exp(-np.einsum('qa,kab,qb->qk', Q, W, Q))[:, None]
    F = amp.sum(-1)
    # hbar**2 / (m_e * E): bohr**2 * hartree/E
    s = np.abs(F) ** 2 / (2 * m.n_atoms) * gen.BOHR_ANG ** 2 \
        / (np.abs(m.f) / gen.HARTREE_MEV)      # angstrom**2
    return s * 1e11                            # mbarn


def dw_of(c, m, W):
    import euphonic as E
    cr = gen.make_modes_crystal(m)
    if c['dw'] == 'other cell':
        cr = E.Crystal(cr.cell_vectors * 1.001, cr.atom_r, cr.atom_type,
                       cr.atom_mass)
    return E.DebyeWaller(cr, E.Quantity(W, 'angstrom**2'),
                         E.Quantity(c['T'], 'K'))


def tensors(c, m):
    if c['dw'] == 'none':
        return None
    rng = np.random.default_rng([c['seed'], 73])
    if c['dw'] == 'iso':
        return rng.uniform(.2, 1, (m.n_atoms, 1, 1)) * np.eye(3) \
            * c['dw_size']
    a = rng.normal(size=(m.n_atoms, 3, 3))
    return a @ a.swapaxes(1, 2) * c['dw_size'] / 3


def mbarn(sf):
    return sf.structure_factors.to('mbarn').magnitude


def run(c, t):
    import euphonic as E
    m = model(c)
    with tempfile.TemporaryDirectory() as tmp:
        arg, b = lengths(c, m, tmp)
        W = tensors(c, m)
        modes = gen.make_modes(m)
        dw = None if W is None else dw_of(c, m, W)
        before = snapshot(modes)
        db = None if dw is None else snapshot(dw)
        kw = {} if dw is None else dict(dw=dw)
        sf = modes.calculate_structure_factor(*arg, **kw)
        same(before, snapshot(modes), 'modes')
        if dw is not None:
            same(db, snapshot(dw), 'Debye-Waller object')
        exp = formula(m, b, W)
        got = mbarn(sf)
        t.hit(np.any(exp > 0))
        t.tag(c['sl'], 'dw ' + c['dw'],
              'complex b' if np.iscomplexobj(b) and np.any(b.imag)
              else 'real b')
        check(type(sf) is E.StructureFactor, 'type')
        # cancelling amplitudes: tolerance relative to their moduli
        amax = formula_max(m, b, W)
        check(got.shape == exp.shape, f'shape {got.shape}')
        bad = np.abs(got - exp) > 1e-7 * exp + 1e-10 * amax
        check(not bad.any(), lambda: f'structure factor at q-point, mode '
              f'{np.argwhere(bad)[0]}: {got[bad][0]}, expected '
              f'{exp[bad][0]} ({c["sl"]}, dw {c["dw"]})')
        check(np.all(got >= 0), 'negative structure factor')
        # what is carried over
        close(sf.frequencies.to('meV').magnitude, m.f, 1e-9,
              1e-12 * c['emax'], 'frequencies')
        check(sf.frequencies.units == modes.frequencies.units,
              'unit of frequencies')
        close(sf.weights, m.w, 1e-12, 0, 'weights')
        close(sf.qpts, m.q, 0, 0, 'q-points')
        same(snapshot(modes.crystal), snapshot(sf.crystal), 'crystal')
        if dw is None:
            check(sf.temperature is None, f'temperature {sf.temperature}')
        else:
            close(sf.temperature.to('K').magnitude, c['T'], 1e-9, 1e-9,
                  'temperature')
        qf = sf.to_qpoint_frequencies()
        check(type(qf) is E.QpointFrequencies, 'to_qpoint_frequencies')
        close(qf.frequencies.to('meV').magnitude, m.f, 1e-9,
              1e-12 * c['emax'], 'frequencies of to_qpoint_frequencies')
        check(qf.frequencies.units == sf.frequencies.units
              and np.array_equal(qf.qpts, sf.qpts)
              and np.array_equal(qf.weights, sf.weights),
              'content of to_qpoint_frequencies')
        same(snapshot(sf.crystal), snapshot(qf.crystal), 'its crystal')
        scale = amax.max()

        def sf_of(**change):
            return mbarn(variant(m, **change).calculate_structure_factor(
                *arg, **kw))
        rng = np.random.default_rng([c['seed'], 74])
        ph = np.exp(1j * rng.uniform(0, 6.3, m.f.shape))
        close(sf_of(evecs=m.evecs * ph[:, :, None, None]), got, 1e-6,
              1e-9 * scale, 'eigenvector phase changes the intensity')
        if c['degen']:
            th = rng.uniform(0, 6.3)
            r = np.array([[np.cos(th), -np.sin(th)],
                          [np.sin(th), np.cos(th)]])
            ev = m.evecs.copy()
            ev[:, :2] = np.einsum('ij,qjka->qika', r, ev[:, :2])
            s2 = sf_of(evecs=ev)
            close(s2[:, 0] + s2[:, 1], got[:, 0] + got[:, 1], 1e-6,
                  1e-9 * scale, 'rotation within degenerate modes changes '
                  'their total intensity')
        close(sf_of(atom_r=m.atom_r + rng.uniform(-1, 1, 3)), got, 1e-6,
              1e-9 * scale, 'origin shift changes the intensity')
        p = rng.permutation(m.n_atoms)
        kw2 = {}
        m2 = dict(atom_r=m.atom_r[p], atom_type=m.atom_type[p],
                  mass_amu=m.mass_amu[p], evecs=m.evecs[:, :, p])
        if dw is not None:
            kw2['dw'] = E.DebyeWaller(
                variant(m, **m2).crystal, E.Quantity(W[p], 'angstrom**2'),
                E.Quantity(c['T'], 'K'))
        close(mbarn(variant(m, **m2).calculate_structure_factor(
            *arg, **kw2)), got, 1e-6, 1e-9 * scale, 'order of atoms')
        if c['sl'] == 'dict':
            d2 = {k: v * c['f'] for k, v in arg[0].items()}
            close(mbarn(modes.calculate_structure_factor(d2, **kw)),
                  got * c['f'] ** 2, 1e-6, 1e-9 * scale,
                  'scaling the scattering lengths')
        # unit of the source
        modes.frequencies_unit = 'THz' if m.freq_unit != 'THz' else 'meV'
        modes.crystal.cell_vectors_unit = 'nm'
        close(mbarn(modes.calculate_structure_factor(*arg, **kw)), got,
              1e-7, 1e-9 * scale, 'units of the modes')
    # independence of source and result
    before = snapshot(modes)
    sf.weights = sf.weights * 3
    sf.qpts = sf.qpts + 1
    sf.frequencies = sf.frequencies * 2
    sf.temperature = E.Quantity(3., 'K')
    sf.frequencies_unit = 'eV'
    sf.structure_factors_unit = 'angstrom**2'
    close(sf.structure_factors.magnitude, got * 1e-11, 1e-9, 0,
          'converted structure factors')
    sf.structure_factors = sf.structure_factors * 0
    same(before, snapshot(modes), 'modes after edits of the result')


def formula_max(m, b, W):
    Q = m.q @ gen.recip(m)
    a = np.abs(np.einsum('qmka,qa->qmk', m.evecs.conj(), Q)) \
        * np.abs(b) / np.sqrt(m.mass)
    if W is not None:
        a = a * np.exp(-np.einsum('qa,kab,qb->qk', Q, W, Q))[:, None]
    return a.sum(-1) ** 2 / (2 * m.n_atoms) * gen.BOHR_ANG ** 2 \
        / (np.abs(m.f) / gen.HARTREE_MEV) * 1e11


def variant(m, **change):
    import copy
    m2 = copy.copy(m)
    for k, v in change.items():
        setattr(m2, k, v)
    return gen.make_modes(m2)


@st.composite
def bad_cases(draw):
    c = draw(gen.phonon_modes(max_atoms=3, max_q=2))
    c['kind'] = draw(st.sampled_from(['missing', 'unit', 'collection',
                                      'type', 'atoms', 'nounit']))
    return c


def run_bad(c, t):
    import euphonic as E
    from pint.errors import DimensionalityError
    m = gen.modes_model(c)
    modes = gen.make_modes(m)
    sl = {s: E.Quantity(3.0, 'fm') for s in m.atom_type}
    kind, kw = c['kind'], {}
    exc = (ValueError, KeyError)
    if kind == 'missing':
        sl.pop(m.atom_type[-1])
    elif kind == 'unit':
        sl[m.atom_type[0]] = E.Quantity(3.0, 'barn')
        exc = (DimensionalityError, ValueError)
    elif kind == 'nounit':
        sl[m.atom_type[0]] = 3.0
        exc = (AttributeError, TypeError, ValueError)
    elif kind == 'collection':
        sl = 'NoSuchCollection'
    elif kind == 'type':
        sl, exc = [3.0], TypeError
    else:
        sl, exc = 'Sears1992', ValueError
        n = m.n_atoms + 1
        kw = dict(dw=E.DebyeWaller(
            E.Crystal(E.Quantity(m.cell_ang, 'angstrom'),
                      np.zeros((n, 3)) + np.arange(n)[:, None] / n,
                      np.array(['H'] * n),
                      E.Quantity(np.ones(n), 'amu')),
            E.Quantity(np.zeros((n, 3, 3)), 'angstrom**2'),
            E.Quantity(5., 'K')))
    t.hit()
    t.tag(kind)
    before = snapshot(modes)
    raises(exc, lambda: modes.calculate_structure_factor(sl, **kw), kind)
    same(before, snapshot(modes), 'modes')


# ------------------------------------------------- through force constants
@st.composite
def fc_cases(draw):
    return dict(fc=draw(gen.force_constants(3, 4, modes=('spring', 'noisy'),
                                            polar=False)),
                q=draw(gen.qpoints(1, 3, gamma=False)),
                kind=draw(st.sampled_from([k for k in p04.KINDS if k not in (
                    'plusG', 'scale')])),
                seed=draw(gen.small_seed), dw=draw(st.booleans()),
                G=draw(st.booleans()))


def run_fc(c, t):
    import euphonic as E
    m = gen.fc_model(c['fc'])
    rng = np.random.default_rng([c['seed'], 4])
    q = np.array(c['q'])
    if c['G']:
        q = q + rng.integers(-3, 4, q.shape)
    m2, q2, _, _ = p04.transform(m, q, c['kind'], rng)
    for x in (m, m2):
        if ref.ws_images(x)[1]:
            raise Skip('image on the tolerance boundary')
    grid = rng.uniform(-.5, .5, (6, 3))
    out = []
    for mm, qq, g in ((m, q, grid), (m2, q2, -grid if c['kind'] == 'minusq'
                                     else grid)):
        fc = gen.make_fc(mm)
        kw = {}
        if c['dw']:
            kw['dw'] = fc.calculate_qpoint_phonon_modes(
                g, n_threads=1).calculate_debye_waller(
                E.Quantity(300, 'K'), symmetrise=False,
                frequency_min=E.Quantity(1., 'meV'))
        r = fc.calculate_qpoint_phonon_modes(qq.copy(), n_threads=1)
        s = mbarn(r.calculate_structure_factor(**kw))
        f = r.frequencies.to('meV').magnitude
        lam = np.sign(f) * f ** 2
        # independent of the choice of modes in degenerate sets
        a = s * np.abs(f)
        out.append((a.sum(1), (a * lam).sum(1), (a * lam ** 2).sum(1),
                    np.abs(f).max(), np.abs(f).min()))
    a, b = out
    if min(a[4], b[4]) < 1e-3:
        raise Skip('zero frequency')
    t.tag(c['kind'], 'dw' if c['dw'] else 'no dw')
    t.hit(a[0].max() > 0)
    for k in range(3):
        sc = a[0].max() * a[3] ** (2 * k)
        close(b[k], a[k], 0, 2e-6 * sc, f'{c["kind"]}: moment {k} of the '
              'intensities')


SUBS = [
    Sub('formula', cases(), run, 700),
    Sub('force_constants', fc_cases(), run_fc, 500),
    Sub('refused', bad_cases(), run_bad, 120),
]
