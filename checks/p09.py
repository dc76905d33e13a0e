"""P09 Units: every quantity is the same physical value however expressed"""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Skip, Sub, Violation, check, close

RULE = ('setters: an object of any class and a history of 3-12 unit changes, '
        'reads, assignments in other units and rejected operations, compared '
        'after each step with a model holding values in fixed base units.  '
        'Non-trivial: at least one successful unit change or assignment. '
        'inputs: the same data in base units and in drawn units (at '
        'construction, by setting *_unit, or as arguments) must give '
        'physically equal results; non-trivial if any unit differs.')
TECHNIQUE = ('model-based stateful testing (values in base units as model) '
             'and metamorphic relation over input units')
ASSUMPTIONS = ['unit conversion factors of the model are CODATA 2018; '
               'agreement to 1e-6 is required of values in other units']

# unit -> size of the unit in the base unit (own table, independent of pint)
A = 1.0 / gen.BOHR_ANG                        # bohr per angstrom
LEN = {'bohr': 1.0, 'angstrom': A, 'nm': 10 * A, 'm': 1e10 * A,
       'micrometer': 1e4 * A}
MASS = {'m_e': 1.0, 'amu': gen.AMU_ME, 'kg': gen.AMU_ME / 1.66053906660e-27,
        'unified_atomic_mass_unit': gen.AMU_ME,
        'g': gen.AMU_ME / 1.66053906660e-24}
EN = {'hartree': 1.0, 'meV': 1 / gen.HARTREE_MEV, 'eV': 1e3 / gen.HARTREE_MEV,
      '1/cm': gen.E_MEV_PER_CM / gen.HARTREE_MEV,
      'THz': gen.THZ_MEV / gen.HARTREE_MEV,
      'joule': 1 / 4.3597447222071e-18}
AREA = {'bohr**2': 1.0, 'angstrom**2': A**2, 'nm**2': 100 * A**2,
        'mbarn': 1e-11 * A**2, 'barn': 1e-8 * A**2}
FC = {'hartree/bohr**2': 1.0,
      'eV/angstrom**2': 1e3 / gen.HARTREE_MEV / A**2,
      'meV/nm**2': 1 / gen.HARTREE_MEV / (100 * A**2),
      'meV/bohr**2': 1 / gen.HARTREE_MEV,
      'N/m': 1 / 4.3597447222071e-18 * 1e-20 / A**2}
CHG = {'e': 1.0, 'coulomb': 1 / 1.602176634e-19,
       'microcoulomb': 1e-6 / 1.602176634e-19}
EPS = {'e**2/(bohr*hartree)': 1.0,
       'e**2/(angstrom*eV)': gen.HARTREE_MEV / 1e3 / A,
       'e**2/(bohr*meV)': gen.HARTREE_MEV,
       'e**2/(nm*hartree)': 1 / (10 * A)}
ILEN = {'1/bohr': 1.0, '1/angstrom': 1 / A, '1/nm': 1 / (10 * A)}
TEMP = {'K': 1.0, 'mK': 1e-3, 'kilokelvin': 1e3}
IEN = {'1/hartree': 1.0, '1/meV': gen.HARTREE_MEV, '1/eV':
       gen.HARTREE_MEV / 1e3, '1/THz': gen.HARTREE_MEV / gen.THZ_MEV}
SQW = {'mbarn/meV': 1.0, 'bohr**2/meV': 1e11 / A**2, 'barn/eV': 1.0,
       'angstrom**2/meV': 1e11, 'mbarn/hartree': 1 / gen.HARTREE_MEV}
NONE = {'dimensionless': 1.0, 'percent': 0.01}

BAD = {
    'len': ['kg', 'meV', '1/bohr', 'angstrom**2', 'K', 'nosuchunit'],
    'mass': ['meV', 'bohr', 'K', 'amu**2', 'nosuchunit', '1/kg'],
    'en': ['kg', 'angstrom', 'cm', 's', '1/meV', 'meV**2', 'K**2', 'e',
           'nosuchunit', 'ps'],
    'area': ['bohr', 'meV', 'bohr**3', 'mbarn**2', '1/bohr**2'],
    'fc': ['hartree/bohr', 'eV', 'hartree', 'kg', 'bohr**2/hartree'],
    'chg': ['kg', 'e**2', 'meV', '1/e'],
    'eps': ['e**2/bohr', 'hartree', 'bohr', 'bohr*hartree/e**2'],
    'ilen': ['angstrom', 'meV*kg', 'kg', '1/angstrom**2', 'bohr'],
    'temp': ['kg', 'bohr', 'K**2', '1/K', 's'],
    'ien': ['kg', 'meV', '1/kg', '1/bohr**2', 'hartree', 'THz'],
    'sqw': ['mbarn', 'meV', 'meV/mbarn', 'mbarn*meV'],
    'none': ['kg', 'meV', 'bohr'],
}
TABLE = dict(len=LEN, mass=MASS, en=EN, area=AREA, fc=FC, chg=CHG, eps=EPS,
             ilen=ILEN, temp=TEMP, ien=IEN, sqw=SQW, none=NONE)
# for spectra 'ilen' bad list: wavelength <-> energy allowed only linearly

CLASSES = {
    'Crystal': dict(cell_vectors='len', atom_mass='mass'),
    'QpointFrequencies': dict(frequencies='en'),
    'QpointPhononModes': dict(frequencies='en'),
    'StructureFactor': dict(frequencies='en', structure_factors='area',
                            temperature='temp'),
    'DebyeWaller': dict(debye_waller='area', temperature='temp'),
    'ForceConstants': dict(force_constants='fc', born='chg',
                           dielectric='eps'),
    'Spectrum1D': dict(x_data='en', y_data='ien'),
    'Spectrum1DCollection': dict(x_data='ilen', y_data='en'),
    'Spectrum2D': dict(x_data='ilen', y_data='en', z_data='sqw'),
    'Spectrum2DCollection': dict(x_data='ilen', y_data='en', z_data='ien'),
}

STEP = st.fixed_dictionaries(dict(
    op=st.sampled_from(['unit', 'unit', 'unit', 'assign', 'assign', 'scale',
                        'read', 'bad_unit', 'bad_assign', 'nonquantity']),
    attr=st.integers(0, 2), k=st.integers(0, 11)))


@st.composite
def setter_cases(draw):
    return dict(cls=draw(st.sampled_from(sorted(CLASSES))),
                seed=draw(gen.small_seed), n=draw(st.integers(1, 4)),
                init=[draw(st.integers(0, 5)) for _ in range(3)],
                edges=draw(st.booleans()), kelvin=draw(st.booleans()),
                steps=draw(st.lists(STEP, min_size=3, max_size=12)))


def build(c):
    """object and model {attr: (array in base unit, unit)}"""
    import euphonic as E
    from euphonic.spectra import Spectrum2DCollection
    rng = np.random.default_rng([c['seed'], 9])
    n = c['n']
    Q = E.Quantity
    name = c['cls']
    kinds = CLASSES[name]
    units = {}
    for i, (a, k) in enumerate(kinds.items()):
        us = list(TABLE[k])
        units[a] = us[c['init'][i] % len(us)]

    def q(a, base):
        return Q(np.array(base) / TABLE[kinds[a]][units[a]]
                 if np.ndim(base) else base / TABLE[kinds[a]][units[a]],
                 units[a])
    cell = np.diag(rng.uniform(5, 9, 3)) + rng.uniform(-1, 1, (3, 3))
    typ = np.array(['Si', 'O', 'Na', 'Cl'][:n])
    mass = rng.uniform(2000, 2e5, n)
    r = rng.uniform(size=(n, 3))
    base = {}
    if name == 'Crystal':
        base = dict(cell_vectors=cell, atom_mass=mass)
        o = E.Crystal(q('cell_vectors', cell), r, typ, q('atom_mass', mass))
    else:
        cr = E.Crystal(Q(cell, 'bohr'), r, typ, Q(mass, 'm_e'))
        nq = 3
        f = rng.uniform(1e-4, 5e-3, (nq, 3 * n))
        qpts = rng.uniform(-1, 1, (nq, 3))
        if name == 'QpointFrequencies':
            base = dict(frequencies=f)
            o = E.QpointFrequencies(cr, qpts, q('frequencies', f))
        elif name == 'QpointPhononModes':
            base = dict(frequencies=f)
            ev = rng.normal(size=(nq, 3 * n, n, 3)) + 0j
            o = E.QpointPhononModes(cr, qpts, q('frequencies', f), ev)
        elif name == 'StructureFactor':
            s = rng.uniform(0, 2, (nq, 3 * n))
            T = 300.5
            base = dict(frequencies=f, structure_factors=s, temperature=T)
            o = E.StructureFactor(
                cr, qpts, q('frequencies', f), q('structure_factors', s),
                temperature=q('temperature', T))
        elif name == 'DebyeWaller':
            d = rng.uniform(0, 2, (n, 3, 3))
            base = dict(debye_waller=d, temperature=12.25)
            o = E.DebyeWaller(cr, q('debye_waller', d),
                              q('temperature', 12.25))
        elif name == 'ForceConstants':
            fc = rng.normal(size=(2, 3 * n, 3 * n))
            b = rng.normal(size=(n, 3, 3))
            e = rng.normal(size=(3, 3)) + 3 * np.eye(3)
            base = dict(force_constants=fc, born=b, dielectric=e)
            o = E.ForceConstants(
                cr, q('force_constants', fc), np.diag([2, 1, 1]),
                np.array([[0, 0, 0], [1, 0, 0]]), q('born', b),
                q('dielectric', e))
        else:
            nx, ny = 4 + n, 5
            x = np.cumsum(rng.uniform(.1, 1, nx + c['edges']))
            if name == 'Spectrum1D':
                base = dict(x_data=x, y_data=rng.uniform(0, 5, nx))
                o = E.Spectrum1D(q('x_data', x), q('y_data', base['y_data']))
            elif name == 'Spectrum1DCollection':
                base = dict(x_data=x, y_data=rng.uniform(0, 5, (3, nx)))
                o = E.Spectrum1DCollection(q('x_data', x),
                                           q('y_data', base['y_data']))
            else:
                y = np.cumsum(rng.uniform(.1, 1, ny + 1)) * 1e-3
                sh = (nx, ny) if name == 'Spectrum2D' else (2, nx, ny)
                base = dict(x_data=x, y_data=y, z_data=rng.uniform(0, 5, sh))
                cls = (E.Spectrum2D if name == 'Spectrum2D'
                       else Spectrum2DCollection)
                o = cls(q('x_data', x), q('y_data', y),
                        q('z_data', base['z_data']))
    return o, base, units


def parse(u):
    import euphonic as E
    return E.ureg.parse_units(u) if hasattr(E.ureg, 'parse_units') \
        else E.ureg(u).units


def verify(o, base, units, kinds, what):
    for a, k in kinds.items():
        v = getattr(o, a)
        check(hasattr(v, 'units'), f'{what}: {a} is not a quantity')
        check(v.units == parse(units[a]),
              f'{what}: {a} reported in {v.units}, expected {units[a]}')
        check(parse(getattr(o, a + '_unit')) == parse(units[a]),
              f'{what}: {a}_unit is {getattr(o, a + "_unit")}, expected '
              f'{units[a]}')
        got = np.asarray(v.magnitude) * TABLE[k][units[a]]
        b = np.asarray(base[a], float)
        close(got, b, 1e-6, 1e-7 * np.abs(b).max(),
              f'{what}: value of {a} (in {units[a]})')


def run_setters(c, t):
    import euphonic as E
    o, base, units = build(c)
    kinds = CLASSES[c['cls']]
    names = list(kinds)
    t.tag(c['cls'])
    verify(o, base, units, kinds, 'constructed')
    exact = {a: np.array(getattr(o, a).magnitude) for a in names}
    for i, s in enumerate(c['steps']):
        a = names[s['attr'] % len(names)]
        tab = list(TABLE[kinds[a]])
        u = tab[s['k'] % len(tab)]
        what = f'{c["cls"]} step {i} {s["op"]} {a}'
        t.tag(s['op'])
        if s['op'] == 'unit':
            setattr(o, a + '_unit', u)
            units[a] = u
            t.hit()
        elif s['op'] == 'assign':
            b = np.asarray(base[a]) * (1 + 0.1 * (s['k'] + 1))
            b = b if np.ndim(base[a]) else float(b)
            v = b / TABLE[kinds[a]][u]
            qv = E.Quantity(v, u)
            setattr(o, a, qv)
            check(np.array_equal(qv.magnitude, v), f'{what}: argument changed')
            base[a], units[a] = b, u
            t.hit()
        elif s['op'] == 'scale':
            # typical in-place idiom through the property
            setattr(o, a, getattr(o, a) * 2)
            base[a] = base[a] * 2
        elif s['op'] == 'read':
            for b in names:
                getattr(o, b)
            if hasattr(o, 'to_dict'):
                o.to_dict()
        else:
            bad = BAD[kinds[a]][s['k'] % len(BAD[kinds[a]])]
            before = copy.deepcopy({b: getattr(o, b) for b in names})
            try:
                if s['op'] == 'bad_unit':
                    what += f' {bad}'
                    setattr(o, a + '_unit', bad)
                elif s['op'] == 'bad_assign':
                    what += f' {bad}'
                    if bad == 'nosuchunit':
                        bad = 'kg*mol'
                    setattr(o, a, E.Quantity(
                        np.array(base[a]) if np.ndim(base[a]) else base[a],
                        bad))
                else:
                    setattr(o, a, [np.array(base[a]), 'abc', 3.0, None,
                                   [1.0, 2.0]][s['k'] % 5])
            except Exception as e:
                if isinstance(e, Violation):
                    raise
            else:
                raise Violation(f'{what}: was accepted')
            for b in names:
                v = getattr(o, b)
                check(v.units == before[b].units,
                      f'{what}: units of {b} changed by a rejected operation')
                check(np.array_equal(v.magnitude, before[b].magnitude),
                      f'{what}: {b} changed by a rejected operation')
        verify(o, base, units, kinds, what)
    # back to the constructed units: no loss for attributes not assigned
    if not any(s['op'] in ('assign', 'scale') for s in c['steps']):
        o2, _, u2 = build(c)
        for a in names:
            setattr(o, a + '_unit', u2[a])
            close(np.array(getattr(o, a).magnitude), exact[a], 1e-13, 0,
                  f'{a} after unit changes there and back')


# ------------------------------------------------------------------ inputs
@st.composite
def input_cases(draw):
    pick = lambda tab: draw(st.sampled_from(sorted(tab)))
    return dict(
        calc=draw(st.sampled_from(CALCS)),
        fc=draw(gen.force_constants(2, 4)),
        modes=draw(gen.phonon_modes(3, 4, negative=False)),
        how=draw(st.sampled_from(['construct', 'set_unit', 'args'])),
        u=dict(len=pick(LEN), mass=pick(MASS), en=pick(EN), fc=pick(FC),
               chg=pick(CHG), eps=pick(EPS), area=pick(AREA),
               ilen=pick(ILEN), temp=pick(dict(TEMP, degC=1)),
               len2=pick(['angstrom', 'bohr', 'nm', 'fm'])),
        ebin=draw(st.sampled_from(['meV', 'THz', '1/cm', 'eV', 'hartree'])),
        seed=draw(gen.small_seed), T=draw(gen.nice_float(1, 500)))


CALCS = ['phonons', 'phonons', 'total_fc', 'crystal', 'dos', 'dos_adaptive',
         'dos_fast', 'pdos', 'pdos_weighted', 'dos_map', 'dispersion', 'dw',
         'sf', 'sf_dw', 'sqw', 'average', 'broaden', 'widths', 'powder',
         'variable', 'kinematic']


def qty(base, unit, table):
    from euphonic import Quantity
    return Quantity(np.asarray(base) / table[unit] if np.ndim(base)
                    else base / table[unit], unit)


def temp(T, unit):
    from euphonic import Quantity
    if unit == 'degC':
        return Quantity(T - 273.15, 'degC')
    return Quantity(T / TEMP[unit], unit)


BASE = dict(len='bohr', mass='m_e', en='hartree', fc='hartree/bohr**2',
            chg='e', eps='e**2/(bohr*hartree)', area='bohr**2',
            ilen='1/bohr', temp='K', len2='bohr')
FM = {'angstrom': A, 'bohr': 1.0, 'nm': 10 * A, 'fm': 1e-5 * A}


def objects(c, u, how):
    """(force constants, phonon modes) with units u"""
    import euphonic as E
    cons = u if how == 'construct' else BASE
    m = gen.fc_model(c['fc'])
    if m.born is None and c['calc'] == 'total_fc':
        raise Skip('not polar')
    kw = {}
    if m.born is not None:
        kw = dict(born=qty(m.born, cons['chg'], CHG),
                  dielectric=qty(m.eps, cons['eps'], EPS))
    cr = E.Crystal(qty(m.cell, cons['len'], LEN), m.atom_r, m.atom_type,
                   qty(m.mass, cons['mass'], MASS))
    if c['calc'] == 'total_fc':
        f = E.ForceConstants.from_total_fc_with_dipole(
            cr, qty(m.fc, cons['fc'], FC), m.sc_matrix, m.origins, **kw)
    else:
        f = E.ForceConstants(cr, qty(m.fc, cons['fc'], FC), m.sc_matrix,
                             m.origins, **kw)
    mm = gen.modes_model(c['modes'])
    cr2 = E.Crystal(qty(mm.cell, cons['len'], LEN), mm.atom_r, mm.atom_type,
                    qty(mm.mass, cons['mass'], MASS))
    p = E.QpointPhononModes(cr2, mm.q, qty(mm.f / gen.HARTREE_MEV,
                                           cons['en'], EN), mm.evecs, mm.w)
    if how == 'set_unit':
        for x in (f.crystal, p.crystal):
            x.cell_vectors_unit = u['len']
            x.atom_mass_unit = u['mass']
        f.force_constants_unit = u['fc']
        if m.born is not None:
            f.born_unit, f.dielectric_unit = u['chg'], u['eps']
        p.frequencies_unit = u['en']
    return m, f, mm, p


def evaluate(c, u, ebin, how):
    """-> list of (what, quantity, base unit or None, scale)"""
    import euphonic as E
    from euphonic import Quantity, ureg
    from euphonic.util import mode_gradients_to_widths
    m, f, mm, p = objects(c, u, how)
    rng = np.random.default_rng([c['seed'], 5])
    k = c['calc']
    out = []
    fmax = mm.f.max() * 1.1
    # (irregularly placed so that rounding moves nothing over an edge)
    edges = np.linspace(0, fmax, 14) + 0.0123 * fmax / 13
    bins = Quantity(edges / gen.EUNIT[ebin], ebin)
    T = temp(c['T'], u['temp'])
    wid = rng.uniform(0.02, 0.1, mm.f.shape) * fmax / gen.HARTREE_MEV

    def en(x_hartree):
        return qty(x_hartree, u['en'], EN)
    q = rng.uniform(-.5, .5, (3, 3))
    if k in ('phonons', 'total_fc'):
        r, g = f.calculate_qpoint_phonon_modes(
            q, return_mode_gradients=True, asr=[None, 'realspace'][c['seed'] % 2])
        lam = r.frequencies.to('hartree').magnitude
        lam = np.sign(lam) * lam**2
        E_ = r.eigenvectors.reshape(len(q), lam.shape[1], -1)
        D = np.einsum('qv,qva,qvb->qab', lam, E_, E_.conj())
        sc = max(np.abs(lam).max(), np.abs(m.fc).max() / m.mass.min())
        out += [('frequencies**2', lam, 1e-6 * sc), ('D', D, 1e-5 * sc)]
        nd = np.abs(lam[:, :, None] - lam[:, None]) \
            + np.eye(lam.shape[1]) * 1e3
        ok = (nd.min(2) > 1e-2 * sc) & (np.abs(lam) > 1e-2 * sc)
        gg = g.to('hartree*bohr').magnitude
        gs = np.abs(gg[ok]).max() if ok.any() else 1.
        gs = max(gs, 1e-3 * np.abs(m.cell).max() * np.sqrt(sc))
        out += [('gradients', np.where(ok[..., None], gg, 0), 1e-5 * gs)]
    elif k == 'crystal':
        cr = f.crystal
        sp = rng.uniform(.05, .4)
        spec = cr.get_mp_grid_spec(qty(sp, u['ilen'], ILEN))
        rec = cr.reciprocal_cell().to('1/bohr').magnitude
        d = np.linalg.norm(rec, axis=1) / sp
        if np.abs(d - np.rint(d)).min() < 1e-5:
            raise Skip('grid spacing at a step')
        out += [('reciprocal cell', rec, 1e-6),
                ('volume', cr.cell_volume().to('bohr**3').magnitude,
                 1e-5 * abs(np.linalg.det(m.cell))),
                ('grid', np.array(spec), 0)]
        tol = Quantity(1e-4 / FM[u['len2']], u['len2'])
        rot, tr, eq = cr.get_symmetry_equivalent_atoms(tol=tol)
        o = np.lexsort(np.rint(np.concatenate(
            (rot.reshape(len(rot), -1),
             np.mod(np.rint(tr * 1e4), 1e4)), 1)).T)
        out += [('number of symmetry operations', np.array(len(rot)), 0)]
        lat = cr.to_spglib_cell()
        out += [('spglib cell', np.array(lat[0]), 1e-5)]
    elif k in ('dos', 'dos_adaptive', 'dos_fast', 'dos_map'):
        kw = {}
        if k != 'dos' and not (k == 'dos_map' and c['seed'] % 2):
            kw = dict(mode_widths=en(wid), mode_widths_min=en(
                0.04 * fmax / gen.HARTREE_MEV))
        if k == 'dos_fast':
            kw.update(adaptive_method='fast', adaptive_error=0.01)
        fn = p.calculate_dos_map if k == 'dos_map' else p.calculate_dos
        d = fn(bins, **kw)
        if k == 'dos_map':
            y, x = d.z_data, d.y_data
            out += [('map x', d.x_data.to('1/bohr').magnitude, 1e-5)]
        else:
            y, x = d.y_data, d.x_data
        out += [('bins', x.to('hartree').magnitude, 1e-6 * fmax / 27211),
                ('dos per hartree', phys(y, {'en': -1}), 1e-5 * 3e5 / fmax)]
    elif k in ('pdos', 'pdos_weighted'):
        kw = {}
        if k == 'pdos_weighted':
            cs = {s: Quantity((i + 1.5) / FM[u['len2']]**2,
                              u['len2'] + '**2')
                  for i, s in enumerate(sorted(set(mm.atom_type)))}
            kw = dict(cross_sections=cs, weighting='coherent')
        d = p.calculate_pdos(bins, **kw)
        dim = {'en': -1, 'area': 1} if kw else {'en': -1}
        y = phys(d.y_data, dim)
        out += [('pdos', y, 1e-5 * max(np.abs(y).max(), 1e-9))]
    elif k == 'dispersion':
        d = p.get_dispersion()
        out += [('x', d.x_data.to('1/bohr').magnitude, 1e-5),
                ('y', d.y_data.to('hartree').magnitude, 1e-8),
                ('labels', np.array([i for i, _ in d.x_tick_labels]), 0)]
        check([s for _, s in d.x_tick_labels] == [
            s for _, s in objects(c, BASE, 'construct')[3]
            .get_dispersion().x_tick_labels], 'dispersion labels depend on '
            'units')
    elif k in ('dw', 'sf', 'sf_dw', 'sqw', 'average'):
        dw = p.calculate_debye_waller(
            T, frequency_min=en(2e-3 * fmax / gen.HARTREE_MEV),
            symmetrise=bool(c['seed'] % 2))
        if k == 'dw':
            y = dw.debye_waller.to('bohr**2').magnitude
            out += [('debye-waller', y, 2e-6 * np.abs(y).max())]
            return out
        b = {s: Quantity((i - 1.3) * 5e-5 / FM[u['len2']], u['len2'])
             for i, s in enumerate(sorted(set(mm.atom_type)))}
        if how == 'set_unit':
            dw.debye_waller_unit = u['area']
            if u['temp'] != 'degC':
                dw.temperature_unit = u['temp']
        s = p.calculate_structure_factor(
            b, dw=dw if k == 'sf_dw' or c['seed'] % 3 == 0 else None)
        if how == 'set_unit':
            s.structure_factors_unit = u['area']
            s.frequencies_unit = u['en']
        if k in ('sf', 'sf_dw'):
            y = s.structure_factors.to('bohr**2').magnitude
            out += [('structure factors', y, 1e-5 * np.abs(y).max())]
        elif k == 'sqw':
            y = s.calculate_sqw_map(bins, temperature=T)
            z = phys(y.z_data, {'area': 1, 'en': -1})
            out += [('sqw', z, 1e-5 * np.abs(z).max()),
                    ('sqw x', y.x_data.to('1/bohr').magnitude, 1e-5)]
        else:
            y = s.calculate_1d_average(bins, temperature=T)
            z = phys(y.y_data, {'area': 1, 'en': -1})
            out += [('average', z, 1e-5 * np.abs(z).max())]
    elif k == 'broaden':
        d = p.calculate_dos(bins)
        if how == 'set_unit':
            d.x_data_unit = u['en']
            d.y_data_unit = {'1/cm': '1/meV', 'THz': '1/THz'}.get(
                ebin, '1/eV') if ebin not in ('1/cm', 'THz') else \
                d.y_data_unit
        w = 0.17 * fmax / gen.HARTREE_MEV
        r = d.broaden(en(w), shape=['gauss', 'lorentz'][c['seed'] % 2])
        y = phys(r.y_data, {'en': -1})
        out += [('broadened', y, 1e-5 * max(np.abs(y).max(), 1e-9)),
                ('bins', r.x_data.to('hartree').magnitude,
                 1e-6 * fmax / 27211)]
    elif k == 'variable':
        d = p.calculate_dos(bins)
        un = u['en']

        def width(x):
            xx = x.to('hartree').magnitude
            return qty(0.05 * fmax / gen.HARTREE_MEV + 0.1 * xx, un, EN)
        r = d.broaden(width, shape='gauss')
        y = phys(r.y_data, {'en': -1})
        out += [('broadened', y, 1e-5 * max(np.abs(y).max(), 1e-9))]
    elif k == 'widths':
        g = rng.normal(size=(3, 6, 3)) * 1e-3
        # (gradients are energies times lengths, not frequencies)
        un = u['en'] if u['en'] not in ('1/cm', 'THz') else 'eV'
        gq = Quantity(g / EN[un] / LEN[u['len']],
                      ureg(un).units * ureg(u['len']).units)
        r = mode_gradients_to_widths(gq, qty(m.cell, u['len'], LEN))
        y = r.to('hartree').magnitude
        out += [('widths', y, 1e-6 * np.abs(y).max())]
    elif k == 'powder':
        from euphonic.powder import (sample_sphere_dos,
                                     sample_sphere_structure_factor)
        modq = qty(0.31 + rng.uniform(), u['ilen'], ILEN)
        fm = f.calculate_qpoint_frequencies(q).frequencies.to('meV').magnitude
        hi = np.abs(fm).max() * 1.5 + 5
        e = Quantity((np.linspace(0, hi, 9) + 0.003217 * hi)
                     / gen.EUNIT[ebin], ebin)
        if c['seed'] % 2:
            d = sample_sphere_dos(f, modq, npts=12, energy_bins=e)
            y = phys(d.y_data, {'en': -1})
        else:
            b = {s: Quantity((i - 1.3) * 5e-5 / FM[u['len2']], u['len2'])
                 for i, s in enumerate(sorted(set(m.atom_type)))}
            d = sample_sphere_structure_factor(
                f, modq, npts=12, energy_bins=e, temperature=T,
                scattering_lengths=b)
            y = phys(d.y_data, {'area': 1, 'en': -1})
        if not np.all(np.isfinite(y)):
            raise Skip('not finite')
        out += [('powder', y, 1e-5 * max(np.abs(y).max(), 1e-9))]
    elif k == 'kinematic':
        from euphonic.spectra import apply_kinematic_constraints
        x = np.linspace(0.1, 2.0, 9) + 0.00913
        y = np.linspace(0., 3e-3, 9) + 1.7e-5
        z = rng.uniform(size=(9, 8))
        s = E.Spectrum2D(qty(x, u['ilen'], ILEN), qty(y, u['en'], EN),
                         Quantity(z, 'mbarn/meV'))
        if how == 'set_unit':
            s = E.Spectrum2D(qty(x, '1/angstrom', ILEN), qty(y, 'meV', EN),
                             Quantity(z, 'mbarn/meV'))
            s.x_data_unit, s.y_data_unit = u['ilen'], u['en']
        ei = qty(2.2e-3, ebin if ebin in EN else 'eV', EN)
        lo, hi = Quantity(5., 'deg'), Quantity(80., 'deg')
        if c['seed'] % 2:
            r = apply_kinematic_constraints(s, e_i=ei, angle_range=(5., 80.))
        else:
            r = apply_kinematic_constraints(s, e_f=ei, angle_range=(5., 80.))
        out += [('masked', np.isnan(r.z_data.magnitude).astype(int), 0),
                ('z', np.nan_to_num(r.z_data.to('mbarn/meV').magnitude),
                 1e-9)]
    return out


def phys(qv, dims):
    """value in hartree/bohr based units, using the own tables, of a quantity
    of the given dimensions {'en': power, 'area': power}"""
    f = 1.0
    un = {}
    for name, p in qv.units._units.items():
        un[name] = p
    alias = {'hartree': EN['hartree'], 'millielectron_volt': EN['meV'],
             'electron_volt': EN['eV'], 'terahertz': EN['THz'],
             'joule': EN['joule']}
    left = dict(dims)
    val = np.asarray(qv.magnitude)
    # energies expressed as wavenumbers: 'centimeter' with opposite power
    for name, p in un.items():
        if name in alias:
            f *= alias[name]**p
            left['en'] = left.get('en', 0) - p
        elif name == 'centimeter':
            f *= EN['1/cm']**(-p)
            left['en'] = left.get('en', 0) + p
        elif name in ('millibarn', 'barn'):
            f *= AREA[{'millibarn': 'mbarn'}.get(name, name)]**p
            left['area'] = left.get('area', 0) - p
        elif name in ('bohr', 'angstrom', 'nanometer'):
            f *= LEN[{'nanometer': 'nm'}.get(name, name)]**p
            left['area'] = left.get('area', 0) - p / 2
        else:
            raise Violation(f'unexpected unit {qv.units}')
    check(all(abs(x) < 1e-9 for x in left.values()),
          f'dimensions of {qv.units} are not {dims}')
    return val * f


def run_inputs(c, t):
    import warnings
    warnings.simplefilter('ignore')
    t.tag(c['calc'], c['how'])
    u = dict(c['u'])
    a = evaluate(c, BASE, 'meV', 'construct')
    b = evaluate(c, u, c['ebin'], c['how'])
    check(len(a) == len(b), 'number of results')
    for (n, x, tol), (_, y, _) in zip(a, b):
        close(np.asarray(y), np.asarray(x), 1e-6, tol,
              f'{c["calc"]} ({c["how"]}): {n}')
    t.hit(any(u[k] != BASE[k] for k in BASE) or c['ebin'] != 'meV')


SUBS = [
    Sub('setters', setter_cases(), run_setters, quick=2000),
    Sub('inputs', input_cases(), run_inputs, quick=900),
]
QUICK_S = 60
