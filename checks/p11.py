"""P11 CASTEP files are read faithfully"""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import castep as cw
from harness import gen
from harness.core import Sub, check, close, raises
from harness.gen import small_seed
from checks.p31 import Scratch

RULE = ('A case is a file written by an independent writer of the CASTEP '
        'text/binary format from generated cell, atoms, species, q-points '
        '(repeated split gamma blocks in any number and position, with or '
        'without intensity columns), DOS tables, or force constants, cell '
        'origins, supercell, Born charges and dielectric tensor.  Everything '
        'read is compared with the numbers printed.  Non-trivial: more than '
        'one atom or q-point or bin or cell.')
TECHNIQUE = ('property-based testing: round trip through an independent '
             'writer of the file format; metamorphic checks of the options')
ASSUMPTIONS = ['atoms of one species are contiguous in .castep_bin and '
               '.phonon_dos files, as CASTEP writes them',
               '.castep_bin files are big-endian with 4-byte record marks']
CM = gen.E_MEV_PER_CM
BOHR = gen.BOHR_ANG
HART = gen.HARTREE_MEV


def near(a, b, what, rtol=1e-9, atol=0.):
    close(a, b, rtol=rtol, atol=atol, what=what)


@st.composite
def grouped(draw, max_atoms=5, max_species=4):
    """Crystal whose atoms are grouped by species"""
    n_s = draw(st.integers(1, max_species))
    names = draw(st.permutations(range(len(gen.SPECIES))))[:n_s]
    counts = [draw(st.integers(1, max(1, max_atoms // n_s))) for _ in names]
    if draw(st.integers(0, 19)) == 19:      # more atoms, modes in the 100s
        k = draw(st.sampled_from([4, 11, 25])) // n_s + 1
        counts = [x * k for x in counts]
    return dict(crystal=draw(gen.crystals(1, 1)), names=names, counts=counts,
                seed=draw(small_seed),
                wrap=draw(st.sampled_from(['unit', 'unit', 'outside'])))


def structure(c):
    """cell (angstrom), [(symbol, mass amu, positions)]"""
    cell = gen.cell_vectors(c['crystal'])
    rng = np.random.default_rng([c['seed'], 3])
    out = []
    for i, k in zip(c['names'], c['counts']):
        r = rng.uniform(0, 1, (k, 3))
        if c['crystal']['special']:
            r = rng.integers(0, 4, (k, 3)) / 4
        if c['wrap'] == 'outside':
            r = r + rng.integers(-1, 2, (k, 3))
        out.append((gen.SPECIES[i][0], gen.SPECIES[i][1] * rng.uniform(.9, 1.1),
                    r))
    return cell, out


def atoms_of(species):
    return [(r, s, m) for s, m, rs in species for r in rs]


def blocks_of(c, n_atoms, rng):
    nb = 3 * n_atoms
    blocks = []
    for i, q in enumerate(c['qs']):
        qv = {'gamma': np.zeros(3), 'half': rng.integers(-1, 2, 3) / 2,
              'general': rng.uniform(-1, 1, 3),
              'large': rng.uniform(-150, 150, 3)}[q['kind']]
        w = q['w'] / 97
        for d in q['blocks']:
            direction = None
            if d:
                direction = rng.integers(-2, 3, 3) / 4
                if not direction.any():
                    direction[0] = 1.
            f = np.sort(rng.uniform(-30, 900, nb))
            if rng.uniform() < .3:
                f[:3] = 0
            if rng.uniform() < .3 and nb > 3:
                f[1] = f[2]
            if rng.uniform() < .1:
                f[0] = -1234567.5
            e = rng.normal(size=(nb, nb)) + 1j * rng.normal(size=(nb, nb))
            e = np.linalg.qr(e)[0].reshape(nb, n_atoms, 3)
            if rng.uniform() < .3:
                e = e.real + 0j
            blocks.append(dict(idx=c['first'] + i, q=qv, w=w, freq=f,
                               evec=e, direction=direction,
                               extra=q['extra'],
                               grad=rng.uniform(0, 300, nb)))
    return blocks


q_entry = st.fixed_dictionaries(dict(
    kind=st.sampled_from(['gamma', 'half', 'general', 'general', 'large']),
    blocks=st.one_of(st.just([False]), st.just([False]), st.lists(
        st.booleans(), min_size=1, max_size=4)),
    w=st.integers(0, 97), extra=st.integers(0, 2)))


@st.composite
def phonons(draw):
    return dict(s=draw(grouped()), qs=draw(st.lists(q_entry, min_size=1,
                                                    max_size=6)),
                first=draw(st.sampled_from([1, 1, 1, 98, 9998])),
                seed=draw(small_seed),
                shuffle=draw(st.booleans()))


def check_crystal(c, exp, what, unit='angstrom'):
    check(c.n_atoms == len(exp['types']), f'{what}: n_atoms {c.n_atoms}')
    near(c.cell_vectors.to('angstrom').magnitude, exp['cell'],
          f'{what}: cell vectors', rtol=1e-7, atol=1e-9)
    near(c.atom_r, exp['r'], f'{what}: positions', rtol=0, atol=1e-12)
    check(list(c.atom_type) == list(exp['types']),
          lambda: f'{what}: species {list(c.atom_type)}, file has '
          f'{list(exp["types"])}')
    near(c.atom_mass.to('amu').magnitude, exp['mass'], f'{what}: masses',
          rtol=1e-7, atol=0)


def expected_weights(exp, average, prefer):
    """None: the file is refused"""
    w = exp['w'].copy()
    for i in np.unique(exp['idx']):
        k = np.flatnonzero(exp['idx'] == i)
        split = exp['split'][k]
        if len(k) == 1:
            continue
        if prefer and split.any() and not split.all():
            if (~split).sum() > 1:
                return None
            w[k[split]] = 0
        elif average:
            w[k] = w[k] / len(k)
    return w


def run_phonon(c, t):
    import euphonic as E
    cell, species = structure(c['s'])
    atoms = atoms_of(species)
    rng = np.random.default_rng([c['seed'], 5])
    if c['shuffle']:
        atoms = [atoms[i] for i in rng.permutation(len(atoms))]
    blocks = blocks_of(c, len(atoms), rng)
    n_q = len(c['qs'])
    text, exp = cw.phonon(cell, atoms, blocks, n_q)
    t.hit(len(atoms) > 1 or len(blocks) > 1)
    if len(blocks) > len(c['qs']):
        t.tag('repeated blocks')
    with Scratch() as d:
        p = os.path.join(d, 'x.phonon')
        with open(p, 'w') as f:
            f.write(text)
        for cls in (E.QpointPhononModes, E.QpointFrequencies):
            name = cls.__name__
            for avg, pref in ((None, None), (True, False), (False, False),
                              (True, True), (False, True)):
                kw = {} if avg is None else dict(average_repeat_points=avg,
                                                 prefer_non_loto=pref)
                w = expected_weights(exp, avg is None or avg, bool(pref))
                what = f'{name}.from_castep({kw})'
                if w is None:
                    t.tag('ambiguous')
                    raises(ValueError, lambda: cls.from_castep(p, **kw),
                           what + ' with several non-split blocks')
                    continue
                if pref and not np.allclose(w, expected_weights(
                        exp, avg, False)):
                    t.tag('split blocks removed')
                o = cls.from_castep(p, **kw)
                check(type(o) is cls, f'{what}: {type(o)}')
                check_crystal(o.crystal, exp, what)
                near(o.qpts, exp['q'], f'{what}: q-points', rtol=0,
                      atol=1e-12)
                near(o.weights, w, f'{what}: weights', rtol=1e-10,
                      atol=1e-13)
                near(o.frequencies.to('meV').magnitude, exp['f'] * CM,
                      f'{what}: frequencies', rtol=1e-6, atol=1e-8)
                if cls is E.QpointPhononModes:
                    near(o.eigenvectors, exp['e'], f'{what}: eigenvectors',
                          rtol=0, atol=1e-12)
        # the command line tools read the same data
        from euphonic.cli.utils import load_data_from_file
        for fo in (True, False):
            o = load_data_from_file(p, frequencies_only=fo)
            check(isinstance(o, E.QpointFrequencies if fo
                             else E.QpointPhononModes), f'loaded {type(o)}')
            near(o.frequencies.to('meV').magnitude, exp['f'] * CM,
                  'load_data_from_file frequencies', rtol=1e-6, atol=1e-8)


@st.composite
def doses(draw):
    return dict(s=draw(grouped(6, 5)), qs=draw(st.lists(
        st.fixed_dictionaries(dict(
            kind=st.sampled_from(['gamma', 'half', 'general']),
            blocks=st.just([False]), w=st.integers(0, 97),
            extra=st.just(0))), min_size=1, max_size=5)),
        first=draw(st.sampled_from([1, 1, 98, 9998])),
        seed=draw(small_seed), bins=draw(st.integers(1, 12)),
        units=draw(st.sampled_from([None, None, ('bohr', 'electron_mass',
                                                 'hartree'),
                                    ('nm', 'g', 'THz'),
                                    ('angstrom', 'kg', '1/cm')])))


def run_dos(c, t):
    import euphonic as E
    from euphonic.readers import castep as reader
    cell, species = structure(c['s'])
    atoms = atoms_of(species)
    rng = np.random.default_rng([c['seed'], 6])
    blocks = blocks_of(c, len(atoms), rng)
    freq = -20 + np.arange(c['bins']) * rng.uniform(.5, 90)
    partial = [(s, rng.uniform(0, .05, c['bins'])) for s, _, _ in species]
    total = rng.uniform(0, .3, c['bins'])
    text, exp = cw.phonon_dos(cell, atoms, blocks, freq, total, partial)
    t.hit(c['bins'] > 1)
    t.tag('species', len(partial))
    with Scratch() as d:
        p = os.path.join(d, 'x.phonon_dos')
        with open(p, 'w') as f:
            f.write(text)
        one = E.Spectrum1D.from_castep_phonon_dos(p)
        col = E.Spectrum1DCollection.from_castep_phonon_dos(p)
        check(type(one) is E.Spectrum1D and type(col)
              is E.Spectrum1DCollection, 'types')

        def axis(s, what):
            near(s.x_data.to('meV').magnitude, exp['bins'] * CM,
                  f'{what}: bins', rtol=1e-6, atol=1e-9)

        def values(y, e, what):
            near(y.to('1/meV').magnitude, e / CM, what, rtol=1e-6,
                  atol=1e-12)
        axis(one, 'total DOS')
        values(one.y_data, exp['total'], 'total DOS')
        check(one.metadata == {'label': 'Total'},
              lambda: f'total DOS metadata {one.metadata}')
        axis(col, 'DOS collection')
        lines = [('Total', exp['total'])] + [(s, exp['partial'][s])
                                             for s in exp['order']]
        check(len(col) == len(lines), lambda: f'{len(col)} lines for '
              f'{len(lines) - 1} species')
        for (s, y), line in zip(lines, col):
            values(line.y_data, y, f'collection: DOS of {s}')
            e = {'label': s} if s == 'Total' else {'label': s, 'species': s}
            check(line.metadata == e, lambda: f'collection: metadata '
                  f'{line.metadata}, expected {e}')
        for s in exp['order']:
            o = E.Spectrum1D.from_castep_phonon_dos(p, element=s)
            axis(o, s)
            values(o.y_data, exp['partial'][s], f'DOS of element {s}')
            check(o.metadata == {'label': s, 'species': s},
                  lambda: f'{s}: metadata {o.metadata}')
        raises(Exception, lambda: E.Spectrum1D.from_castep_phonon_dos(
            p, element='Zz'), 'element absent from the file')

        kw = {}
        lu, mu, fu = 'angstrom', 'amu', 'meV'
        if c['units']:
            lu, mu, fu = c['units']
            kw = dict(cell_vectors_unit=lu, atom_mass_unit=mu,
                      frequencies_unit=fu)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = reader.read_phonon_dos_data(p, **kw)
        near(np.asarray(r['qpts']), exp['q'], 'q-points', rtol=0, atol=1e-12)
        near(np.asarray(r['weights']), exp['w'], 'weights', rtol=0,
              atol=1e-12)
        cr = r['crystal']
        near(E.ureg.Quantity(np.asarray(cr['cell_vectors']),
                              cr['cell_vectors_unit'])
              .to('angstrom').magnitude, exp['cell'], 'cell vectors',
              rtol=1e-6, atol=1e-9)
        near(E.ureg.Quantity(np.asarray(cr['atom_mass']),
                              cr['atom_mass_unit']).to('amu').magnitude,
              exp['mass'], 'masses', rtol=1e-6, atol=0)
        near(cr['atom_r'], exp['r'], 'positions', rtol=0, atol=1e-12)
        check(cr['cell_vectors_unit'] == lu and cr['atom_mass_unit'] == mu
              and r['frequencies_unit'] == fu, 'requested units')
        near(E.ureg.Quantity(np.asarray(r['frequencies']),
                              r['frequencies_unit']).to('meV').magnitude,
              exp['f'] * CM, 'frequencies', rtol=1e-6, atol=1e-8)
        scale = E.ureg(fu).to('meV').magnitude * E.ureg(lu).to(
            'angstrom').magnitude
        near(np.asarray(r['mode_gradients']) * scale, exp['g'] * CM,
              'mode gradients', rtol=1e-6, atol=1e-8)
        check(r['mode_gradients_unit'] == f'{fu}*{lu}',
              f'mode gradients unit {r["mode_gradients_unit"]}')


@st.composite
def binaries(draw):
    return dict(s=draw(grouped(5, 4)), sc=draw(gen.supercells(6)),
                seed=draw(small_seed), born=draw(st.booleans()),
                born_first=draw(st.booleans()), extra=draw(st.booleans()),
                second=draw(st.booleans()),
                version=draw(st.sampled_from(['19.100', '17.1', '17.10',
                                              '20.11', '23.1', '25.12'])),
                ext=draw(st.sampled_from(['castep_bin', 'check'])))


def run_bin(c, t):
    import euphonic as E
    cell, species = structure(c['s'])
    n = sum(len(r) for _, _, r in species)
    rng = np.random.default_rng([c['seed'], 8])
    S = np.array(c['sc']['matrix'])
    origins, _ = gen.cosets(S, c['sc']['rep'], c['sc']['order'])
    fc = rng.normal(size=(len(origins), 3 * n, 3 * n)) * .1
    born = eps = None
    if c['born']:
        born = rng.normal(size=(n, 3, 3)) * 2
        eps = rng.normal(size=(3, 3)) + np.eye(3) * 4
        t.tag('born')
    t.hit(n > 1 or len(origins) > 1)
    t.tag('species', len(species))
    m = dict(cell=cell / BOHR,
             species=[(s, x * gen.AMU_ME, r) for s, x, r in species])
    second = None
    if c['second']:
        second = dict(cell=m['cell'] * 1.1, species=[
            (s, x, r + .01) for s, x, r in m['species'][::-1]])
        t.tag('different original cell')
    R = cw.castep_bin(m, fc, S, origins, born, eps, version=c['version'],
                      second=second, extra=c['extra'],
                      born_first=c['born_first'],
                      row=int(rng.integers(0, 5)))
    r = np.concatenate([x for _, _, x in species])
    types = [s for s, _, x in species for _ in x]
    mass = np.concatenate([np.full(len(x), k) for _, k, x in species])
    with Scratch() as d:
        p = os.path.join(d, 'x.' + c['ext'])
        with open(p, 'wb') as f:
            f.write(R.bytes())
        from euphonic.cli.utils import load_data_from_file
        for o in (E.ForceConstants.from_castep(p), load_data_from_file(p)):
            check(type(o) is E.ForceConstants, f'{type(o)}')
            x = o.crystal
            near(x.cell_vectors.to('angstrom').magnitude, cell,
                  'cell vectors', rtol=1e-7, atol=1e-8)
            dr = x.atom_r - r
            near(dr - np.rint(dr), np.zeros_like(r), 'positions (modulo '
                  'lattice vectors)', rtol=0, atol=1e-9)
            check(list(x.atom_type) == types, f'species {x.atom_type}')
            near(x.atom_mass.to('amu').magnitude, mass, 'masses',
                  rtol=1e-7, atol=0)
            near(o.force_constants.to('meV/angstrom**2').magnitude,
                  fc * HART / BOHR**2, 'force constants', rtol=1e-6,
                  atol=1e-9)
            check(np.array_equal(o.sc_matrix, S), lambda: f'supercell '
                  f'{o.sc_matrix} for {S}')
            check(np.array_equal(o.cell_origins, origins), 'cell origins')
            check(o.n_cells_in_sc == len(origins), 'n_cells_in_sc')
            if born is None:
                check(o.born is None and o.dielectric is None,
                      'born/dielectric invented')
            else:
                near(o.born.to('e').magnitude, born, 'born charges',
                      rtol=1e-8, atol=1e-12)
                near(o.dielectric.to('e**2/(hartree*bohr)').magnitude, eps,
                      'dielectric', rtol=1e-8, atol=1e-12)
        # a file with no force constants, and one of an old version
        bad = os.path.join(d, 'bad.castep_bin')
        with open(bad, 'wb') as f:
            f.write(cw.castep_bin(m, born=born, eps=eps).bytes())
        raises(Exception, lambda: E.ForceConstants.from_castep(bad),
               'file without force constants')
        with open(bad, 'wb') as f:
            f.write(cw.castep_bin(m, fc, S, origins, version=[
                '16.11', '8.0', '17.0', '7.03'][c['seed'] % 4]).bytes())
        raises(ValueError, lambda: E.ForceConstants.from_castep(bad),
               'file of an old version')


SUBS = [Sub('phonon', phonons(), run_phonon, 1500, 30000),
        Sub('dos', doses(), run_dos, 900, 20000),
        Sub('bin', binaries(), run_bin, 1200, 25000)]
