"""P12 Phonopy files are read faithfully"""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import phonopy as pw
from harness.core import Skip, Sub, Violation, check, close, raises
from harness.gen import small_seed
from checks.p31 import Scratch

RULE = ('force constants: a case is a crystal, supercell (any integer '
        'matrix), symmetric force constants, polar or not, written by an '
        'independent writer as Phonopy files: unit cell equal to the '
        'primitive cell or to a larger cell, supercell atoms in any order, '
        'force constants full or compact in phonopy.yaml, FORCE_CONSTANTS '
        'or hdf5, Born charges in phonopy.yaml (old or new style) or BORN, '
        'units of any calculator.  Every force constant read is compared by '
        'the vector between its atoms modulo the supercell.  modes: '
        'mesh/band/qpoints files with random modes.  Non-trivial: more than '
        'one cell in the supercell and a general supercell matrix, order or '
        'format; for modes, at least one q-point that is not gamma.')
TECHNIQUE = ('property-based testing: round trip through an independent '
             'writer of the file formats; differential between formats')
ASSUMPTIONS = ['primitive atoms are listed in the order of their '
               'representatives in the supercell, as Phonopy does',
               'mesh/band/qpoints files are in angstrom, amu and THz']
TIGHT = 2e-8


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def near(a, b, what, rtol=1e-9, atol=0., key=None):
    close(a, b, rtol=rtol, atol=atol, what=what, key=key)


@st.composite
def cases(draw):
    return dict(
        fc=draw(st.one_of(*[gen.force_constants(3, 8)] * 11,
                          gen.force_constants(9, 12),
                          gen.force_constants(2, 36))),
        unit=draw(st.sampled_from(['primitive', 'primitive', 'supercell'])),
        order=draw(st.one_of(st.none(), st.none(), small_seed)),
        rep=draw(small_seed), first=draw(st.sampled_from([True, True,
                                                          False])),
        noise=draw(st.sampled_from([0., 0., 1e-16, 2e-15])),
        units=draw(st.sampled_from(sorted(pw.UNITS))),
        where=draw(st.sampled_from(['yaml', 'text', 'hdf5', 'h5', 'format',
                                    'single'])),
        kind=draw(st.sampled_from(['full', 'compact'])),
        born=draw(st.sampled_from(['yaml_new', 'yaml_old', 'file',
                                   'file_factor', 'both'])),
        factor=draw(st.sampled_from([1., 1., .5, 1.7])),
        comment=draw(st.booleans()),
        physical_unit=draw(st.sampled_from([True, True, False])),
        style=draw(st.sampled_from(['new', 'old'])),
        qseed=draw(small_seed))


def classes(sc_inv, det):
    def f(v):
        k = np.asarray(v) @ sc_inv
        return np.mod(k + 1e-5, 1) - 1e-5
    return f


def by_vector(fc, r, origins, S, order):
    """{(i, j): [(vector class in supercell coordinates, 3x3)]} with i, j
    in the order `order`"""
    inv = np.linalg.inv(S)
    n = len(r)
    a = fc.reshape(len(origins), n, 3, n, 3)
    out = {}
    for i in range(n):
        for j in range(n):
            v = (origins + r[j] - r[i]) @ inv
            v = np.mod(v + 1e-4, 1) - 1e-4
            out[i, j] = (v, a[:, i, :, j, :])
    return out


def compare_fc(got, F, total, what):
    """`total`: expected (n_cells, 3n, 3n), hartree/bohr^2, in the model's
    order of atoms"""
    m = F.m
    crystal = got.crystal
    near(crystal.cell_vectors.to('angstrom').magnitude, F.cell,
         f'{what}: cell vectors', rtol=1e-7, atol=1e-9)
    check(list(crystal.atom_type) == list(F.types), lambda:
          f'{what}: species {crystal.atom_type}, expected {F.types}')
    near(crystal.atom_mass.to('amu').magnitude, F.mass, f'{what}: masses',
         rtol=1e-7)
    r = np.asarray(crystal.atom_r)
    d = r - m.atom_r[F.prim]
    near(d - np.rint(d), 0 * d, f'{what}: positions modulo lattice vectors',
         atol=1e-9)
    S = np.asarray(got.sc_matrix)
    N = len(m.origins)
    check(got.n_cells_in_sc == N and len(got.cell_origins) == N,
          lambda: f'{what}: {got.n_cells_in_sc} cells in the supercell, '
          f'{N} expected')
    # the same supercell lattice
    T = S @ np.linalg.inv(m.sc_matrix)
    check(np.allclose(T, np.rint(T), atol=1e-6)
          and abs(abs(np.linalg.det(T)) - 1) < 1e-6, lambda:
          f'{what}: supercell {S.tolist()} spans another lattice than '
          f'{m.sc_matrix.tolist()}')
    g = by_vector(got.force_constants.to('hartree/bohr**2').magnitude, r,
                  np.asarray(got.cell_origins), m.sc_matrix, None)
    e = by_vector(total, m.atom_r, m.origins, m.sc_matrix, None)
    scale = max(np.abs(total).max(), 1e-3)
    for a, i in enumerate(F.prim):
        for b, j in enumerate(F.prim):
            gv, gf = g[a, b]
            ev, ef = e[i, j]
            d = gv[:, None] - ev[None]
            d = np.abs(d - np.rint(d)).max(-1)
            k = d.argmin(1)
            check(np.all(d.min(1) < 1e-6) and len(set(k)) == N, lambda:
                  f'{what}: atoms {i}, {j}: the vectors between the atoms '
                  f'are not those of the supercell')
            near(gf, ef[k], f'{what}: force constants of atoms {i}, {j}',
                 rtol=1e-6, atol=TIGHT * scale)


def run_fc(c, t):
    import euphonic as E
    m = gen.fc_model(c['fc'])
    N, n = len(m.origins), m.n_atoms
    if not c['first']:
        t.tag('representatives are not the first')
    F = pw.model(m, c['unit'], c['order'], c['rep'], c['noise'], c['first'])
    units = c['units'] if c['physical_unit'] else 'vasp'
    polar = m.born is not None
    factor = pw.nac_factor(units) * c['factor'] if polar else None
    born = c['born']
    kw, skw = {}, {}
    in_yaml = polar and born in ('yaml_new', 'yaml_old', 'both')
    if in_yaml:
        skw = dict(born=True, factor=factor)
    elif polar and born == 'file':
        skw = dict(born=False, factor=factor, style='old')
    style = skw.pop('style', 'new' if born == 'yaml_new' else 'old' if born
                    == 'yaml_old' else c['style'])
    with Scratch() as d, quiet():
        name = 'phonopy.yaml'
        if c['qseed'] % 3 == 0:
            name = kw['summary_name'] = 'sum.yaml'
        (d / name).write_text(pw.summary(
            F, units, c['kind'] if c['where'] == 'yaml' else None,
            style=style, physical_unit=c['physical_unit'], **skw))
        if c['where'] in ('text', 'single'):
            p = 'FORCE_CONSTANTS'
            if c['qseed'] % 2:
                p = kw['fc_name'] = 'MY_FC'
            (d / p).write_text(pw.force_constants_text(
                F, units, c['kind'], c['where'] == 'single'))
        elif c['where'] in ('hdf5', 'h5', 'format'):
            p = kw['fc_name'] = {'hdf5': 'force_constants.hdf5',
                                 'h5': 'fc.h5',
                                 'format': 'fc.dat'}[c['where']]
            if c['where'] == 'format':
                kw['fc_format'] = 'hdf5'
            pw.force_constants_hdf5(str(d / p), F, units, c['kind'],
                                    c['qseed'] % 2)
        if polar and born == 'both':
            # not to be read: phonopy.yaml has everything
            kw['born_name'] = 'BORN'
            F2 = pw.model(m, c['unit'], c['order'], c['rep'], c['noise'],
                          c['first'])
            F2.born, F2.eps = F.born * 1.3, F.eps * 1.7
            (d / 'BORN').write_text(pw.born_file(F2, factor * 2))
        if polar and in_yaml and c['qseed'] % 4 == 0:
            # units of the dielectric constant unknown
            (d / 'nofactor.yaml').write_text(pw.summary(
                F, units, 'compact', style=style, born=True))
            raises(KeyError, lambda: E.ForceConstants.from_phonopy(
                summary_name='nofactor.yaml'), 'Born charges without factor')
        if polar and born in ('file', 'file_factor'):
            kw['born_name'] = ['BORN', 'my.born'][c['qseed'] % 2]
            (d / kw['born_name']).write_text(pw.born_file(
                F, factor if born == 'file_factor' else None, c['comment']))
        if c['qseed'] % 5 == 0:
            os.makedirs('away')
            os.chdir('away')
            kw['path'] = '..'
        elif c['qseed'] % 5 == 1:
            os.chdir('/')
            kw['path'] = str(d)
        got = E.ForceConstants.from_phonopy(**kw)
        t.hit(N > 1 and (c['order'] is not None or c['unit'] == 'supercell'
                         or c['kind'] == 'full' or np.count_nonzero(
                             m.sc_matrix) > 3))
        t.tag(c['where'], c['kind'], units)
        if not np.allclose(m.sc_matrix, m.sc_matrix.T):
            t.tag('unsymmetric supercell matrix')
        what = f'{c["where"]}/{c["kind"]}'
        total = m.fc
        if polar:
            t.tag('born: ' + born)
            near(got.born.to('e').magnitude, F.born, f'{what}: Born charges',
                 rtol=1e-7, atol=1e-9)
            near(got.dielectric.to('e**2/(bohr*hartree)').magnitude,
                 F.eps / c['factor'], f'{what}: dielectric', rtol=1e-6,
                 atol=1e-8)
            # short-ranged part of the same total force constants
            m2 = gen.fc_model(c['fc'])
            m2.eps = m.eps / c['factor']
            ref = gen.make_fc(m2)
            sr = E.ForceConstants.from_total_fc_with_dipole(
                ref.crystal, ref.force_constants, ref.sc_matrix,
                ref.cell_origins, born=ref.born, dielectric=ref.dielectric)
            total = sr.force_constants.to('hartree/bohr**2').magnitude
        else:
            check(got.born is None and got.dielectric is None,
                  f'{what}: Born charges invented')
        compare_fc(got, F, total, what)
        if not polar:
            # the Phonopy dynamical matrix at q-points commensurate with
            # the supercell
            phonons(got, F, t, what)


def phonons(got, F, t, what):
    m = F.m
    N, n = len(m.origins), m.n_atoms
    G = np.linalg.inv(m.sc_matrix)      # columns: q commensurate
    k, _ = gen.cosets(m.sc_matrix.T)
    qs = (k @ G.T)[:4]
    qs = qs + np.random.default_rng(n).integers(-1, 2, qs.shape)
    modes = got.calculate_qpoint_phonon_modes(qs, n_threads=1,
                                              use_c=len(qs) % 2 == 0)
    mass = F.mass * gen.AMU_ME
    rs = F.sc_r @ m.sc_matrix
    s2 = max(np.abs(F.full).max() / mass.min() * gen.HARTREE_MEV**2, 1e-3)
    for a, q in enumerate(qs):
        D = np.zeros((n, 3, n, 3), complex)
        for i in range(n):
            for b in range(len(rs)):
                j = F.p2s.index(F.s2p[b])
                D[i, :, j] += F.full[F.p2s[i], b] * np.exp(
                    2j * np.pi * q @ (rs[b] - rs[F.p2s[i]])) \
                    / np.sqrt(mass[i] * mass[j])
        D = D.reshape(3 * n, 3 * n)
        D = (D + D.conj().T) / 2
        w2 = np.linalg.eigvalsh(D)
        f = np.sign(w2) * np.sqrt(np.abs(w2)) * gen.HARTREE_MEV
        g = modes.frequencies.to('meV').magnitude[a]
        near(np.sign(g) * g**2, np.sign(f) * f**2, f'{what}: squared '
             f'frequencies at commensurate q {q.tolist()}', rtol=1e-6,
             atol=1e-7 * s2)
        # eigenvectors: e_i(Phonopy) = exp(-iq.r_i) e_i
        r = np.asarray(got.crystal.atom_r)
        e = modes.eigenvectors[a] * np.exp(
            -2j * np.pi * (r @ q))[None, :, None]
        e = e.reshape(3 * n, 3 * n)
        back = np.einsum('ba,b,bc->ac', e, np.sign(g) * g**2, e.conj())
        near(back, D * gen.HARTREE_MEV**2, f'{what}: dynamical matrix from '
             f'the modes at commensurate q {q.tolist()}',
             atol=1e-6 * s2)


# ------------------------------------------------------------------- modes

@st.composite
def mode_cases(draw):
    return dict(
        crystal=draw(st.one_of(*[gen.crystals(1, 3)] * 9,
                               gen.crystals(4, 12))),
        nq=draw(st.one_of(*[st.integers(1, 6)] * 9,
                          st.sampled_from([40, 130]))),
        seed=draw(small_seed), kind=draw(st.sampled_from(
            ['mesh', 'band', 'qpoints'])),
        noise=draw(st.booleans()),
        fmt=draw(st.sampled_from(['yaml', 'hdf5', 'yml', 'h5', 'yaml_as',
                                  'hdf5_as'])),
        segments=draw(st.integers(1, 3)), evec=draw(st.sampled_from(
            [True, True, False])),
        units=draw(st.sampled_from(sorted(pw.UNITS))),
        order=draw(st.one_of(st.none(), small_seed)))


def known_transposition(c, got, P, e_eu):
    """mesh/qpoints.hdf5: Euphonic reads rows of the arrays where Phonopy
    stores columns"""
    nq, n = len(P.qpts), len(P.r)
    tr = P.evec.reshape(nq, 3 * n, 3 * n).transpose(0, 2, 1).reshape(
        P.evec.shape)
    return same_modes(got, tr * np.exp(2j * np.pi * np.einsum(
        'qx,ax->qa', P.qpts, P.r))[:, None, :, None])


def same_modes(a, b):
    """equal up to a phase for every mode"""
    nq, nb = a.shape[:2]
    a, b = a.reshape(nq, nb, -1), b.reshape(nq, nb, -1)
    ov = np.einsum('qba,qba->qb', a.conj(), b)
    n = np.sqrt((np.abs(a)**2).sum(-1) * (np.abs(b)**2).sum(-1))
    ph = ov / np.where(np.abs(ov) > 0, np.abs(ov), 1)
    return np.all(np.abs(a * ph[..., None] - b) < 1e-6) and np.all(
        np.abs(np.abs(ov) - n) < 1e-6)


KEY = 'hdf5_mesh_qpoints_eigenvectors'


def run_modes(c, t):
    import euphonic as E
    m = gen.crystal_model(c['crystal'])
    n, nb = m.n_atoms, 3 * m.n_atoms
    rng = np.random.default_rng([c['seed'], 12])
    nq = c['nq']
    if c['kind'] == 'band' and c['fmt'].startswith('h'):
        nq = max(1, nq // c['segments']) * c['segments']
    P = pw.Modes()
    P.qpts = np.round(np.where(rng.uniform(size=(nq, 1)) < .2, 0,
                               rng.uniform(-1.5, 1.5, (nq, 3))), 10)
    P.weights = [int(x) for x in rng.integers(1, 20, nq)]
    P.freq = np.sort(rng.uniform(-2, 25, (nq, nb)), axis=1)
    e = np.array([np.linalg.qr(rng.normal(size=(nb, nb)) + 1j * rng.normal(
        size=(nb, nb)))[0] for _ in range(nq)])
    P.evec = e.reshape(nq, nb, n, 3)
    P.cell = m.cell_ang
    P.r = m.atom_r
    P.types, P.mass = m.atom_type, m.mass_amu
    yaml = c['fmt'].startswith('y')
    ext = {'yaml': '.yaml', 'hdf5': '.hdf5', 'yml': '.yml', 'h5': '.h5',
           'yaml_as': '.dat', 'hdf5_as': ''}[c['fmt']]
    name = c['kind'] + ext
    kw = dict(phonon_name=name)
    if c['fmt'].endswith('_as'):
        kw['phonon_format'] = c['fmt'][:-3]
    t.hit(np.any(P.qpts != 0))
    t.tag(c['kind'] + '/' + c['fmt'][:4])
    with Scratch() as d, quiet():
        if yaml:
            (d / name).write_text(pw.modes_yaml(P, c['kind'], c['evec']))
        else:
            pw.modes_hdf5(str(d / name), P, c['kind'], c['evec'],
                          c['segments'] if nq % c['segments'] == 0 else 1)
        if not yaml or c['kind'] == 'qpoints':
            # structure from phonopy.yaml
            m.sc_matrix = np.eye(3, dtype=int)
            m.origins, m.index = gen.cosets(m.sc_matrix)
            m.fc = np.zeros((1, nb, nb))
            m.born = m.eps = None
            F = pw.model(m, 'primitive', None)
            (d / 'phonopy.yaml').write_text(pw.summary(F, c['units']))
            P.r = F.prim_r
        else:
            kw['summary_name'] = 'absent.yaml'
        classes = [E.QpointFrequencies]
        if c['evec']:
            classes.append(E.QpointPhononModes)
        else:
            raises(RuntimeError, lambda: E.QpointPhononModes.from_phonopy(
                **kw), 'file without eigenvectors')
        for cls in classes:
            o = cls.from_phonopy(**kw)
            what = f'{cls.__name__} from {name}'
            check(type(o) is cls, what)
            near(o.crystal.cell_vectors.to('angstrom').magnitude, m.cell_ang,
                 f'{what}: cell', rtol=1e-7, atol=1e-9)
            near(o.crystal.atom_r, P.r, f'{what}: positions', atol=1e-12)
            check(list(o.crystal.atom_type) == list(m.atom_type),
                  f'{what}: species')
            near(o.crystal.atom_mass.to('amu').magnitude, m.mass_amu,
                 f'{what}: masses', rtol=1e-7)
            near(o.qpts, P.qpts, f'{what}: q-points', atol=1e-12)
            near(o.frequencies.to('meV').magnitude, P.freq * gen.THZ_MEV,
                 f'{what}: frequencies', rtol=1e-6, atol=1e-8)
            w = np.ones(nq) / nq
            if c['kind'] == 'mesh':
                w = np.array(P.weights) / np.sum(P.weights)
            near(o.weights, w, f'{what}: weights', rtol=1e-9)
            if cls is not E.QpointPhononModes:
                continue
            eu = P.evec * np.exp(2j * np.pi * np.einsum(
                'qx,ax->qa', P.qpts, P.r))[:, None, :, None]
            if same_modes(o.eigenvectors, eu):
                continue
            key = None
            if (not yaml and c['kind'] != 'band'
                    and known_transposition(c, o.eigenvectors, P, eu)):
                key = KEY
            raise Violation(f'{what}: eigenvectors differ from those in the '
                            f'file (phase converted)' + (
                                ': rows and columns exchanged' if key
                                else ''), key)


def known_hdf5():
    """-> message if the finding is there"""
    from harness.core import Tally
    c = dict(crystal=dict(lattice='cubic', a=4., ratio=[1., 1.], seed=1,
                          special=True, species=[0], iso=False, wrap='unit'),
             nq=1, seed=1, kind='mesh', noise=False, fmt='hdf5', segments=1,
             evec=True, units='vasp', order=None)
    try:
        run_modes(c, Tally())
    except Violation as v:
        if v.key == KEY:
            return str(v)
        raise
    return None


KNOWN = {KEY: known_hdf5}
@st.composite
def convert_cases(draw):
    return dict(fc=draw(gen.force_constants(
                    max_atoms=3, max_cells=draw(st.sampled_from([8, 36])))),
                seed=draw(small_seed), full=draw(st.booleans()),
                tol=draw(st.sampled_from([None, None, 1e-3, 1e-7])),
                noise=draw(st.sampled_from([0, 0, .5, 3.])),
                spread=draw(st.booleans()), det=draw(st.sampled_from(
                    [None, None, None, 'matrix', 'atoms'])))


def run_convert(c, t):
    """convert_fc_phases with arrays in any order"""
    from euphonic.util import convert_fc_phases
    m = gen.fc_model(c['fc'])
    rng = np.random.default_rng([c['seed'], 121])
    N, n, S = len(m.origins), m.n_atoms, np.asarray(m.sc_matrix)
    total = np.asarray(m.fc).reshape(N, n, 3, n, 3)
    # atoms of the supercell: (atom, cell), any image, any order
    atom, cell = [x.ravel() for x in np.meshgrid(np.arange(n), np.arange(N))]
    p = rng.permutation(n * N)
    # an atom 0 in cell 0 first, as convert_fc_phases' callers have
    atom, cell = atom[p], cell[p]
    R = np.asarray(m.origins)[cell].astype(float)
    if c['spread']:
        R = R + rng.integers(*rng.choice([(0, 2), (-3, 4)]), (n * N, 3)) @ S
    pos = m.atom_r[atom] + R
    tol = 1e-5 if c['tol'] is None else c['tol']
    off = np.zeros(pos.shape)
    off[rng.integers(n * N), rng.integers(3)] = c['noise'] * tol
    first0 = np.where(atom == 0)[0][0]
    rep = np.array([first0] + [rng.choice(np.where(atom == i)[0])
                               for i in range(1, n)])
    # force constants between atoms of the supercell: index of the cell
    # difference
    inv = np.linalg.inv(S)

    def key(v):
        x = np.asarray(v) @ inv
        return tuple(np.rint((x - np.floor(x + 1e-6)) * 1e4).astype(int))
    where = {key(o): k for k, o in enumerate(np.asarray(m.origins))}
    # with one cell the two shapes are the same: read as full
    rows = np.arange(n * N) if c['full'] or N == 1 else rep
    F = np.zeros((len(rows), n * N, 3, 3))
    for a, s in enumerate(rows):
        for b in range(n * N):
            k = where[key(np.rint(R[b] - R[s]))]
            F[a, b] = total[k, atom[s], :, atom[b], :]
    kw = {} if c['tol'] is None else dict(cell_origins_tol=c['tol'])
    f0 = F.copy()
    args = [F, m.atom_r.copy(), pos + off, rep, atom, S.copy()]
    t.tag('full' if c['full'] else 'compact', f'noise {c["noise"]} tol',
          c['det'] or 'consistent')
    t.hit(N > 1)
    if c['det'] == 'matrix':
        args[5] = S * [[2], [1], [1]]
        raises(ValueError, lambda: convert_fc_phases(*args, **kw),
               'supercell matrix of another size')
        return
    if c['det'] == 'atoms':
        args[4] = args[4][:-1]
        args[2] = args[2][:-1]
        if n * N > 1:
            raises(ValueError, lambda: convert_fc_phases(*args, **kw),
                   'missing atom')
        return
    if c['noise'] > 1:
        raises(RuntimeError, lambda: convert_fc_phases(*args, **kw),
               'atom off its place')
        return
    got, origins = convert_fc_phases(*args, **kw)
    check(np.array_equal(F, f0), 'force constants modified')
    check(got.shape == (N, 3 * n, 3 * n) and origins.shape == (N, 3)
          and np.issubdtype(origins.dtype, np.integer), 'shapes')
    check(not np.any(origins[0]), f'first origin {origins[0]}')
    seen = [where[key(o)] for o in origins]
    check(sorted(seen) == list(range(N)), f'origins {origins.tolist()} do '
          'not represent every cell once')
    # any image of an atom: the vector class decides, not the image
    near(got.reshape(N, n, 3, n, 3), total[seen], 'force constants', rtol=1e-12)


SUBS = [Sub('convert', convert_cases(), run_convert, 300, 5000),
        Sub('fc', cases(), run_fc, 1500, 30000),
        Sub('modes', mode_cases(), run_modes, 700, 15000)]
