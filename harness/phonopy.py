"""Writers of Phonopy-format files from a gen.fc_model, independent of
euphonic.  Conventions are the ones of the Phonopy manual: lattice vectors
are rows in the files, (a_s b_s c_s) = (a_u b_u c_u) M_s and
(a_p b_p c_p) = (a_u b_u c_u) M_p with column vectors, force constants are
indexed by supercell atoms, eigenvectors have the phase exp(iq.(r_j - r_i)) and are the columns of the
arrays in hdf5 files"""
import itertools

import numpy as np

from harness import gen

EV = gen.HARTREE_MEV / 1000
BOHR = gen.BOHR_ANG
# (length name, length in angstrom, force constants name, in hartree/bohr^2)
UNITS = {
    'vasp': ('angstrom', 1., 'eV/angstrom^2', 1 / EV * BOHR**2),
    'old': ('Angstrom', 1., 'eV/Angstrom^2', 1 / EV * BOHR**2),
    'abinit': ('au', BOHR, 'eV/angstrom.au', 1 / EV * BOHR),
    'abinit_old': ('au', BOHR, 'eV/Angstrom.au', 1 / EV * BOHR),
    'qe': ('au', BOHR, 'Ry/au^2', .5),
    'wien2k': ('au', BOHR, 'mRy/au^2', .0005),
    'elk': ('au', BOHR, 'hartree/au^2', 1.),
    'cp2k': ('angstrom', 1., 'hartree/angstrom.au', BOHR),
}


class Files:
    """Everything about one supercell calculation in Phonopy's order"""


def model(m, unit_cell, order, rep_seed=0, noise=0., first=True):
    """`unit_cell`: 'primitive' or 'supercell' (the conventional unit cell
    of which the supercell is a multiple); `order`: None (atoms of the unit
    cell one after the other) or a seed; `first`: primitive atoms are
    represented by their first occurrence in the supercell"""
    F = Files()
    F.m = m
    S = m.sc_matrix
    N, n = len(m.origins), m.n_atoms
    F.cell = m.cell_ang
    F.scell = S @ m.cell_ang
    if unit_cell == 'supercell':
        U = S
    else:
        U = np.eye(3, dtype=int)
    K = np.rint(S @ np.linalg.inv(U)).astype(int)
    F.ucell = U @ m.cell_ang
    F.supercell_matrix = K.T
    F.primitive_matrix = np.linalg.inv(U).T
    at = [(i, k) for i in range(n) for k in range(N)]
    if order is not None:
        rng = np.random.default_rng([order, 4])
        at = [at[i] for i in rng.permutation(len(at))]
    F.sc_atoms = at
    # representatives of the primitive atoms
    reps = {}
    rng = np.random.default_rng([rep_seed, 9])
    for i in range(n):
        occ = [a for a, (j, _) in enumerate(at) if j == i]
        reps[i] = occ[0] if first else occ[rng.integers(len(occ))]
    # the first primitive atom is always represented by its first occurrence
    # (Euphonic lists cell (0, 0, 0) first)
    i0 = min(reps, key=reps.get)
    reps[i0] = [a for a, (j, _) in enumerate(at) if j == i0][0]
    F.prim = sorted(range(n), key=lambda i: reps[i])    # model atom indices
    F.p2s = [reps[i] for i in F.prim]
    F.s2p = [reps[i] for i, _ in at]
    noise_rng = np.random.default_rng([rep_seed, 10])

    def wrap(x):
        x = np.array(x)
        x = x - np.floor(x + 1e-9)
        return x + noise * noise_rng.integers(-1, 2, x.shape)
    inv = np.linalg.inv(S)
    F.sc_r = wrap([(m.origins[k] + m.atom_r[i]) @ inv for i, k in at])
    F.prim_r = wrap(m.atom_r[F.prim])
    F.types = m.atom_type[F.prim]
    F.mass = m.mass_amu[F.prim]
    F.born = None if m.born is None else m.born[F.prim]
    F.eps = m.eps
    # full force constants in supercell order, hartree/bohr^2
    fc = m.fc.reshape(N, n, 3, n, 3)
    M = len(at)
    rel = np.array([[m.index(m.origins[b] - m.origins[a]) for b in range(N)]
                    for a in range(N)])
    F.full = np.zeros((M, M, 3, 3))
    for a, (i, k) in enumerate(at):
        for b, (j, l) in enumerate(at):
            F.full[a, b] = fc[rel[k, l], i, :, j, :]
    return F


def vec(v, w=22, p=15):
    return '[ ' + ', '.join(f'{x:{w}.{p}f}' for x in v) + ' ]'


def crystal(name, cell, r, types, mass, reduced=None):
    L = [f'{name}:', '  lattice:']
    L += [f'  - {vec(v)} # {x}' for v, x in zip(cell, 'abc')]
    L.append('  points:')
    for i in range(len(r)):
        L += [f'  - symbol: {types[i]} # {i + 1}',
              f'    coordinates: {vec(r[i], 18)}',
              f'    mass: {mass[i]:.10f}']
        if reduced is not None:
            L.append(f'    reduced_to: {reduced[i] + 1}')
    return L


def nac_factor(units):
    """hartree*bohr in (force constants unit)*(length unit)^3"""
    _, ul, _, uf = UNITS[units]
    return 1 / (uf * (ul / BOHR)**3)


def summary(F, units='vasp', fc=None, born=None, factor=None,
            physical_unit=True, style='new'):
    """`fc`: None/'full'/'compact'; `born`: bool; `style`: place of the
    non-analytical correction data"""
    name, ul, fname, uf = UNITS[units]
    L = ['phonopy:', '  version: ' + ('2.4.2' if style == 'old' else '2.19.0'),
         '  frequency_unit_conversion_factor: 15.633302',
         '  symmetry_tolerance: 1.00000e-05']
    if factor is not None and style == 'old':
        L.append(f'  nac_unit_conversion_factor: {factor:.12f}')
    L += ['  configuration:', '    dim: "x"', '']
    if physical_unit:
        L += ['physical_unit:', '  atomic_mass: "AMU"', f'  length: "{name}"',
              f'  force_constants: "{fname}"', '']
    if not np.allclose(F.primitive_matrix, np.eye(3)) or style == 'new':
        L.append('primitive_matrix:')
        L += ['- ' + vec(v) for v in F.primitive_matrix]
        L.append('')
    L.append('supercell_matrix:')
    L += ['- [ ' + ', '.join(f'{x:4d}' for x in v) + ' ]'
          for v in F.supercell_matrix]
    L.append('')
    L += crystal('primitive_cell', F.cell / ul, F.prim_r, F.types, F.mass)
    L.append('')
    m = F.m
    # unit cell: one copy of every supercell atom inside the unit cell
    U = np.rint(F.ucell @ np.linalg.inv(F.cell)).astype(int)
    uor, _ = gen.cosets(U)
    ur = np.array([(o + m.atom_r[i]) @ np.linalg.inv(U)
                   for i in F.prim for o in uor])
    ut = [m.atom_type[i] for i in F.prim for o in uor]
    um = [m.mass_amu[i] for i in F.prim for o in uor]
    L += crystal('unit_cell', F.ucell / ul, ur - np.floor(ur), ut, um,
                 [len(uor) * (k // len(uor)) for k in range(len(ur))])
    L.append('')
    L += crystal('supercell', F.scell / ul, F.sc_r,
                 [m.atom_type[i] for i, _ in F.sc_atoms],
                 [m.mass_amu[i] for i, _ in F.sc_atoms], F.s2p)
    L.append('')
    if born:
        b, ind = [], ''
        if style == 'new':
            b, ind = ['nac:'], '  '
        b.append(ind + 'born_effective_charge:')
        for i in range(len(F.born)):
            b.append(f'{ind}- # {i + 1} ({F.types[i]})')
            b += [f'{ind}  - ' + vec(v) for v in F.born[i]]
        b.append(ind + 'dielectric_constant:')
        b += [f'{ind}  - ' + vec(v) for v in F.eps]
        if style == 'new' and factor is not None:
            b.append(f'{ind}unit_conversion_factor: {factor:.12f}')
        L += b + ['']
    if fc:
        a = (F.full if fc == 'full' else F.full[F.p2s]) / uf
        L += ['force_constants:', f'  format: "{fc}"',
              f'  shape: [ {a.shape[0]}, {a.shape[1]} ]', '  elements:']
        for i, j in itertools.product(range(a.shape[0]), range(a.shape[1])):
            L.append(f'  - # ({i + 1}, {j + 1})')
            L += [f'    - {vec(v)}' for v in a[i, j]]
        L.append('')
    return '\n'.join(L)


def force_constants_text(F, units='vasp', fc='full', single=False):
    uf = UNITS[units][3]
    rows = list(range(len(F.sc_atoms))) if fc == 'full' else F.p2s
    a = F.full[rows] / uf
    L = [f'{a.shape[1]:4d}' if single and fc == 'full'
         else f'{a.shape[0]:4d} {a.shape[1]:4d}']
    for i, j in itertools.product(range(a.shape[0]), range(a.shape[1])):
        L.append(f'{rows[i] + 1} {j + 1}')
        L += [''.join(f'{x:22.15f}' for x in v) for v in a[i, j]]
    return '\n'.join(L) + '\n'


def force_constants_hdf5(path, F, units='vasp', fc='full', compress=True):
    import h5py
    a = (F.full if fc == 'full' else F.full[F.p2s]) / UNITS[units][3]
    with h5py.File(path, 'w') as h:
        h.create_dataset('force_constants', data=a, **(
            dict(compression='gzip') if compress else {}))
        h.create_dataset('p2s_map', data=np.array(F.p2s, dtype='int32'))


def born_file(F, factor=None, comment=True):
    L = []
    if comment:
        L.append('# epsilon and Z* of atoms')
    if factor is not None:
        L.append(f'{factor:.12f}')
    L += [' '.join(f'{x:.12f}' for x in a.ravel())
          for a in [F.eps] + list(F.born)]
    return '\n'.join(L) + '\n'


# ------------------------------------------------------------ phonon files

class Modes:
    """qpts, weights (ints), freq THz (nq, nb), evec (nq, nb, n, 3) in
    Phonopy phase, cell (angstrom), r, types, mass"""


def modes_yaml(P, kind, evec=True, structure=None):
    """kind: mesh/band/qpoints"""
    nq, n = len(P.qpts), len(P.r)
    L = []
    if kind == 'mesh':
        L += ['mesh: [     1,     1,     1 ]']
    L += [f'nqpoint: {nq:<7d}']
    if kind == 'band':
        L += ['npath: 1      ', 'segment_nqpoint:', f'- {nq}']
    L += ['reciprocal_lattice:']
    L += ['- ' + vec(v, 12, 8) for v in np.linalg.inv(P.cell).T]
    L += [f'natom: {n:<7d}']
    if (kind != 'qpoints') if structure is None else structure:
        L += ['lattice:']
        L += ['- ' + vec(v) for v in P.cell]
        L += ['points:']
        for i in range(n):
            L += [f'- symbol: {P.types[i]} # {i + 1}',
                  f'  coordinates: {vec(P.r[i], 18)}',
                  f'  mass: {P.mass[i]:.10f}']
    L += ['', 'phonon:']
    for k in range(nq):
        L.append('- q-position: ' + vec(P.qpts[k], 14, 10))
        if kind == 'band':
            L.append(f'  distance: {k * .1:12.7f}')
        if kind == 'mesh':
            L += [f'  distance_from_gamma: {k * .1:12.9f}',
                  f'  weight: {P.weights[k]:<5d}']
        L.append('  band:')
        for b in range(3 * n):
            L += [f'  - # {b + 1}', f'    frequency: {P.freq[k, b]:15.10f}']
            if evec:
                L.append('    eigenvector:')
                for i in range(n):
                    L.append(f'    - # atom {i + 1}')
                    L += [f'      - {vec([z.real, z.imag], 18, 14)}'
                          for z in P.evec[k, b, i]]
        L.append('')
    return '\n'.join(L) + '\n'


def modes_hdf5(path, P, kind, evec=True, segments=1):
    import h5py
    nq, n = len(P.qpts), len(P.r)
    e = P.evec.reshape(nq, 3 * n, 3 * n)
    with h5py.File(path, 'w') as h:
        if kind == 'band':
            k = nq // segments
            h['path'] = P.qpts.reshape(segments, k, 3)
            h['distance'] = np.zeros((segments, k))
            h['frequency'] = P.freq.reshape(segments, k, 3 * n)
            if evec:
                h['eigenvector'] = e.transpose(0, 2, 1).reshape(
                    segments, k, 3 * n, 3 * n)
        else:
            h['qpoint'] = P.qpts
            h['frequency'] = P.freq
            if evec:
                h['eigenvector'] = e.transpose(0, 2, 1)
            if kind == 'mesh':
                h['mesh'] = np.array([1, 1, 1], dtype='int32')
                h['weight'] = np.array(P.weights, dtype='int32')
