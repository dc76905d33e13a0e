"""P26 Crystal geometry and symmetry queries are correct for any cell"""
import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import gen, ref
from harness.core import Skip, Sub, check, close, raises
from harness.gen import nice_float, small_seed

RULE = ('geometry: a drawn cell (all lattice families, left-handed, skewed, '
        'rotated, 0-6 atoms, any length unit) and spacing in any unit: '
        'duality, volume, recommended grid, species, spglib cell.  symmetry: '
        'structures of special positions in high-symmetry and supercell '
        'lattices, tolerance in any unit, optional noise below it: '
        'operations compared with a brute-force search of the space group. '
        'mp_grid: grids up to 12x12x12.  Non-trivial: more than one '
        'operation / a non-orthogonal cell / more than one point.')
TECHNIQUE = ('property-based testing: defining relations and brute-force '
             'symmetry search')
ASSUMPTIONS = ['structures whose symmetry changes between tolerances 1/10 '
               'and 10 times the one used are skipped',
               'a grid spacing within 1e-9 of an integer ratio may round '
               'either way']


@st.composite
def geo_cases(draw):
    return dict(
        crystal=draw(gen.crystals(1, 6)), empty=draw(st.integers(0, 7)) == 0,
        unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
        seed=draw(small_seed), skew=draw(st.integers(0, 3)) == 0,
        scale=draw(st.sampled_from([1.0, 1.0, 0.2, 7.0, 40.0])),
        spacing=draw(st.sampled_from([None, 0.1, 0.025, 0.5, 3.0, 'exact',
                                      0.0371])),
        s_unit=draw(st.sampled_from(['1/angstrom', '1/bohr', '1/nm'])))


def run_geo(c, t):
    import euphonic as E
    m = gen.crystal_model(c['crystal'])
    rng = np.random.default_rng([c['seed'], 91])
    cell = m.cell_ang * c['scale']
    if c['skew']:
        cell = np.array([[1, 0, 0], [2, 1, 0], [-1, 3, 1]]) @ cell
    u = E.ureg(c['unit'])
    cv = cell / gen.LUNIT[c['unit']] * u
    if c['empty']:
        cr = E.Crystal.from_cell_vectors(cv)
        check(cr.n_atoms == 0 and cr.atom_r.shape == (0, 3),
              'crystal from cell vectors is not empty')
    else:
        cr = E.Crystal(cv, m.atom_r, m.atom_type,
                       m.mass_amu * E.ureg('amu'))
    before = snapshot(cr)
    t.tag(c['unit'], c['crystal']['lattice'], 'skewed' if c['skew'] else
          'plain', 'empty' if c['empty'] else 'atoms')
    t.hit(np.abs(cell - np.diag(np.diag(cell))).max() > 1e-9)
    b = cr.reciprocal_cell()
    check(b.check('1/[length]') and b.shape == (3, 3), 'reciprocal cell')
    B = b.to('1/angstrom').magnitude
    L = np.linalg.norm(cell, axis=1)
    close(cell @ B.T / (2 * np.pi), np.eye(3), 0,
          1e-10 * np.outer(L, np.linalg.norm(B, axis=1)).max(),
          'a_i . b_j / 2 pi')
    vol = abs(np.linalg.det(cell))
    v = cr.cell_volume()
    close(v.to('angstrom**3').magnitude, vol, 1e-9, 1e-12 * L.prod(),
          'cell volume')
    check(v.check('[length]**3'), f'dimension of volume {v.units}')
    # recommended grid
    su = {'1/angstrom': 1.0, '1/bohr': 1 / gen.BOHR_ANG,
          '1/nm': 0.1}[c['s_unit']]
    bl = np.linalg.norm(B, axis=1)
    kw = {}
    sp = 0.1
    if c['spacing'] is not None:
        sp = c['spacing']
        if sp == 'exact':
            sp = bl[rng.integers(3)] / rng.integers(1, 9)
        kw['spacing'] = E.Quantity(sp / su, c['s_unit'])
    grid = cr.get_mp_grid_spec(**kw)
    check(len(grid) == 3 and all(isinstance(x, (int, np.integer))
                                 for x in grid), f'grid {grid}')
    for n, x in zip(grid, bl):
        check(n >= 1 and x / n <= sp * (1 + 1e-9), f'{n} divisions of {x} '
              f'1/angstrom leave a spacing above {sp}')
        check(n == 1 or x / (n - 1) > sp * (1 - 1e-9), f'{n} divisions of '
              f'{x} 1/angstrom are more than needed for {sp}')
    # species
    idx = cr.get_species_idx()
    if c['empty']:
        check(len(idx) == 0, f'species of an empty crystal {idx}')
    else:
        kinds = list(dict.fromkeys(m.atom_type.tolist()))
        check(list(idx) == kinds, f'species {list(idx)}, expected {kinds}')
        for k in kinds:
            check(np.asarray(idx[k]).tolist() == [
                i for i, x in enumerate(m.atom_type) if x == k],
                f'indices of {k}: {idx[k]}')
        lat, pos, num = cr.to_spglib_cell()
        close(np.array(lat), cell, 1e-9, 1e-12 * L.max(),
              'spglib cell (angstrom)')
        close(np.array(pos), m.atom_r, 1e-12, 0, 'spglib positions')
        eq = np.equal.outer(np.array(num), np.array(num))
        check(np.array_equal(eq, np.equal.outer(m.atom_type, m.atom_type)),
              f'spglib numbers {num} for {m.atom_type}')
    same(before, snapshot(cr), 'crystal')


@st.composite
def sym_cases(draw):
    c = dict(crystal=draw(gen.crystals(1, 4, special=True, lattices=(
        'cubic', 'cubic', 'fcc', 'bcc', 'tetra', 'hex', 'ortho', 'mono',
        'tri', 'lefthanded'))),
        basis=draw(st.sampled_from(['cell', 'cell', 'cell', 'sheared',
                                    'doubled', 'rotated'])),
        unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
        tol=draw(st.sampled_from([None, 1e-5, 1e-4, 1e-3, 1e-2])),
        tol_unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
        noise=draw(st.booleans()), shift=draw(st.booleans()),
        same=draw(st.booleans()), seed=draw(small_seed))
    return c


def run_sym(c, t):
    import euphonic as E
    m = gen.crystal_model(c['crystal'])
    rng = np.random.default_rng([c['seed'], 92])
    cell, r, kind = m.cell_ang, m.atom_r, m.atom_type
    if c['same']:
        kind = np.array([kind[0]] * len(kind))
    if c['basis'] == 'sheared':
        S = np.array([[1, 0, 0], [1, 1, 0], [0, -1, 1]])
        cell, r = S @ cell, r @ np.linalg.inv(S)
    elif c['basis'] == 'doubled':
        ax = rng.integers(3)
        cell = cell.copy()
        cell[ax] *= 2
        r = r.copy()
        r[:, ax] /= 2
        e = np.zeros(3)
        e[ax] = .5
        r = np.concatenate((r, r + e))
        kind = np.concatenate((kind, kind))
        p = rng.permutation(len(r))
        r, kind = r[p], kind[p]
    elif c['basis'] == 'rotated':
        cell = cell @ np.linalg.qr(rng.normal(size=(3, 3)))[0]
    if c['shift']:
        r = r + rng.uniform(-1, 1, 3)
    tol = c['tol'] or 1e-5
    kw = {}
    if c['tol'] is not None:
        kw['tol'] = E.Quantity(tol / gen.LUNIT[c['tol_unit']], c['tol_unit'])
    ops = ref.symmetry_ops(cell, r, kind, tol / 10)
    if c['noise'] and tol >= 1e-4:
        d = rng.normal(size=r.shape)
        d = d / np.linalg.norm(d, axis=1)[:, None] * 0.01 * tol
        r = r + d @ np.linalg.inv(cell)
    if len(ref.symmetry_ops(cell, r, kind, tol * 10)) != len(ops) or \
            gen._min_dist(r, cell) < 30 * tol:
        raise Skip('near-symmetry')
    cr = E.Crystal(cell / gen.LUNIT[c['unit']] * E.ureg(c['unit']), r, kind,
                   np.full(len(r), 12.) * E.ureg('amu'))
    before = snapshot(cr)
    rot, tr, eq = cr.get_symmetry_equivalent_atoms(**kw)
    same(before, snapshot(cr), 'crystal')
    n = len(r)
    t.tag(f'{len(ops)} operations', c['basis'], c['unit'],
          'noise' if c['noise'] and tol >= 1e-4 else 'exact')
    t.hit(len(ops) > 1)
    check(len(rot) == len(tr) == len(eq) == len(ops),
          f'{len(rot)}/{len(tr)}/{len(eq)} operations found, the space '
          f'group has {len(ops)}')
    check(rot.shape == (len(ops), 3, 3) and tr.shape == (len(ops), 3)
          and eq.shape == (len(ops), n), 'shapes')
    check(np.issubdtype(np.asarray(rot).dtype, np.integer)
          and np.issubdtype(np.asarray(eq).dtype, np.integer), 'dtypes')
    used = np.zeros(len(ops), bool)
    for W, w, p in zip(rot, tr, eq):
        check(sorted(p.tolist()) == list(range(n)),
              f'equivalent atoms {p} are not a permutation')
        check(np.array_equal(kind[p], kind), f'{p} mixes species')
        d = r @ W.T + w - r[p]
        d = (d - np.rint(d)) @ cell
        check(np.linalg.norm(d, axis=1).max() < tol * 1.001,
              lambda: f'atoms are {np.linalg.norm(d, axis=1)} angstrom from '
              f'their image under {W.tolist()} {w}')
        # one of the operations found by brute force
        k = [i for i, (V, v, q) in enumerate(ops) if not used[i]
             and np.array_equal(V, W) and np.array_equal(q, p)
             and np.abs((v - w) - np.rint(v - w)).max() < 1e-2]
        check(k, lambda: f'operation {W.tolist()} {w} {p} is not in the '
              'group (or twice)')
        used[k[0]] = True
        g = cell @ cell.T
        close(W.T @ g @ W, g, 0, 1e-4 * np.abs(g).max(),
              'rotation is not orthogonal')


@st.composite
def near_cases(draw):
    return dict(crystal=draw(gen.crystals(1, 3, special=True, lattices=(
        'cubic', 'fcc', 'bcc', 'tetra', 'hex', 'ortho'))),
        unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
        tol=draw(st.sampled_from([1e-3, 1e-2, 0.05, 0.1])),
        tol_unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
        off=draw(st.floats(0.1, 0.95)), all=draw(st.booleans()),
        axis=draw(st.sampled_from(['any', 'x', 'z'])),
        seed=draw(small_seed))


def run_near(c, t):
    """atoms that are equivalent within the tolerance only"""
    import spglib
    import euphonic as E
    m = gen.crystal_model(c['crystal'])
    rng = np.random.default_rng([c['seed'], 93])
    cell, tol = m.cell_ang, c['tol']
    # doubled along an axis: at least two atoms of each kind
    ax = rng.integers(3)
    cell = cell.copy()
    cell[ax] *= 2
    r = np.concatenate((m.atom_r, m.atom_r))
    r[:, ax] /= 2
    r[len(m.atom_r):, ax] += .5
    kind = np.concatenate((m.atom_type, m.atom_type))
    n = len(r)
    d = rng.normal(size=(n, 3))
    if c['axis'] == 'x':
        d = np.repeat([[1., 0, 0]], n, 0)
    elif c['axis'] == 'z':
        d = np.repeat([[0., 0, 1.]], n, 0)
    d *= c['off'] * tol / np.linalg.norm(d, axis=1)[:, None]
    if not c['all']:
        d[1:] = 0
    else:
        d *= np.where(rng.random(n) < .5, .5, -.5)[:, None]
    r = r + d @ np.linalg.inv(cell)
    cr = E.Crystal(cell / gen.LUNIT[c['unit']] * E.ureg(c['unit']), r, kind,
                   np.full(n, 12.) * E.ureg('amu'))
    num = [sorted(set(kind.tolist())).index(k) + 1 for k in kind]
    ops = spglib.get_symmetry((cell, r, num), symprec=tol)
    if ops is None:
        raise Skip('no symmetry found')
    # spglib's own answer must not hang on the last digits of its input
    for k in (.97, .99, 1 - 1e-9, 1 + 1e-9, 1.01, 1.03):
        o = spglib.get_symmetry(
            (cell * (1 + 1e-13 * rng.normal(size=(3, 3))),
             r + 1e-14 * rng.normal(size=r.shape), num), symprec=k * tol)
        if o is None or not np.array_equal(o['rotations'], ops['rotations']) \
                or np.abs((x := o['translations'] - ops['translations'])
                          - np.rint(x)).max() > 1e-6:
            raise Skip('symmetry found is unstable')
    W, w = ops['rotations'], ops['translations']
    x = np.einsum('sij,aj->sai', W, r) + w[:, None]
    x = x[:, :, None] - r
    x = np.linalg.norm((x - np.rint(x)) @ cell, axis=-1)
    x[:, kind[:, None] != kind] = np.inf
    # decided: one atom clearly within the tolerance, the others clearly not
    if not ((x < .99 * tol).sum(-1) == 1).all() or \
            not ((x < 1.01 * tol).sum(-1) == 1).all():
        raise Skip('undecided')
    worst = x.min(-1).max() / tol
    rot, tr, eq = cr.get_symmetry_equivalent_atoms(
        tol=E.Quantity(tol / gen.LUNIT[c['tol_unit']], c['tol_unit']))
    t.tag('far' if worst > .55 else 'near', c['tol_unit'])
    t.hit(worst > .1 and len(W) > 1)
    check(len(rot) == len(W), f'{len(rot)} operations, spglib finds {len(W)}'
          f' within {tol} angstrom')
    seen = set()
    for V, v, p in zip(rot, tr, eq):
        k = [i for i in range(len(W)) if np.array_equal(W[i], V)
             and np.abs((w[i] - v) - np.rint(w[i] - v)).max() < 1e-6]
        check(len(k) == 1 and k[0] not in seen,
              f'operation {V.tolist()} {v} is not one of spglib')
        seen.add(k[0])
        check(np.array_equal(p, x[k[0]].argmin(-1)),
              f'equivalent atoms {p}, expected {x[k[0]].argmin(-1)}')


@st.composite
def grid_cases(draw):
    return dict(grid=draw(st.lists(st.integers(1, 12), min_size=3,
                                   max_size=3)))


def run_grid(c, t):
    import itertools

    from euphonic.util import mp_grid
    g = c['grid']
    q = mp_grid(tuple(g))
    t.hit(np.prod(g) > 1)
    check(q.shape == (np.prod(g), 3), f'shape {q.shape} for {g}')
    exp = np.array(list(itertools.product(
        *[[(2 * r - n - 1) / (2 * n) for r in range(1, n + 1)] for n in g])))
    key = sorted(map(tuple, np.rint(q * 5040 * 11 * 2).astype(int)))
    ekey = sorted(map(tuple, np.rint(exp * 5040 * 11 * 2).astype(int)))
    check(key == ekey, f'points of the {g} grid')
    check(len(set(key)) == np.prod(g), 'repeated points')
    close(np.sort(q, 0), np.sort(-q, 0), 0, 1e-12, 'symmetric about gamma')
    close(np.sort(q, 0), np.sort(exp, 0), 0, 1e-12, 'points')
    close(mp_grid(list(g)), q, 0, 0, 'list of divisions')


SUBS = [Sub('geometry', geo_cases(), run_geo, 1500, 30000),
        Sub('symmetry', sym_cases(), run_sym, 500, 10000),
        Sub('near', near_cases(), run_near, 300, 8000),
        Sub('mp_grid', grid_cases(), run_grid, 300, 3000)]
