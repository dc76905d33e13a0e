"""P27 q-path utilities label, measure and break paths correctly"""
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import gen, ref
from harness.core import Skip, Sub, Violation, check, close
from harness.gen import nice_float, small_seed

RULE = ('path: drawn q-point paths (turns, reversals, repeats, jumps by '
        'lattice vectors, negative zero, noise) in drawn cells; abscissa '
        'against an accumulated Cartesian distance, label positions against '
        'the definitions, unchanged by lattice translations of the path and '
        'by units.  symbols: paths between special points, their rotated and '
        'translated images and general points, in primitive cells of all '
        'Bravais lattices; each symbol is checked to be that of an '
        'equivalent special point, by brute-force symmetry.  utilities: '
        'direction_changed, is_gamma and get_all_origins against their '
        'definitions.  Non-trivial: a path of three or more points / a '
        'special point on the path.')
TECHNIQUE = ('property-based testing: explicit definitions, brute-force '
             'symmetry, metamorphic relations')
ASSUMPTIONS = ['symbols and coordinates of special points come from the '
               'installed seekpath', 'points within a factor of 3 of a '
               'documented or built-in tolerance are not judged',
               'direction changes are judged with the documented absolute '
               'tolerance on the product of the steps']


@st.composite
def paths(draw, max_size=14):
    c = dict(
        crystal=draw(gen.crystals(1, 3)), q=draw(gen.qpaths(1, max_size)),
        seed=draw(small_seed),
        noise=draw(st.sampled_from(['no', 'no', 'tiny', 'negzero'])),
        jump=draw(st.booleans()), scale=draw(st.sampled_from([1., 1., .03, 3e-4])),
        unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
        shift=[draw(st.integers(-3, 3)) for _ in range(3)],
        empty=draw(st.integers(0, 5)) == 0)
    return c


def path_of(c):
    rng = np.random.default_rng([c['seed'], 94])
    q = np.array(c['q'], float)
    if c['scale'] != 1:
        q = q * c['scale']
    if c['jump'] and len(q) > 2:
        k = int(rng.integers(1, len(q)))
        q = np.concatenate((q[:k], q[k:] + rng.integers(-2, 3, 3)))
        if rng.uniform() < .5:
            # the same point in another cell
            q = np.insert(q, k, q[k - 1] + rng.integers(-1, 2, 3), axis=0)
    if c['noise'] == 'tiny':
        q = q + rng.choice([-1e-17, 0, 1e-17], q.shape)
    elif c['noise'] == 'negzero':
        q = np.where(q == 0, -0.0, q)
    return q


def gamma_def(q):
    """(is gamma, ambiguous)"""
    s = np.abs(q - np.rint(q)).sum(-1)
    return s < 1e-15, (s > 2e-16) & (s < 1e-8)


def changed_def(q, tol=5e-6):
    d = np.diff(q, axis=0)
    a, b = d[1:], d[:-1]
    m = np.linalg.norm(a, axis=1) * np.linalg.norm(b, axis=1)
    x = np.abs(np.abs((a * b).sum(1)) - m)
    return x > tol, (x > tol / 3) & (x < tol * 3)


def positions(q):
    """(indices that must carry a label, indices that are uncertain)"""
    n = len(q)
    if n <= 2:
        return set(range(n)), set()
    ch, amb = changed_def(q)
    g, gamb = gamma_def(q[1:-1])
    rep = np.all(q[2:] == q[1:-1], axis=1)
    must = {0, n - 1} | {int(i) + 1 for i in np.where(
        (ch & ~amb) | (g & ~gamb) | rep)[0]}
    return must, {int(i) + 1 for i in np.where(amb | gamb)[0]} - must


def abscissa(q, recip):
    d = np.diff(q, axis=0)
    moved = np.abs(d).sum(1)
    rem = np.abs(d - np.rint(d)).sum(1)
    near = (np.abs(moved - 1e-3) < 5e-4) | (
        (rem > 1e-9) & (rem < 3e-3) & (moved > 5e-4))
    if near.any():
        raise Skip('step at the tolerance')
    jump = (moved > 1e-3) & (rem < 1e-3)
    return np.concatenate(([0.], np.cumsum(np.where(
        jump, 0., np.linalg.norm(d @ recip, axis=1)))))


def build(c, m, q):
    import euphonic as E
    cv = m.cell_ang / gen.LUNIT[c['unit']] * E.ureg(c['unit'])
    if c['empty']:
        return E.Crystal.from_cell_vectors(cv)
    return E.Crystal(cv, m.atom_r.copy(), m.atom_type.copy(),
                     m.mass_amu * E.ureg('amu'))


def run_path(c, t):
    import euphonic as E
    import euphonic.util
    m = gen.crystal_model(c['crystal'])
    q = path_of(c)
    n = len(q)
    cr = build(c, m, q)
    rng = np.random.default_rng([c['seed'], 95])
    f = np.sort(rng.uniform(1, 30, (n, 3 * m.n_atoms)), 1)
    if c['empty']:
        # no modes: the labels come from fractions of the coordinates
        got = E.util.get_qpoint_labels(q, cell=cr.to_spglib_cell())
        idx = [i for i, _ in got]
        must, maybe = positions(q)
        check(must <= set(idx) <= must | maybe, lambda: f'tick labels at '
              f'{idx}, expected {sorted(must)}, path {q.tolist()}')
        t.tag('empty crystal')
        t.hit(n > 2)
        return
    qf = E.QpointFrequencies(cr, q.copy(), E.Quantity(f, 'meV'))
    before = snapshot(qf)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = qf.get_dispersion()
    same(before, snapshot(qf), 'frequencies')
    exp = abscissa(q, gen.recip(m))
    t.tag('empty crystal' if c['empty'] else 'atoms', c['unit'],
          'jump' if c['jump'] else 'no jump', f'noise {c["noise"]}')
    t.hit(n > 2)
    inv = '1/angstrom'
    x = s.x_data.to(inv).magnitude
    close(x, exp, 1e-9, 1e-9 * (1 + exp[-1]), 'abscissa (1/angstrom)')
    check(s.x_data.units == (1 / cr.cell_vectors).units,
          f'unit of abscissa {s.x_data.units}, cell in {c["unit"]}')
    close(s.y_data.to('meV').magnitude, f.T, 1e-12, 0, 'bands')
    lab = s.x_tick_labels
    check(isinstance(lab, list) and all(
        isinstance(i, int) and isinstance(v, str) for i, v in lab),
        f'tick labels {lab}')
    idx = [i for i, _ in lab]
    check(idx == sorted(set(idx)), f'tick label positions {idx}')
    must, maybe = positions(q)
    check(must <= set(idx) <= must | maybe, lambda: f'tick labels at {idx}, '
          f'expected {sorted(must)} (or {sorted(maybe)}), path '
          f'{q.tolist()}')
    # lattice translation of the path, other unit
    q2 = np.rint(q * 2 ** 40) / 2 ** 40      # exact under translation
    if not np.array_equal(q2, q) and c['noise'] == 'tiny':
        return
    r = []
    for qq, unit in ((q2, None), (q2 + c['shift'], 'nm')):
        cr2 = build(dict(c, unit=unit or c['unit']), m, qq)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r.append(E.QpointFrequencies(
                cr2, qq, E.Quantity(f, 'meV')).get_dispersion())
    close(r[1].x_data.to(inv).magnitude, r[0].x_data.to(inv).magnitude,
          1e-9, 1e-9, 'abscissa after a lattice translation of the path')
    a, b = (x.x_tick_labels for x in r)
    if not positions(q2)[1] and not gamma_def(q2)[1].any():
        check([i for i, _ in a] == [i for i, _ in b],
              f'tick positions {a} become {b} after translation {c["shift"]}')
        if not any('.' in v for _, v in a):
            # the fallback prints the coordinates themselves
            check(a == b, f'tick labels {a} become {b} after translation '
                  f'{c["shift"]} of the path')


# ----------------------------------------------------------------- symbols

@st.composite
def symbol_cases(draw):
    return dict(
        crystal=draw(gen.crystals(1, 3, special=draw(st.sampled_from(
            [True, True, True, False])), lattices=(
            'cubic', 'fcc', 'bcc', 'tetra', 'tetra', 'hex', 'hex', 'ortho',
            'mono', 'tri', 'lefthanded'))),
        std=draw(st.integers(0, 4)) > 0, same=draw(st.booleans()),
        seed=draw(small_seed), n=draw(st.integers(1, 7)),
        steps=draw(st.integers(0, 2)), rotate=draw(st.booleans()),
        shift=draw(st.booleans()), general=draw(st.booleans()))


def run_symbols(c, t):
    import seekpath

    from euphonic.util import get_qpoint_labels
    m = gen.crystal_model(c['crystal'])
    rng = np.random.default_rng([c['seed'], 96])
    kind = m.atom_type
    if c['same']:
        kind = np.array([kind[0]] * len(kind))
    num = np.unique(kind, return_inverse=True)[1]
    cell = (m.cell_ang.tolist(), m.atom_r.tolist(), num.tolist())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = seekpath.get_path(cell)
        if c['std']:
            cell = (np.array(p['primitive_lattice']).tolist(),
                    np.array(p['primitive_positions']).tolist(),
                    np.array(p['primitive_types']).tolist())
            p = seekpath.get_path(cell)
        A = np.array(cell[0])
        back = np.array(p['primitive_lattice']) @ np.array(
            p['rotation_matrix'])
        std = back.shape == A.shape and np.abs(back - A).max() < 1e-6
        coords = {k: np.array(v) for k, v in p['point_coords'].items()}
        # in the reciprocal basis of the cell given
        recip_p = 2 * np.pi * np.linalg.inv(back).T
        true = {k: v @ recip_p @ A.T / (2 * np.pi)
                for k, v in coords.items()}
    ops = ref.symmetry_ops(A, np.array(cell[1]), np.array(cell[2]), 1e-6)
    if len(ref.symmetry_ops(A, np.array(cell[1]), np.array(cell[2]), 1e-4)
           ) != len(ops):
        raise Skip('near-symmetry')
    W = np.array([w for w, _, _ in ops])
    names = sorted(coords)
    pts = []
    for _ in range(c['n']):
        v = coords[names[rng.integers(len(names))]].copy()
        if c['general'] and rng.uniform() < .3:
            v = np.round(rng.uniform(-1, 1, 3), 3)
        if c['rotate'] and rng.uniform() < .6:
            v = v @ W[rng.integers(len(W))] * rng.choice([-1, 1])
        if c['shift']:
            v = v + rng.integers(-1, 2, 3)
        if rng.uniform() < .2:
            v = v + rng.choice([-1e-16, 1e-16], 3)
        if rng.uniform() < .2:
            v = np.roll(v, rng.integers(3))
        if pts:
            for k in range(c['steps']):
                f = (k + 1) / (c['steps'] + 1)
                pts.append(last + (v - last) * f)
        pts.append(v)
        last = v
    q = np.array(pts)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = get_qpoint_labels(q, cell=cell)
    t.tag(p['bravais_lattice'], 'standard cell' if std else 'other cell',
          f'{len(ops)} operations')
    idx = [i for i, _ in got]
    must, maybe = positions(q)
    check(must <= set(idx) <= must | maybe, lambda: f'labels at {idx}, '
          f'expected {sorted(must)}, path {q.tolist()}')

    def distance(v, target, images):
        d = (images if images is not None else v[None]) - target
        return np.abs(d - np.rint(d)).max(-1).min()
    nothing = all('[' in s for _, s in got)
    seen = False
    for i, s in got:
        v = q[i]
        im = np.concatenate([v @ W, -(v @ W)])
        exact = [k for k in names if distance(v, coords[k], None) < 1e-7]
        near = [k for k in names if distance(v, true[k], im) < 1e-3]
        equal = [k for k in names if distance(v, true[k], im) < 1e-7]
        key = None if std else 'label_basis'
        if s == r'$\Gamma$':
            s = 'GAMMA'
        seen |= bool(equal)
        if s == '' or nothing:
            if std and exact:
                raise Violation(f'q-point {v} is {exact} but has no label '
                                f'({p["bravais_lattice"]})')
            continue
        if not near and not std:
            raise Violation(f'q-point {v} labelled {s}', 'label_basis')
        check(s in near, lambda: f'q-point {v} is labelled {s}, which is '
              f'not an equivalent point (those are {equal}); special points '
              f'{ {k: x.round(4).tolist() for k, x in true.items()} }, '
              f'{p["bravais_lattice"]}', key)
    t.hit(seen)


# --------------------------------------------------------------- utilities

@st.composite
def util_cases(draw):
    f = draw(st.sampled_from(['direction', 'gamma', 'origins', 'generic']))
    c = dict(f=f, seed=draw(small_seed))
    if f == 'direction':
        c.update(q=draw(gen.qpaths(2, 12)),
                 scale=draw(st.sampled_from([1., .1, 5.])),
                 tol=draw(st.sampled_from([None, 1e-3, 1e-9])),
                 rand=draw(st.booleans()))
    elif f == 'gamma':
        c.update(q=draw(gen.qpoints(1, 6)), one=draw(st.booleans()),
                 eps=draw(st.sampled_from([0., 1e-17, 1e-6, -1e-8])))
    elif f == 'origins':
        lo = [draw(st.integers(-4, 3)) for _ in range(3)]
        c.update(lo=lo, hi=[x + draw(st.integers(1, 6)) for x in lo],
                 step=draw(st.sampled_from([1, 1, 1, 2, 3])),
                 default=draw(st.booleans()))
    else:
        c.update(q=draw(gen.qpaths(1, 8)),
                 shift=[draw(st.integers(-2, 2)) for _ in range(3)])
    return c


FRACS = {'0': 0., '1/4': .25, '3/4': .75, '1/2': .5, '1/3': 1 / 3,
         '2/3': 2 / 3, '3/8': .375, '5/8': .625}


def run_util(c, t):
    from euphonic import util
    rng = np.random.default_rng([c['seed'], 97])
    t.tag(c['f'])
    t.hit()
    if c['f'] == 'direction':
        q = np.array(c['q'], float) * c['scale']
        if c['rand']:
            q = q + rng.uniform(-.2, .2, q.shape) * (
                rng.uniform(size=(len(q), 1)) < .4)
        kw = {} if c['tol'] is None else dict(tolerance=c['tol'])
        r = util.direction_changed(q, **kw)
        exp, amb = changed_def(q, c['tol'] or 5e-6)
        check(r.shape == exp.shape and r.dtype == bool, f'shape {r.shape}')
        check(np.array_equal(r[~amb], exp[~amb]), lambda: f'direction '
              f'changed {r}, expected {exp}, path {q.tolist()}')
    elif c['f'] == 'gamma':
        q = np.array(c['q'], float)
        q = np.where(q == np.rint(q), q + c['eps'], q)
        exp, amb = gamma_def(q)
        if c['eps']:
            exp = np.where(np.abs(c['eps']) > 1e-10, False, exp)
            amb = amb & (np.abs(c['eps']) < 1e-10)
        if amb.any():
            raise Skip('near the tolerance')
        if c['one']:
            r = util.is_gamma(q[0])
            check(np.ndim(r) == 0 and bool(r) == bool(exp[0]),
                  f'is_gamma({q[0]}) is {r}')
        else:
            r = util.is_gamma(q)
            check(np.array_equal(r, exp), f'is_gamma({q.tolist()}) is {r}')
    elif c['f'] == 'origins':
        if c['default']:
            lo = (0, 0, 0)
            hi = tuple(b - a for a, b in zip(c['lo'], c['hi']))
            r = util.get_all_origins(hi)
            step = 1
        else:
            lo, hi, step = tuple(c['lo']), tuple(c['hi']), c['step']
            kw = {} if step == 1 else dict(step=step)
            r = util.get_all_origins(hi, min_xyz=lo, **kw)
        exp = list(itertools.product(
            *[range(a, b, step) for a, b in zip(lo, hi)]))
        check(np.issubdtype(r.dtype, np.integer), f'dtype {r.dtype}')
        check(sorted(map(tuple, r.tolist())) == exp, lambda:
              f'origins from {lo} to {hi} step {step}: {len(r)} rows, '
              f'expected {len(exp)}')
    else:
        q = np.array(c['q'], float) + c['shift']
        got = util.get_qpoint_labels(q)
        idx = [i for i, _ in got]
        must, maybe = positions(q)
        check(must <= set(idx) <= must | maybe, f'labels at {idx}')
        special = False
        for i, s in got:
            v = q[i] - np.floor(q[i] + 1e-9)
            names = [[k for k, x in FRACS.items() if abs(x - y) < 1e-7]
                     for y in v]
            exp = ' '.join(k[0] for k in names) if all(names) else ''
            special |= bool(exp)
            if '[' in s:
                continue
            check(s == exp, f'q-point {q[i]} is labelled {s!r}, expected '
                  f'{exp!r}')
        if special:
            check(not any('[' in s for _, s in got),
                  f'special points not recognised in {got}')


def known_basis():
    """conventional rock-salt cell: (.5, 0, .5) is not X there"""
    import warnings as w

    from euphonic.util import get_qpoint_labels
    f = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    cell = ((np.eye(3) * 5.6).tolist(),
            np.concatenate((f, (f + .5) % 1)).tolist(), [0] * 4 + [1] * 4)
    with w.catch_warnings():
        w.simplefilter('ignore')
        r = get_qpoint_labels(np.array([[0., 0, 0], [.5, 0, .5]]), cell=cell)
    return r[-1][1] == 'X'


KNOWN = {'label_basis': known_basis}
SUBS = [Sub('path', paths(), run_path, 700, 15000),
        Sub('symbols', symbol_cases(), run_symbols, 500, 12000),
        Sub('utilities', util_cases(), run_util, 800, 15000)]
