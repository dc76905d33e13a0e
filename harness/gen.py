"""Hypothesis strategies for JSON-able case descriptions, and builders that
turn them into Euphonic objects plus plain-numpy models of the same data."""
import itertools

import numpy as np
from hypothesis import strategies as st

from harness.core import Skip

# own constants (CODATA 2018), deliberately not taken from the code under test
HARTREE_MEV = 27211.386245988
BOHR_ANG = 0.529177210903
AMU_ME = 1822.888486209
KB_MEV = 0.08617333262
E_MEV_PER_CM = 0.1239841984
THZ_MEV = 4.135667696

SPECIES = [('H', 1.008), ('Li', 6.94), ('C', 12.011), ('O', 15.999),
           ('Na', 22.98976928), ('Al', 26.9815), ('Si', 28.085),
           ('Cl', 35.45), ('Fe', 55.845), ('La', 138.90547), ('Pb', 207.2)]
MASS = dict(SPECIES)

seeds = st.integers(0, 2**31 - 1)
small_seed = st.one_of(st.integers(0, 20), seeds)


def nice_float(lo, hi):
    return st.integers(round(lo * 1e4), round(hi * 1e4)).map(
        lambda i: i / 1e4)


LATTICES = ('cubic', 'fcc', 'bcc', 'tetra', 'hex', 'ortho', 'mono', 'tri',
            'lefthanded')


@st.composite
def crystals(draw, min_atoms=1, max_atoms=4, special=None, lattices=LATTICES):
    n = draw(st.integers(min_atoms, max_atoms))
    if special == 'orbit':
        lattices = [x for x in lattices if x in (
            'cubic', 'fcc', 'bcc', 'tetra', 'hex', 'ortho')]
    return dict(
        lattice=draw(st.sampled_from(lattices)),
        a=draw(nice_float(2.5, 6.0)),
        ratio=[draw(nice_float(0.7, 1.6)), draw(nice_float(0.7, 1.6))],
        seed=draw(small_seed),
        special=draw(st.booleans()) if special is None else special,
        species=[draw(st.integers(0, len(SPECIES) - 1)) for _ in range(n)],
        iso=draw(st.booleans()),
        wrap=draw(st.sampled_from(['unit', 'unit', 'centred', 'edge', 'far'])),
    )


def cell_vectors(c, rng=None):
    a, (rb, rc) = c['a'], c['ratio']
    lat = c['lattice']
    if lat == 'cubic':
        return np.eye(3) * a
    if lat == 'fcc':
        return a / 2 * np.array([[0., 1, 1], [1, 0, 1], [1, 1, 0]]) * 1.3
    if lat == 'bcc':
        return a / 2 * np.array([[-1., 1, 1], [1, -1, 1], [1, 1, -1]]) * 1.2
    if lat == 'tetra':
        return np.diag([a, a, a * rc])
    if lat == 'hex':
        return np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0],
                         [0, 0, a * rc]])
    if lat == 'ortho':
        return np.diag([a, a * rb, a * rc])
    if lat == 'mono':
        return np.array([[a, 0, 0], [0, a * rb, 0],
                         [0.23 * a, 0, a * rc]])
    rng = np.random.default_rng([c['seed'], 77])
    m = np.diag([a, a * rb, a * rc]) + rng.uniform(-.22, .22, (3, 3)) * a
    # random orientation
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    m = m @ q
    sign = -1 if lat == 'lefthanded' else 1
    if np.linalg.det(m) * sign < 0:
        m = m[[1, 0, 2]]
    return m


class Model:
    """Plain data of a crystal / force constants, in atomic units"""


def crystal_model(c):
    m = Model()
    m.cell_ang = cell_vectors(c)
    m.cell = m.cell_ang / BOHR_ANG
    n = len(c['species'])
    rng = np.random.default_rng([c['seed'], 1])
    if c['special'] == 'orbit':
        r, sp = orbits(m.cell_ang, rng, c['species'])
        c = dict(c, species=sp, iso=False)
        n = len(sp)
    for attempt in range(60):
        if c['special'] == 'orbit':
            pass
        elif c['special']:
            r = rng.integers(0, 4, (n, 3)) / 4.0
            r[0] = 0.0
        else:
            r = rng.uniform(0, 1, (n, 3))
        if _min_dist(r, m.cell_ang) > 0.9:
            break
    else:
        # no room: fewer atoms
        k = 1
        while k < n and _min_dist(r[:k + 1], m.cell_ang) > 0.9:
            k += 1
        r, n = r[:k], k
        c = dict(c, species=c['species'][:k])
        if _min_dist(r, m.cell_ang) <= 0.9:
            raise Skip('cell too small')
    if c['wrap'] == 'centred':
        r = r - np.rint(r)
    elif c['wrap'] == 'far':      # anywhere
        r = r + np.random.default_rng([c['seed'], 3]).integers(-3, 4, (n, 3))
    elif c['wrap'] == 'edge':
        # some coordinates moved to the far face (0 -> 1)
        r = np.where((r == 0) & (rng.uniform(size=r.shape) < .4), 1.0, r)
    m.atom_r = r
    m.n_atoms = n
    m.atom_type = np.array([SPECIES[i][0] for i in c['species']])
    mass = np.array([SPECIES[i][1] for i in c['species']])
    if c['iso']:
        mass = mass * (1 + 0.2 * rng.uniform(size=n))
    m.mass_amu = mass
    m.mass = mass * AMU_ME
    return m


def orbits(cell, rng, species, max_atoms=7):
    """whole orbits of a random point group of the lattice, so that the
    symmetry permutes three, four or six equivalent atoms"""
    from harness import ref
    ops = ref.point_group(cell)
    group = {tuple(np.eye(3, dtype=int).ravel())}
    for _ in range(rng.integers(1, 4)):
        new = group | {tuple(np.rint(ops[rng.integers(len(ops))])
                             .astype(int).ravel())}
        for _ in range(60):
            more = {tuple((np.array(a).reshape(3, 3) @ np.array(b).reshape(
                3, 3)).ravel()) for a in new for b in new}
            if more <= new:
                break
            new |= more
        if len(new) > 12 and len(group) > 1:
            continue
        group = new
    mats = [np.array(g).reshape(3, 3) for g in sorted(group)]
    r, sp = np.zeros((0, 3)), []
    for k in range(3 * len(species)):
        s = species[len(sp) % len(species)]
        x = rng.uniform(0, 1, 3)
        for fix in range(rng.integers(0, 3)):
            # onto a symmetry element
            g = mats[rng.integers(len(mats))]
            cyc, y = [], x
            for _ in range(6):
                cyc.append(y)
                y = g @ y
                if np.allclose(y, x):
                    break
            x = np.mean(cyc, axis=0)
        o = []
        for g in mats:
            y = (g @ x) % 1.0
            if all(np.abs((y - z) - np.rint(y - z)).max() > 1e-6 for z in o):
                o.append(y)
        if len(sp) + len(o) > max_atoms:
            continue
        both = np.concatenate([r, o])
        if _min_dist(both, cell) > 0.6:
            r, sp = both, sp + [s] * len(o)
        if len(sp) >= 3 and rng.integers(2):
            break
    if not sp:
        r, sp = np.zeros((1, 3)), [species[0]]
    return r, sp


def _min_dist(r, cell):
    n = len(r)
    sh = np.array(list(itertools.product((-1, 0, 1), repeat=3)))
    best = np.inf
    for i in range(n):
        for j in range(i, n):
            d = (r[i] - r[j])
            d = d - np.rint(d)
            v = np.linalg.norm((d + sh) @ cell, axis=1)
            if i == j:
                v = v[v > 1e-9]
            best = min(best, v.min())
    return best


def make_crystal(m):
    from euphonic import Crystal, ureg
    return Crystal(m.cell_ang.copy() * ureg('angstrom'), m.atom_r.copy(),
                   m.atom_type.copy(), m.mass_amu.copy() * ureg('amu'))


# ------------------------------------------------------------- supercells

_NONDIAG = [
    [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
    [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 2]],
    [[2, 0, 0], [0, 1, 1], [0, -1, 1]], [[2, 1, 0], [0, 2, 0], [0, 0, 1]],
    [[1, 0, 1], [0, 2, 0], [-1, 0, 1]], [[2, 1, 0], [-1, 2, 0], [0, 0, 1]],
    [[1, 1, 1], [-1, 1, 0], [0, -1, 1]], [[0, 1, 0], [0, 0, 2], [2, 0, 0]],
    [[2, 0, 0], [0, -2, 0], [0, 0, 1]],
]


@st.composite
def supercells(draw, max_cells=8, compact=False):
    kind = draw(st.sampled_from(['diag', 'diag', 'nondiag', 'random']
                                + ['compact'] * compact))
    if kind == 'compact':
        # any integer matrix, chosen by fc_model to suit the cell
        return dict(matrix=[[1, 0, 0], [0, 1, 0], [0, 0, 1]],
                    search=[draw(small_seed), max_cells],
                    rep=draw(st.sampled_from(['box', 'box', 'centred'])),
                    order=draw(st.integers(0, 5)))
    if kind == 'diag':
        d = [draw(st.integers(1, 3 if max_cells < 27 else 5))
             for _ in range(3)]
        while d[0] * d[1] * d[2] > max_cells:
            d[int(np.argmax(d))] -= 1
        m = np.diag(d).tolist()
    elif kind == 'nondiag':
        m = draw(st.sampled_from(_NONDIAG))
    else:
        m = [[draw(st.integers(-2, 2)) for _ in range(3)] for _ in range(3)]
        det = round(abs(np.linalg.det(m)))
        if det == 0 or det > max_cells:
            m = np.diag([draw(st.integers(1, 2)) for _ in range(3)]).tolist()
    return dict(matrix=m, rep=draw(st.sampled_from(['box', 'box', 'centred'])),
                order=draw(st.integers(0, 5)))


def ws_ok(sc_vecs):
    """True if every Wigner-Seitz-relevant vector of the lattice is in the
    first shell and minimum images are within two shells"""
    rng2 = np.array([v for v in itertools.product(range(-3, 4), repeat=3)
                     if any(v)])
    v = rng2 @ sc_vecs
    n2 = (v**2).sum(1)
    inner = np.abs(rng2).max(1) <= 1
    # Voronoi-relevant vectors are minimal in their class mod 2L.  Require
    # every class minimum (with ties) to lie in the inner shell
    cls = (rng2 % 2) @ [1, 2, 4]
    for c in range(1, 8):
        s = cls == c
        mn = n2[s].min()
        tied = s & (n2 < mn * (1 + 1e-9))
        if not np.all(inner[tied]):
            return False
    return True


def cosets(matrix, rep='box', order=0):
    """Representatives of Z^3 / (rows of matrix), first one is 0"""
    S = np.array(matrix)
    det = int(round(abs(np.linalg.det(S))))
    inv = np.linalg.inv(S)
    bound = np.abs(S).sum(0)
    reps, keys = [], {}
    rngs = [range(-b, b + 1) for b in bound]
    for v in sorted(itertools.product(*rngs),
                    key=lambda x: (sum(map(abs, x)), x)):
        f = np.array(v) @ inv
        k = tuple(np.rint(np.mod(f + 1e-9, 1) * det).astype(int) % det)
        if k in keys:
            continue
        if rep == 'box':
            w = np.rint((f - np.floor(f + 1e-9)) @ S).astype(int)
        else:
            w = np.rint((f - np.rint(f - 1e-9)) @ S).astype(int)
        keys[k] = len(reps)
        reps.append(w)
        if len(reps) == det:
            break
    assert len(reps) == det
    reps = np.array(reps)
    if order and det > 2:
        p = np.random.default_rng(order).permutation(det - 1) + 1
        reps = reps[np.concatenate(([0], p))]
    keyidx = {}
    for i, v in enumerate(reps):
        k = tuple(np.rint(np.mod(v @ inv + 1e-9, 1) * det).astype(int) % det)
        keyidx[k] = i

    def index(v):
        return keyidx[tuple(np.rint(np.mod(np.array(v) @ inv + 1e-9, 1) * det)
                            .astype(int) % det)]
    return reps, index


# --------------------------------------------------------- force constants

@st.composite
def force_constants(draw, max_atoms=3, max_cells=8, polar=None, min_atoms=1,
                    modes=('spring', 'spring', 'random', 'noisy'),
                    special=None, lattices=LATTICES):
    return dict(
        crystal=draw(crystals(min_atoms, max_atoms, special, lattices)),
        sc=draw(supercells(max_cells, compact=True)),
        mode=draw(st.sampled_from(modes)),
        fseed=draw(small_seed),
        noise=draw(st.sampled_from([1e-4, 1e-3, 5e-3])),
        polar=draw(st.booleans()) if polar is None else polar,
        pol=dict(seed=draw(small_seed), iso=draw(st.booleans()),
                 eps=draw(nice_float(1.2, 6.0)), z=draw(nice_float(0.5, 3.0)),
                 neutral=draw(st.sampled_from([True, True, True, False]))),
    )


def fc_model(c):
    m = crystal_model(c['crystal'])
    S = np.array(c['sc']['matrix'])
    if 'search' in c['sc']:
        seed, most = c['sc']['search']
        rng = np.random.default_rng([seed, 17])
        for _ in range(300):
            T = rng.integers(-4, 5, (3, 3))
            if 1 < round(abs(np.linalg.det(T))) <= most and ws_ok(T @ m.cell):
                S = T
                break
    if not ws_ok(S @ m.cell):
        S = np.diag(np.minimum(np.abs(S).max(1), 2))
        if not ws_ok(S @ m.cell):
            S = np.diag([1, 1, 2][::1 if c['fseed'] % 2 else -1])
        if not ws_ok(S @ m.cell):
            S = np.eye(3, dtype=int)
        if not ws_ok(S @ m.cell):
            raise Skip('supercell too skewed')
    m.sc_matrix = S
    m.origins, m.index = cosets(S, c['sc']['rep'], c['sc']['order'])
    N, n = len(m.origins), m.n_atoms
    rng = np.random.default_rng([c['fseed'], 2])
    fc = np.zeros((N, n, 3, n, 3))
    neg = [m.index(-o) for o in m.origins]
    if c['mode'] == 'random':
        # symmetric under exchange, otherwise arbitrary
        for k in range(N):
            fc[k] = 0.02 * rng.normal(size=(n, 3, n, 3))
        sym = np.empty_like(fc)
        for k in range(N):
            sym[k] = 0.5 * (fc[k] + fc[neg[k]].transpose(2, 3, 0, 1))
        fc = sym
        for i in range(n):
            fc[0, i, :, i, :] += 0.1 * np.eye(3)
    else:
        # spring network: translationally invariant and non-negative
        for k in range(N):
            for i in range(n):
                for j in range(n):
                    if k == 0 and i == j:
                        continue
                    a = rng.normal(size=(3, 3)) * np.exp(
                        -0.3 * np.linalg.norm(
                            m.origins[k] + m.atom_r[j] - m.atom_r[i]))
                    K = 0.02 * (a @ a.T) + 0.004 * np.eye(3)
                    fc[k, i, :, j, :] -= K
                    fc[neg[k], j, :, i, :] -= K.T
                    fc[0, i, :, i, :] += K
                    fc[0, j, :, j, :] += K
        if c['mode'] == 'noisy':
            e = np.empty_like(fc)
            for k in range(N):
                e[k] = rng.normal(size=(n, 3, n, 3)) * c['noise'] * 0.02
            for k in range(N):
                fc[k] += 0.5 * (e[k] + e[neg[k]].transpose(2, 3, 0, 1))
    m.fc = fc.reshape(N, 3 * n, 3 * n)
    m.neg = neg
    m.born = m.eps = None
    if c['polar']:
        p = c['pol']
        prng = np.random.default_rng([p['seed'], 3])
        if p['iso']:
            eps = np.eye(3) * p['eps']
            Z = prng.uniform(-1, 1, (n, 1, 1)) * np.eye(3) * p['z']
        else:
            b = prng.normal(size=(3, 3)) * 0.25
            eps = p['eps'] * (np.eye(3) + b @ b.T)
            Z = prng.normal(size=(n, 3, 3)) * p['z']
        if n > 1 and p['neutral']:
            Z = Z - Z.mean(0)
        m.born, m.eps = Z, eps
    return m


def make_fc(m, fc_unit='hartree/bohr**2'):
    from euphonic import ForceConstants, ureg
    kw = {}
    if m.born is not None:
        # dielectric is stored in e**2/(bohr*hartree) where 4 pi eps0 = 1
        kw = dict(born=m.born.copy() * ureg('e'),
                  dielectric=m.eps.copy() * ureg('e**2/(bohr*hartree)'))
    return ForceConstants(
        make_crystal(m), m.fc.copy() * ureg('hartree/bohr**2'),
        m.sc_matrix.copy(), m.origins.copy(), **kw)


@st.composite
def qpoints(draw, min_size=1, max_size=6, gamma=True):
    n = draw(st.integers(min_size, max_size))
    out = []
    kinds = ['any', 'any', 'special', 'far']
    if gamma:
        kinds.append('gamma')
    for _ in range(n):
        k = draw(st.sampled_from(kinds))
        if k == 'gamma':
            out.append([0., 0., 0.])
        elif k == 'special':
            out.append([draw(st.sampled_from(
                [0., .5, -.5, .25, 1 / 3, -1 / 3, 1., -1., .75]))
                for _ in range(3)])
        else:
            lim = 0.5 if k == 'any' else 4.0
            # also numbers of many digits
            f = draw(st.sampled_from([1., 1., 1 + 3.1415926e-6]))
            out.append([draw(nice_float(-lim, lim)) * f for _ in range(3)])
    return out


# ------------------------------------------------------------ phonon modes

def enlarge(c, kind, n):
    """many q-points or many atoms"""
    rng = np.random.default_rng([c['seed'], 79])
    cr = c['crystal']
    if kind == 'q':
        q = rng.uniform(-1, 1, (n, 3)).round(4)
        q[::7] = 0.
        c['q'] = c['q'] + q.tolist()
        c['crystal'] = dict(cr, species=cr['species'][:2])
    else:
        c['crystal'] = dict(
            cr, special=False, a=cr['a'] * n**(1 / 3),
            species=cr['species'] + rng.integers(
                0, len(SPECIES), n).tolist())
    return c


@st.composite
def phonon_modes(draw, max_atoms=4, max_q=8, min_q=1, special=None,
                 negative=None, path=False, big=0):
    """one case in `big` has many q-points or many atoms"""
    c = draw(_phonon_modes(max_atoms, max_q, min_q, special, negative, path))
    if big and special != 'orbit':
        k = draw(st.integers(0, 2 * big - 1))
        if k == 2 * big - 1:
            c = enlarge(c, 'q', draw(st.sampled_from(
                [64, 130, 257, 513, 1025, 2100])))
        elif k == 2 * big - 2:
            c = enlarge(c, 'atoms', draw(st.integers(3, 16)))
    return c


@st.composite
def _phonon_modes(draw, max_atoms, max_q, min_q, special, negative, path):
    n = draw(st.integers(min_q, max_q))
    return dict(
        crystal=draw(crystals(1, max_atoms, special)),
        q=(draw(qpaths(min_q, max_q)) if path
           else draw(qpoints(n, n))),
        seed=draw(small_seed),
        emax=draw(st.sampled_from([1.0, 20.0, 60.0, 150.0])),
        negative=draw(st.booleans()) if negative is None else negative,
        degenerate=draw(st.booleans()),
        weights=draw(st.sampled_from([None, 'random', 'unnormalised',
                                      'zeros', 'uneven'])),
        freq_unit=draw(st.sampled_from(['meV', 'THz', '1/cm', 'hartree'])),
        cell_unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
        mass_unit=draw(st.sampled_from(['amu', 'm_e', 'kg'])),
    )


@st.composite
def qpaths(draw, min_size=2, max_size=12):
    """piecewise linear path with turns, repeats and lattice shifts"""
    pts = [[0., 0., 0.], [.5, 0., 0.], [.5, .5, 0.], [.5, .5, .5],
           [1 / 3, 1 / 3, 0.], [0., 0., .5], [1., 0., 0.], [0., 1., 1.],
           [.25, .5, .75], [-.5, 0., 0.], [.1, .2, .3]]
    nseg = draw(st.integers(1, 4))
    ks = [draw(st.sampled_from(pts)) for _ in range(nseg + 1)]
    out = []
    for a, b in zip(ks[:-1], ks[1:]):
        m = draw(st.integers(1, 5))
        for i in range(m):
            out.append([x + (y - x) * i / m for x, y in zip(a, b)])
        if draw(st.integers(0, 4)) == 0:
            out.append([float(x) for x in b])   # repeated end point
    out.append([float(x) for x in ks[-1]])
    out = out[:max_size]
    while len(out) < min_size:
        out.append([.1 * len(out), 0., 0.])
    return out


def modes_model(c):
    m = crystal_model(c['crystal'])
    n, nq = m.n_atoms, len(c['q'])
    rng = np.random.default_rng([c['seed'], 4])
    m.q = np.array(c['q'], dtype=float)
    lo = -0.2 * c['emax'] if c['negative'] else 0.02 * c['emax']
    f = rng.uniform(lo, c['emax'], (nq, 3 * n))
    f = np.where(np.abs(f) < 1e-3 * c['emax'], 1e-3 * c['emax'], f)
    if c['degenerate']:
        f = np.where(rng.uniform(size=f.shape) < .4, f[:, :1], f)
        f = np.where(rng.uniform(size=f.shape) < .2,
                     np.rint(f * 4) / 4 + 0.125, f)
    m.f = np.sort(f, axis=1)          # meV
    z = rng.normal(size=(nq, 3 * n, 3 * n)) \
        + 1j * rng.normal(size=(nq, 3 * n, 3 * n))
    u = np.linalg.qr(z)[0]
    m.evecs = u.reshape(nq, 3 * n, n, 3)
    if c['weights'] is None:
        m.w, m.w_arg = np.full(nq, 1 / nq), None
    else:
        w = rng.uniform(0.05, 1, nq)
        if c['weights'] == 'random':
            w /= w.sum()
        elif c['weights'] == 'zeros' and nq > 1:
            w[rng.integers(nq)] = 0.
        elif c['weights'] == 'unnormalised':
            w *= 37.
        elif c['weights'] == 'uneven':
            w = 10**rng.uniform(-6, 0, nq)
        m.w = m.w_arg = w
    m.freq_unit, m.cell_unit, m.mass_unit = (
        c['freq_unit'], c['cell_unit'], c['mass_unit'])
    return m


# meV per unit
EUNIT = {'meV': 1.0, 'THz': THZ_MEV, '1/cm': E_MEV_PER_CM,
         'hartree': HARTREE_MEV, 'eV': 1000.0, 'K': KB_MEV}
LUNIT = {'angstrom': 1.0, 'bohr': BOHR_ANG, 'nm': 10.0}   # angstrom per unit
MUNIT = {'amu': 1.0, 'm_e': 1 / AMU_ME, 'kg': 1 / 1.66053906660e-27}


def make_modes_crystal(m):
    from euphonic import Crystal, ureg
    return Crystal(m.cell_ang / LUNIT[m.cell_unit] * ureg(m.cell_unit),
                   m.atom_r.copy(), m.atom_type.copy(),
                   m.mass_amu / MUNIT[m.mass_unit] * ureg(m.mass_unit))


def make_modes(m, cls=None):
    from euphonic import QpointFrequencies, QpointPhononModes, ureg
    f = m.f / EUNIT[m.freq_unit] * ureg(m.freq_unit)
    w = None if m.w_arg is None else m.w_arg.copy()
    if cls == 'frequencies':
        return QpointFrequencies(make_modes_crystal(m), m.q.copy(), f, w)
    return QpointPhononModes(make_modes_crystal(m), m.q.copy(), f,
                             m.evecs.copy(), w)


def recip(m):
    """rows: reciprocal vectors in 1/angstrom"""
    return 2 * np.pi * np.linalg.inv(m.cell_ang).T
