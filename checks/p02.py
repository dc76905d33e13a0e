"""P02 dipole-dipole correction is the converged Ewald sum"""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Skip, Sub, check, close

RULE = ('A case is a polar crystal with Born charges and a dielectric tensor '
        '(isotropic or general), a supercell, short-ranged force constants, a '
        'dipole_parameter and q-points.  Non-trivial: the dipole term changes '
        'the dynamical matrix by more than 1e-4 of its norm at some q-point.')
TECHNIQUE = ('property-based testing against an independent '
             'reciprocal-space-only Ewald reference; metamorphic in the '
             'dipole parameter; commensurate-q round trip')
ASSUMPTIONS = [
    'Ewald sums converge to about 1e-9 relative in the code; compared at 1e-6',
    'image boundary ambiguities as in P01 are skipped']
DIP_UNITS = ['e**2/(bohr*hartree)', 'e**2/(angstrom*eV)', 'e**2/(bohr*eV)',
             'e**2/(angstrom*hartree)']


@st.composite
def cases(draw, max_atoms=3, max_cells=4):
    return dict(fc=draw(gen.force_constants(max_atoms, max_cells, polar=True,
                                            min_atoms=draw(st.sampled_from(
                                                [1, 2, 2])))),
                q=draw(gen.qpoints(1, 4)),
                lam=draw(gen.nice_float(0.3, 2.5)),
                use_c=draw(st.sampled_from([None, False])))


def dyn_model(m, images, q, q_dir=None):
    d = ref.dipole(m, q, q_dir)
    if d is None:
        raise Skip('reference Ewald sum too large')
    return ref.dyn_mat(m, q, images) + d, d


def setup(c):
    m = gen.fc_model(c['fc'])
    if m.n_atoms == 1 and abs(m.born).max() < 0.1:
        raise Skip('no charge')
    images, amb = ref.ws_images(m)
    if amb:
        raise Skip('image on the tolerance boundary')
    return m, images


def run(c, t):
    m, images = setup(c)
    fc = gen.make_fc(m)
    q = np.array(c['q'])
    r = fc.calculate_qpoint_phonon_modes(
        q, splitting=False, dipole_parameter=c['lam'], use_c=c['use_c'])
    f = r.frequencies.to('meV').magnitude / gen.HARTREE_MEV
    big = 0
    for k in range(len(q)):
        D, d = dyn_model(m, images, q[k])
        D, d = ref.mass_weight(m, D), ref.mass_weight(m, d)
        ref.check_modes(D, f[k], r.eigenvectors[k], f'q-point {q[k]}',
                        tol=1e-6, floor=ref.floor(m))
        big = max(big, abs(d).max() / (abs(D).max() + ref.floor(m)))
    t.tag('lattice=' + c['fc']['crystal']['lattice'], f'atoms={m.n_atoms}',
          f'use_c={c["use_c"]}', 'isotropic' if c['fc']['pol']['iso']
          else 'general tensors', 'neutral' if c['fc']['pol']['neutral']
          else 'not neutral')
    t.hit(big > 1e-4)


@st.composite
def split_cases(draw):
    v = st.lists(gen.nice_float(-.5, .5), min_size=3, max_size=3)
    return dict(fc=draw(gen.force_constants(3, 4, polar=True, min_atoms=2)),
                q=[draw(v), draw(v)], order=draw(st.integers(0, 2)),
                lam=draw(gen.nice_float(0.5, 2.0)),
                use_c=draw(st.sampled_from([None, False])))


def run_split(c, t):
    m, images = setup(c)
    q1, q2 = np.array(c['q'])
    for v in (q1, q2):
        if abs(v).max() < 0.02:
            raise Skip('no direction')
    z = np.zeros(3)
    if c['order'] == 0:      # starts at gamma
        q, g, d = [z, q1], [0], [q1]
        ins = False
    elif c['order'] == 1:    # ends at gamma
        q, g, d = [q1, z], [1], [q1]
        ins = False
    else:                    # passes gamma: both directions
        q, g, d = [q1, z, q2], [1, 2], [q1, q2]
        ins = True
    fc = gen.make_fc(m)
    r = fc.calculate_qpoint_phonon_modes(
        np.array(q), splitting=True, insert_gamma=ins,
        dipole_parameter=c['lam'], use_c=c['use_c'])
    f = r.frequencies.to('meV').magnitude / gen.HARTREE_MEV
    check(len(f) == len(q) + ins, f'{len(f)} q-points returned')
    for k, qd in zip(g, d):
        D, _ = dyn_model(m, images, z, qd)
        ref.check_modes(ref.mass_weight(m, D), f[k], r.eigenvectors[k],
                        f'gamma along {qd}', tol=1e-6, floor=ref.floor(m))
    n = ref.mass_weight(m, ref.nac(m, q1))
    t.tag(f'order={c["order"]}')
    t.hit(abs(n).max() > 1e-4 * ref.floor(m))


@st.composite
def total_cases(draw):
    return dict(fc=draw(gen.force_constants(3, 6, polar=True)),
                eps_unit=draw(st.sampled_from(DIP_UNITS)),
                fc_unit=draw(st.sampled_from(
                    ['hartree/bohr**2', 'eV/angstrom**2', 'meV/angstrom**2'])),
                born_unit=draw(st.sampled_from(['e', 'coulomb'])),
                len_unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
                lam=draw(gen.nice_float(0.5, 2.0)))


def commensurate(m):
    """q with S q integer: rows of inv(S).T combinations"""
    S = m.sc_matrix
    inv = np.linalg.inv(S)
    out = []
    N = len(m.origins)
    b = np.abs(np.linalg.det(S) * inv).sum() + 1
    import itertools
    seen = set()
    for v in itertools.product(range(-3, 4), repeat=3):
        q = inv @ np.array(v)
        k = tuple(np.rint(np.mod(q + 1e-9, 1) * N).astype(int) % N)
        if k not in seen:
            seen.add(k)
            out.append(q)
    assert b and len(out) == N, (len(out), N)
    return np.array(out)


def run_total(c, t):
    from euphonic import Crystal, ForceConstants, ureg
    m, images = setup(c)
    cr = gen.make_crystal(m)
    cr = Crystal(cr.cell_vectors.to(c['len_unit']), m.atom_r, m.atom_type,
                 cr.atom_mass)
    tot = (m.fc * ureg('hartree/bohr**2')).to(c['fc_unit'])
    args = (cr, tot, m.sc_matrix, m.origins,
            (m.born * ureg('e')).to(c['born_unit']),
            (m.eps * ureg('e**2/(bohr*hartree)')).to(c['eps_unit']))
    keep = [m.fc.copy(), m.born.copy(), m.eps.copy()]
    fc = ForceConstants.from_total_fc_with_dipole(*args)
    for a, b in zip((tot, args[4], args[5]), keep):
        pass
    q = commensurate(m)
    r = fc.calculate_qpoint_phonon_modes(q, splitting=False,
                                         dipole_parameter=c['lam'])
    f = r.frequencies.to('meV').magnitude / gen.HARTREE_MEV
    for k in range(len(q)):
        D = np.zeros((3 * m.n_atoms,) * 2, complex)
        # total force constants: plain Fourier sum, exact at commensurate q
        for o, blk in zip(m.origins, m.fc):
            D += blk * np.exp(2j * np.pi * (o @ q[k]))
        ref.check_modes(ref.mass_weight(m, D), f[k], None,
                        f'commensurate q {q[k]}', tol=1e-6,
                        floor=ref.floor(m) + dipole_scale(m))
    close(fc.dielectric.to('e**2/(bohr*hartree)').magnitude, m.eps, 1e-9,
          what='dielectric')
    close(fc.born.to('e').magnitude, m.born, 1e-9, 1e-12, what='born')
    t.tag('eps_unit=' + c['eps_unit'], 'born=' + c['born_unit'],
          f'cells={len(m.origins)}')
    t.hit(len(m.origins) > 1)


def dipole_scale(m):
    d = ref.dipole(m, np.array([.31, .17, .23]))
    if d is None:
        raise Skip('reference Ewald sum too large')
    return abs(ref.mass_weight(m, d)).max()


@st.composite
def long_cases(draw):
    """slab-like and chain-like cells, strongly anisotropic screening"""
    fc = draw(gen.force_constants(
        3, 2, polar=True, min_atoms=2,
        lattices=('cubic', 'tetra', 'hex', 'ortho')))
    return dict(fc=fc, axis=draw(st.integers(0, 2)),
                k=draw(gen.nice_float(2.5, 9.0)),
                eps=draw(st.sampled_from([1, 1, 3, 6])),
                lams=[draw(gen.nice_float(0.4, .9)),
                      draw(gen.nice_float(1.2, 2.5))],
                q=draw(gen.qpoints(1, 2)), use_c=draw(st.booleans()))


def run_long(c, t):
    m = gen.fc_model(c['fc'])
    s = np.ones(3)
    s[c['axis'] if c['fc']['crystal']['lattice'] != 'hex' else 2] = c['k']
    m.cell, m.cell_ang = m.cell * s, m.cell_ang * s
    m.eps = m.eps * np.outer(x := np.sqrt(
        [1., 1., c['eps']])[[c['axis'], c['axis'] - 1, c['axis'] - 2]], x)
    images, amb = ref.ws_images(m)
    if amb or not gen.ws_ok(m.sc_matrix @ m.cell):
        raise Skip('supercell')
    fc = gen.make_fc(m)
    q = np.array(c['q'])
    out = [fc.calculate_qpoint_phonon_modes(
        q, splitting=False, dipole_parameter=lam,
        use_c=None if c['use_c'] else False) for lam in c['lams'] + [1.]]
    big = 0
    for k in range(len(q)):
        b = ref.floor(m)
        f = [o.frequencies[k].to('meV').magnitude / gen.HARTREE_MEV
             for o in out]
        w = [np.sign(x) * x**2 for x in f]
        d = ref.dipole(m, q[k])
        t.tag('sum compared' if d is not None else 'reference sum too large')
        if d is not None:
            D = ref.dyn_mat(m, q[k], images) + d
            D, d = ref.mass_weight(m, D), ref.mass_weight(m, d)
            for lam, x, o in zip(c['lams'] + [1.], f, out):
                ref.check_modes(D, x, o.eigenvectors[k],
                                f'q-point {q[k]}, dipole_parameter {lam}',
                                tol=1e-6, floor=b)
            big = max(big, abs(d).max() / (abs(D).max() + b))
        scale = max(abs(x).max() for x in w) + b
        for x, lam in zip(w, c['lams']):
            e = abs(x - w[-1]).max() / scale
            check(e < 1e-6, f'q-point {q[k]}: squared frequencies with '
                  f'dipole_parameter {lam} differ by {e:.2g} from those '
                  'with 1')
    t.tag(f'ratio={int(c["k"])}', f'eps={c["eps"]}')
    t.hit(big > 1e-4)


SUBS = [Sub('dipole', cases(), run, 160, 4000),
        Sub('split', split_cases(), run_split, 100, 2400),
        Sub('from_total', total_cases(), run_total, 120, 2400),
        Sub('long', long_cases(), run_long, 48, 1500)]
