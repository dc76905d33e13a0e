"""P04 phonons respect lattice periodicity, time reversal and relabelling"""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Skip, Sub, check, close

RULE = ('A case is force constants (polar or not), q-points, calculation '
        'options and one transformation out of: add reciprocal lattice '
        'vectors, invert q, rotate/reflect the crystal rigidly, shift the '
        'origin, reorder atoms, move atoms to other cells, reorder cell '
        'origins, other basis of the same supercell, scale force constants '
        'and masses.  Non-trivial: a q-point with non-zero components and '
        'non-degenerate content (frequencies not all zero) and a '
        'transformation that is not the identity.')
TECHNIQUE = 'property-based testing with metamorphic relations'
ASSUMPTIONS = ['supercell images on a near-boundary (see P01) are skipped',
               'with the realspace sum rule only force constants near '
               'translational invariance are used']

KINDS = ('plusG', 'minusq', 'rotate', 'origin', 'atoms', 'cells_of_atoms',
         'cell_order', 'sc_basis', 'scale')


@st.composite
def cases(draw):
    asr = draw(st.sampled_from([None, None, 'realspace', 'reciprocal']))
    modes = ('spring', 'noisy') if asr else ('spring', 'random', 'noisy')
    return dict(fc=draw(gen.force_constants(4, 8, modes=modes)),
                q=draw(gen.qpoints(1, 3)), asr=asr,
                kind=draw(st.sampled_from(KINDS)), seed=draw(gen.small_seed),
                dipole=draw(st.sampled_from([True, True, False])),
                use_c=draw(st.sampled_from([None, None, False])),
                reduce=draw(st.sampled_from([True, True, False])))


def transform(m, q, kind, rng):
    """-> transformed model, q, function mapping D(q) of the original to the
    D of the transformed one (in row-vector block form), factor of lambda"""
    n = m.n_atoms
    m2 = copy.copy(m)
    q2 = q.copy()
    factor = 1.0

    def same(D, k):
        return D
    fD = same
    if kind == 'plusG':
        far = rng.choice([2, 4, 30])
        q2 = q + rng.integers(-far, far + 1, q.shape)
    elif kind == 'minusq':
        q2 = -q

        def fD(D, k):
            return D.conj()
    elif kind == 'rotate':
        Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        T = np.kron(np.eye(n), Q)
        m2.cell = m.cell @ Q
        m2.cell_ang = m.cell_ang @ Q
        m2.fc = np.array([T.T @ f @ T for f in m.fc])
        if m.born is not None:
            m2.born = np.array([Q.T @ z @ Q for z in m.born])
            m2.eps = Q.T @ m.eps @ Q

        def fD(D, k):
            return T.T @ D @ T
    elif kind == 'origin':
        m2.atom_r = m.atom_r + np.round(rng.uniform(-.7, .7, 3), 3)
    elif kind == 'atoms':
        p = rng.permutation(n)
        ix = (3 * p[:, None] + np.arange(3)).ravel()
        m2.atom_r, m2.atom_type = m.atom_r[p], m.atom_type[p]
        m2.mass, m2.mass_amu = m.mass[p], m.mass_amu[p]
        m2.fc = m.fc[:, ix][:, :, ix]
        if m.born is not None:
            m2.born = m.born[p]

        def fD(D, k):
            return D[np.ix_(ix, ix)]
    elif kind == 'cells_of_atoms':
        far = rng.choice([1, 1, 2, 4])
        T = rng.integers(-far, far + 1, (n, 3))
        m2.atom_r = m.atom_r + T
        m2.fc = np.zeros_like(m.fc)
        for k, o in enumerate(m.origins):
            for i in range(n):
                for j in range(n):
                    k2 = m.index(o - T[j] + T[i])
                    m2.fc[k2, 3*i:3*i+3, 3*j:3*j+3] = \
                        m.fc[k, 3*i:3*i+3, 3*j:3*j+3]

        def fD(D, k):
            # D'_ij = D_ij exp(i q.(T_i - T_j))
            ph = np.repeat(np.exp(2j * np.pi * (T @ q[k])), 3)
            return D * np.outer(ph, ph.conj())
    elif kind == 'cell_order':
        p = np.concatenate(([0], 1 + rng.permutation(len(m.origins) - 1)))
        m2.origins = m.origins[p]
        m2.fc = m.fc[p]
    elif kind == 'sc_basis':
        U = np.array([[[0, 1, 0], [0, 0, 1], [1, 0, 0]],
                      [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
                      [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
                      [[1, 0, 0], [0, 1, -1], [0, 0, 1]],
                      [[0, 1, 0], [1, 0, 0], [0, 0, 1]]])[rng.integers(5)]
        m2.sc_matrix = U @ m.sc_matrix
        if not gen.ws_ok(m2.sc_matrix @ m.cell):
            raise Skip('equivalent supercell too skewed')
    elif kind == 'scale':
        s = np.round(rng.uniform(.5, 3, 2), 2)
        m2.fc = m.fc * s[0]
        m2.mass, m2.mass_amu = m.mass * s[1], m.mass_amu * s[1]
        if m.born is not None:
            m2.born = m.born * np.sqrt(s[0])
        factor = s[0] / s[1]
    return m2, q2, fD, factor


def run(c, t):
    m = gen.fc_model(c['fc'])
    rng = np.random.default_rng([c['seed'], 4])
    q = np.array(c['q'])
    m2, q2, fD, factor = transform(m, q, c['kind'], rng)
    for x in (m, m2):
        if ref.ws_images(x)[1]:
            raise Skip('image on the tolerance boundary')
    asr = c['asr']
    if c['kind'] == 'cells_of_atoms' and asr == 'reciprocal':
        # the documented correction is the same matrix at every q-point, so
        # away from gamma it depends on the choice of cell of each atom
        asr = None
    kw = dict(asr=asr, dipole=c['dipole'], splitting=False,
              reduce_qpts=c['reduce'],
              use_c=c['use_c'])
    n3 = 3 * m.n_atoms
    out = []
    jobs = [(m, q), (m2, q2)]
    if c['kind'] in ('plusG', 'minusq') and c['seed'] % 2:
        # all q-points in one calculation, in any order
        order = rng.permutation(2 * len(q))
        jobs = [(m, np.concatenate((q, q2))[order])]
    for mm, qq in jobs:
        r = gen.make_fc(mm).calculate_qpoint_phonon_modes(qq.copy(), **kw)
        f = r.frequencies.to('meV').magnitude / gen.HARTREE_MEV
        E = r.eigenvectors.reshape(len(qq), n3, n3)
        lam = np.sign(f) * f**2
        for e in E:
            close(e.conj() @ e.T, np.eye(n3), 0, 1e-8, 'orthonormality')
        out.append((lam, np.einsum('qv,qva,qvb->qab', lam, E, E.conj())))
    if len(jobs) == 1:
        t.tag('together')
        back = np.argsort(order)
        out = [[x[b] for x in out[0]] for b in np.split(back, 2)]
    (l1, D1), (l2, D2) = out
    scale = max(abs(l1).max(), ref.floor(m))
    tol = 1e-6 if c['asr'] == 'realspace' else 1e-7
    close(l2, l1 * factor, 0, tol * scale * factor,
          f'{c["kind"]}: squared frequencies')
    exp = np.array([fD(D, k) for k, D in enumerate(D1)]) * factor
    close(D2, exp, 0, 10 * tol * scale * factor,
          f'{c["kind"]}: transformed eigenvectors')
    t.tag(c['kind'], f'asr={c["asr"]}',
          'polar' if m.born is not None and c['dipole'] else 'nonpolar')
    t.hit(abs(l1).max() > 1e-12 and abs(q).max() > 0)


SUBS = [Sub('relations', cases(), run, 1000, 16000)]
