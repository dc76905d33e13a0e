"""P05 acoustic sum rule options"""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Skip, Sub, check, close

RULE = ('A case is force constants that break translational invariance by a '
        'random symmetric amount (general, or the same for every atom so that '
        'the three acoustic modes are degenerate) or not at all, the two sum '
        'rule options, q-points, dipole on/off, C or Python.  Non-trivial: '
        'the uncorrected acoustic frequencies at gamma are clearly non-zero '
        '(corrected cases) or the supercell has several cells or atoms '
        '(invariant cases).')
TECHNIQUE = ('property-based testing: invariants at gamma and an independent '
             'model of the documented projection at every q-point')
ASSUMPTIONS = ['cases in which the acoustic modes are not clearly identified '
               '(sum of displacements under 80 % of a rigid translation) are '
               'outside the property']


@st.composite
def cases(draw, exact=False):
    d = dict(fc=draw(gen.force_constants(
                 3, 8, modes=['spring'] if exact else ['noisy', 'spring'])),
             q=draw(gen.qpoints(1, 3)),
             asr=draw(st.sampled_from(['realspace', 'reciprocal'])),
             dipole=draw(st.booleans()),
             use_c=draw(st.sampled_from([None, None, False])),
             uniform=0.0)
    if not exact and d['fc']['mode'] == 'spring':
        d['uniform'] = draw(gen.nice_float(1e-4, 4e-4))
    if exact:
        d['fc']['pol']['iso'] = True
    return d


LARGE = [np.diag(d).tolist() for d in ((5, 5, 5), (3, 6, 6), (4, 4, 7),
                                       (2, 7, 8), (5, 5, 6), (6, 6, 3),
                                       (10, 2, 6))] + [
    [[0, 4, 4], [4, 0, 4], [4, 4, 0]], [[5, 1, 0], [0, 5, 0], [0, -1, 5]],
    [[4, 0, 1], [0, 5, 0], [0, 0, 6]], [[-4, 4, 4], [4, -4, 4], [4, 4, -4]]]


@st.composite
def large_cases(draw):
    """more than 100 cells: the cells are matched in chunks of 100"""
    d = draw(cases())
    d['fc']['crystal'] = draw(gen.crystals(1, 2))
    d['fc'].update(mode='noisy', polar=False)
    d['fc']['sc'].pop('search', None)
    d['fc']['sc']['matrix'] = draw(st.sampled_from(LARGE))
    d.update(uniform=0., q=d['q'][:1], dipole=False,
             asr=draw(st.sampled_from(['realspace', 'realspace',
                                       'reciprocal'])))
    return d


def run_large(c, t):
    n = len(gen.fc_model(c['fc']).origins)
    if n <= 100:
        raise Skip('supercell too skewed')
    t.tag('over 100 cells')
    run(c, t)


def project(M, want=0.8):
    """M minus its three acoustic (rigid translation) eigenmodes"""
    ev, U = np.linalg.eigh(M)
    n = len(M) // 3
    com = (np.abs(U.reshape(n, 3, -1).sum(0))**2).sum(0) / n
    order = np.argsort(com)
    ac = order[-3:]
    rest = com[order[:-3]].max() if len(order) > 3 else 0
    if com[ac].min() < want or rest > 0.3:
        return None, None
    P = (U[:, ac] * ev[ac]) @ U[:, ac].conj().T
    return M - P, ev[ac]


def supercell_matrix(m):
    N, n3 = len(m.origins), 3 * m.n_atoms
    F = np.zeros((N, n3, N, n3))
    for a in range(N):
        for b in range(N):
            F[a, :, b] = m.fc[m.index(m.origins[b] - m.origins[a])]
    return F.reshape(N * n3, N * n3)


def freqs(m, q, asr, c, evecs=False, fc=None):
    fc = fc or gen.make_fc(m)
    before = fc.force_constants.magnitude.copy()
    r = fc.calculate_qpoint_phonon_modes(
        q.copy(), asr=asr, dipole=c['dipole'], splitting=False,
        use_c=c['use_c'])
    check(np.array_equal(before, fc.force_constants.magnitude),
          'stored force constants were changed')
    f = r.frequencies.to('meV').magnitude / gen.HARTREE_MEV
    lam = np.sign(f) * f**2
    return (lam, f, r.eigenvectors) if evecs else lam


def run(c, t):
    m = gen.fc_model(c['fc'])
    images, amb = ref.ws_images(m)
    if amb:
        raise Skip('image on the tolerance boundary')
    if c['uniform']:
        for i in range(m.n_atoms):
            m.fc[0, 3*i:3*i+3, 3*i:3*i+3] += c['uniform'] * np.eye(3)
    polar = c['dipole'] and m.born is not None

    def dip(q):
        if not polar:
            return 0
        d = ref.dipole(m, q)
        if d is None:
            raise Skip('reference Ewald sum too large')
        return d
    z = np.zeros(3)
    q = np.vstack(([z], c['q']))
    D0 = ref.dyn_mat(m, z, images) + dip(z)
    scale = np.abs(np.linalg.eigvalsh(ref.mass_weight(m, D0))).max()
    scale = max(scale, ref.floor(m))
    fcm, fx = m.fc, 0
    if c['asr'] == 'realspace':
        F = supercell_matrix(m)
        G, ac = project(0.5 * (F + F.T))
        if G is None:
            raise Skip('acoustic modes not clear')
        fcm = G.reshape(len(m.origins), 3 * m.n_atoms, len(m.origins),
                        3 * m.n_atoms)[0].transpose(1, 0, 2)
    else:
        # the documented correction is defined by the Hermitian matrix
        H = 0.5 * (D0 + D0.conj().T)
        G, ac = project(H)
        if G is None:
            raise Skip('acoustic modes not clear')
        fx = G - H
    lam, f, E = freqs(m, q, c['asr'], c, True)
    if not polar or c['asr'] == 'reciprocal':
        w = np.sort(np.abs(lam[0]))[:3].max()
        check(w < 3e-8 * scale, lambda: f'{c["asr"]}: acoustic frequencies at '
              f'gamma not zero: |freq| up to '
              f'{np.sqrt(w) * gen.HARTREE_MEV:.3e} meV')
    tol = 5e-8 if not polar else 1e-6
    for k in range(len(q)):
        D = ref.dyn_mat(m, q[k], images, fc=fcm) + fx + dip(q[k])
        ref.check_modes(ref.mass_weight(m, D), f[k], E[k],
                        f'{c["asr"]} at {q[k]}', tol=tol,
                        floor=ref.floor(m))
    plain = freqs(m, q[:1], None, c)
    t.tag(c['asr'], 'polar' if polar else 'nonpolar',
          'degenerate' if c['uniform'] else 'general')
    t.hit(np.abs(plain[0]).min() > 1e-7 * scale)


def run_exact(c, t):
    m = gen.fc_model(c['fc'])
    if ref.ws_images(m)[1]:
        raise Skip('image on the tolerance boundary')
    q = np.vstack((np.zeros(3), c['q']))
    if c['asr'] == 'realspace' and project(supercell_matrix(m))[0] is None:
        raise Skip('acoustic modes not clear')
    a, b = freqs(m, q, c['asr'], c), freqs(m, q, None, c)
    scale = max(np.abs(b).max(), ref.floor(m))
    close(a, b, 0, 1e-8 * scale,
          f'{c["asr"]} changed invariant force constants')
    fc = gen.make_fc(m)
    a2 = freqs(m, q, c['asr'], c, fc=fc)
    b2 = freqs(m, q, None, c, fc=fc)
    close(b2, b, 0, 1e-9 * scale, 'no correction after a corrected call')
    close(a2, a, 0, 1e-9 * scale, 'corrected call repeated')
    t.tag(c['asr'])
    t.hit(m.n_atoms > 1 or len(m.origins) > 1)


SUBS = [Sub('corrected', cases(), run, 400, 8000),
        Sub('invariant', cases(True), run_exact, 200, 3000),
        Sub('large', large_cases(), run_large, 30, 600)]
