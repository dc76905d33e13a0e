"""P06 gamma splitting and inserted gammas keep everything consistent"""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, check, close

RULE = ('A case is a (mostly polar) crystal and a list of q-points with '
        'gammas and reciprocal lattice vectors at the start, inside '
        '(single, doubled, tripled) and at the end, weights or none, '
        'splitting and insert_gamma on/off, reduction on/off, C or Python.  '
        'Non-trivial: at least one gamma and one other q-point, with '
        'splitting active.')
TECHNIQUE = ('property-based testing against a list model of the inserted '
             'points and a reference non-analytic term')
ASSUMPTIONS = ['a neighbour that is itself gamma (or a reciprocal lattice '
               'vector away) gives no direction; then the plain analytic '
               'result is expected']


@st.composite
def cases(draw):
    out = []
    v = st.lists(gen.nice_float(-1.2, 1.2), min_size=3, max_size=3)
    for _ in range(draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8]))):
        k = draw(st.sampled_from(['g', 'g', 'G', 'q', 'q', 'q']))
        if k == 'g':
            out.append([0., 0., 0.])
        elif k == 'G':
            out.append(draw(st.sampled_from(
                [[1., 0., 0.], [0., -1., 0.], [2., 1., -1.], [0., 0., 0.]])))
        else:
            x = draw(v)
            if max(abs(np.array(x) - np.rint(x))) < 0.01:
                x[0] = 0.25
            out.append(x)
    return dict(fc=draw(gen.force_constants(
                    3, 4, polar=draw(st.sampled_from([True, True, True,
                                                      False])),
                    min_atoms=2)),
                q=out, weights=draw(st.booleans()),
                wseed=draw(gen.small_seed),
                dipole=draw(st.sampled_from([True, True, True, False])),
                splitting=draw(st.sampled_from([True] * 5 + [False])),
                insert=draw(st.sampled_from([True, True, False])), reduce=draw(st.booleans()),
                asr=draw(st.sampled_from([None, None, 'reciprocal'])),
                use_c=draw(st.sampled_from([None, False])),
                evecs=draw(st.booleans()), grads=draw(st.booleans()))


@st.composite
def long_cases(draw):
    """paths of up to a few hundred q-points through many gammas"""
    c = draw(cases())
    rng = np.random.default_rng(draw(gen.small_seed))
    corners = []
    for _ in range(draw(st.integers(3, 14))):
        corners.append(
            rng.integers(-1, 2, 3).astype(float) if rng.random() < .6
            else rng.choice([0., .5, .25, -.5, 1 / 3, .375], 3))
    out = []
    for a, b in zip(corners, corners[1:]):
        n = int(rng.integers(1, 30))
        seg = a + (b - a) * np.arange(n)[:, None] / n
        out.append(seg)
        if rng.random() < .3:          # the branch ends, the corner repeated
            out.append(b[None])
    out.append(corners[-1][None])
    q = np.concatenate(out)
    far = np.abs(q - np.rint(q)).sum(axis=1)
    c['q'] = q[(far == 0) | (far > 1e-3)].tolist()
    return c


def isg(q):
    return np.abs(q - np.rint(q)).sum() < 1e-12


def run(c, t):
    m = gen.fc_model(c['fc'])
    q = np.array(c['q'])
    n = len(q)
    w = None
    if c['weights']:
        w = np.random.default_rng(c['wseed']).uniform(.1, 1, n)
    polar = m.born is not None and c['dipole']
    split = polar and c['splitting']
    # model of the returned list
    src = []
    for i in range(n):
        src += [i, i] if (split and c['insert'] and isg(q[i])
                          and 0 < i < n - 1) else [i]
    qo = q[src]
    fc = gen.make_fc(m)
    f = (fc.calculate_qpoint_phonon_modes if c['evecs']
         else fc.calculate_qpoint_frequencies)
    qi, wi = q.copy(), None if w is None else w.copy()
    r = f(qi, weights=wi, asr=c['asr'], dipole=c['dipole'],
          splitting=c['splitting'], insert_gamma=c['insert'],
          reduce_qpts=c['reduce'], use_c=c['use_c'],
          return_mode_gradients=c['grads'])
    check(np.array_equal(qi, q) and (w is None or np.array_equal(wi, w)),
          'arguments modified')
    if c['grads']:
        r, g = r
        check(g.shape == (len(qo), 3 * m.n_atoms, 3),
              f'mode gradients shape {g.shape}')
    check(r.qpts.shape == qo.shape and np.array_equal(r.qpts, qo),
          lambda: f'q-points returned {r.qpts.tolist()}, expected '
          f'{qo.tolist()}')
    fr = r.frequencies.to('meV').magnitude / gen.HARTREE_MEV
    check(fr.shape == (len(qo), 3 * m.n_atoms), f'frequencies {fr.shape}')
    if c['evecs']:
        check(r.eigenvectors.shape == (len(qo), 3 * m.n_atoms, m.n_atoms, 3),
              f'eigenvectors shape {r.eigenvectors.shape}')
    if w is None:
        ew = np.full(len(qo), 1 / len(qo))
    else:
        ew = np.array([w[i] / src.count(i) for i in src])
    close(r.weights, ew, 1e-12, what='weights')
    # frequencies: result without splitting (decided by P02, P05) + model of
    # the non-analytic term
    b = gen.make_fc(m).calculate_qpoint_phonon_modes(
        qo.copy(), asr=c['asr'], dipole=c['dipole'], splitting=False,
        use_c=False)
    fb = b.frequencies.to('meV').magnitude / gen.HARTREE_MEV
    E = b.eigenvectors.reshape(len(qo), 3 * m.n_atoms, 3 * m.n_atoms)
    base = np.einsum('qv,qva,qvb->qab', np.sign(fb) * fb**2, E, E.conj())
    big = False
    for k, x in enumerate(qo):
        D = base[k]
        what = f'q-point {k} {x}'
        if split and isg(x) and len(qo) > 1:
            if k == 0:
                d = qo[1] - qo[0]
            elif k == len(qo) - 1:
                d = qo[k] - qo[k - 1]
            else:
                d = qo[k + 1] - qo[k]
                if isg(d):
                    d = qo[k] - qo[k - 1]
            if not isg(d):
                D = D + ref.mass_weight(m, ref.nac(m, d))
                what += f' along {d}'
                big = True
        ref.check_modes(D, fr[k],
                        r.eigenvectors[k] if c['evecs'] else None, what,
                        tol=1e-6, floor=ref.floor(m))
    t.tag('split' if split else 'no splitting',
          f'inserted={len(qo) - n}', f'reduce={c["reduce"]}')
    t.hit(big and any(not isg(x) for x in q))


SUBS = [Sub('list', cases(), run, 1200, 16000),
        Sub('long', long_cases(), run, 150, 3000)]
