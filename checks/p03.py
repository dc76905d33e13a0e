"""P03 C/Python, threading, batching and reduction do not change the phonons"""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Skip, Sub, check, close

RULE = ('A case is force constants, a list of 1-40 (sub-check `threads`: 50-2049) q-points (random, special, '
        'far outside the first zone, exact repeats and repeats shifted by '
        'reciprocal lattice vectors), weights, physics options and several '
        'variants of the performance options, order and batching.  '
        'Non-trivial: at least two q-points, and at least one variant uses '
        'the other implementation (C against Python).')
TECHNIQUE = ('property-based differential testing: C / Python / threads / '
             'reduction / order / batches against each other')
ASSUMPTIONS = ['mode gradients are compared only for modes separated from '
               'all others and from zero (they are gauge dependent '
               'elsewhere)']


@st.composite
def qlists(draw, max_n=12):
    base = draw(gen.qpoints(1, max_n))
    extra = []
    for _ in range(draw(st.integers(0, 6))):
        i = draw(st.integers(0, len(base) - 1))
        s = draw(st.sampled_from([[0, 0, 0], [1, 0, 0], [0, -1, 0],
                                  [2, 1, -3], [0, 0, 0]]))
        extra.append([b + k for b, k in zip(base[i], s)])
    return draw(st.permutations(base + extra))


@st.composite
def cases(draw):
    q = draw(qlists())
    return dict(
        fc=draw(gen.force_constants(3, 6)), q=[list(x) for x in q],
        asr=draw(st.sampled_from([None, None, 'realspace', 'reciprocal'])),
        dipole=draw(st.sampled_from([True, True, False])),
        splitting=draw(st.booleans()),
        weights=draw(st.sampled_from([None, 'random'])),
        grads=draw(st.booleans()),
        perm=draw(gen.small_seed), cut=draw(st.integers(1, 8)),
        variants=draw(st.lists(st.fixed_dictionaries(dict(
            use_c=st.sampled_from([True, True, None, False]),
            n_threads=st.sampled_from([None, 1, 2, 3, 5, 8, 16]),
            reduce_qpts=st.booleans(),
            return_mode_gradients=st.booleans(),
            evecs=st.sampled_from([True, True, False]))),
            min_size=1, max_size=4)))


def call(fc, q, v, common, w=None):
    kw = dict(common)
    for k in ('use_c', 'n_threads', 'reduce_qpts', 'return_mode_gradients'):
        kw[k] = v[k]
    f = (fc.calculate_qpoint_phonon_modes if v['evecs']
         else fc.calculate_qpoint_frequencies)
    r = f(q.copy(), weights=None if w is None else w.copy(), **kw)
    g = None
    if v['return_mode_gradients']:
        r, g = r
        g = g.to('meV*bohr').magnitude
    return (r, r.frequencies.to('meV').magnitude,
            r.eigenvectors if v['evecs'] else None, g)


def gs(A):
    if A[3] is None:
        return 1.0
    ok = np.abs(A[1]) > 0.03 * np.abs(A[1]).max()
    g = np.abs(A[3][ok])
    return 1.0 + (g[np.isfinite(g)].max() if g.size else 0)


def dmat(f, e):
    n = f.shape[1]
    E = e.reshape(len(f), n, n)
    lam = np.sign(f) * f**2
    # D = sum_v lam_v e_v e_v^+
    return np.einsum('qv,qva,qvb->qab', lam, E, E.conj())


def compare(a, b, what, scale, mass_floor, gscale):
    ra, fa, ea, ga = a
    rb, fb, eb, gb = b
    la, lb = np.sign(fa) * fa**2, np.sign(fb) * fb**2
    close(la, lb, 0, 1e-8 * scale, f'{what}: squared frequencies (meV^2)')
    if ea is not None and eb is not None:
        close(dmat(fa, ea), dmat(fb, eb), 0, 1e-7 * scale,
              f'{what}: dynamical matrix from the modes')
    if ga is not None and gb is not None:
        n = fa.shape[1]
        d = np.abs(la[:, :, None] - la[:, None, :]) + np.eye(n) * 1e300
        ok = (d.min(2) > 1e-3 * scale) & (np.abs(la) > 1e-3 * scale)
        close(ga[ok], gb[ok], 1e-6, 1e-6 * gscale, f'{what}: mode gradients')
        return ok.sum()
    return 0


def run(c, t):
    m = gen.fc_model(c['fc'])
    q = np.array(c['q'])
    rng = np.random.default_rng(c['perm'])
    w = None
    if c['weights']:
        w = rng.uniform(0.1, 1, len(q))
        w /= w.sum()
    common = dict(asr=c['asr'], dipole=c['dipole'], splitting=c['splitting'])
    base = dict(use_c=False, n_threads=None, reduce_qpts=False,
                return_mode_gradients=c['grads'], evecs=True)
    fc = gen.make_fc(m)
    A = call(fc, q, base, common, w)
    check(np.array_equal(A[0].qpts, q), 'q-points changed')
    scale = max(np.abs(A[1]).max()**2,
                ref.floor(m) * gen.HARTREE_MEV**2)
    gscale = gs(A)
    for v in c['variants']:
        B = call(gen.make_fc(m), q, v, common, w)
        what = 'variant ' + ' '.join(f'{k}={x}' for k, x in v.items())
        check(np.array_equal(B[0].qpts, q), f'{what}: q-points changed')
        if w is not None:
            check(np.array_equal(B[0].weights, w), f'{what}: weights changed')
        else:
            close(B[0].weights, np.full(len(q), 1 / len(q)), 1e-12,
                  what=f'{what}: default weights')
        if compare(A, B, what, scale, 0, gscale):
            t.tag('gradients compared')
    split = (c['splitting'] and c['dipole'] and m.born is not None)
    v = dict(c['variants'][0])
    # without splitting the result at q depends on q alone
    if not split:
        p = rng.permutation(len(q))
        B = call(gen.make_fc(m), q[p], v, common, None if w is None else w[p])
        A2 = (None, A[1][p], A[2][p], None if A[3] is None else A[3][p])
        check(np.array_equal(B[0].qpts, q[p]), 'permuted q-points changed')
        compare(A2, B, 'permuted q-points', scale, 0, gscale)
        fcb = gen.make_fc(m)
        parts = [call(fcb, q[i:i + c['cut']], v, common)
                 for i in range(0, len(q), c['cut'])]
        B = (None, np.concatenate([x[1] for x in parts]),
             np.concatenate([x[2] for x in parts]) if v['evecs'] else None,
             np.concatenate([x[3] for x in parts])
             if v['return_mode_gradients'] else None)
        compare(A, B, 'split over several calls', scale, 0, gscale)
        t.tag('batches')
    t.tag(f'asr={c["asr"]}', 'polar' if m.born is not None else 'nonpolar',
          'splitting' if split else 'no splitting')
    t.hit(len(q) > 1 and any(v['use_c'] is not False for v in c['variants']))


@st.composite
def thread_cases(draw):
    return dict(fc=draw(gen.force_constants(3, 4)), n=draw(st.one_of(
        st.integers(50, 400), st.integers(50, 400),
        st.sampled_from([513, 1000, 1025, 2049]))), whole=draw(
            st.integers(0, 7)), qseed=draw(gen.small_seed),
        threads=draw(st.sampled_from([2, 3, 4, 7, 8])),
        grads=draw(st.booleans()), evecs=draw(st.booleans()),
        reduce=draw(st.booleans()),
        asr=draw(st.sampled_from([None, 'reciprocal'])))


def run_threads(c, t):
    m = gen.fc_model(c['fc'])
    rng = np.random.default_rng(c['qseed'])
    q = rng.uniform(-1, 1, (c['n'], 3))
    q[::2] = np.round(q[::2], 3)
    q[::7] = 0
    q[3::11] = q[2:-1:11][:len(q[3::11])]
    common = dict(asr=c['asr'], dipole=True, splitting=True)
    v = dict(use_c=True, n_threads=1, reduce_qpts=c['reduce'],
             return_mode_gradients=c['grads'], evecs=c['evecs'])
    A = call(gen.make_fc(m), q, v, common)
    fc = gen.make_fc(m)
    scale = max(np.abs(A[1]).max()**2, ref.floor(m) * gen.HARTREE_MEV**2)
    for k in range(3):
        B = call(fc, q, dict(v, n_threads=c['threads']), common)
        compare(A, B, f'{c["threads"]} threads against 1', scale, 0,
                gs(A))
    # part of the list in Python (the ends of the part see other neighbours)
    n = min(len(q), 34)
    if c['whole'] == 7 and len(m.origins) * m.n_atoms < 7:
        n = len(q)
    s = np.random.default_rng([c['qseed'], 3]).integers(len(q) - n + 1)
    B = call(gen.make_fc(m), q[s:s + n], dict(v, use_c=False), common)
    B, P = [(None, *[None if x is None else x[i:i + n - 2] for x in X[1:]])
            for X, i in ((B, 1), (A, s + 1))]
    compare(P, B, 'long list in C against Python', scale, 0, gs(A))
    t.tag(f'threads={c["threads"]}')
    t.hit()


SUBS = [Sub('variants', cases(), run, 360, 6000),
        Sub('threads', thread_cases(), run_threads, 64, 600)]
