"""P28 reordering permutes modes and follows branches"""
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from checks.p27 import changed_def, gamma_def
from harness import gen
from harness.core import Skip, Sub, check, close
from harness.gen import nice_float, small_seed

RULE = ('permute: drawn modes on drawn paths (turns, gamma points, '
        'repeats), eigenvectors random, permuted, degenerate, zero, sparse '
        'or not normalised; every q-point must keep its multiset of '
        '(frequency, eigenvector) pairs.  follow: eigenvectors rotated '
        'slowly along the path with random phases and frequencies that '
        'cross; each branch must keep its index over every step the '
        'documentation says is reordered and the previous permutation must '
        'be carried over the others.  Non-trivial: some q-point was '
        'permuted.')
TECHNIQUE = ('property-based testing: permutation invariant and smooth '
             'branches of known identity')
ASSUMPTIONS = ['branch identity is only judged where every branch overlaps '
               'its own predecessor by more than 0.8']


@st.composite
def permute_cases(draw):
    return dict(
        modes=draw(gen.phonon_modes(3, 10, path=draw(st.booleans()),
                                    big=20)),
        kind=draw(st.sampled_from(
            ['random', 'shuffled', 'cartesian', 'zeros', 'sparse',
             'scaled', 'same', 'real'])),
        gamma=draw(st.sampled_from([None, True, False])),
        cls=draw(st.sampled_from(['plain', 'from json'])))


def vectors(c, m):
    rng = np.random.default_rng([c['modes']['seed'], 98])
    e = m.evecs.copy()
    n = e.shape[1]
    k = c['kind']
    if k == 'shuffled':
        for i in range(1, len(e)):
            e[i] = e[0][rng.permutation(n)] * np.exp(
                2j * np.pi * rng.uniform(size=(n, 1, 1)))
    elif k == 'cartesian':
        for i in range(len(e)):
            e[i] = np.eye(n)[rng.permutation(n)].reshape(n, -1, 3)
    elif k == 'zeros':
        e[:, rng.integers(n)] = 0
        if rng.uniform() < .3:
            e[:] = 0
    elif k == 'sparse':
        e = np.where(rng.uniform(size=e.shape) < .6, 0, e)
    elif k == 'scaled':
        e = e * rng.uniform(1e-8, 10, (len(e), n, 1, 1))
    elif k == 'same':
        e[:] = e[0]
    elif k == 'real':
        e = np.real(e) + 0j
    return e


def pairs(f, e):
    r = np.concatenate((f[..., None], e.real.reshape(*f.shape, -1),
                        e.imag.reshape(*f.shape, -1)), -1)
    return r


def match(before, after, what):
    """permutation such that after == before[perm], per q-point"""
    perm = np.empty(before.shape[:2], int)
    for i, (b, a) in enumerate(zip(before, after)):
        eq = np.all(b[None] == a[:, None], -1)
        free = np.ones(len(b), bool)
        for k in range(len(b)):
            j = np.where(eq[k] & free)[0]
            check(len(j) > 0, lambda: f'{what}: at q-point {i} mode {k} '
                  f'({a[k][0]}) is not one of the original modes, or is '
                  f'repeated; frequencies were {b[:, 0]}, are {a[:, 0]}')
            free[j[0]] = False
            perm[i, k] = j[0]
    return perm


def reorder(obj, gamma):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = obj.reorder_frequencies(
            **({} if gamma is None else dict(reorder_gamma=gamma)))
    check(r is None, f'reorder_frequencies returned {r!r}')


def run_permute(c, t):
    import euphonic as E
    m = gen.modes_model(c['modes'])
    m.evecs = vectors(c, m)
    p = gen.make_modes(m)
    if c['cls'] == 'from json':
        p = E.QpointPhononModes.from_dict(p.to_dict())
    qf = p.to_qpoint_frequencies() if hasattr(
        p, 'to_qpoint_frequencies') else None
    share = snapshot(qf) if qf is not None else None
    before, cr0 = snapshot(p), snapshot(p.crystal)
    f0 = p.frequencies.magnitude.copy()
    e0 = p.eigenvectors.copy()
    d0 = p.get_dispersion()
    d0s = snapshot(d0)
    reorder(p, c['gamma'])
    t.tag(c['kind'], f'reorder_gamma {c["gamma"]}', f'{len(m.q)} q-points')
    f1, e1 = p.frequencies.magnitude, p.eigenvectors
    check(f1.shape == f0.shape and e1.shape == e0.shape,
          f'shapes {f1.shape}, {e1.shape}')
    perm = match(pairs(f0, e0), pairs(f1, e1), 'reordered')
    t.hit((np.sort(f1, 1) != f1).any() or not np.array_equal(f0, f1))
    check(np.array_equal(f0[0], f1[0]) and np.array_equal(e0[0], e1[0]),
          'first q-point was reordered')
    # nothing else changed
    after = snapshot(p)
    check(str(p.frequencies.units) == c['modes']['freq_unit'] or
          p.frequencies.units == E.ureg(c['modes']['freq_unit']).units,
          f'unit {p.frequencies.units}')
    q1 = p.qpts
    close(q1, m.q, 0, 0, 'q-points after reordering')
    close(p.weights, m.w, 1e-15, 0, 'weights after reordering')
    same(cr0, snapshot(p.crystal), 'crystal')
    check(set(before) == set(after), 'attributes changed')
    same(d0s, snapshot(d0), 'dispersion taken earlier')
    if qf is not None:
        same(share, snapshot(qf), 'frequencies taken earlier')
    # dispersion afterwards lists exactly those frequencies
    d = p.get_dispersion()
    close(d.y_data.to(p.frequencies.units).magnitude, f1.T, 1e-13, 0,
          'dispersion after reordering')
    close(d.x_data.magnitude, d0.x_data.magnitude, 0, 0, 'abscissa')
    check(d.x_tick_labels == d0.x_tick_labels, 'tick labels')
    return perm


# ---------------------------------------------------------- smooth branches

@st.composite
def follow_cases(draw):
    return dict(
        crystal=draw(gen.crystals(1, 4)), seed=draw(small_seed),
        n=[draw(st.integers(2, 9)) for _ in range(draw(st.integers(1, 3)))],
        turns=[draw(st.sampled_from(['straight', 'turn', 'reverse']))
               for _ in range(3)],
        gamma=draw(st.sampled_from([None, True, False])),
        at_gamma=draw(st.sampled_from(['no', 'no', 'start', 'middle'])),
        speed=draw(st.sampled_from([0., .03, .1])),
        unrelated=draw(st.booleans()),
        cross=draw(nice_float(0., 3.)), unit=draw(st.sampled_from(
            ['meV', 'THz', '1/cm'])))


def follow_path(c, rng):
    n = c['n']
    q = [np.array([.11, -.07, .23])]
    step = np.array([.05, .03, -.04])
    for k, num in enumerate(n):
        for _ in range(num):
            q.append(q[-1] + step)
        if c['turns'][k] == 'turn':
            step = np.array([step[1], -step[2] - .03, step[0]])
        elif c['turns'][k] == 'reverse':
            step = -step
    q = np.array(q)
    if c['at_gamma'] == 'start':
        q = q - q[0]
    elif c['at_gamma'] == 'middle':
        q = q - q[len(q) // 2]
    return q


def run_follow(c, t):
    import euphonic as E
    m = gen.crystal_model(c['crystal'])
    rng = np.random.default_rng([c['seed'], 99])
    q = follow_path(c, rng)
    if len(q) > 2:
        changed, amb = changed_def(q)
    else:
        changed = amb = np.zeros(0, bool)
    if amb.any():
        raise Skip('near the tolerance')
    g, gamb = gamma_def(q)
    if gamb.any():
        raise Skip('near gamma')
    n = 3 * m.n_atoms
    # step i is i-1 -> i; is it one that is reordered?
    calc = np.ones(len(q), bool)
    calc[0] = False
    calc[2:] = ~changed
    if c['gamma'] is False:
        calc[g] = False
        calc[1:][g[:-1]] = False
    h = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    h = h + h.conj().T
    w, v = np.linalg.eigh(h)
    base = np.linalg.qr(rng.normal(size=(n, n))
                        + 1j * rng.normal(size=(n, n)))[0]
    order, ev = [], []
    for i in range(len(q)):
        if i and not calc[i] and c['unrelated']:
            base = base[rng.permutation(n)]
        # rows are branches, rotating slowly
        r = (v * np.exp(1j * c['speed'] * w / np.abs(w).max() * i)
             ) @ v.conj().T
        ev.append(base @ r)
    ev = np.array(ev)
    f = (rng.uniform(5, 25, n)[None] + np.arange(len(q))[:, None]
         * c['cross'] * rng.uniform(-1, 1, n)[None])
    idx = np.argsort(f, 1)
    fs = np.take_along_axis(f, idx, 1)
    es = np.take_along_axis(ev, idx[:, :, None], 1)
    es = es * np.exp(2j * np.pi * rng.uniform(size=(len(q), n, 1)))
    es = es.reshape(len(q), n, m.n_atoms, 3)
    p = E.QpointPhononModes(
        gen.make_crystal(m), q.copy(), E.Quantity(
            fs / gen.EUNIT[c['unit']], c['unit']), es.copy())
    f0 = p.frequencies.magnitude.copy()
    reorder(p, c['gamma'])
    f1, e1 = p.frequencies.magnitude, p.eigenvectors
    perm = match(pairs(f0, es), pairs(f1, e1), 'reordered')
    t.tag(f'at gamma: {c["at_gamma"]}', f'{int((~calc[1:]).sum())} steps not '
          'reordered', f'reorder_gamma {c["gamma"]}')
    t.hit((perm != perm[0]).any())
    check(np.array_equal(perm[0], np.arange(n)), 'first q-point reordered')
    vec = e1.reshape(len(q), n, n)
    for i in range(1, len(q)):
        if calc[i]:
            o = np.abs(np.einsum('ij,ij->i', vec[i].conj(), vec[i - 1]))
            own = np.abs(np.einsum('ij,ij->i', ev[i].conj(), ev[i - 1]))
            if own.min() < .8:
                raise Skip('too fast')
            check(o.min() > .7, lambda: f'branch {int(o.argmin())} jumps to '
                  f'another branch between q-points {i - 1} and {i} '
                  f'(overlap {o.min():.3g}); path {q.tolist()}, orders '
                  f'{perm[i - 1]}, {perm[i]}')
        else:
            check(np.array_equal(perm[i], perm[i - 1]), lambda:
                  f'order changed from {perm[i - 1]} to {perm[i]} between '
                  f'q-points {i - 1} and {i}, where modes are not compared; '
                  f'path {q.tolist()}')
    d = p.get_dispersion()
    close(d.y_data.to('meV').magnitude, f1.T * gen.EUNIT[c['unit']], 1e-9,
          0, 'dispersion')


SUBS = [Sub('permute', permute_cases(), run_permute, 500, 12000),
        Sub('follow', follow_cases(), run_follow, 600, 14000)]
