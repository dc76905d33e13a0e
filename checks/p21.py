"""P21 Sampling schemes give the documented number of well-spread points"""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

from harness.core import Sub, check, close, raises

RULE = ('A case is one generator of euphonic.sampling with its sizes (1 to '
        'several thousand points, 1-40 rows and columns, 1-6 dimensions), '
        'options and a numpy seed.  Points are counted, checked against '
        'their range, against the documented construction (golden ratio '
        'sequence, regular grid, rings, R_d recurrence), polar output is '
        'compared with Cartesian output, jittered points with their '
        'unjittered positions, and the fraction of points in random '
        'spherical caps / boxes with the share of area.  Non-trivial: more '
        'than one point.')
TECHNIQUE = ('property-based testing: explicit constructions, discrepancy '
             'bounds, metamorphic comparison of options')
ASSUMPTIONS = ['jitter is measured on the generating square, which is '
               'periodic: a point pushed over the edge re-enters on the '
               'opposite side',
               'the plain polar grid is even in (phi, theta), not in area',
               'randomised schemes: 7 standard deviations']
PHI = (1 + 5 ** .5) / 2
sizes = st.one_of(st.integers(1, 12), st.integers(6, 300),
                  st.integers(200, 4000))
small = st.one_of(st.integers(1, 4), st.integers(1, 40))


def S():
    import euphonic.sampling as s
    return s


def arr(it, k=None):
    a = np.array([tuple(x) for x in it], dtype=float)
    if k is not None:
        check(a.ndim == 2 and a.shape[1] == k,
              f'points have shape {a.shape}')
    return a


def wrap(d, period=1.0):
    return (d + period / 2) % period - period / 2


def in_unit(a, what):
    bad = ~((a >= 0) & (a <= 1))
    check(not bad.any(), lambda: f'{what}: coordinate {a[bad][0]} is outside '
          'the unit square')


def randomness(d, bound, n, what):
    """displacements d (n, k) scaled to the bound: within, spread over it"""
    check(np.all(np.abs(d) <= bound * (1 + 1e-6) + 1e-9),
          lambda: f'{what}: displaced by {np.abs(d).max(0)}, more than '
          f'{bound}')
    if n >= 30:
        u = d / bound
        check(np.all(u.max(0) > 0.3) and np.all(u.min(0) < -0.3),
              lambda: f'{what}: displacements span only {u.min(0)} to '
              f'{u.max(0)} of the range')
        check(np.all(np.abs(u.mean(0)) < 7 * 0.58 / np.sqrt(n)),
              lambda: f'{what}: displacements are biased: {u.mean(0)}')
        check(len(np.unique(np.round(u, 7), axis=0)) == n,
              f'{what}: displacements are repeated')
        r = (u[1:] * u[:-1]).mean(0)
        check(np.all(np.abs(r) < 7 / 3 / np.sqrt(n - 1)), f'{what}: '
              f'neighbouring displacements are correlated: {r}')


def grid_match(p, q, what, periods=None):
    """p and q are the same points in any order"""
    check(len(p) == len(q), f'{what}: {len(p)} points, expected {len(q)}')
    d = p[:, None] - q[None]
    if periods is not None:
        for k, per in enumerate(periods):
            if per:
                d[..., k] = wrap(d[..., k], per)
    d = np.abs(d).max(-1)
    j = d.argmin(1)
    check(np.all(d.min(1) < 1e-9) and len(set(j.tolist())) == len(q),
          lambda: f'{what}: not the points of the grid, worst distance '
          f'{d.min(1).max()}, {len(set(j.tolist()))} of {len(q)} distinct')
    return j


@st.composite
def squares(draw):
    f = draw(st.sampled_from(['golden', 'regular', 'recurrence']))
    c = dict(f=f, seed=draw(st.integers(0, 2 ** 31)),
             offset=draw(st.sampled_from([True, False, None])),
             jitter=draw(st.booleans()))
    if f == 'regular':
        c.update(rows=draw(small), cols=draw(small))
    else:
        c.update(n=draw(sizes))
        if f == 'recurrence':
            c.update(order=draw(st.sampled_from([None, 1, 2, 3, 4, 6])))
    return c


def boxes(p, n, bound, rng, what):
    """share of points in random boxes from the origin"""
    for _ in range(12):
        b = rng.uniform(0, 1, p.shape[1])
        f = np.all(p < b, axis=1).mean()
        check(abs(f - b.prod()) <= bound,
              lambda: f'{what}: {f} of the points are in the box {b} of '
              f'volume {b.prod()} (n={n})')


def run_square(c, t):
    s = S()
    rng = np.random.default_rng([c['seed'], 1])
    kw = {} if c['offset'] is None else dict(offset=c['offset'])
    off = c['offset'] is not False
    t.tag(c['f'], f'offset {c["offset"]}', f'jitter {c["jitter"]}')
    if c['f'] == 'recurrence':
        d = c['order'] or 3
        n = c['n']
        t.hit(n > 1)
        p = arr(s.recurrence_sequence(n, **({} if c['order'] is None
                                            else {'order': d})), d)
        check(len(p) == n, f'{len(p)} points, expected {n}')
        check(np.all((p >= 0) & (p < 1)), 'points outside [0, 1)')
        root = brentq(lambda x: x ** (d + 1) - x - 1, 1.0, 2.0,
                      xtol=1e-15)
        e = np.arange(n)[:, None] * root ** -np.arange(1., d + 1)
        close(wrap(p - e), np.zeros_like(p), 0, 1e-6 * (n + 1),
              'R_d sequence')
        if n >= 50 and d <= 3:
            boxes(p, n, 2.5 * n ** -.6, rng, 'recurrence')
        again = arr(s.recurrence_sequence(n, order=d), d)
        close(again, p, 0, 0, 'not deterministic')
        m = max(1, n // 2)
        close(arr(s.recurrence_sequence(m, order=d), d), p[:m], 0, 0,
              'a shorter sequence is not the start of a longer one')
        return
    if c['f'] == 'golden':
        n = c['n']

        def get(**k):
            return arr(s.golden_square(n, **kw, **k), 2)
        i = np.arange(n)
        e = np.stack([(i + .5 * off) / n, i / PHI % 1], -1)
        bound = np.array([.5, .5]) / np.sqrt(n)
    else:
        r, k_ = c['rows'], c['cols']
        n = r * k_

        def get(**k):
            return arr(s.regular_square(r, k_, **kw, **k), 2)
        a, b = np.meshgrid(np.arange(k_), np.arange(r), indexing='ij')
        e = np.stack([(a.ravel() + .5 * off) / k_,
                      (b.ravel() + .5 * off) / r], -1)
        bound = np.array([.5 / k_, .5 / r])
    t.hit(n > 1)
    p = get(jitter=False)
    check(len(p) == n, f'{len(p)} points, expected {n}')
    in_unit(p, c['f'])
    if c['f'] == 'golden':
        close(wrap(p - e), np.zeros_like(p), 0, 1e-9 * (n + 1),
              'golden ratio sequence')
    else:
        grid_match(p, e, 'regular grid', (1, 1))
    close(get(), p, 0, 0, 'default is jittered or not deterministic')
    if c['f'] == 'golden' and n >= 20:
        boxes(p, n, 4 * np.log(n + 2) / n, rng, 'golden')
    if c['jitter']:
        np.random.seed(c['seed'])
        q = get(jitter=True)
        check(len(q) == n, f'{len(q)} jittered points, expected {n}')
        in_unit(q, c['f'] + ' jittered')
        randomness(wrap(q - p), bound, n, f'{c["f"]} jitter')
        if n > 1:
            q2 = get(jitter=True)
            check(not np.allclose(q, q2), 'jitter is not random')


FUNCS = ['golden', 'projected', 'grid', 'improved', 'random']


@st.composite
def spheres(draw):
    f = draw(st.sampled_from(FUNCS))
    c = dict(f=f, seed=draw(st.integers(0, 2 ** 31)),
             jitter=draw(st.booleans()))
    if f in ('projected', 'grid'):
        c.update(rows=draw(small), cols=draw(small))
    else:
        n = draw(sizes)
        c.update(n=n)
    return c


def rings(n):
    """latitudes of the improved scheme"""
    k = int(np.sqrt(np.pi / 4 * n))
    return k, (np.arange(k) + .5) * np.pi / k


def caps(p, n, c, rng, what, dev=None):
    for _ in range(12):
        a = rng.normal(size=3)
        a /= np.linalg.norm(a)
        if rng.uniform() < .3:
            a = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1])
        h = rng.uniform(-1, 1)
        f, share = (p @ a > h).mean(), (1 - h) / 2
        b = c / np.sqrt(n) if dev is None else \
            dev * np.sqrt(share * (1 - share) / n) + 10 / n
        check(abs(f - share) <= b, lambda: f'{what}: {f} of {n} points lie '
              f'in a cap with {share} of the area (axis {a}, height {h})')


def run_sphere(c, t):
    s = S()
    f = c['f']
    if f in ('projected', 'grid'):
        r, k = c['rows'], c['cols']
        n = r * k
        fn = {'projected': s.sphere_from_square_grid,
              'grid': s.spherical_polar_grid}[f]
        args = (r, k)
    else:
        n = c['n']
        args = (n,)
        fn = {'golden': s.golden_sphere, 'random': s.random_sphere,
              'improved': s.spherical_polar_improved}[f]
    t.tag(f, f'jitter {c["jitter"]}')
    if f == 'improved' and n < 6:
        raises(ValueError, lambda: list(fn(n)), 'fewer than 6 points')
        t.tag('too few')
        return
    t.hit(n > 1)
    rng = np.random.default_rng([c['seed'], 2])

    def pair(**kw):
        """polar and Cartesian points from the same random numbers"""
        np.random.seed(c['seed'])
        a = arr(fn(*args, cartesian=False, **kw), 3)
        np.random.seed(c['seed'])
        b = arr(fn(*args, cartesian=True, **kw), 3)
        np.random.seed(c['seed'])
        b2 = arr(fn(*args, **kw), 3)
        close(b2, b, 0, 0, 'default output is not Cartesian')
        for x, w in ((a, 'polar'), (b, 'Cartesian')):
            check(len(x) == n, f'{f}: {len(x)} {w} points, expected {n}')
        close(a[:, 0], np.ones(n), 1e-12, 0, 'r of polar points')
        ph, th = a[:, 1], a[:, 2]
        check(np.all((th >= -1e-9) & (th <= np.pi + 1e-9)),
              lambda: f'theta from {th.min()} to {th.max()}')
        check(np.all(np.abs(ph) <= 2 * np.pi + 1e-9),
              lambda: f'phi from {ph.min()} to {ph.max()}')
        close(np.linalg.norm(b, axis=1), np.ones(n), 1e-9, 0,
              'points on the unit sphere')
        e = np.stack([np.cos(ph) * np.sin(th), np.sin(ph) * np.sin(th),
                      np.cos(th)], -1)
        close(b, e, 0, 1e-9, 'Cartesian and polar points')
        return a, b
    if f == 'random':
        a, b = pair()
        np.random.seed((c['seed'] + 1) % 2 ** 31)
        if n >= 1:
            other = arr(fn(n), 3)
            check(not np.allclose(other, b), 'not random')
        check(len(np.unique(b, axis=0)) == n, lambda: 'only '
              f'{len(np.unique(b, axis=0))} of {n} points are distinct')
        caps(b, n, 0, rng, 'random', dev=7)
        return
    a, b = pair(jitter=False)
    a2, b2 = pair()
    close(a2, a, 0, 0, 'default is jittered or not deterministic')
    if f == 'golden':
        i = np.arange(n)
        close(np.cos(a[:, 2]), 2 * (i + .5) / n - 1, 0, 1e-9,
              'golden: z of the points')
        close(wrap(a[:, 1] / (2 * np.pi) - i / PHI), np.zeros(n), 0,
              1e-9 * (n + 1), 'golden: phi of the points')
    elif f == 'projected':
        x, y = np.meshgrid((np.arange(k) + .5) / k, (np.arange(r) + .5) / r)
        grid_match(np.stack([(np.cos(a[:, 2]) + 1) / 2,
                             a[:, 1] / (2 * np.pi)], -1),
                   np.stack([x.ravel(), y.ravel()], -1), f, (0, 1))
    elif f == 'grid':
        x, y = np.meshgrid(np.arange(r) * 2 * np.pi / r,
                           (np.arange(k) + .5) * np.pi / k)
        # the origin of phi is free
        sh = a[:, 1] - a[0, 1]
        grid_match(np.stack([sh, a[:, 2]], -1),
                   np.stack([x.ravel(), y.ravel()], -1), f,
                   (2 * np.pi, 0))
    else:
        kt, lat = rings(n)
        d = np.abs(a[:, 2][:, None] - lat)
        check(np.all(d.min(1) < 1e-9), 'improved: point between the rings')
        j = d.argmin(1)
        cnt = np.bincount(j, minlength=kt)
        share = n * np.sin(lat) / np.sin(lat).sum()
        check(np.all(np.abs(cnt - share) <= 2.0), lambda:
              f'improved: rings of {cnt.tolist()} points, expected '
              f'{share.tolist()}')
        for q in range(kt):
            ph = np.sort(a[j == q, 1] % (2 * np.pi))
            gap = np.diff(np.append(ph, ph[0] + 2 * np.pi))
            close(gap, np.full(len(ph), 2 * np.pi / len(ph)), 0, 1e-8,
                  f'improved: ring {q} is not evenly spaced')
    even = f in ('golden', 'improved') or (
        f == 'projected' and k <= r <= 3 * k)
    if even and n >= 6:
        caps(b, n, 1.8, rng, f)
    if f == 'grid' and r >= 4 and k >= 4:
        # even once weighted with the area of the cells
        w = np.sin(a[:, 2])
        ax = np.eye(3)[rng.integers(3)]
        m2 = (w * (b @ ax) ** 2).sum() / w.sum()
        check(abs(m2 - 1 / 3) < 0.05,
              f'grid: second moment along {ax} is {m2}')
    if f in ('golden', 'improved') and 6 <= n <= 700:
        d = np.linalg.norm(b[:, None] - b[None], axis=-1)
        d[np.arange(n), np.arange(n)] = 9
        check(d.min() * np.sqrt(n) > 1.8, lambda: f'{f}: two of {n} points '
              f'are only {d.min()} apart')
    if not c['jitter']:
        return
    ja, jb = pair(jitter=True)
    if n > 1:
        np.random.seed((c['seed'] + 1) % 2 ** 31)
        o = arr(fn(*args, jitter=True), 3)
        check(not np.allclose(o, jb), 'jitter is not random')
    if f in ('golden', 'projected'):
        dx = wrap((np.cos(ja[:, 2]) - np.cos(a[:, 2])) / 2)
        dy = wrap((ja[:, 1] - a[:, 1]) / (2 * np.pi))
        bound = np.array([.5, .5]) / np.sqrt(n) if f == 'golden' else \
            np.array([.5 / k, .5 / r])
        randomness(np.stack([dx, dy], -1), bound, n, f'{f} jitter')
    else:
        dphi = wrap(ja[:, 1] - a[:, 1], 2 * np.pi)
        dth = ja[:, 2] - a[:, 2]
        if f == 'grid':
            bp, bt = np.full(n, np.pi / r), np.pi / (2 * k)
        else:
            bp, bt = np.pi / cnt[j], np.pi / (2 * kt)
        randomness(np.stack([dphi / bp, dth / bt], -1), np.ones(2), n,
                   f'{f} jitter')
    if even and n >= 6:
        caps(jb, n, 3.0, rng, f'{f} jittered')


SUBS = [Sub('square', squares(), run_square, quick=1200, thorough=20000,
            corpus=[dict(f='regular', rows=1, cols=1, offset=False,
                         jitter=True, seed=3)]),
        Sub('sphere', spheres(), run_sphere, quick=1500, thorough=25000,
            corpus=[dict(f='improved', n=216, jitter=False, seed=1),
                    dict(f='grid', rows=1, cols=1, jitter=True, seed=1)] +
            [dict(f=f, n=n, jitter=True, seed=n)
             for f in ('golden', 'improved')
             for n in (6, 7, 10, 50, 100, 1000, 2500)])]
