"""P22 Kinematic constraints mask exactly the inaccessible bins"""
import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import gen
from harness.core import Skip, Sub, check, close, raises
from harness.gen import nice_float, small_seed

RULE = ('A case is a 2-D spectrum (1-25 |q| bins times 1-25 energy bins, '
        'edges or centres on either axis, regular or irregular, any units, '
        'negative and zero energies, NaN already present), a fixed incident '
        'or final energy in any unit and an angle range (any order, '
        'negative, over several turns, empty or full).  Every bin is '
        'compared with the momentum triangle scanned over the angles.  '
        'Non-trivial: some bins are reachable and some are not.')
TECHNIQUE = ('property-based testing: independent kinematic oracle by angle '
             'scan, metamorphic relations')
ASSUMPTIONS = ['a bin is reachable if any |q| between its edges is, at its '
               'central energy', 'columns within rounding of zero incident '
               'or final energy and bins within rounding of the limits are '
               'not judged']
# hbar**2 / (2 m_n) in meV angstrom**2
H2M = (1.054571817e-34) ** 2 / (2 * 1.67492749804e-27) \
    / 1.602176634e-22 * 1e20
QUNIT = {'1/angstrom': 1.0, '1/bohr': 1 / gen.BOHR_ANG, '1/nm': 0.1}


@st.composite
def cases(draw):
    special = [0., 5., 30., 90., 135., 180., -180., 360., -90., 270., 400.]
    ang = st.one_of(st.sampled_from(special), nice_float(-400, 800))
    return dict(
        nx=draw(st.one_of(st.integers(1, 25), st.integers(1, 25),
                          st.sampled_from([70, 300]))),
        ny=draw(st.one_of(st.integers(1, 25), st.integers(1, 25),
                          st.sampled_from([80, 400]))),
        x_edges=draw(st.booleans()), y_edges=draw(st.booleans()),
        regular=draw(st.booleans()), seed=draw(small_seed),
        qmax=draw(st.sampled_from([0.5, 3.0, 8.0, 20.0])),
        emin=draw(st.sampled_from([-2.0, -0.5, 0.0, 0.0, 0.3])),
        emax=draw(st.sampled_from([0.4, 0.9, 1.0, 1.5])),
        e=draw(st.sampled_from([0.5, 2.0, 3.5, 25.0, 80.0, 300.0])),
        fixed=draw(st.sampled_from(['e_i', 'e_f'])),
        e_unit=draw(st.sampled_from(['meV', 'THz', '1/cm', 'eV'])),
        x_unit=draw(st.sampled_from(sorted(QUNIT))),
        y_unit=draw(st.sampled_from(['meV', 'THz', '1/cm', 'hartree'])),
        angles=draw(st.one_of(
            st.none(), st.tuples(ang, ang).map(list),
            st.sampled_from([[0., 180.], [0., 360.], [-180., 180.],
                             [5., 5.], [3., 135.], [-30., 10.],
                             [170., 190.], [350., 370.], [-10., 200.]]))),
        nan=draw(st.booleans()), ints=draw(st.booleans()),
        meta=draw(st.booleans()))


def axis(rng, n, edges, regular, lo, hi):
    k = n + edges
    if k == 1:
        return np.array([(lo + hi) / 2])
    if regular:
        return np.linspace(lo, hi, k)
    s = np.cumsum(rng.uniform(0.2, 1.5, k))
    return lo + (hi - lo) * (s - s[0]) / (s[-1] - s[0])


def edges_of(v, is_edges):
    if is_edges:
        return v
    return np.concatenate([v[:1], (v[1:] + v[:-1]) / 2, v[-1:]])


def cos_range(a, b):
    """largest and smallest cosine for angles between a and b degrees"""
    lo, hi = sorted((a, b))
    n = np.arange(np.ceil(lo / 180 - 1e-12), np.floor(hi / 180 + 1e-12) + 1)
    c = np.concatenate([np.cos(np.radians([lo, hi])),
                        np.where(n % 2 == 0, 1., -1.)])
    return c.max(), c.min()


def q_limits(c, w):
    """limits of |q| at each energy transfer w (meV), nan if impossible;
    and the energies of the two sides"""
    ei = np.full_like(w, c['e']) if c['fixed'] == 'e_i' else c['e'] + w
    ef = ei - w if c['fixed'] == 'e_i' else np.full_like(w, c['e'])
    ok = (ei >= 0) & (ef >= 0)
    with np.errstate(invalid='ignore'):
        ki, kf = np.sqrt(ei / H2M), np.sqrt(ef / H2M)
    hi_c, lo_c = cos_range(*(c['angles'] or [0., 180.]))

    def q(cos):
        # (ki - kf)**2 + 2 ki kf (1 - cos), without cancellation
        return np.sqrt((ki - kf) ** 2 + 2 * ki * kf * (1 - cos))
    return q(hi_c), q(lo_c), ok, ei, ef


def build(c):
    import euphonic as E
    rng = np.random.default_rng([c['seed'], 81])
    x = axis(rng, c['nx'], c['x_edges'], c['regular'], 0., c['qmax'])
    y = axis(rng, c['ny'], c['y_edges'], c['regular'], c['emin'] * c['e'],
             c['emax'] * c['e'])
    z = rng.uniform(-1, 3, (c['nx'], c['ny']))
    if c['ints']:
        z = np.rint(z).astype(int)
    elif c['nan']:
        z = np.where(rng.uniform(size=z.shape) < .1, np.nan, z)
    kw = {}
    if c['meta']:
        kw = dict(x_tick_labels=[(0, 'A')], metadata={'label': 'm'})
    s = E.Spectrum2D(E.Quantity(x / QUNIT[c['x_unit']], c['x_unit']),
                     E.Quantity(y / gen.EUNIT[c['y_unit']], c['y_unit']),
                     E.Quantity(z, 'mbarn/meV'), **kw)
    return s, x, y, z.astype(float)


def call(c, s, **over):
    import euphonic as E
    from euphonic.spectra import apply_kinematic_constraints
    e = E.Quantity(c['e'] / gen.EUNIT[c['e_unit']], c['e_unit'])
    kw = {c['fixed']: e}
    if c['angles'] is not None:
        kw['angle_range'] = tuple(c['angles'])
    kw.update(over)
    return apply_kinematic_constraints(s, **kw)


def run(c, t):
    s, x, y, z = build(c)
    xe = edges_of(x, c['x_edges'])
    w = y if not c['y_edges'] else (y[1:] + y[:-1]) / 2
    before = snapshot(s)
    r = call(c, s)
    same(before, snapshot(s), 'input spectrum')
    check(r is not s, 'input spectrum returned')
    check(type(r) is type(s), f'{type(r).__name__} returned')
    got = r.z_data.to('mbarn/meV').magnitude
    check(got.shape == z.shape, f'shape {got.shape}')
    for a in ('x_data', 'y_data'):
        check(getattr(r, a).units == getattr(s, a).units, f'unit of {a}')
        close(getattr(r, a).magnitude, getattr(s, a).magnitude, 1e-13, 0, a)
    check(r.z_data.units == s.z_data.units, 'unit of z_data')
    check(r.x_tick_labels == s.x_tick_labels, 'x_tick_labels')
    check(r.metadata == s.metadata, 'metadata')
    q0, q1, ok, ei, ef = q_limits(c, w)
    k = np.sqrt((np.abs(ei) + np.abs(ef)) / H2M)
    tol = 1e-6 * k + 1e-9
    lo, hi = xe[:-1, None], xe[1:, None]
    with np.errstate(invalid='ignore'):
        reach = ok & (hi >= q0 + tol) & (lo <= q1 - tol)
        # same bin contains both limits, or limits of an empty angle range
        inside = ok & (hi > q0 + tol) & (lo < q1 - tol)
        lost = ~ok | (hi < q0 - tol) | (lo > q1 + tol)
    unsure = (np.abs(ei) < 1e-8 * c['e']) | (np.abs(ef) < 1e-8 * c['e'])
    reach, lost = inside & ~unsure, lost & ~unsure
    gone = np.isnan(got)
    t.hit(reach.any() and lost.any())
    t.tag(c['fixed'], 'default angles' if c['angles'] is None else 'angles',
          'x edges' if c['x_edges'] else 'x centres',
          'y edges' if c['y_edges'] else 'y centres')

    def where(m):
        i, j = np.argwhere(m)[0]
        return (f'bin |q| {xe[i]}..{xe[i + 1]} 1/angstrom at {w[j]} meV, '
                f'{c["fixed"]}={c["e"]} meV, angles {c["angles"]}: '
                f'reachable |q| are {q0[j]}..{q1[j]}')
    bad = reach & ~((np.abs(got - z) <= 1e-12 * np.abs(z)) |
                    (np.isnan(z) & gone))
    check(not bad.any(), lambda: 'reachable bin changed: ' + where(bad))
    bad = lost & ~gone
    check(not bad.any(), lambda: 'unreachable bin kept: ' + where(bad))
    # never anything but the old value or NaN
    with np.errstate(invalid='ignore'):
        bad = ~gone & ~(np.abs(got - z) <= 1e-12 * np.abs(z))
    check(not bad.any(), lambda: 'value changed: ' + where(bad))
    # relations
    again = call(c, r).z_data.to('mbarn/meV').magnitude
    close(again, got, 1e-12, 0, 'applying the constraints twice')
    if c['angles'] is not None:
        a, b = c['angles']
        rev = call(c, s, angle_range=(b, a)).z_data.to('mbarn/meV').magnitude
        close(rev, got, 1e-12, 0, 'order of the angle range')
        ext = np.isnan(call(c, s, angle_range=(
            min(a, b) - 20, max(a, b) + 20)).z_data.magnitude)
        check(not np.any(ext & ~gone & ~np.isnan(z)),
              'a wider angle range loses bins')
    # a copy: writing to the result leaves the input alone
    r.z_data = r.z_data * 0
    same(before, snapshot(s), 'input after change of the result')


@st.composite
def error_cases(draw):
    c = draw(cases())
    c['error'] = draw(st.sampled_from(['both', 'none', 'x', 'y']))
    return c


def run_errors(c, t):
    import euphonic as E
    from euphonic.spectra import apply_kinematic_constraints
    s = build(c)[0]
    e = E.Quantity(c['e'], 'meV')
    t.hit()
    t.tag(c['error'])
    if c['error'] == 'both':
        raises(ValueError, lambda: apply_kinematic_constraints(
            s, e_i=e, e_f=e), 'e_i and e_f')
    elif c['error'] == 'none':
        raises(ValueError, lambda: apply_kinematic_constraints(s),
               'neither e_i nor e_f')
    else:
        x, y = s.x_data, s.y_data
        if c['error'] == 'x':
            x = E.Quantity(x.magnitude, 'kg')
        else:
            y = E.Quantity(y.magnitude, 'kg')
        s = E.Spectrum2D(x, y, s.z_data)
        raises(ValueError, lambda: call(c, s), f'{c["error"]} in kg')


SUBS = [Sub('mask', cases(), run, quick=2500, thorough=60000),
        Sub('errors', error_cases(), run_errors, quick=60, thorough=300)]
