"""P32 Brille interpolation reproduces the force-constants phonons"""
import contextlib
import copy
import io
import itertools
import os
import pickle
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.p08 import same as unmodified, snapshot
from harness import gen, ref
from harness.core import Skip, Sub, Violation, check, close, raises
from harness.gen import nice_float, small_seed

os.environ['MPLBACKEND'] = 'Agg'

RULE = ('A case is symmetric force constants of a generated crystal (space '
        'group from P1 to Fm-3m), a grid type and size and interpolation '
        'options; the interpolator built from it is compared with Brille '
        'used directly by this check (grid contents, interpolated values), '
        'with direct interpolation (accuracy, refinement) and with itself '
        'at symmetry-equivalent q-points.  Non-trivial: non-zero '
        'frequencies and at least one generic q-point.')
TECHNIQUE = ('property-based testing: differential (Brille, Fourier '
             'interpolation) and metamorphic (symmetry, refinement)')
ASSUMPTIONS = ['Brille itself fails (error or crash) for some cells and '
               'grids: these are outside the domain if Brille used directly '
               'fails in the same way',
               'Brille is not exact at grid points on the zone boundary, so '
               'what is compared there is what the grid stores']
MAX_WORKERS = 8
LATT = ('cubic', 'fcc', 'bcc', 'hex', 'tetra', 'ortho', 'mono', 'tri')
SH = np.array(list(itertools.product((-1, 0, 1), repeat=3)))
CLASSES = {'trellis': 'BZTrellisQdc', 'mesh': 'BZMeshQdc',
           'nest': 'BZNestQdc'}


def symmetric_model(c):
    """force constants invariant under the space group: central and
    transverse springs depending on species and distance, the supercell a
    multiple of the cell"""
    cr = c['crystal']
    m = gen.crystal_model(cr)
    S = np.eye(3, dtype=int) * c['k']
    if not gen.ws_ok(S @ m.cell):
        raise Skip('skewed cell')
    m.sc_matrix = S
    m.origins, m.index = gen.cosets(S, 'box', 0)
    N, n = len(m.origins), m.n_atoms
    fc = np.zeros((N, n, 3, n, 3))
    rng = np.random.default_rng([c['fseed'], 32])
    # isotopes of a species must have one mass for the symmetry to hold
    m.mass_amu = np.array([gen.MASS[s] for s in m.atom_type])
    m.mass = m.mass_amu * gen.AMU_ME
    sp = {s: rng.uniform(.5, 1.5) for s in sorted(set(m.atom_type))}
    t = rng.uniform(.1, .4)
    sc = SH @ S @ m.cell
    for o in range(N):
        for i in range(n):
            for j in range(n):
                if o == 0 and i == j:
                    continue
                v = (m.origins[o] + m.atom_r[j] - m.atom_r[i]) @ m.cell + sc
                d = np.linalg.norm(v, axis=1)
                u = v[d < d.min() + 1e-6] / d.min()
                f = (.03 * sp[m.atom_type[i]] * sp[m.atom_type[j]]
                     * np.exp(-.5 * (d.min() - 4)))
                K = f * (np.einsum('ai,aj->ij', u, u) / len(u)
                         + t * np.eye(3))
                fc[o, i, :, j, :] -= K
                fc[0, i, :, i, :] += K
    m.fc = fc.reshape(N, 3 * n, 3 * n)
    m.born = m.eps = None
    if c['z'] and n > 1:
        # charges of the species, neutral in total; isotropic dielectric
        q = {s: rng.uniform(-1, 1) for s in sorted(set(m.atom_type))}
        z = np.array([q[s] for s in m.atom_type])
        z = z - z.mean()
        m.born = z[:, None, None] * np.eye(3) * c['z']
        m.eps = np.eye(3) * 2.5
    return m


@st.composite
def options(draw):
    o = {}
    if draw(st.booleans()):
        o['asr'] = draw(st.sampled_from(['reciprocal', 'realspace', None]))
    if draw(st.integers(0, 3)) == 0:
        o['dipole'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        o['dipole_parameter'] = draw(nice_float(.7, 1.4))
    if draw(st.integers(0, 5)) == 0:
        o['splitting'] = draw(st.booleans())
    if draw(st.integers(0, 5)) == 0:
        o['insert_gamma'] = True
    if draw(st.integers(0, 5)) == 0:
        o['reduce_qpts'] = True
    o['n_threads'] = 1
    return o


@st.composite
def sources(draw, polar=True):
    return dict(crystal=draw(gen.crystals(
        1, 4, special=draw(st.sampled_from([True, True, False])),
        lattices=LATT)), k=draw(st.sampled_from([1, 2, 2])),
        fseed=draw(small_seed),
        z=draw(st.sampled_from([0, 0, 1., .5])) if polar else 0)


@st.composite
def grids(draw):
    g = dict(type=draw(st.sampled_from(['trellis', 'trellis', 'mesh',
                                        'nest'])),
             how=draw(st.sampled_from(['npts', 'npts', 'density', 'kwargs',
                                       'both', 'default type'])),
             n=draw(st.integers(20, 150)))
    if g['how'] == 'default type':
        g['type'] = 'trellis'
    return g


def isolated(f):
    """f() in a child process: Brille can bring down the process"""
    import brille  # noqa: F401  (once, not in every child)
    import euphonic.brille  # noqa: F401
    import euphonic.cli.powder_map  # noqa: F401
    import spglib  # noqa: F401
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                out = ('ok', f())
            except Exception as e:
                out = ('error', (type(e).__name__, str(e)[:300]))
            with os.fdopen(w, 'wb') as h:
                pickle.dump(out, h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        return 'crash', status
    return pickle.loads(data)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def direct(fc, q, o):
    kw = {k: v for k, v in o.items() if k not in ('insert_gamma',
                                                  'reduce_qpts')}
    m = quiet(fc.calculate_qpoint_phonon_modes, q, insert_gamma=False,
              reduce_qpts=False, **kw)
    return m


# -------------------------------------------------- Brille used directly

def grid_in(b):
    """The Brille grid an interpolator holds, whatever it calls it"""
    for g in vars(b).values():
        if hasattr(g, 'rlu') and hasattr(g, 'ir_interpolate_at'):
            return g
    raise Skip('no grid')


def brille_lattice(fc):
    import brille as br
    import spglib
    cell = fc.crystal.to_spglib_cell()
    ds = spglib.get_symmetry_dataset(cell)
    ds = ds if isinstance(ds, dict) else ds.__dict__
    lat = br.Lattice(cell[0], symmetry=br.Symmetry(
        ds['rotations'], ds['translations']),
        basis=br.Basis(cell[1], cell[2]), snap_to_symmetry=True)
    return br.BrillouinZone(lat)


def grid_arguments(g, vol):
    """-> (keyword arguments of from_force_constants, those of the grid
    class) documented to be equivalent"""
    t, n, how = g['type'], g['n'], g['how']
    kw = {} if how == 'default type' else dict(grid_type=t)
    dens = max(1, int(n / vol))
    own = {'trellis': lambda v, d: dict(node_volume_fraction=v,
                                        always_triangulate=False),
           'mesh': lambda v, d: dict(max_size=v, max_points=d),
           'nest': lambda v, d: dict(number_density=d)}[t]
    if how == 'density':
        kw['grid_density'] = dens
        return kw, own(1 / dens, int(dens * vol))
    if how in ('kwargs', 'both'):
        a = {'trellis': dict(node_volume_fraction=vol / n,
                             always_triangulate=bool(n % 2)),
             'mesh': dict(max_size=vol / n, max_points=n),
             'nest': dict(number_density=n)}[t]
        kw['grid_kwargs'] = dict(a)
        if how == 'both':
            kw['grid_npts'] = 7
        return kw, a
    kw['grid_npts'] = n
    return kw, own(vol / n, n)


def brille_direct(fc, g, o):
    import brille as br
    bz = brille_lattice(fc)
    kw, own = grid_arguments(g, bz.ir_polyhedron.volume)
    grid = getattr(br, CLASSES[g['type']])(bz, **own)
    m = direct(fc, grid.rlu, o)
    n = m.crystal.n_atoms
    nq = m.n_qpts
    grid.fill(m.frequencies.to('hartree').magnitude.reshape(nq, 3 * n, 1),
              (1,), (1., 0., 0.),
              np.ascontiguousarray(m.eigenvectors.reshape(nq, 3 * n, 3 * n)),
              (0, 3 * n, 0, 2, 1), (0., 1., 0.))
    return grid, kw


def dyn(m):
    return dyn_of(m.frequencies.to('meV').magnitude, m.eigenvectors)


def dyn_of(w, e):
    e = e.reshape(len(w), w.shape[1], -1)
    return np.einsum('qm,qmi,qmj->qij', np.sign(w) * w ** 2, e, e.conj())


def built(c):
    m = symmetric_model(c['src'])
    if ref.ws_images(m)[1]:
        raise Skip('image on the tolerance boundary')
    return m, gen.make_fc(m)


def settle(res, again=None):
    """result of an isolated run; failures of Brille itself are not judged:
    again() is the same with Brille used directly"""
    if res[0] == 'ok':
        return res[1]
    if again is not None:
        r = isolated(again)
        if r[0] != 'ok':
            raise Skip('Brille fails')
        raise Failed(f'{res[0]} {res[1]}, Brille used directly does not')
    return res


class Failed(Exception):
    pass


def steady(run):
    """the failures of Brille depend on rounding: one counts only if the
    same happens for slightly larger crystals"""
    def f(c, t):
        for k in range(4):
            d = copy.deepcopy(c)
            d['src']['crystal']['a'] *= 1 + 1e-5 * k
            try:
                return run(d, t)
            except Failed as e:
                last = e
        raise Violation(str(last))
    return f


def repeated(run):
    """Brille's threads now and then make it return other eigenvectors for
    the same arguments: a difference counts only if it comes back every
    time"""
    def f(c, t):
        for _ in range(4):
            try:
                return run(c, t)
            except Violation as e:
                last = e
        raise last
    return f


# ---------------------------------------------------------------- contents

@st.composite
def content_cases(draw):
    return dict(src=draw(sources()), grid=draw(grids()), o=draw(options()),
                q=[[round(draw(nice_float(-1.6, 1.6)), 3) for _ in range(3)]
                   for _ in range(draw(st.integers(1, 6)))],
                par=draw(st.sampled_from([None, (False, 1), (True, 2)])))


@repeated
@steady
def run_content(c, t):
    m, fc = built(c)
    o = c['o']
    q = np.array(c['q'])

    def work():
        from euphonic import QpointFrequencies, QpointPhononModes
        from euphonic.brille import BrilleInterpolator
        vol = brille_lattice(fc).ir_polyhedron.volume
        kw, _ = grid_arguments(c['grid'], vol)
        before = repr((kw, o)), snapshot(fc)
        b = quiet(BrilleInterpolator.from_force_constants, fc,
                  interpolation_kwargs=o, **kw)
        unmodified(before[1], snapshot(fc), 'force constants')
        same = repr((kw, o)) == before[0]
        par = {} if c['par'] is None else dict(
            useparallel=c['par'][0], threads=c['par'][1])
        q0 = q.copy()
        x = b.calculate_qpoint_phonon_modes(q, **par)
        f = b.calculate_qpoint_frequencies(q, **par)
        one = b.calculate_qpoint_phonon_modes(q[-1:], useparallel=False,
                                              threads=1)
        return dict(
            same=same, qsame=np.array_equal(q, q0),
            types=(type(x) is QpointPhononModes,
                   type(f) is QpointFrequencies),
            crystal=x.crystal.to_dict(), fcrystal=f.crystal.to_dict(),
            bcrystal=b.crystal.to_dict(), q=x.qpts, fq=f.qpts, w=x.weights,
            fw=f.weights, unit=(str(x.frequencies.units),
                                str(f.frequencies.units)),
            freq=x.frequencies.magnitude, ffreq=f.frequencies.magnitude,
            vec=x.eigenvectors, one=one.frequencies.magnitude,
            rlu=np.array(grid_in(b).rlu), values=np.array(grid_in(b).values),
            vectors=np.array(grid_in(b).vectors), kind=type(grid_in(b)).__name__)

    def mine():
        grid, _ = brille_direct(fc, c['grid'], o)
        v, e = grid.ir_interpolate_at(np.ascontiguousarray(q), False, 1)
        return dict(rlu=np.array(grid.rlu), values=np.array(grid.values),
                    vectors=np.array(grid.vectors), v=v, e=e)

    r = settle(isolated(work), mine)
    e = settle(isolated(mine), mine)
    g = c['grid']
    t.tag(g['type'], g['how'], 'polar' if m.born is not None else 'plain')
    n = m.n_atoms
    check(r['same'], 'arguments modified')
    check(r['qsame'], 'q-points modified')
    check(all(r['types']), f'types {r["types"]}')
    check(r['kind'] == CLASSES[g['type']], f'{r["kind"]} for {g["type"]}')
    # what the grid holds
    check(r['rlu'].shape == e['rlu'].shape, f'{len(r["rlu"])} grid points, '
          f'Brille with the documented arguments has {len(e["rlu"])}')
    close(r['rlu'], e['rlu'], 1e-9, 1e-9, 'grid points')
    d = direct(fc, r['rlu'], o)
    w = d.frequencies.to('hartree').magnitude
    top = np.abs(w).max()
    close(r['values'].reshape(w.shape), w, 1e-9, 1e-9 * top + 1e-15,
          'frequencies held at the grid points')
    ev = d.eigenvectors.reshape(len(w), 3 * n, 3 * n)
    got = r['vectors'].reshape(ev.shape)
    close(np.einsum('qm,qmi,qmj->qij', w, got, got.conj()),
          np.einsum('qm,qmi,qmj->qij', w, ev, ev.conj()), 1e-8,
          1e-8 * top + 1e-15, 'eigenvectors held at the grid points')
    # what is returned
    import euphonic as E
    cr = fc.crystal.to_dict()
    for k in ('crystal', 'fcrystal', 'bcrystal'):
        for a in cr:
            check(np.array_equal(np.asarray(cr[a]), np.asarray(r[k][a])),
                  f'{k} {a} differs')
    for k in ('q', 'fq'):
        check(np.array_equal(r[k], q), f'q-points {r[k]}, asked for {q}')
    for k in ('w', 'fw'):
        close(r[k], np.full(len(q), 1 / len(q)), 1e-12, 0, 'weights')
    check(all(E.ureg(u).units == E.ureg('meV').units for u in r['unit']),
          f'units {r["unit"]}')
    check(r['freq'].shape == (len(q), 3 * n)
          and r['vec'].shape == (len(q), 3 * n, n, 3), 'shapes')
    fe = e['v'].reshape(len(q), 3 * n) * gen.HARTREE_MEV
    tm = top * gen.HARTREE_MEV
    close(r['freq'], fe, 1e-7, 1e-7 * tm + 1e-12,
          'interpolated frequencies')
    close(r['ffreq'], r['freq'], 1e-12, 0,
          'frequencies of calculate_qpoint_frequencies')
    close(r['one'][0], r['freq'][-1], 1e-9, 1e-9 * tm,
          'a q-point depends on the others')
    ee = e['e'].reshape(len(q), 3 * n, n, 3)
    close(proj(r['freq'], r['vec']), proj(fe, ee), 1e-6, 1e-6 * tm + 1e-12,
          'interpolated eigenvectors')
    t.hit(tm > 1)


def proj(f, e):
    e = e.reshape(len(f), f.shape[1], -1)
    return np.einsum('qm,qmi,qmj->qij', f, e, e.conj())


# ---------------------------------------------------------------- symmetry

@st.composite
def symmetry_cases(draw):
    return dict(src=draw(sources(False)), grid=draw(grids()),
                seed=draw(small_seed), o=dict(n_threads=1))


@steady
def run_symmetry(c, t):
    m, fc = built(c)
    rng = np.random.default_rng([c['seed'], 33])
    ops = ref.symmetry_ops(m.cell, m.atom_r, m.atom_type)
    # the tolerance of Brille/spglib and mine must agree
    if len(ops) != len(ref.symmetry_ops(m.cell, m.atom_r, m.atom_type, 1e-3)):
        raise Skip('nearly symmetric')
    n = m.n_atoms
    q = rng.uniform(-1.3, 1.3, (12, 3))
    pick = [ops[i] for i in rng.permutation(len(ops))[:4]]
    pts = [q, q + rng.integers(-2, 3, q.shape)] + [
        q @ np.linalg.inv(W) for W, _, _ in pick]

    def work(direct_too=False):
        from euphonic.brille import BrilleInterpolator
        vol = brille_lattice(fc).ir_polyhedron.volume
        kw, _ = grid_arguments(c['grid'], vol)
        b = quiet(BrilleInterpolator.from_force_constants, fc,
                  interpolation_kwargs=c['o'], **kw)
        out = []
        for p in pts:
            x = b.calculate_qpoint_phonon_modes(p, useparallel=False,
                                                threads=1)
            out.append((x.frequencies.magnitude, dyn(x)))
        return out

    def mine():
        grid, _ = brille_direct(fc, c['grid'], c['o'])
        out = []
        for p in pts:
            v, e = grid.ir_interpolate_at(np.ascontiguousarray(p), False, 1)
            out.append((v.reshape(len(p), 3 * n) * gen.HARTREE_MEV, e))
        return out

    r = settle(isolated(work), mine)
    d = [direct(fc, p, {'n_threads': 1}) for p in pts]
    d = [(x.frequencies.magnitude, dyn(x)) for x in d]
    top = d[0][0].max()
    if top < 1:
        raise Skip('soft')
    t.tag(c['grid']['type'], f'{len(ops)} operations')
    t.hit(len(ops) > 1)

    def compare(x, tol, what):
        scale = np.abs(x[0][1]).max()
        f0, D0 = x[0]
        close(x[1][0], f0, tol, tol * top, f'{what}: frequencies at q + G')
        close(x[1][1], D0, tol, tol * scale, f'{what}: eigenvectors at '
              'q + G')
        A = D0.reshape(len(q), n, 3, n, 3)
        for (W, w, p), q2, (f2, D2) in zip(pick, pts[2:], x[2:]):
            close(f2, f0, tol, tol * top, f'{what}: frequencies at a '
                  'symmetry-equivalent q-point')
            T = np.rint(m.atom_r @ W.T + w - m.atom_r[p])
            R = ref.cartesian_rotation(m.cell, W)
            ex = np.zeros_like(A)
            for i in range(n):
                for j in range(n):
                    ph = np.exp(2j * np.pi * (q2 @ (T[j] - T[i])))
                    ex[:, p[i], :, p[j], :] = np.einsum(
                        'ab,qbc,dc,q->qad', R, A[:, i, :, j], R, ph)
            close(D2, ex.reshape(D2.shape), tol, tol * scale,
                  f'{what}: eigenvectors at a symmetry-equivalent q-point')
    try:
        compare(d, 1e-6, 'direct')
    except Violation:
        raise Skip('direct interpolation is not symmetric')
    e = settle(isolated(mine), mine)
    e = [(f, dyn_of(f, v)) for f, v in e]
    try:
        compare(e, 1e-6, 'Brille used directly')
    except Violation:
        raise Skip('Brille used directly is not symmetric')
    compare(r, 1e-5, 'Brille')


# -------------------------------------------------------------- refinement

@st.composite
def refine_cases(draw):
    return dict(src=draw(sources(False)),
                type=draw(st.sampled_from(['trellis', 'trellis', 'mesh',
                                           'nest'])),
                dens=draw(st.integers(0, 3)) == 0, seed=draw(small_seed))


@steady
def run_refine(c, t):
    m, fc = built(c)
    rng = np.random.default_rng([c['seed'], 34])
    q = rng.uniform(-.5, .5, (60, 3))
    d = direct(fc, q, {'n_threads': 1}).frequencies.magnitude
    top = d.max()
    if top < 1:
        raise Skip('soft')
    err = []
    N = []
    for n in (40, 1500):
        g = dict(type=c['type'], n=n, how='density' if c['dens'] else 'npts')

        def work():
            from euphonic.brille import BrilleInterpolator
            vol = brille_lattice(fc).ir_polyhedron.volume
            kw, _ = grid_arguments(g, vol)
            b = quiet(BrilleInterpolator.from_force_constants, fc,
                      interpolation_kwargs=dict(n_threads=1), **kw)
            return (b.calculate_qpoint_frequencies(
                q, useparallel=False, threads=1).frequencies.magnitude,
                len(grid_in(b).rlu))

        def mine():
            grid, _ = brille_direct(fc, g, dict(n_threads=1))
            return grid.ir_interpolate_at(q, False, 1)
        f, k = settle(isolated(work), mine)
        err.append(np.abs(np.sort(f, 1) - np.sort(d, 1)).mean() / top)
        N.append(k)
    t.tag(c['type'], 'error of fine grid 1e%d' % np.ceil(
        np.log10(err[1] + 1e-16)))
    t.hit(err[0] > 1e-6)
    check(N[1] > N[0], f'{N} grid points for more and more asked')
    check(err[0] < COARSE, f'mean error {err[0]} of a grid of {N[0]} points')
    check(err[1] < FINE, f'mean error {err[1]} of a grid of {N[1]} points')
    check(err[1] <= max(.7 * err[0], 2e-3), f'mean error {err[0]} with {N[0]}'
          f' points, {err[1]} with {N[1]}')


COARSE, FINE = .12, .04


# --------------------------------------------------------------- arguments

@st.composite
def bad_cases(draw):
    return dict(src=draw(sources(False)), what=draw(st.sampled_from(
        ['type', 'unfilled', 'other crystal', 'no crystal', 'no grid',
         'fc', 'kwargs'])), word=draw(st.sampled_from(
             ['', 'Trellis', 'grid', 'meshes', None, 3])))


def run_bad(c, t):
    m, fc = built(c)
    what = c['what']
    t.tag(what)
    t.hit()

    def work():
        import brille as br
        from euphonic import Crystal, ureg
        from euphonic.brille import BrilleInterpolator as B
        if what == 'type':
            quiet(B.from_force_constants, fc, grid_type=c['word'],
                  grid_npts=20)
        elif what == 'kwargs':
            quiet(B.from_force_constants, fc, grid_npts=20,
                  interpolation_kwargs=dict(no_such_argument=1))
        elif what == 'fc':
            quiet(B.from_force_constants, fc.crystal, grid_npts=20)
        else:
            g, _ = brille_direct(fc, dict(type='trellis', n=30, how='npts'),
                                 dict(n_threads=1))
            cr = fc.crystal
            if what == 'unfilled':
                bz = brille_lattice(fc)
                g = br.BZTrellisQdc(bz, **grid_arguments(
                    dict(type='trellis', n=30, how='npts'),
                    bz.ir_polyhedron.volume)[1])
            elif what == 'other crystal':
                k = cr.n_atoms + 1
                cr = Crystal(cr.cell_vectors, np.arange(3 * k).reshape(
                    k, 3) / 10, np.array(['H'] * k), np.ones(k) * ureg('amu'))
            elif what == 'no crystal':
                cr = cr.to_dict()
            elif what == 'no grid':
                g = g.rlu
            B(cr, g)

    def usable():
        brille_direct(fc, dict(type='trellis', n=30, how='npts'),
                      dict(n_threads=1))
    if isolated(usable)[0] != 'ok':
        raise Skip('Brille fails')
    r = isolated(work)
    if r[0] == 'crash' or r[1][0] == 'RuntimeError' and what != 'type':
        raise Skip('Brille fails')
    check(r[0] == 'error', f'{what}: {r[0]}')
    if what == 'type':
        check(r[1][0] == 'ValueError', f'grid type {c["word"]!r}: {r[1]}')
    elif what != 'fc':
        check(r[1][0] in ('ValueError', 'TypeError'), f'{what}: {r[1]}')


# ------------------------------------------------------------------- tools

@st.composite
def tool_cases(draw):
    return dict(src=draw(sources()), grid=draw(st.sampled_from(
        ['trellis', 'mesh', 'nest'])), n=draw(st.integers(30, 120)),
        density=draw(st.integers(0, 2)) == 0, asr=draw(st.booleans()),
        threads=draw(st.sampled_from([1, 1, 2])),
        w=draw(st.sampled_from(['dos', 'coherent', 'coherent-dos'])),
        qmax=draw(nice_float(.8, 2)),
        T=draw(st.sampled_from([None, 5., 300.])))


@steady
def run_tool(c, t):
    """euphonic-powder-map --use-brille against library calls"""
    m, fc = built(c)
    from checks import p30
    g = dict(type=c['grid'], n=c['n'], how='density' if c['density']
             else 'npts')

    def args():
        vol = brille_lattice(fc).ir_polyhedron.volume
        return grid_arguments(g, vol)[0]

    def work():
        import euphonic as E
        from euphonic.brille import BrilleInterpolator as B
        from euphonic.util import mp_grid
        from euphonic.powder import (sample_sphere_dos, sample_sphere_pdos,
                                     sample_sphere_structure_factor)
        kw = args()
        with p30.Scratch() as d:
            file, out = d / 'fc.json', d / 'out.json'
            p30.save(fc, file)
            a = [file, '--use-brille', '--brille-grid-type', c['grid'],
                 '--q-max', c['qmax'], '--q-spacing', c['qmax'] / 2.5,
                 '--npts', 9, '-w', c['w'], '--ebins', 12,
                 '--n-threads', c['threads'], '--save-json', out]
            if c['density']:
                a += ['--brille-npts-density', kw['grid_density']]
            else:
                a += ['--brille-npts', kw['grid_npts']]
            if c['asr']:
                a += ['--asr']
            if c['T'] is not None and c['w'] == 'coherent':
                a += ['--temperature', c['T'], '--grid', 2, 2, 2]
            r = p30.tool('powder_map', a)
            if r.error is not None:
                raise r.error if isinstance(r.error, Exception) else \
                    RuntimeError(r.text)
            got = p30.load(out)
        o = dict(n_threads=c['threads'])
        if c['asr']:
            o['asr'] = 'reciprocal'
        b = quiet(B.from_force_constants, E.ForceConstants.from_dict(
            fc.to_dict()), interpolation_kwargs=o, **kw)
        rows = []
        x = got.y_data.to('meV')
        T = dw = None
        if c['T'] is not None and c['w'] == 'coherent':
            T = c['T'] * E.ureg('K')
            dw = b.calculate_qpoint_phonon_modes(
                mp_grid((2, 2, 2)), useparallel=False,
                threads=1).calculate_debye_waller(T)
        for q in got.get_bin_centres('x'):
            k = dict(npts=9, energy_bins=x, useparallel=False, threads=1)
            if c['w'] == 'coherent':
                s = sample_sphere_structure_factor(
                    b, q, temperature=T, dw=dw, **k).y_data
            elif c['w'] == 'dos':
                s = sample_sphere_dos(b, q, **k).y_data
            else:
                s = sample_sphere_pdos(b, q, weighting='coherent',
                                       **k).sum().y_data
            rows.append(s.to(got.z_data.units).magnitude)
        return got.z_data.magnitude, np.array(rows), x.magnitude.max()

    def mine():
        brille_direct(fc, g, dict(n_threads=1))
    res = isolated(work)
    if res[0] == 'crash':
        raise Skip('Brille crashes (it does at random at special q-points)')
    z, e, top = settle(res, mine)
    if top < 1:
        raise Skip('soft')
    t.tag(c['grid'], c['w'])
    s = np.abs(e).max()
    t.hit(s > 0)
    bad = np.abs(z - e) > 1e-6 * s
    if bad.any():
        # a mode may be put in the other bin at an edge
        d = np.abs(z - e).sum() / np.abs(e).sum()
        check(d < .15, f'powder map with Brille differs by {d}')


@st.composite
def convergence_cases(draw):
    return dict(src=draw(sources()), type=draw(st.sampled_from(
        [None, 'trellis', 'mesh', 'nest'])),
        n=draw(st.lists(st.integers(20, 110), min_size=1, max_size=2)),
        density=draw(st.integers(0, 2)) == 0,
        npts=draw(st.integers(2, 12)), slices=draw(st.integers(0, 3)),
        asr=draw(st.sampled_from([None, None, 'reciprocal', 'realspace'])),
        dip=draw(st.sampled_from([None, None, .8, 1.3])),
        unit=draw(st.sampled_from(['meV', 'THz', '1/cm'])),
        ebins=draw(st.integers(3, 40)),
        lo=draw(st.sampled_from([None, None, -.1, 0., .3])),
        hi=draw(st.sampled_from([None, None, .9, 1.4])),
        width=draw(st.sampled_from([None, None, [.1], [.02], [.05, .1],
                                    [.05, .03, .01]])),
        shape=draw(st.sampled_from([None, 'gauss', 'lorentz'])),
        threads=draw(st.sampled_from([None, 1, 1])))


@repeated
@steady
def run_convergence(c, t):
    """euphonic-brille-convergence: what its figures show"""
    m, fc = built(c)
    from checks import p30
    slices = min(c['slices'], c['npts'] - 1)
    g = dict(type=c['type'] or 'trellis', n=c['n'][0],
             how='density' if c['density'] else 'npts')
    o = dict(n_threads=1)
    if c['asr']:
        o['asr'] = c['asr']
    if c['dip']:
        o['dipole_parameter'] = c['dip']
    if c['width'] and len(c['width']) > 1 and c['shape'] == 'lorentz':
        raise Skip('lorentz_kernel_spacing')

    def work():
        import euphonic as E
        from numpy.polynomial.polynomial import polyval
        from euphonic.brille import BrilleInterpolator as B
        from euphonic.sampling import recurrence_sequence
        vol = brille_lattice(fc).ir_polyhedron.volume
        grids = [grid_arguments(dict(g, n=n), vol)[0] for n in c['n']]
        q = np.array(list(recurrence_sequence(c['npts'], order=3)))
        f = E.ForceConstants.from_dict(fc.to_dict())
        a = quiet(f.calculate_qpoint_phonon_modes, q, **o)
        a.frequencies_unit = c['unit']
        F = a.frequencies.magnitude
        if F.max() < 1 / E.ureg(c['unit']).to('meV').magnitude:
            raise Skip('soft')
        lo = None if c['lo'] is None else round(c['lo'] * F.max(), 3)
        hi = None if c['hi'] is None else round(c['hi'] * F.max(), 3)
        w = None if c['width'] is None else [round(x * F.max(), 4) / F.max(
            ) ** k for k, x in enumerate(c['width'])]
        with p30.Scratch() as d:
            file = d / 'model fc.json'
            p30.save(fc, file)
            argv = [file, '--npts', c['npts'], '-n', slices, '--ebins',
                    c['ebins'], '-u', c['unit']]
            k = 'grid_density' if c['density'] else 'grid_npts'
            argv += ['--brille-npts-density' if c['density']
                     else '--brille-npts'] + [x[k] for x in grids]
            if c['type']:
                argv += ['--brille-grid-type', c['type']]
            if c['asr']:
                argv += ['--asr', c['asr']]
            if c['dip']:
                argv += ['--dipole-parameter', c['dip']]
            if lo is not None:
                argv += ['--e-min', lo]
            if hi is not None:
                argv += ['--e-max', hi]
            if w is not None:
                argv += ['--energy-broadening'] + w
            if c['shape']:
                argv += ['--shape', c['shape']]
            if c['threads']:
                argv += ['--n-threads', c['threads']]
            r = p30.tool('brille_convergence', argv)
            if r.error is not None:
                raise r.error if isinstance(r.error, Exception) else \
                    RuntimeError(r.text)
            figs = []
            for fig in r.figs:
                figs.append(dict(
                    title=fig._suptitle.get_text() if fig._suptitle else '',
                    axes=[dict(
                        title=x.get_title(), x=x.get_xlabel(),
                        y=x.get_ylabel(),
                        z=x.get_zlabel() if hasattr(x, 'get_zlabel') else '',
                        lines=[(ln.get_label(), [np.array(v) for v in (
                            ln.get_data_3d() if hasattr(ln, 'get_data_3d')
                            else ln.get_data())]) for ln in x.lines],
                        legend=[y.get_text() for y in x.get_legend(
                            ).get_texts()] if x.get_legend() else [])
                        for x in fig.axes]))
        bins = np.linspace(min(F.min() - 1e-5 * E.ureg('meV').to(
            c['unit']).magnitude, 0) if lo is None else lo,
            F.max() * 1.05 if hi is None else hi, c['ebins'] + 1) * E.ureg(
                c['unit'])

        def width(x):
            return polyval(x.to(c['unit']).magnitude, w) * E.ureg(c['unit'])

        def wide(s, **kw):
            if w is None:
                return s
            y = w[0] * E.ureg(c['unit']) if len(w) == 1 else width
            kw = {k: y for k in kw}
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return s.broaden(**kw, shape=c['shape'] or 'gauss')

        def values(modes):
            s = modes.calculate_structure_factor()
            avg = wide(s.calculate_1d_average(bins), x_width=1)
            smap = wide(s.calculate_sqw_map(bins), y_width=1)
            return (modes.frequencies.magnitude.ravel(),
                    s.structure_factors.magnitude.ravel(),
                    avg.y_data.magnitude, smap.z_data.magnitude)
        own = values(a)
        rest, names = [], []
        for x in grids:
            b = quiet(B.from_force_constants, f, interpolation_kwargs=o,
                      **x)
            n = len(grid_in(b).rlu)
            names.append(f'{n} ({int(n / vol)})')
            y = b.calculate_qpoint_phonon_modes(q, useparallel=False,
                                                threads=1)
            y.frequencies_unit = c['unit']
            rest.append(values(y))
        return figs, bins.magnitude, own, rest, names, q

    def mine():
        brille_direct(fc, g, dict(n_threads=1))
    res = isolated(work)
    if res[0] == 'crash':
        raise Skip('Brille crashes (it does at random at special q-points)')
    if res[0] == 'error' and res[1][0] == 'Skip':
        raise Skip('soft')
    figs, bins, own, rest, names, q = settle(res, mine)
    t.tag(g['type'], f'{slices} slices', 'density' if c['density'] else
          'points', 'widths' if c['width'] and len(c['width']) > 1 else
          'width' if c['width'] else 'no width')
    t.hit(slices > 0 or len(rest) > 1)
    check(len(figs) == 3 + slices, f'{len(figs)} figures, expected '
          f'{3 + slices}')
    top = max(np.abs(own[0]).max(), 1e-9)

    def line(x, k, label, *data):
        lab, got = x['lines'][k]
        check(label is None or lab == label, f'line {lab!r}, expected '
              f'{label!r}')
        for i, (u, v) in enumerate(zip(got, data)):
            s = np.abs(v).max(initial=0)
            close(u, v, 1e-6, 1e-6 * s + 1e-7 * (top if i == 0 else s),
                  f'{x["title"]} line {lab!r} coordinate {i}')
    ax = figs[0]['axes'][0]
    check(len(ax['lines']) == len(rest), 'lines of the frequency residual')
    check(ax['title'] == 'Frequency residual (model fc.json)', ax['title'])
    check(ax['legend'] == names, f'legend {ax["legend"]}')
    for k, y in enumerate(rest):
        lab, got = ax['lines'][k]
        check(lab == names[k], f'label {lab!r}, expected {names[k]!r}')
        close(got[0], own[0], 1e-9, 1e-9 * top, 'frequencies plotted')
        close(got[1], y[0] - own[0], 1e-6, 1e-7 * top,
              'frequency residual')
    ax = figs[1]['axes'][0]
    s = max(np.abs(own[1]).max(), 1e-12)
    for k, y in enumerate(rest):
        lab, got = ax['lines'][k]
        check(lab == names[k], f'label {lab!r}, expected {names[k]!r}')
        close(got[0], own[0], 1e-9, 1e-9 * top, 'frequencies plotted')
        close(got[1], own[1], 1e-6, 1e-6 * s, 'structure factors plotted')
        close(got[2], y[1] - own[1], 1e-5, 1e-5 * s,
              'structure factor residual')
    mid = (bins[1:] + bins[:-1]) / 2
    for j in range(1 + slices):
        f = figs[2 + j]
        a, b = f['axes']
        pick = (lambda y: y[2]) if j == 0 else (lambda y: y[3][j])
        what = ('average' if j == 0 else f'slice {j}')
        if j:
            check(str(np.round(q[j], 4)) in f['title'],
                  f'title {f["title"]!r} for {q[j]}')
        check(len(a['lines']) == 1 + len(rest) and len(b['lines'])
              == len(rest), f'lines of {what}')
        e = pick(own)
        s = max(np.abs(e).max(), 1e-12)
        for k, (lab, got) in enumerate(a['lines']):
            y = e if k == 0 else pick(rest[k - 1])
            check(lab == (['Euphonic'] + names)[k], f'{what}: line {lab!r}')
            close(got[0], mid, 1e-9, 1e-9 * top, f'{what}: abscissa')
            close(got[1], y, 1e-6, 1e-6 * s, f'{what}: {lab}')
        for k, (lab, got) in enumerate(b['lines']):
            close(got[0], mid, 1e-9, 1e-9 * top, f'{what}: abscissa')
            close(got[1], pick(rest[k]) - e, 1e-6, 1e-6 * s,
                  f'{what}: residual of {names[k]}')
        check(a['legend'] == names, f'{what}: legend {a["legend"]}')


SUBS = [Sub('convergence', convergence_cases(), run_convergence, 60, 1500),
        Sub('content', content_cases(), run_content, 300, 8000),
        Sub('symmetry', symmetry_cases(), run_symmetry, 240, 6000),
        Sub('refinement', refine_cases(), run_refine, 110, 3000),
        Sub('arguments', bad_cases(), run_bad, 120, 1000),
        Sub('tool', tool_cases(), run_tool, 60, 1000)]
