"""P08 Results depend only on current data, never on the history of calls"""
import contextlib
import copy
import io
import os
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen, spec
from harness.core import Skip, Sub, check, close

RULE = ('A case is an object description (force constants, phonon modes, '
        'structure factors or a spectrum of any class) and a history of 2-9 operations '
        '(calculations with varying options, assignments of data and units, '
        'in-place edits of arrays, reads).  After every calculation the same '
        'calculation is made on a fresh object holding the same data, and '
        'all public data of object and arguments are compared with a '
        'snapshot taken before.  Non-trivial: a calculation follows an '
        'assignment or a calculation with other options.')
TECHNIQUE = ('model-based stateful testing: history of operations against a '
             'freshly constructed object (differential), plus snapshots')
ASSUMPTIONS = ['dtype or memory layout of an attribute may change; its '
               'values may not']

CALC = st.fixed_dictionaries(dict(
    op=st.just('calc'), use_c=st.booleans(),
    asr=st.sampled_from([None, 'realspace', 'reciprocal', 'realspace']),
    dipole=st.sampled_from([True, True, False]),
    dipole_parameter=st.sampled_from([1.0, 1.0, 0.6, 1.5]),
    splitting=st.booleans(), insert_gamma=st.booleans(),
    reduce_qpts=st.booleans(), grads=st.booleans(), evecs=st.booleans(),
    qset=st.integers(0, 2), weights=st.booleans()))
SET = st.fixed_dictionaries(dict(
    op=st.sampled_from(['set_fc', 'set_fc_inplace', 'set_born',
                        'set_dielectric', 'set_cell', 'set_atom_r',
                        'set_atom_r_inplace', 'set_mass', 'set_crystal',
                        'fc_unit', 'cell_unit', 'mass_unit', 'born_unit',
                        'set_origins', 'copy', 'roundtrip', 'read']),
    k=st.integers(0, 3)))


@st.composite
def fc_cases(draw):
    ops = [draw(CALC)]
    for _ in range(draw(st.integers(1, 4))):
        ops.append(draw(SET))
        if draw(st.integers(0, 3)) == 0:
            ops.append(draw(SET))
        # often the very same options, so that caches would be used
        ops.append(dict(draw(st.sampled_from(
            [o for o in ops if o['op'] == 'calc'])))
            if draw(st.booleans()) else draw(CALC))
    return dict(fc=draw(gen.force_constants(3, 4, special=None)), ops=ops,
                q=[draw(gen.qpoints(1, 4)) for _ in range(3)],
                wseed=draw(gen.small_seed))


def snapshot(obj):
    d = obj.to_dict()
    return copy.deepcopy(d)


def same(a, b, what, rtol=0.0):
    if isinstance(a, dict):
        check(isinstance(b, dict) and a.keys() == b.keys(),
              f'{what}: keys {sorted(a)} -> {sorted(b)}')
        for k in a:
            same(a[k], b[k], f'{what}.{k}', rtol)
    elif isinstance(a, np.ndarray):
        if a.dtype.kind in 'fciu':
            fin = np.abs(a[np.isfinite(a)]) if a.size else a
            close(b, a, rtol, rtol * fin.max() if fin.size else 0.0, what)
        else:
            check(np.array_equal(a, b), f'{what}: {a} -> {b}')
    elif isinstance(a, (list, tuple)):
        check(len(a) == len(b), f'{what}: {a} -> {b}')
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f'{what}[{i}]', rtol)
    elif isinstance(a, float):
        close(b, a, rtol, 0.0, what)
    else:
        check(a == b, f'{what}: {a!r} -> {b!r}')


def fresh_fc(fc):
    """new object holding the same data (nothing cached, nothing shared)"""
    from euphonic import Crystal, ForceConstants, ureg
    cr = fc.crystal
    kw = {}
    if fc.born is not None:
        kw = dict(born=fc.born.copy(), dielectric=fc.dielectric.copy())
    return ForceConstants(
        Crystal(cr.cell_vectors.copy(), np.array(cr.atom_r),
                np.array(cr.atom_type), cr.atom_mass.copy()),
        fc.force_constants.copy(), np.array(fc.sc_matrix),
        np.array(fc.cell_origins), **kw)


def do_calc(fc, o, q, w):
    f = (fc.calculate_qpoint_phonon_modes if o['evecs']
         else fc.calculate_qpoint_frequencies)
    r = f(q, weights=w, asr=o['asr'], dipole=o['dipole'],
          dipole_parameter=o['dipole_parameter'], splitting=o['splitting'],
          insert_gamma=o['insert_gamma'], reduce_qpts=o['reduce_qpts'],
          use_c=o['use_c'], n_threads=1, return_mode_gradients=o['grads'])
    return r if o['grads'] else (r, None)


def mat(r):
    n = r.frequencies.shape[1]
    f = r.frequencies.to('meV').magnitude
    lam = np.sign(f) * f**2
    if not hasattr(r, 'eigenvectors'):
        return lam, None
    E = r.eigenvectors.reshape(len(f), n, n)
    return lam, np.einsum('qv,qva,qvb->qab', lam, E, E.conj())


def compare_results(a, b, what):
    (ra, ga), (rb, gb) = a, b
    check(type(ra) is type(rb), f'{what}: types differ')
    close(ra.qpts, rb.qpts, 0, 1e-14, f'{what}: qpts')
    close(ra.weights, rb.weights, 1e-12, 0, f'{what}: weights')
    la, da = mat(ra)
    lb, db = mat(rb)
    scale = max(np.abs(lb).max(), 1.0)
    close(la, lb, 0, 1e-8 * scale, f'{what}: squared frequencies')
    if db is not None:
        close(da, db, 0, 1e-7 * scale, f'{what}: dynamical matrix')
    same(snapshot(rb.crystal), snapshot(ra.crystal), f'{what}: crystal',
         1e-12)
    check(ra.frequencies.units == rb.frequencies.units,
          f'{what}: frequency units')
    if gb is not None:
        check(ga.units == gb.units, f'{what}: gradient units {ga.units} '
              f'{gb.units}')
        ga, gb = ga.magnitude, gb.magnitude
        d = np.abs(lb[:, :, None] - lb[:, None, :]) \
            + np.eye(lb.shape[1]) * 1e300
        ok = (d.min(2) > 1e-3 * scale) & (np.abs(lb) > 1e-3 * scale)
        L = np.abs(rb.crystal.cell_vectors.magnitude).max()
        gs = np.abs(gb[ok]).max() if ok.any() else 0
        gs = max(gs, 1e-3 * L * np.sqrt(scale))
        close(ga[ok], gb[ok], 1e-6, 1e-6 * gs, f'{what}: gradients')


def apply_set(fc, o, c, m):
    from euphonic import Crystal, ForceConstants, ureg
    k, name = o['k'], o['op']
    rng = np.random.default_rng([c['wseed'], k, len(name)])
    cr = fc.crystal
    if name == 'set_fc':
        f = fc.force_constants
        fc.force_constants = (f.to(['hartree/bohr**2', 'eV/angstrom**2',
                                    'meV/bohr**2', 'hartree/bohr**2'][k])
                              * (1.2 + 0.3 * k))
    elif name == 'set_fc_inplace':
        raw = getattr(fc, '_force_constants', None)
        if raw is None:     # stored some other way
            return False
        raw *= (1.1 + 0.1 * k)
    elif name == 'set_born':
        if fc.born is None:
            return False
        if k == 0:
            fc.born = fc.born[::-1] * 0.8
        else:
            fc.born = fc.born * (0.5 + 0.2 * k)
    elif name == 'set_dielectric':
        if fc.born is None:
            return False
        fc.dielectric = fc.dielectric * (1.15 + 0.2 * k)
    elif name == 'set_cell':
        cr.cell_vectors = cr.cell_vectors * (1.03 + 0.03 * k)
    elif name == 'set_atom_r':
        r = np.array(cr.atom_r)
        r[-1] += rng.integers(-1, 2, 3) * 0.03
        cr.atom_r = r
    elif name == 'set_atom_r_inplace':
        cr.atom_r[-1] += rng.integers(-1, 2, 3) * 0.03
    elif name == 'set_mass':
        cr.atom_mass = cr.atom_mass.to(['amu', 'm_e', 'kg', 'amu'][k]) \
            * (1 + 0.1 * (k + 1))
    elif name == 'set_crystal':
        r = np.array(cr.atom_r)
        r[-1] += rng.integers(-1, 2, 3) * 0.05
        fc.crystal = Crystal(cr.cell_vectors * 1.02, r,
                             np.array(cr.atom_type), cr.atom_mass.copy())
    elif name == 'fc_unit':
        fc.force_constants_unit = ['eV/angstrom**2', 'hartree/bohr**2',
                                   'meV/nm**2', 'meV/bohr**2'][k]
    elif name == 'cell_unit':
        cr.cell_vectors_unit = ['bohr', 'angstrom', 'nm', 'm'][k]
    elif name == 'mass_unit':
        cr.atom_mass_unit = ['amu', 'kg', 'm_e', 'g'][k]
    elif name == 'born_unit':
        fc.born_unit = ['e', 'coulomb', 'e', 'microcoulomb'][k]
        fc.dielectric_unit = ['e**2/(bohr*hartree)', 'e**2/(angstrom*eV)',
                              'e**2/(bohr*eV)', 'e**2/(nm*meV)'][k]
    elif name == 'set_origins':
        # a cell labelled by an equivalent origin of another supercell image
        og = np.array(fc.cell_origins)
        og[-1] += np.asarray(fc.sc_matrix)[k % 3] * (len(og) > 1)
        fc.cell_origins = og
    elif name == 'copy':
        return copy.deepcopy(fc)
    elif name == 'roundtrip':
        return ForceConstants.from_dict(fc.to_dict())
    elif name == 'read':
        fc.force_constants, fc.born, fc.dielectric
        cr.reciprocal_cell(), cr.cell_volume(), fc.to_dict()
    return True


def run_fc(c, t):
    m = gen.fc_model(c['fc'])
    fc = gen.make_fc(m)
    dirty = False
    for i, o in enumerate(c['ops']):
        if o['op'] != 'calc':
            r = apply_set(fc, o, c, m)
            if r is False:
                continue
            if r is not True:
                fc = r
            t.tag(o['op'])
            dirty = True
            continue
        if not gen.ws_ok(np.asarray(fc.sc_matrix) @
                         fc.crystal.cell_vectors.to('bohr').magnitude):
            raise Skip('supercell too skewed')
        q = np.array(c['q'][o['qset']])
        w = None
        if o['weights']:
            w = np.random.default_rng(c['wseed']).uniform(.1, 1, len(q))
        q0, w0 = q.copy(), None if w is None else w.copy()
        before = snapshot(fc)
        got = do_calc(fc, o, q, w)
        same(before, snapshot(fc), f'op {i}: calculation modified the object')
        check(np.array_equal(q, q0), f'op {i}: q-points modified')
        if w is not None:
            check(np.array_equal(w, w0), f'op {i}: weights modified')
        want = do_calc(fresh_fc(fc), o, q0, w0)
        # realspace ASR picks acoustic modes: ill-conditioned when the
        # selection is ambiguous, identical data gives identical choice
        compare_results(got, want, f'op {i} ({o["op"]})')
        t.hit(i > 0 and dirty)


# ----------------------------------------------------- phonon modes etc.

MCALC = st.fixed_dictionaries(dict(
    op=st.sampled_from(['dos', 'adaptive', 'fast', 'pdos', 'wpdos', 'map',
                        'disp', 'dw', 'dw0', 'sf', 'sfdw', 'sqw', 'avg',
                        'dict', 'toqf', 'recip', 'sym']),
    k=st.integers(0, 3)))
MSET = st.fixed_dictionaries(dict(
    op=st.sampled_from(['f_unit', 'set_f', 'set_cell', 'set_mass',
                        'set_evecs', 'set_weights', 'set_r', 'set_q',
                        'cell_unit', 'reorder', 'f_inplace']),
    k=st.integers(0, 3)))


@st.composite
def mode_cases(draw):
    ops = [draw(MCALC)]
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.booleans()):
            ops.append(draw(MSET))
        ops.append(draw(st.sampled_from(
            [o for o in ops if 'calc' not in o and o['op'] in MC]))
            if draw(st.booleans()) else draw(MCALC))
    return dict(m=draw(gen.phonon_modes(3, 5)), ops=ops)


MC = ['dos', 'adaptive', 'fast', 'pdos', 'wpdos', 'map', 'disp', 'dw', 'dw0',
      'sf', 'sfdw', 'sqw', 'avg', 'dict', 'toqf', 'recip', 'sym']


def fresh_modes(p):
    from euphonic import Crystal, QpointPhononModes
    cr = p.crystal
    return QpointPhononModes(
        Crystal(cr.cell_vectors.copy(), np.array(cr.atom_r),
                np.array(cr.atom_type), cr.atom_mass.copy()),
        np.array(p.qpts), p.frequencies.copy(), np.array(p.eigenvectors),
        np.array(p.weights))


def mcalc(p, o, args):
    """-> list of dicts/quantities"""
    from euphonic import ureg
    k, name = o['k'], o['op']
    bins, widths, T, sl, dw = (args[x] for x in
                               ('bins', 'widths', 'T', 'sl', 'dw'))
    if name == 'dos':
        return p.calculate_dos(bins)
    if name == 'adaptive':
        return p.calculate_dos(bins, mode_widths=widths)
    if name == 'fast':
        return p.calculate_dos(bins, mode_widths=widths,
                               adaptive_method='fast')
    if name == 'pdos':
        return p.calculate_pdos(bins, mode_widths=widths if k else None)
    if name == 'wpdos':
        return p.calculate_pdos(bins, weighting=[
            'coherent', 'incoherent', 'coherent-plus-incoherent',
            'coherent'][k])
    if name == 'map':
        return p.calculate_dos_map(bins, mode_widths=widths if k else None)
    if name == 'disp':
        return p.get_dispersion()
    if name == 'dw':
        return p.calculate_debye_waller(T, symmetrise=bool(k % 2))
    if name == 'dw0':
        return p.calculate_debye_waller(0 * ureg('K'))
    if name == 'sf':
        return p.calculate_structure_factor(sl if k % 2 else 'Sears1992')
    if name == 'sfdw':
        return p.calculate_structure_factor(dw=dw)
    if name == 'sqw':
        sf = p.calculate_structure_factor(dw=dw if k % 2 else None)
        b = snapshot(sf)
        r = sf.calculate_sqw_map(bins, temperature=None if k % 2 else T,
                                 calc_bose=k != 2)
        same(b, snapshot(sf), 'calculate_sqw_map modified the object')
        return r
    if name == 'avg':
        sf = p.calculate_structure_factor()
        b = snapshot(sf)
        r = sf.calculate_1d_average(bins, temperature=T if k else None)
        same(b, snapshot(sf), 'calculate_1d_average modified the object')
        return r
    if name == 'dict':
        return p
    if name == 'toqf':
        return p.to_qpoint_frequencies()
    if name == 'recip':
        return p.crystal
    if name == 'sym':
        rot, tr, eq = p.crystal.get_symmetry_equivalent_atoms()
        return dict(rot=rot, tr=tr, eq=eq)


def todict(r):
    return snapshot(r) if hasattr(r, 'to_dict') else r


def run_modes(c, t):
    from euphonic import ureg
    m = gen.modes_model(c['m'])
    p = gen.make_modes(m)
    rng = np.random.default_rng([c['m']['seed'], 9])
    dirty = False
    for i, o in enumerate(c['ops']):
        k, name = o['k'], o['op']
        cr = p.crystal
        if name not in MC:
            dirty = True
            t.tag(name)
            if name == 'f_unit':
                p.frequencies_unit = ['meV', 'THz', '1/cm', 'hartree'][k]
            elif name == 'set_f':
                p.frequencies = p.frequencies.to(
                    ['meV', 'THz', '1/cm', 'hartree'][k],
                    'reciprocal_spectroscopy') * 1.2
            elif name == 'f_inplace':
                raw = getattr(p, '_frequencies', None)
                if raw is None:
                    p.frequencies = p.frequencies * 0.9
                else:
                    raw *= 0.9
            elif name == 'set_cell':
                cr.cell_vectors = cr.cell_vectors.to(
                    ['angstrom', 'bohr', 'nm', 'm'][k]) * 1.1
            elif name == 'cell_unit':
                cr.cell_vectors_unit = ['angstrom', 'bohr', 'nm', 'm'][k]
            elif name == 'set_mass':
                cr.atom_mass = cr.atom_mass.to(
                    ['amu', 'kg', 'm_e', 'g'][k]) * 1.3
            elif name == 'set_evecs':
                p.eigenvectors = p.eigenvectors[:, ::-1] * np.exp(.3j)
            elif name == 'set_weights':
                p.weights = rng.uniform(.1, 1, p.n_qpts)
            elif name == 'set_r':
                cr.atom_r = cr.atom_r + 0.07
            elif name == 'set_q':
                p.qpts = p.qpts[::-1] * 0.5
            elif name == 'reorder':
                q2 = fresh_modes(p)
                q2.reorder_frequencies(reorder_gamma=bool(k % 2))
                p.reorder_frequencies(reorder_gamma=bool(k % 2))
                same(snapshot(q2), snapshot(p), f'op {i}: reorder', 1e-12)
            continue
        f = p.frequencies.to('meV', 'reciprocal_spectroscopy').magnitude
        top = np.abs(f).max() * 1.3
        n = f.shape[1]
        args = dict(
            bins=np.linspace([-top, 0, -top / 3, 1e-3][k], top, 12 + k)
            * ureg('meV'),
            widths=(0.02 + 0.1 * np.random.default_rng(k).uniform(
                size=f.shape)) * top * ureg('meV'),
            T=[5., 100., 300., 0.][k] * ureg('K'),
            sl={s: (1.5 + j) * ureg('fm')
                for j, s in enumerate(sorted(set(cr.atom_type)))},
            dw=fresh_modes(p).calculate_debye_waller(
                [5., 100., 300., 0.][k] * ureg('K'), symmetrise=False))
        argsnap = dict(bins=args['bins'].copy(), widths=args['widths'].copy(),
                       sl={a: b.magnitude for a, b in args['sl'].items()},
                       dw=snapshot(args['dw']))
        before = snapshot(p)
        with np.errstate(all='ignore'):
            got = todict(mcalc(p, o, args))
            same(before, snapshot(p),
                 f'op {i} ({name}): calculation modified the object')
            for a in ('bins', 'widths'):
                check(np.array_equal(args[a].magnitude,
                                     argsnap[a].magnitude)
                      and args[a].units == argsnap[a].units,
                      f'op {i} ({name}): {a} modified')
            same(argsnap['dw'], snapshot(args['dw']),
                 f'op {i} ({name}): dw modified')
            check(argsnap['sl'] == {a: b.magnitude
                                    for a, b in args['sl'].items()},
                  f'op {i} ({name}): scattering lengths modified')
            want = todict(mcalc(fresh_modes(p), o, args))
        same(want, got, f'op {i} ({name})', 1e-9)
        t.tag(name)
        t.hit(i > 0 and (dirty or len(set(x['op'] for x in c['ops'][:i])) > 1))


# --------------------------------------------------------------- inputs

@st.composite
def ctor_cases(draw):
    return dict(m=draw(gen.phonon_modes(3, 6)),
                ops=draw(st.lists(st.sampled_from(
                    ['reorder', 'dos', 'pdos', 'sf', 'dw', 'disp', 'unit',
                     'set_f', 'toqf']), min_size=1, max_size=4)))


def run_ctor(c, t):
    """Arrays handed to constructors are never changed by later methods"""
    from euphonic import QpointPhononModes, ureg
    m = gen.modes_model(c['m'])
    cr = gen.make_modes_crystal(m)
    given = dict(qpts=m.q.copy(), f=m.f / gen.EUNIT[m.freq_unit]
                 * ureg(m.freq_unit), ev=m.evecs.copy(), w=m.w.copy())
    keep = {k: v.copy() for k, v in given.items()}
    crs = snapshot(cr)
    a = QpointPhononModes(cr, given['qpts'], given['f'], given['ev'],
                          given['w'])
    other = QpointPhononModes(cr, given['qpts'], given['f'], given['ev'],
                              given['w'])
    osnap = snapshot(other)
    bins = np.linspace(-1, m.f.max() * 1.2, 9) * ureg('meV')
    for o in c['ops']:
        with np.errstate(all='ignore'):
            if o == 'reorder':
                a.reorder_frequencies()
            elif o == 'dos':
                a.calculate_dos(bins)
            elif o == 'pdos':
                a.calculate_pdos(bins)
            elif o == 'sf':
                a.calculate_structure_factor()
            elif o == 'dw':
                a.calculate_debye_waller(50 * ureg('K'), symmetrise=False)
            elif o == 'disp':
                a.get_dispersion()
            elif o == 'unit':
                a.frequencies_unit = 'THz'
            elif o == 'set_f':
                a.frequencies = a.frequencies * 1.5
            elif o == 'toqf':
                a.to_qpoint_frequencies()
        for k in given:
            x, y = given[k], keep[k]
            x, y = getattr(x, 'magnitude', x), getattr(y, 'magnitude', y)
            check(np.array_equal(x, y),
                  f'{o} changed the array given to the constructor as {k}')
        same(crs, snapshot(cr), f'{o}: crystal')
        same(osnap, snapshot(other),
             f'{o} on one object changed another made from the same arrays')
    t.tag(*c['ops'])
    t.hit(len(c['ops']) > 1 or c['ops'] == ['reorder'])


# -------------------------------------------------------------- spectra

SCALC = ['edges', 'centres', 'widths', 'broaden', 'broaden', 'variable',
         'split', 'text', 'json', 'copy', 'item', 'slice', 'sum', 'group',
         'select', 'mul', 'add', 'kinematic', 'iter']
SSET = ['x_unit', 'y_unit', 'd_unit', 'set_x', 'set_d', 'labels', 'imul',
        'meta', 'line_meta', 'reload']


@st.composite
def spectrum_cases(draw):
    s = draw(spec.spectra(max_n=9, min_n=2, max_lines=4, regular=True))
    calc = st.fixed_dictionaries(dict(op=st.sampled_from(SCALC),
                                      k=st.integers(0, 3)))
    sets = st.fixed_dictionaries(dict(op=st.sampled_from(SSET),
                                      k=st.integers(0, 3)))
    ops = [draw(calc)]
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.booleans()):
            ops.append(draw(sets))
        old = [o for o in ops if o['op'] in SCALC]
        ops.append(dict(draw(st.sampled_from(old)))
                   if draw(st.integers(0, 2)) == 0 else draw(calc))
    return dict(s=s, ops=ops)


def fresh(o):
    return type(o).from_dict(snapshot(o))


def scalc(s, name, k, tmp):
    """the result, as plain data; None: not for this kind of object"""
    from euphonic import ureg
    from euphonic.spectra import apply_kinematic_constraints
    coll = hasattr(s, 'iter_metadata')
    two = '2D' in type(s).__name__
    ax = dict(bin_ax='xy'[k % 2]) if type(s).__name__ == 'Spectrum2D' else {}
    if name in ('edges', 'centres', 'widths'):
        if name == 'widths' and not ax:
            r = s.get_bin_widths()
        else:
            r = getattr(s, f'get_bin_{name}')(**ax)
        return [r.magnitude, str(r.units)]
    if name in ('broaden', 'variable'):
        if coll and two:
            return None
        if name == 'variable':
            if two:
                return None     # needs one sample per bin: P16
            w = [.6, 1.4, 2., 3.][k] * s.get_bin_widths()[0]
            u = w.units

            def f(e):
                return w + 0.01 * np.abs(e.to(u).magnitude) * u
            return todict(s.broaden(x_width=f))
        w = [.6, 1.4, 2., 3.][k] * np.abs(s.get_bin_widths()[0])
        kw = dict(x_width=w)
        if two:
            kw = {('x_width', 'y_width')[k % 2]:
                  [.6, 1.4, 2., 3.][k]
                  * np.abs(s.get_bin_widths(bin_ax='xy'[k % 2])[0])}
        return todict(s.broaden(shape=['gauss', 'lorentz'][k > 2], **kw))
    if name == 'split':
        n = len(s.get_bin_centres())
        if not k or n < 4:
            return [snapshot(x) for x in s.split(btol=3.)]
        return [snapshot(x) for x in s.split(indices=[1 + k % 2, n - 1])]
    if name == 'text':
        if not hasattr(s, 'to_text_file'):
            return None
        s.to_text_file(os.path.join(tmp, 'a.txt'),
                       **({'fmt': '%.9e'} if k % 2 else {}))
        with open(os.path.join(tmp, 'a.txt')) as fd:
            return fd.read() if k % 2 else np.loadtxt(
                io.StringIO(fd.read()))
    if name == 'json':
        s.to_json_file(os.path.join(tmp, 'a.json'))
        with open(os.path.join(tmp, 'a.json')) as fd:
            return snapshot(type(s).from_json_file(fd.name))
    if name == 'copy':
        return snapshot(s.copy())
    if name == 'mul':
        return snapshot(s * [2., -1., .5, 0.][k])
    if name == 'add':
        if type(s).__name__ not in ('Spectrum1D', 'Spectrum1DCollection'):
            return None
        return snapshot(s + fresh(s))
    if name == 'kinematic':
        if not ax or str(s.x_data.units) not in ('1 / angstrom',
                                                 '1 / bohr'):
            return None
        with np.errstate(all='ignore'):
            return snapshot(apply_kinematic_constraints(
                s, **({'e_i': (30. + k) * ureg('meV')} if k % 2 else
                      {'e_f': (3. + k) * ureg('meV')})))
    if not coll:
        return None
    if name == 'item':
        return snapshot(s[k % len(s)])
    if name == 'slice':
        return snapshot(s[:1 + k] if len(s) > 1 + k else s[::-1])
    if name == 'sum':
        return snapshot(s.sum())
    if name == 'iter':
        return [dict(m) for m in s.iter_metadata()]
    if name == 'group':
        return snapshot(s.group_by(*['species', 'index', 'label'][:k]))
    ms = list(s.iter_metadata())
    key = [kk for m in ms for kk in m]
    if not key:
        return None
    kk = key[k % len(key)]
    v = next(m[kk] for m in ms if kk in m)
    return snapshot(s.select(**{kk: v}))


def attempt(*args):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return scalc(*args)
    except (AssertionError, ValueError, KeyError) as e:  # refused: why, P25
        return type(e).__name__


def run_spectrum(c, t):
    from euphonic import ureg
    s = spec.make(spec.model(c['s']))
    coll = hasattr(s, 'iter_metadata')
    two = '2D' in type(s).__name__
    dname = 'z_data' if two else 'y_data'
    dirty, done = False, set()
    with tempfile.TemporaryDirectory(prefix='p08-') as tmp, \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i, o in enumerate(c['ops']):
            k, name = o['k'], o['op']
            if name in SSET:
                dirty = True
                if name == 'x_unit':
                    u = [x for x in UNITS if ureg(x).check(
                        s.x_data.dimensionality)]
                    if u:
                        s.x_data_unit = u[k % len(u)]
                elif name == 'y_unit' and two:
                    s.y_data_unit = ['meV', 'THz', '1/cm', 'eV'][k]
                elif name == 'd_unit':
                    d = getattr(s, dname)
                    u = [x for x in UNITS if ureg(x).check(d.dimensionality)]
                    if u:
                        setattr(s, dname + '_unit', u[k % len(u)])
                elif name == 'set_x':
                    s.x_data = s.x_data * 1.25
                elif name == 'set_d':
                    d = getattr(s, dname)
                    setattr(s, dname, d[::-1] * 1.5
                            if not coll else d * 1.5)
                elif name == 'labels':
                    s.x_tick_labels = [[(0, 'new')], None,
                                       [(0, 'A'), (1, 'B')], []][k]
                elif name == 'imul':
                    s *= [2., -1., .5, 3.][k]
                elif name == 'meta':
                    s.metadata['T'] = 100 + k
                    for m in s.metadata.get('line_data', []):
                        m.pop('T', None)
                elif name == 'line_meta' and coll:
                    if 'index' in s.metadata:
                        del s.metadata['index']
                    s.metadata['line_data'] = [
                        dict(m, index=(j + k) % 2) for j, m in enumerate(
                            s.metadata.get('line_data',
                                           [{} for _ in range(len(s))]))]
                elif name == 'reload':
                    s = fresh(s)
                continue
            before = snapshot(s)
            with np.errstate(all='ignore'):
                got = attempt(s, name, k, tmp)
                same(before, snapshot(s),
                     f'op {i} ({name}): the spectrum was modified')
                if got is None:
                    continue
                want = attempt(fresh(s), name, k, tmp)
            same(want, got, f'op {i} ({name})', 1e-9)
            t.tag(name)
            t.hit(i > 0 and (dirty or len(done | {name}) > 1))
            done.add(name)


UNITS = ['1/meV', '1/THz', 'mbarn/meV', 'barn/meV', 'barn', 'mbarn', 'THz',
         'meV', '1/cm', 'eV', '1/angstrom', '1/bohr', '1/nm',
         'angstrom**2/THz', 'bohr**2/THz']


# ---------------------------------------------------- structure factors

FCALC = ['sqw', 'sqw', 'avg', 'disp', 'dos', 'map', 'dict', 'json']
FSET = ['sf_unit', 'set_sf', 'f_unit', 'set_f', 'weights', 'temperature',
        'set_q', 't_unit', 'reload', 'cell']


@st.composite
def sf_cases(draw):
    calc = st.fixed_dictionaries(dict(op=st.sampled_from(FCALC),
                                      k=st.integers(0, 5)))
    sets = st.fixed_dictionaries(dict(op=st.sampled_from(FSET),
                                      k=st.integers(0, 3)))
    ops = [draw(calc)]
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.booleans()):
            ops.append(draw(sets))
        old = [o for o in ops if o['op'] in FCALC]
        ops.append(dict(draw(st.sampled_from(old)))
                   if draw(st.integers(0, 2)) == 0 else draw(calc))
    return dict(m=draw(gen.phonon_modes(3, 5)), ops=ops,
                T=draw(st.sampled_from([None, None, 0., 20., 300.])))


def run_sf(c, t):
    from euphonic import StructureFactor, ureg
    m = gen.modes_model(c['m'])
    T = None if c['T'] is None else c['T'] * ureg('K')
    p = gen.make_modes(m)
    with np.errstate(all='ignore'):
        sf = p.calculate_structure_factor(dw=None if T is None else
                                          p.calculate_debye_waller(T))
    if not np.isfinite(sf.structure_factors.magnitude).all():
        raise Skip('non-finite structure factors')
    dirty, done = False, set()
    with tempfile.TemporaryDirectory(prefix='p08-') as tmp, \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i, o in enumerate(c['ops']):
            k, name = o['k'], o['op']
            if name in FSET:
                dirty = True
                if name == 'sf_unit':
                    sf.structure_factors_unit = ['mbarn', 'barn', 'fm**2',
                                                 'angstrom**2'][k]
                elif name == 'set_sf':
                    sf.structure_factors = sf.structure_factors[:, ::-1] * 2.
                elif name == 'f_unit':
                    sf.frequencies_unit = ['meV', 'THz', '1/cm', 'hartree'][k]
                elif name == 'set_f':
                    sf.frequencies = sf.frequencies * 1.2
                elif name == 'weights':
                    sf.weights = np.arange(1., sf.n_qpts + 1) / sf.n_qpts
                elif name == 'temperature':
                    sf.temperature = [5., 80., 300., 0.][k] * ureg('K')
                elif name == 't_unit' and sf.temperature is not None:
                    sf.temperature_unit = ['K', 'mK', 'K', 'kK'][k]
                elif name == 'set_q':
                    sf.qpts = sf.qpts[::-1] * .5
                elif name == 'cell':
                    sf.crystal.cell_vectors = sf.crystal.cell_vectors * 1.1
                elif name == 'reload':
                    sf = fresh(sf)
                continue
            f = sf.frequencies.to('meV', 'reciprocal_spectroscopy').magnitude
            top = max(np.abs(f).max() * 1.3, 1e-3)
            bins = np.linspace([-top, 0, -top / 3, 1e-3, 0, -top][k], top,
                               11 + k) * ureg('meV')
            keep = bins.copy()
            own = sf.temperature

            def calc(x):
                # a temperature other than the object's own is refused
                kw = {}
                if k % 3 == 1:
                    kw['temperature'] = own if own is not None else \
                        (50. * k + 7) * ureg('K')
                if name == 'sqw':
                    return snapshot(x.calculate_sqw_map(
                        bins, calc_bose=k != 2, **kw))
                if name == 'avg':
                    return snapshot(x.calculate_1d_average(
                        bins, calc_bose=k != 2, **kw))
                if name == 'disp':
                    return snapshot(x.get_dispersion())
                if name == 'dos':
                    return snapshot(x.calculate_dos(bins))
                if name == 'map':
                    return snapshot(x.calculate_dos_map(bins))
                if name == 'dict':
                    return snapshot(x)
                x.to_json_file(os.path.join(tmp, 'a.json'))
                return snapshot(StructureFactor.from_json_file(
                    os.path.join(tmp, 'a.json')))
            before = snapshot(sf)
            with np.errstate(all='ignore'), \
                    contextlib.redirect_stdout(io.StringIO()):
                got = calc(sf)
                same(before, snapshot(sf),
                     f'op {i} ({name}): the structure factors were modified')
                check(np.array_equal(bins.magnitude, keep.magnitude)
                      and bins.units == keep.units,
                      f'op {i} ({name}): bins modified')
                want = calc(fresh(sf))
            same(want, got, f'op {i} ({name})', 1e-9)
            t.tag(name)
            t.hit(i > 0 and (dirty or len(done | {name}) > 1))
            done.add(name)


SUBS = [Sub('force_constants', fc_cases(), run_fc, 320, 5000),
        Sub('modes', mode_cases(), run_modes, 320, 5000),
        Sub('ctor', ctor_cases(), run_ctor, 240, 3000),
        Sub('spectra', spectrum_cases(), run_spectrum, 400, 6000),
        Sub('sf', sf_cases(), run_sf, 240, 4000)]
