"""P10 Serialisation round-trips are lossless"""
import copy
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import gen, spec
from harness.core import Skip, Sub, check, close

RULE = ('objects: any data class with drawn contents, dtype, memory layout, '
        'units, optional fields and metadata, is sent through dict, JSON '
        'string and file, alone and after a unit change, and compared in '
        'class, all public data, optional fields and a calculation; the '
        'exported dict is then overwritten to detect aliasing.  Non-trivial: '
        'more than one value per array.  text: the columns and header of '
        'exported text are parsed and compared; non-trivial if more than one '
        'row.')
TECHNIQUE = 'property-based testing: round-trip and aliasing oracle'

KINDS = ['Crystal', 'ForceConstants', 'QpointFrequencies',
         'QpointPhononModes', 'StructureFactor', 'DebyeWaller'] \
    + spec.CLASSES


@st.composite
def cases(draw):
    k = draw(st.sampled_from(KINDS))
    c = dict(kind=k, layout=draw(st.sampled_from(['C', 'F', 'strided',
                                                  'float32'])),
             temp=draw(st.sampled_from([None, 'K', 'mK', 'degC'])),
             dw=draw(st.booleans()), weights=draw(st.booleans()),
             unit_change=draw(st.booleans()), seed=draw(gen.small_seed))
    if k in spec.CLASSES:
        c['spec'] = draw(spec.spectra(classes=[k], nan=True, big=15))
    elif k == 'ForceConstants':
        c['fc'] = draw(gen.force_constants(3, 4))
    else:
        c['modes'] = draw(gen.phonon_modes(3, 4, big=15))
    return c


def lay(a, c):
    a = np.asarray(a)
    if c['layout'] == 'F':
        return np.asfortranarray(a)
    if c['layout'] == 'strided':
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]
    if c['layout'] == 'float32':
        return a.astype(np.complex64 if a.dtype.kind == 'c' else np.float32)
    return a


def build(c):
    import euphonic as E
    from euphonic import Quantity, ureg
    k = c['kind']
    if k in spec.CLASSES:
        return spec.make(spec.model(c['spec']))
    if k == 'ForceConstants':
        m = gen.fc_model(c['fc'])
        kw = {}
        if m.born is not None:
            kw = dict(born=lay(m.born, c) * ureg('e'), dielectric=lay(
                m.eps, c) * ureg('e**2/(bohr*hartree)'))
        return E.ForceConstants(
            gen.make_crystal(m), lay(m.fc, c) * ureg('hartree/bohr**2'),
            m.sc_matrix, m.origins, **kw)
    m = gen.modes_model(c['modes'])
    if k == 'Crystal':
        return E.Crystal(lay(m.cell_ang, c) * ureg('angstrom'),
                         lay(m.atom_r, c), m.atom_type,
                         lay(m.mass_amu, c) * ureg('amu'))
    cr = gen.make_modes_crystal(m)
    T = {None: None, 'K': Quantity(277.7, 'K'), 'mK': Quantity(15.5, 'mK'),
         'degC': Quantity(21.25, 'degC')}[c['temp']]
    f = Quantity(lay(m.f, c), 'meV')
    w = lay(m.w, c) if c['weights'] else None
    if k == 'QpointFrequencies':
        return E.QpointFrequencies(cr, lay(m.q, c), f, w)
    if k == 'QpointPhononModes':
        return E.QpointPhononModes(cr, lay(m.q, c), f, lay(m.evecs, c), w)
    rng = np.random.default_rng([c['seed'], 8])
    if k == 'StructureFactor':
        return E.StructureFactor(
            cr, lay(m.q, c), f, Quantity(lay(rng.uniform(0, 4, m.f.shape), c),
                                         'angstrom**2'), w, T)
    d = rng.normal(size=(m.n_atoms, 3, 3))
    d = d @ d.transpose(0, 2, 1) * 1e-3
    return E.DebyeWaller(cr, Quantity(lay(d, c), 'angstrom**2'),
                         T if T is not None else Quantity(5, 'K'))


UNITS = {'Crystal': dict(cell_vectors_unit='nm', atom_mass_unit='kg'),
         'ForceConstants': dict(force_constants_unit='eV/angstrom**2'),
         'QpointFrequencies': dict(frequencies_unit='1/cm'),
         'QpointPhononModes': dict(frequencies_unit='THz'),
         'StructureFactor': dict(structure_factors_unit='mbarn',
                                 frequencies_unit='hartree'),
         'DebyeWaller': dict(debye_waller_unit='bohr**2',
                             temperature_unit='mK')}


def calc(o, k):
    """a calculation whose result must survive the round trip"""
    from euphonic import Quantity
    b = Quantity(np.linspace(-31.7, 163.3, 23), 'meV')
    if k == 'Crystal':
        return [o.reciprocal_cell().magnitude, o.cell_volume().magnitude]
    if k == 'ForceConstants':
        r = o.calculate_qpoint_frequencies(
            np.array([[.1, .2, .3], [.5, .0, .25]]), n_threads=1)
        f = r.frequencies.magnitude
        return [np.sign(f) * f**2]
    if k == 'QpointFrequencies':
        return [o.calculate_dos(b).y_data.magnitude]
    if k == 'QpointPhononModes':
        return [o.calculate_pdos(b).y_data.magnitude,
                np.asarray(o.calculate_debye_waller(
                    Quantity(30, 'K'), symmetrise=False)
                    .debye_waller.magnitude)]
    if k == 'StructureFactor':
        with np.errstate(all='ignore'):
            return [o.calculate_1d_average(b).y_data.magnitude
                    if o.weights.sum() else 0]
    if k == 'DebyeWaller':
        return []
    return [o.get_bin_centres().magnitude]


def scribble(d):
    for k, v in d.items():
        if isinstance(v, np.ndarray):
            if v.dtype.kind in 'fc':
                v[...] = -99.
            elif v.dtype.kind == 'i':
                v[...] = 77
            elif v.dtype.kind == 'U':
                v[...] = 'Zz'
        elif isinstance(v, dict):
            scribble(v)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    x['scribble'] = 1
            v.append('scribble')
    d['scribble'] = 3


def public(o, k):
    """all public data, read from attributes (not through to_dict)"""
    from euphonic import Crystal, Quantity
    names = {
        'Crystal': ['cell_vectors', 'n_atoms', 'atom_r', 'atom_type',
                    'atom_mass'],
        'ForceConstants': ['crystal', 'force_constants', 'sc_matrix',
                           'cell_origins', 'n_cells_in_sc', 'born',
                           'dielectric'],
        'QpointFrequencies': ['crystal', 'n_qpts', 'qpts', 'frequencies',
                              'weights'],
        'QpointPhononModes': ['crystal', 'n_qpts', 'qpts', 'frequencies',
                              'weights', 'eigenvectors'],
        'StructureFactor': ['crystal', 'n_qpts', 'qpts', 'frequencies',
                            'weights', 'structure_factors', 'temperature'],
        'DebyeWaller': ['crystal', 'debye_waller', 'temperature'],
    }.get(k, ['x_data', 'y_data', 'x_tick_labels', 'metadata']
          + (['z_data'] if '2D' in k else []))
    out = {}
    for n in names:
        v = getattr(o, n)
        if isinstance(v, Crystal):
            v = public(v, 'Crystal')
        elif isinstance(v, Quantity):
            out[n + '.units'] = str(v.units)
            v = v.magnitude
            if not isinstance(v, np.ndarray):
                v = float(v)
        out[n] = copy.deepcopy(v)
    return out


def compare(a, b, what, rtol):
    """a original, b after round trip"""
    check(a.keys() == b.keys(), f'{what}: fields')
    for n in a:
        x, y = a[n], b[n]
        if isinstance(x, dict) and n == 'crystal':
            compare(x, y, f'{what}: crystal', rtol)
        elif isinstance(x, np.ndarray):
            check(isinstance(y, np.ndarray), f'{what}: {n} is {type(y)}')
            check(x.shape == y.shape, f'{what}: shape of {n}: {x.shape} '
                  f'-> {y.shape}')
            if x.dtype.kind == 'U':
                check(list(x) == list(y), f'{what}: {n}')
                continue
            check((x.dtype.kind == 'c') == (y.dtype.kind == 'c') and
                  (x.dtype.kind == 'i') == (y.dtype.kind == 'i'),
                  f'{what}: type of {n}: {x.dtype} -> {y.dtype}')
            fin = np.abs(x[np.isfinite(x)])
            close(y, x, rtol, rtol * 1e-3 * (fin.max() if fin.size else 0),
                  f'{what}: {n}')
        elif isinstance(x, float):
            check(isinstance(y, float), f'{what}: {n} is {y!r}')
            close(y, x, max(rtol, 1e-12), 1e-9, f'{what}: {n}')
        elif n == 'metadata':
            check(x == y, f'{what}: metadata {x} -> {y}')
        else:
            check(x == y, f'{what}: {n}: {x!r} -> {y!r}')


def run(c, t):
    import contextlib
    import io
    k = c['kind']
    o = build(c)
    if c['unit_change']:
        for n, u in UNITS.get(k, {}).items():
            if n == 'temperature_unit' and c['temp'] is None:
                continue
            setattr(o, n, u)
        if k in spec.CLASSES and c['spec']['x_unit'] in ('meV', 'THz',
                                                         'hartree'):
            o.x_data_unit = 'eV'
    rtol = 1e-12 if c['layout'] != 'float32' else 1e-6
    before = public(o, k)
    ref = calc(o, k)
    d = o.to_dict()
    compare(before, public(o, k), 'to_dict changed the object', 0.0)
    d_keep = copy.deepcopy(d)
    tmp = tempfile.mkdtemp(prefix='p10')
    try:
        o2 = type(o).from_dict(d)
        same(d_keep, d, 'from_dict changed its argument')
        fn = os.path.join(tmp, 'a.json')
        with contextlib.redirect_stdout(io.StringIO()):
            o.to_json_file(fn)
        with open(fn) as f:
            j = json.load(f)
        check(j.get('__euphonic_class__') == k, 'class name in JSON file: '
              f'{j.get("__euphonic_class__")}')
        o3 = type(o).from_json_file(fn)
        # twice through
        fn2 = os.path.join(tmp, 'b.json')
        with contextlib.redirect_stdout(io.StringIO()):
            o3.to_json_file(fn2)
        o4 = type(o).from_json_file(fn2)
        o5 = type(o).from_dict(o3.to_dict())
    finally:
        for n in os.listdir(tmp):
            os.remove(os.path.join(tmp, n))
        os.rmdir(tmp)
    compare(before, public(o, k), 'to_json_file changed the object', 0.0)
    for x, name in ((o2, 'dict'), (o3, 'JSON'), (o4, 'JSON twice'),
                    (o5, 'JSON and dict')):
        check(type(x) is type(o), f'{name}: class {type(x).__name__}')
        compare(before, public(x, k), name, rtol)
        res = calc(x, k)
        for i, (a, b) in enumerate(zip(ref, res)):
            sc = np.abs(np.where(np.isfinite(a), a, 0)).max()
            close(np.asarray(b), np.asarray(a), 1e-7 if rtol < 1e-9 else 1e-2,
                  (1e-7 if rtol < 1e-9 else 1e-2) * sc,
                  f'{name}: result {i} of a calculation')
    # exported data are independent of the object, and so is the new object
    scribble(d)
    compare(before, public(o, k), 'object shares data with its dict', 0.0)
    compare(public(o5, k), public(o2, k),
            'object made by from_dict shares data with the dict', rtol)
    # optional fields
    if k == 'ForceConstants':
        check(('born' in d_keep) == (o.born is not None)
              and (o3.born is None) == (o.born is None), 'born')
    if k == 'StructureFactor':
        check((o3.temperature is None) == (c['temp'] is None), 'temperature')
        t.tag(f'temperature {c["temp"]}')
    t.tag(k, c['layout'])
    t.hit(any(isinstance(v, np.ndarray) and v.size > 1
              for v in before.values()))


@st.composite
def text_cases(draw):
    return dict(spec=draw(spec.spectra(
        classes=['Spectrum1D', 'Spectrum1DCollection'])),
        fmt=draw(st.sampled_from([None, None, '%.3f', '%12.6e', 'list'])))


def run_text(c, t):
    m = spec.model(c['spec'])
    s = spec.make(m)
    before = public(s, m.cls)
    nl = len(m.metas)
    d = m.d if m.coll else m.d[None]
    fmt = c['fmt']
    if fmt == 'list':
        fmt = ['%.2f'] + ['%.5e'] * nl
    fd, fn = tempfile.mkstemp(prefix='p10')
    os.close(fd)
    try:
        if fmt is None:
            s.to_text_file(fn)
        else:
            s.to_text_file(fn, fmt=fmt)
        with open(fn) as f:
            text = f.read().splitlines()
    finally:
        os.remove(fn)
    compare(before, public(s, m.cls), 'to_text_file changed the object', 0.0)
    head = [x[2:] for x in text if x.startswith('#')]
    rows = [x.split() for x in text if not x.startswith('#')]
    check(len(rows) == m.d.shape[-1], f'{len(rows)} rows')
    cen = 0.5 * (m.x[1:] + m.x[:-1]) if len(m.x) > m.d.shape[-1] else m.x
    exp = np.column_stack([cen] + list(d))
    fmts = fmt if isinstance(fmt, list) else [fmt or '%.18e'] * (nl + 1)
    for i, (r, e) in enumerate(zip(rows, exp)):
        check(len(r) == nl + 1, f'row {i} has {len(r)} columns')
        for a, b, f in zip(r, e, fmts):
            tol = (1e-13 * abs(b) + 1e-15 if f == '%.18e' else
                   {'%.3f': 5.1e-4, '%.2f': 5.1e-3, '%12.6e': 6e-7 * abs(b),
                    '%.5e': 6e-6 * abs(b)}[f])
            check(abs(float(a) - b) <= tol + 1e-13 * np.abs(exp).max(),
                  f'row {i}: {a} for {b}')
    # header
    from euphonic import Quantity
    def head_json(prefix):
        x = [h for h in head if h.startswith(prefix)]
        check(len(x) == 1, f'header line {prefix!r} occurs {len(x)} times')
        return x[0][len(prefix):]
    common = json.loads(head_json('Common metadata: '))
    metas = []
    for i in range(nl):
        metas.append(dict(common, **json.loads(
            head_json(f'Column {i + 2}: y_data[{i}] '))))
    check(metas == m.metas, f'metadata in header {metas}, expected {m.metas}')
    for ax, u in (('x', m.x_unit), ('y', m.d_unit)):
        un = head_json(f'{ax}_data in (')[:-1]
        check(Quantity(1, un).units == Quantity(1, u).units,
              f'{ax} unit in header {un}, expected {u}')
    t.tag(m.cls, f'fmt={c["fmt"]}')
    t.hit(len(rows) > 1)


SUBS = [Sub('objects', cases(), run, quick=2400),
        Sub('text', text_cases(), run_text, quick=800)]
QUICK_S = 40
