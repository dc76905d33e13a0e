"""P23 Spectrum collections behave as labelled lists of spectra"""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from checks.p08 import same, snapshot
from harness import gen, spec
from harness.core import Skip, Sub, check, close, raises
from harness.gen import small_seed

RULE = ('A case is two collections on the same axes (1-D or 2-D, drawn '
        'metadata with shared/missing/line keys, labels, units) and 2-10 '
        'operations (index, slice, fancy index, +, from_spectra, sum, '
        'group_by, select, *, *=, copy, iteration, unit change, edits of '
        'results) drawn from a pool to which results are added.  Each result '
        'is compared with the same operation on a plain list of (data, '
        'metadata) pairs, and after every operation all objects of the pool '
        'are compared with their models.  Non-trivial: some operation '
        'involves at least two lines.')
TECHNIQUE = ('model-based stateful testing against a list of (data, '
             'metadata) pairs')
ASSUMPTIONS = ['slices whose stop equals the length are refused by design '
               '(an existing test requires it)',
               'concatenation requires equal units']

OPS = ['int', 'slice', 'list', 'array', 'add', 'from_spectra', 'sum',
       'group_by', 'select', 'mul', 'imul', 'copy', 'iterate', 'unit',
       'edit_meta', 'edit_data', 'bad_index', 'add_spectra', 'to_dict']


@st.composite
def cases(draw):
    s = draw(spec.spectra(classes=['Spectrum1DCollection',
                                   'Spectrum2DCollection'],
                          max_n=5, max_lines=5, big=20))
    other = [dict(draw(spec.metadata())) for _ in
             range(draw(st.integers(1, 3)))]
    # the interesting operations depend on repeated keys and values
    ops = [dict(op=draw(st.sampled_from(OPS)), i=draw(st.integers(0, 9)),
                j=draw(st.integers(-9, 9)), k=draw(st.integers(-3, 9)),
                f=draw(st.sampled_from([2, -1, 0.5, 3.25, 0, 1e-3])),
                keys=draw(st.lists(st.sampled_from(spec.KEYS), min_size=1,
                                   max_size=2, unique=True)),
                vals=draw(st.lists(st.sampled_from(spec.VALUES), min_size=1,
                                   max_size=3, unique=True)))
           for _ in range(draw(st.integers(2, 10)))]
    return dict(spec=s, other=other, ops=ops)


class M:
    """model: axes + list of (data, meta)"""
    def __init__(self, base, pairs, unit=None, factor=1.0):
        self.base = base
        self.pairs = [(np.array(d, float), dict(m)) for d, m in pairs]
        self.unit = unit or base.d_unit
        self.single = False

    def like(self, pairs, single=False):
        m = M(self.base, pairs, self.unit)
        m.single = single
        return m


def common(metas):
    out = dict(metas[0])
    for x in metas[1:]:
        out = {k: v for k, v in out.items()
               if k in x and x[k] == v and type(x[k]) is type(v)}
    return out


def verify(o, m, what, structure=True):
    import euphonic as E
    from euphonic.spectra import Spectrum2DCollection
    two = m.base.two
    cls = ((E.Spectrum2D if two else E.Spectrum1D) if m.single else
           (Spectrum2DCollection if two else E.Spectrum1DCollection))
    check(type(o) is cls, f'{what}: type {type(o).__name__}')
    d = spec.data(o)
    exp = np.array([x for x, _ in m.pairs])
    if m.single:
        exp = exp[0]
    check(d.units == E.Quantity(1, m.unit).units,
          f'{what}: unit {d.units}, expected {m.unit}')
    scale = np.abs(exp).max() if exp.size else 0
    close(d.magnitude, exp, 1e-9, 1e-9 * scale, f'{what}: data')
    close(o.x_data.magnitude, m.base.x, 1e-12, 0, f'{what}: x_data')
    check(o.x_data.units == E.Quantity(1, m.base.x_unit).units,
          f'{what}: x unit')
    if two:
        close(o.y_data.magnitude, m.base.y, 1e-12, 0, f'{what}: y_data')
        check(o.y_data.units == E.Quantity(1, m.base.y_unit).units,
              f'{what}: y unit')
    check(o.x_tick_labels == m.base.labels, f'{what}: tick labels '
          f'{o.x_tick_labels}, expected {m.base.labels}')
    metas = [x for _, x in m.pairs]
    got = spec.lines(o)
    check(got == metas, f'{what}: metadata {got}, expected {metas}')
    check([[type(v) for v in x.values()] for x in
           [dict(sorted(g.items())) for g in got]]
          == [[type(v) for v in x.values()] for x in
              [dict(sorted(g.items())) for g in metas]],
          f'{what}: types of metadata values')
    if not m.single:
        check(len(o) == len(m.pairs), f'{what}: length {len(o)}')
        if structure:
            top = {k: v for k, v in o.metadata.items() if k != 'line_data'}
            check(top == common(metas), f'{what}: top-level metadata {top}, '
                  f'common to all lines are {common(metas)}')
            for ld in o.metadata.get('line_data', []):
                check(not set(ld) & set(top), f'{what}: keys both at top '
                      f'level and in line_data')


ALT = {'1/meV': ('1/eV', 1e3), 'mbarn/meV': ('barn/meV', 1e-3),
       'barn': ('mbarn', 1e3), 'THz': ('GHz', 1e3), '1/cm': ('1/mm', 0.1),
       'angstrom**2/THz': ('nm**2/THz', 1e-2)}


def run(c, t):
    import euphonic as E
    from euphonic.spectra import Spectrum2DCollection
    base = spec.model(c['spec'])
    a = spec.make(base)
    ma = M(base, zip(base.d, base.metas))
    rng = np.random.default_rng([c['spec']['seed'], 12])
    mb_pairs = [(rng.uniform(0, 2, base.d.shape[1:]), x) for x in c['other']]
    C = type(a)
    item = E.Spectrum2D if base.two else E.Spectrum1D

    def single(d, meta, unit):
        args = [E.Quantity(base.x.copy(), base.x_unit)]
        if base.two:
            args.append(E.Quantity(base.y.copy(), base.y_unit))
        return item(*args, E.Quantity(np.array(d), unit),
                    x_tick_labels=None if base.labels is None
                    else list(base.labels), metadata=dict(meta))
    b = C.from_spectra([single(d, x, base.d_unit) for d, x in mb_pairs])
    mb = M(base, mb_pairs)
    verify(b, mb, 'from_spectra')
    pool = [[a, ma, False], [b, mb, True]]   # object, model, structured

    def check_pool(what):
        for o, m, s in pool:
            verify(o, m, f'{what}: object in pool', s)
    check_pool('initial')
    for step, op in enumerate(c['ops']):
        idx = op['i'] % len(pool)
        o, m, structured = pool[idx]
        n = len(m.pairs)
        name = op['op']
        what = f'step {step} {name}'
        if m.single and name not in ('mul', 'imul', 'copy', 'unit',
                                     'edit_meta', 'edit_data', 'add'):
            continue
        t.tag(name)
        new = None
        if name == 'int':
            i = op['j'] % n - (n if op['k'] % 2 else 0)
            i = np.int64(i) if op['k'] % 3 == 0 else i
            new = (o[i], m.like([m.pairs[i]], True), True)
        elif name == 'slice':
            sl = slice(op['j'] % n - (n if op['k'] % 2 else 0) if op['j'] % 3
                       else None,
                       (op['k'] % n if op['k'] % 2 else -(op['k'] % n) or None)
                       if op['k'] % 4 else None,
                       [None, 1, 2, -1][op['i'] % 4])
            pairs = m.pairs[sl]
            if not pairs:
                continue
            what += f' {sl}'
            new = (o[sl], m.like(pairs), True)
        elif name in ('list', 'array'):
            ii = [(op['j'] + 3 * r * op['k']) % n - (n if r % 2 else 0)
                  for r in range(1 + abs(op['k']) % 3)]
            what += f' {ii}'
            new = (o[ii if name == 'list' else np.array(ii)],
                   m.like([m.pairs[i] for i in ii]), True)
        elif name == 'add':
            o2, m2, _ = pool[op['j'] % len(pool)]
            if m2.unit != m.unit or m2.single != m.single:
                continue
            if m.single:
                if base.two:
                    continue
                r = o + o2
                new = (r, m.like([(m.pairs[0][0] + m2.pairs[0][0], common(
                    [m.pairs[0][1], m2.pairs[0][1]]))], True), True)
            else:
                new = (o + o2, m.like(m.pairs + m2.pairs), True)
                t.hit()
        elif name == 'from_spectra':
            lst = [single(d, x, m.unit) for d, x in m.pairs]
            if op['j'] % 2:
                # spectra that carry other internal units
                alt = ALT.get(m.unit)
                if alt:
                    lst = [single(d * alt[1], x, alt[0]) for d, x in m.pairs]
                    for s in lst:
                        setattr(s, f'{"z" if base.two else "y"}_data_unit',
                                m.unit)
            snaps = [snapshot(s) for s in lst]
            new = (C.from_spectra(lst), m.like(m.pairs), True)
            for s, sn in zip(lst, snaps):
                same(sn, snapshot(s), f'{what}: argument changed')
        elif name == 'iterate':
            got = list(o)
            check(len(got) == n, f'{what}: {len(got)} items')
            for i, g in enumerate(got):
                verify(g, m.like([m.pairs[i]], True), f'{what}: item {i}')
            got = list(o.iter_metadata())
            check(got == [x for _, x in m.pairs], f'{what}: iter_metadata')
        elif name == 'sum':
            meta = common([x for _, x in m.pairs])
            new = (o.sum(), m.like(
                [(sum(d for d, _ in m.pairs), meta)], True), True)
            t.hit(n > 1)
        elif name == 'group_by':
            groups = {}
            for d, x in m.pairs:
                groups.setdefault(tuple(x.get(k) for k in op['keys']),
                                  []).append((d, x))
            pairs = [(sum(d for d, _ in g), common([x for _, x in g]))
                     for g in groups.values()]
            what += f' {op["keys"]}'
            new = (o.group_by(*op['keys']), m.like(pairs), True)
            t.tag('several groups' if 1 < len(groups) < n else 'trivial groups')
            t.hit(n > 1)
        elif name == 'select':
            vals = list(op['vals'])
            kw = {op['keys'][0]: vals if len(vals) > 1 else vals[0]}
            combos = [vals]
            if len(op['keys']) > 1:
                v2 = sorted({x[op['keys'][1]] for _, x in m.pairs
                             if op['keys'][1] in x}, key=repr)[:2]
                if v2:
                    kw[op['keys'][1]] = tuple(v2)
                    combos.append(v2)
            what += f' {kw}'
            sel = []
            for combo in itertools.product(*combos):
                for d, x in m.pairs:
                    if all(k in x and x[k] == v for k, v in zip(kw, combo)):
                        sel.append((d, x))
            if not sel:
                raises(ValueError, lambda: o.select(**kw), what)
                t.tag('nothing selected')
            else:
                new = (o.select(**kw), m.like(sel), True)
                t.hit()
        elif name == 'mul':
            new = (o * op['f'], m.like(
                [(d * op['f'], x) for d, x in m.pairs], m.single), structured)
        elif name == 'imul':
            o0 = o
            o *= op['f']
            check(o is o0, f'{what}: not in place')
            pool[idx][1] = m.like([(d * op['f'], x) for d, x in m.pairs],
                                  m.single)
        elif name == 'copy':
            new = (o.copy(), m.like(m.pairs, m.single), structured)
        elif name == 'to_dict':
            new = (C.from_dict(o.to_dict()), m.like(m.pairs), structured)
        elif name == 'unit':
            alt = ALT.get(m.unit)
            if alt:
                setattr(o, f'{"z" if base.two else "y"}_data_unit', alt[0])
                mm = m.like([(d * alt[1], x) for d, x in m.pairs], m.single)
                mm.unit = alt[0]
                pool[idx][1] = mm
        elif name == 'edit_meta':
            # editing one object must not show in any other
            key = f'edited{step}'
            o.metadata[key] = step
            pool[idx][1] = m.like([(d, dict(x, **{key: step}))
                                   for d, x in m.pairs], m.single)
            if o.metadata.get('line_data'):
                o.metadata['line_data'][0][key + 'L'] = 1
                p = pool[idx][1].pairs
                p[0] = (p[0][0], dict(p[0][1], **{key + 'L': 1}))
        elif name == 'edit_data':
            ax = 'z' if base.two else 'y'
            q = getattr(o, ax + '_data') * 1.5
            setattr(o, ax + '_data', q)
            pool[idx][1] = m.like([(d * 1.5, x) for d, x in m.pairs],
                                  m.single)
            q *= 0
            lab = o.x_tick_labels
            if lab:
                # replaced as a whole: labels of other objects stay
                o.x_tick_labels = list(lab)
        elif name == 'bad_index':
            raises((IndexError,), lambda: o[n], f'{what}: [{n}]')
            raises((IndexError,), lambda: o[-n - 1], f'{what}: [{-n - 1}]')
            raises((IndexError,), lambda: o[[0, n]], f'{what}: [[0, {n}]]')
            raises((TypeError,), lambda: o['1'], f"{what}: ['1']")
            raises((TypeError,), lambda: o[[0.0]], f'{what}: [[0.0]]')
            raises((TypeError,), lambda: o[[True] * n], f'{what}: [[True]]')
            raises((TypeError,), lambda: o[np.ones(n, bool)],
                   f'{what}: bool array')
        if new is not None:
            verify(new[0], new[1], what, new[2])
            if len(pool) < 6:
                pool.append(list(new))
            else:
                pool[2 + step % 4] = list(new)
        check_pool(what)


def moved(x):
    """a shift which is not small for this axis"""
    if len(x) > 1:
        return 3 * np.abs(np.diff(x)).max()
    return np.abs(x).max() / 2 or .5


@st.composite
def ctor_cases(draw):
    s = draw(spec.spectra(classes=['Spectrum1D', 'Spectrum2D'], max_n=5))
    s['mag'] = draw(st.sampled_from([0, 0, 0, -5, -9, -13, -22, 4]))
    return dict(spec=s,
        kind=draw(st.sampled_from(['unit', 'bins', 'labels', 'type', 'empty',
                                   'bin_unit', 'line_data'])),
        n=draw(st.integers(1, 3)), pos=draw(st.integers(0, 3)))


def run_ctor(c, t):
    """from_spectra refuses spectra that do not belong together"""
    import euphonic as E
    from euphonic.spectra import Spectrum2DCollection
    m = spec.model(c['spec'])
    C = Spectrum2DCollection if m.two else E.Spectrum1DCollection
    k = c['kind']
    t.tag(k)
    t.hit()
    good = [spec.make(m) for _ in range(c['n'])]
    verify(C.from_spectra(good),
           M(m, [(m.d, m.metas[0])] * c['n']), 'from_spectra')
    if k == 'empty':
        raises(IndexError, lambda: C.from_spectra([]), 'empty list')
        return
    bad = spec.make(m)
    if k == 'unit':
        alt = ALT.get(m.d_unit)
        if alt is None:
            raise Skip('no alternative unit')
        setattr(bad, f'{"z" if m.two else "y"}_data_unit', alt[0])
    elif k == 'bins':
        bad.x_data = bad.x_data + E.Quantity(moved(m.x), m.x_unit)
    elif k == 'bin_unit':
        alt = {'meV': 'eV', 'THz': 'GHz', '1/cm': '1/mm', 'hartree': 'eV',
               '1/angstrom': '1/nm', '1/bohr': '1/nm'}[m.x_unit]
        bad.x_data_unit = alt
    elif k == 'labels':
        bad.x_tick_labels = [(0, 'other')]
    elif k == 'type':
        bad = [C.from_spectra(good), 'x', None, 3][c['pos']]
    elif k == 'line_data':
        args = [E.Quantity(m.x, m.x_unit)]
        if m.two:
            args.append(E.Quantity(m.y, m.y_unit))
        for n in (0, 1, c['n'] + 2):
            raises(ValueError, lambda: C(
                *args, E.Quantity(np.array([m.d] * (c['n'] + 1)), m.d_unit),
                metadata={'line_data': [{}] * n} if n != c['n'] + 1
                else {'line_data': []}), f'{n} entries of line_data')
        return
    if k == 'bins' and c['pos'] % 2 and m.two:
        bad = spec.make(m)
        bad.y_data = bad.y_data + E.Quantity(0.5, m.y_unit)
    lst = list(good)
    lst.insert(1 + c['pos'] % c['n'], bad)
    raises((AssertionError, ValueError, TypeError),
           lambda: C.from_spectra(lst), f'from_spectra with different {k}')


# values that look alike in some representation
LOOK = [1, 11, 111, '1', '11', '111', 0, '0', '', 'None', -1, '-1', 'a', 'b',
        'ab', 'a, b', '(1,)', "1', '1", 10**12]


@st.composite
def alike_cases(draw):
    pool = draw(st.lists(st.sampled_from(LOOK), min_size=2, max_size=4,
                         unique_by=repr))
    keys = ['T', 'index', 'label']
    n = draw(st.integers(2, 8))
    s = draw(spec.spectra(classes=['Spectrum1DCollection',
                                   'Spectrum2DCollection'],
                          max_n=4, max_lines=n, min_lines=n))
    s['meta'] = {}
    s['lines'] = [{k: draw(st.sampled_from(pool)) for k in keys
                   if draw(st.integers(0, 5))} for _ in range(n)]
    return dict(spec=s, keys=draw(st.permutations(keys))[
        :draw(st.integers(1, 3))], pick=draw(st.lists(
            st.sampled_from(pool), min_size=1, max_size=3,
            unique_by=repr)), i=draw(st.integers(0, 7)))


def run_alike(c, t):
    """grouping and selection by values which are alike but not equal"""
    base = spec.model(c['spec'])
    a = spec.make(base)
    m = M(base, zip(base.d, base.metas))
    groups = {}
    for d, x in m.pairs:
        groups.setdefault(tuple(x.get(k) for k in c['keys']), []).append(
            (d, x))
    t.tag(f'{len(groups)} groups')
    t.hit(1 < len(groups) < len(m.pairs))
    verify(a.group_by(*c['keys']), m.like(
        [(sum(d for d, _ in g), common([x for _, x in g]))
         for g in groups.values()]), f'group_by {c["keys"]}')
    k, vals = c['keys'][0], c['pick']
    sel = [(d, x) for v in vals for d, x in m.pairs if k in x and x[k] == v]
    arg = vals if len(vals) > 1 or c['i'] % 2 else vals[0]
    if sel:
        verify(a.select(**{k: arg}), m.like(sel), f'select {k}={arg!r}')
    else:
        raises(ValueError, lambda: a.select(**{k: arg}), f'select {k}={arg}')
    ls = list(a)
    i = c['i'] % len(ls)
    verify(type(a).from_spectra(ls[i:] + ls[:i]), m.like(
        m.pairs[i:] + m.pairs[:i]), 'from_spectra in another order')
    verify(a.sum(), m.like([(base.d.sum(0), common(
        [x for _, x in m.pairs]))], True), 'sum')


@st.composite
def add_cases(draw):
    s = draw(spec.spectra(classes=['Spectrum1D'], max_n=6))
    s['mag'] = draw(st.sampled_from([0, 0, -5, -9, -13, -22, 4]))
    return dict(spec=s, other=draw(spec.metadata()),
                share=draw(st.booleans()), seed=draw(small_seed),
                n=draw(st.integers(2, 4)),
                bad=draw(st.sampled_from([None, None, None, 'x', 'unit',
                                          'labels', 'length', 'other'])))


def run_add(c, t):
    """addition of single spectra"""
    import euphonic as E
    base = spec.model(c['spec'])
    rng = np.random.default_rng([c['seed'], 231])
    a = spec.make(base)
    before = snapshot(a)
    pairs, objs = [(base.d, base.metas[0])], [a]
    for k in range(c['n'] - 1):
        meta = dict(base.metas[0] if c['share'] and k % 2 == 0 else {},
                    **c['other'])
        d = rng.uniform(-1, 2, base.d.shape)
        o = E.Spectrum1D(E.Quantity(base.x.copy(), base.x_unit),
                         E.Quantity(d, base.d_unit), metadata=dict(meta),
                         x_tick_labels=base.labels)
        pairs.append((d, meta))
        objs.append(o)
    t.tag(c['bad'] or 'good')
    t.hit()
    s = objs[0]
    for o in objs[1:]:
        s = s + o
    same(before, snapshot(a), 'first term')
    m = M(base, pairs).like([(sum(d for d, _ in pairs), common(
        [x for _, x in pairs]))], True)
    verify(s, m, 'sum of spectra', False)
    if c['bad'] is None:
        return
    b = spec.make(base)
    if c['bad'] == 'x':
        b.x_data = b.x_data + E.Quantity(moved(base.x), base.x_unit)
    elif c['bad'] == 'labels':
        b.x_tick_labels = [(0, 'another')]
    elif c['bad'] == 'unit':
        b = E.Spectrum1D(b.x_data, b.y_data.magnitude * E.ureg('kg'),
                         x_tick_labels=base.labels)
    elif c['bad'] == 'length':
        b = E.Spectrum1D(E.Quantity(np.append(base.x, base.x[-1] + 1),
                                    base.x_unit),
                         E.Quantity(np.ones(len(base.d) + 1), base.d_unit),
                         x_tick_labels=base.labels)
    else:
        b = [1, 'a', None, b.y_data][c['n'] % 4]
    raises(Exception, lambda: a + b, f'addition with different {c["bad"]}')


SUBS = [Sub('alike', alike_cases(), run_alike, quick=500),
        Sub('add', add_cases(), run_add, quick=300),
        Sub('histories', cases(), run, quick=1600),
        Sub('constructor', ctor_cases(), run_ctor, quick=500)]
QUICK_S = 40
