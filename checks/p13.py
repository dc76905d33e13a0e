"""P13 damaged files are rejected, never misread"""
import contextlib
import json
import io
import os
import re
import signal
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import castep as cw
from harness import gen
from harness import phonopy as pw
from harness.core import Skip, Sub, Violation, check
from harness.gen import small_seed
from checks import p11, p12
from checks.p08 import same, snapshot
from checks.p31 import Scratch
from checks.p32 import isolated

RULE = ('A case is a well-formed file (CASTEP .phonon, .phonon_dos, '
        '.castep_bin; Phonopy yaml, hdf5, FORCE_CONSTANTS, BORN; Euphonic '
        'JSON) written from generated data and a list of damages: '
        'truncation at any byte or line, declared counts changed, lines '
        'removed or repeated, binary records shortened, removed or with '
        'another length, array slices removed.  Each damaged file must give '
        'an exception or exactly the data of the intact file, within a time '
        'limit.  Non-trivial: at least one damaged file was rejected.')
TECHNIQUE = ('property-based fault injection: intact file as the reference '
             'for every damaged version of it')
ASSUMPTIONS = ['a text file cut inside its last number, or with the '
               'complete optional last section missing, is another '
               'well-formed file']
LIMIT = 40.           # seconds of processor time
WALL = 300.           # seconds, for a reader that waits


class Hang(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    def handler(*a):
        raise Hang()
    timers = ((signal.SIGPROF, signal.ITIMER_PROF, seconds),
              (signal.SIGALRM, signal.ITIMER_REAL, WALL))
    old = [signal.signal(s, handler) for s, _, _ in timers]
    for _, which, x in timers:
        # repeated, as an exception in a callback is only reported
        signal.setitimer(which, x, 1.)
    try:
        yield
    finally:
        for (s, which, _), o in zip(timers, old):
            signal.setitimer(which, 0)
            signal.signal(s, o)


def load(f):
    """-> snapshot or None (rejected)"""
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            with limit(LIMIT):
                return snapshot(f())
        except Hang:
            raise Violation('reading the file does not end')
        except Exception:
            return None


def judge(t, readers, intact, what, exempt=False, child=False):
    """`readers`: {name: function}; `intact`: {name: snapshot}"""
    for name, f in readers.items():
        try:
            if child:
                k, got = isolated(lambda: load(f))
                check(k != 'crash', f'the process was ended: {got}')
                check(k == 'ok', f'{got}')
            else:
                got = load(f)
            if got is None:
                t.hit()
                t.tag(what.split()[0] + ': rejected')
                continue
            t.tag(what.split()[0] + (': exempt' if exempt
                                     else ': same data'))
            if not exempt:
                same(intact[name], got, 'data accepted from the damaged file')
        except Violation as v:
            raise Violation(f'{what}: {name}: {v}', v.key)


def baseline(readers):
    out = {}
    for name, f in readers.items():
        out[name] = load(f)
        if out[name] is None:
            with contextlib.redirect_stdout(io.StringIO()):
                f()
    return out


damage = st.one_of(
    st.tuples(st.just('cut'), st.integers(0, 10**6), st.integers(0, 2)),
    st.tuples(st.just('cutline'), st.integers(0, 10**6), st.integers(0, 1)),
    st.tuples(st.just('count'), st.integers(0, 30), st.sampled_from(
        [-2, -1, 1, 2, 1000, -1000])),
    st.tuples(st.just('drop'), st.integers(0, 10**6), st.integers(1, 2)),
    st.tuples(st.just('repeat'), st.integers(0, 10**6), st.just(1)))
damages = st.lists(damage, min_size=3, max_size=8)


def last_token(text):
    """start of the last token"""
    s = text.rstrip()
    m = max(s.rfind(x) for x in ' \n\t')
    return m + 1


def cut_point(text, d):
    kind, pos, mode = d
    n = len(text)
    if kind == 'cut':
        # mode 1: near the end, 2: near the start
        k = pos % n
        if mode == 1:
            k = n - 1 - pos % min(n, 300)
        elif mode == 2:
            k = pos % min(n, 1500)
        return k
    lines = [i + 1 for i, ch in enumerate(text) if ch == '\n']
    k = lines[pos % len(lines)]
    return k - mode


def damage_text(text, d, counts, lines_ok=None, no_drop=()):
    """-> (new text, description, exempt) or None.  `counts`: list of
    (start, end) of declared integers; lines_ok: predicate of lines which may
    be removed or repeated"""
    kind, pos, mode = d
    if kind in ('cut', 'cutline'):
        k = cut_point(text, d)
        return (text[:k], f'cut at byte {k} of {len(text)}',
                k > last_token(text))
    if kind == 'count':
        if not counts:
            return None
        a, b = counts[pos % len(counts)]
        old = int(text[a:b])
        new = max(old + mode, 0) if mode != -1000 else 0
        if new == old:
            return None
        w = len(text[a:b])
        return (text[:a] + f'{new:{w}d}' + text[b:],
                f'count {text[:a].splitlines()[-1].strip()} {old} '
                f'changed to {new}', False)
    lines = text.splitlines(True)
    ok = [i for i, s in enumerate(lines) if lines_ok is None or lines_ok(s)]
    if not ok:
        return None
    i = ok[pos % len(ok)]
    if kind == 'drop':
        new = lines[:i] + lines[i + 1:]
        return ''.join(new), f'drop line {i + 1}: {lines[i].strip()}', False
    new = lines[:i + 1] + lines[i:]
    return ''.join(new), f'repeat line {i + 1}: {lines[i].strip()}', False


def ints(text, patterns):
    out = []
    for p in patterns:
        for m in re.finditer(p, text):
            out.append(m.span(1))
    return out


# ------------------------------------------------------------------ CASTEP

@st.composite
def phonon_cases(draw):
    c = draw(p11.phonons())
    return dict(file=c, damages=draw(damages))


def run_phonon(c, t):
    import euphonic as E
    f = c['file']
    cell, species = p11.structure(f['s'])
    atoms = p11.atoms_of(species)[:3]
    rng = np.random.default_rng([f['seed'], 5])
    blocks = p11.blocks_of(dict(f, qs=f['qs'][:4]), len(atoms), rng)
    text, _ = cw.phonon(cell, atoms, blocks, len(f['qs'][:4]))
    counts = ints(text, [r'Number of \w+\s+(\d+)'])
    with Scratch() as d:
        p = str(d / 'x.phonon')
        readers = {
            'QpointPhononModes': lambda: E.QpointPhononModes.from_castep(p),
            'QpointFrequencies': lambda: E.QpointFrequencies.from_castep(p)}

        def write(s):
            with open(p, 'w') as h:
                h.write(s)
        write(text)
        intact = baseline(readers)
        for dm in c['damages']:
            r = damage_text(text, dm, counts)
            if r is None:
                continue
            # how many extra blocks (LO-TO splitting) follow is not declared:
            # cut between two blocks (or in the last line of one, with
            # eigenvectors which are not read), it may be well-formed
            extra = (dm[0] in ('cut', 'cutline')
                     and re.match(r'[^\n]*\n?\s*q-pt=', text[len(r[0]):])
                     and len(set(re.findall(r'q-pt=\s*(\d+)', r[0])))
                     == len(f['qs'][:4]))
            write(r[0])
            judge(t, readers, intact, r[1], r[2] or extra)


@st.composite
def dos_cases(draw):
    return dict(file=draw(p11.doses()), damages=draw(damages))


def run_dos(c, t):
    import euphonic as E
    f = c['file']
    cell, species = p11.structure(f['s'])
    atoms = p11.atoms_of(species)
    rng = np.random.default_rng([f['seed'], 6])
    blocks = p11.blocks_of(f, len(atoms), rng)
    freq = -20 + np.arange(f['bins']) * rng.uniform(.5, 90)
    partial = [(s, rng.uniform(0, .05, f['bins'])) for s, _, _ in species]
    text, _ = cw.phonon_dos(cell, atoms, blocks, freq,
                            rng.uniform(0, .3, f['bins']), partial)
    counts = ints(text, [r'Number of [\w ]+?\s+(\d+)\n'])
    with Scratch() as d:
        p = str(d / 'x.phonon_dos')
        readers = {
            'Spectrum1DCollection':
                lambda: E.Spectrum1DCollection.from_castep_phonon_dos(p),
            'Spectrum1D': lambda: E.Spectrum1D.from_castep_phonon_dos(p)}

        def write(s):
            with open(p, 'w') as h:
                h.write(s)
        write(text)
        intact = baseline(readers)
        for dm in c['damages']:
            r = damage_text(text, dm, counts)
            if r is not None:
                write(r[0])
                judge(t, readers, intact, r[1], r[2])


bin_damage = st.one_of(
    st.tuples(st.just('cut'), st.integers(0, 10**6), st.integers(0, 2)),
    st.tuples(st.just('mark'), st.integers(0, 200), st.sampled_from(
        [-8, -4, -1, 1, 4, 8, 1000, -10**6])),
    st.tuples(st.just('both marks'), st.integers(0, 200), st.sampled_from(
        [-8, -4, 4, 8])),
    st.tuples(st.just('short'), st.integers(0, 200), st.sampled_from(
        [4, 8, 24])),
    st.tuples(st.just('long'), st.integers(0, 200), st.sampled_from(
        [4, 8, 24])),
    st.tuples(st.just('remove'), st.integers(0, 200), st.just(0)),
    st.tuples(st.just('int'), st.integers(0, 60), st.sampled_from(
        [-1, 1, 3, -100])))


@st.composite
def bin_cases(draw):
    return dict(file=draw(p11.binaries()),
                damages=draw(st.lists(bin_damage, min_size=3, max_size=8)))


SIZES = {'CELL%NUM_SPECIES', 'CELL%NUM_IONS', 'CELL%NUM_IONS_IN_SPECIES',
         'FORCE_CON '}
USED = SIZES | {'CELL%REAL_LATTICE', 'CELL%IONIC_POSITIONS',
                'CELL%SPECIES_MASS', 'CELL%SPECIES_SYMBOL', 'BORN_CHGS ',
                'DIELECTRIC'}


def run_bin(c, t):
    import struct

    import euphonic as E
    f = c['file']
    cell, species = p11.structure(f['s'])
    n = sum(len(r) for _, _, r in species)
    rng = np.random.default_rng([f['seed'], 8])
    S = np.array(f['sc']['matrix'])
    origins, _ = gen.cosets(S, f['sc']['rep'], f['sc']['order'])
    fc = rng.normal(size=(len(origins), 3 * n, 3 * n)) * .1
    born = eps = None
    if f['born']:
        born = rng.normal(size=(n, 3, 3)) * 2
        eps = rng.normal(size=(3, 3)) + np.eye(3) * 4
    m = dict(cell=cell / gen.BOHR_ANG,
             species=[(s, x * gen.AMU_ME, r) for s, x, r in species])
    R = cw.castep_bin(m, fc, S, origins, born, eps, extra=f['extra'],
                      born_first=f['born_first'])
    recs, names = R.b, R.names
    idx = [i for i in range(len(recs)) if not names[i]]
    with Scratch() as d:
        p = str(d / 'x.castep_bin')
        readers = {'ForceConstants': lambda: E.ForceConstants.from_castep(p)}

        def write(b):
            with open(p, 'wb') as h:
                h.write(b)
        data = R.bytes()
        write(data)
        intact = baseline(readers)
        for kind, pos, k in c['damages']:
            new = list(recs)
            what = kind
            if kind == 'cut':
                at = pos % len(data)
                if k == 1:
                    at = len(data) - 1 - pos % min(len(data), 400)
                what = f'cut at byte {at} of {len(data)}'
                write(data[:at])
            elif kind in ('mark', 'both marks'):
                i = pos % len(recs)
                r = recs[i]
                ln = len(r) - 8
                if kind == 'both marks':
                    i = idx[pos % len(idx)]
                    r = recs[i]
                    ln = len(r) - 8
                    if ln + k <= 0:
                        continue
                bad = struct.pack('>i', ln + k)
                if kind == 'mark' and pos % 2:
                    new[i] = r[:4] + r[4:-4] + bad
                elif kind == 'mark':
                    new[i] = bad + r[4:]
                else:
                    new[i] = bad + r[4:-4] + bad
                what = f'{kind} of record {i} ({name(names, i)}) {ln} -> ' \
                    f'{ln + k}'
                write(b''.join(new))
            elif kind in ('short', 'long', 'remove'):
                use = [i for i in idx if names[i - 1] in USED
                       or name(names, i) == 'FORCE_CON ']
                i = use[pos % len(use)]
                body = recs[i][4:-4]
                if kind == 'remove' and names[i - 1] == \
                        'CELL%SPECIES_SYMBOL':
                    # the next record holds text too
                    continue
                if kind == 'remove':
                    new[i] = b''
                    what = f'remove record {i} ({name(names, i)})'
                else:
                    if kind == 'short' and len(body) <= k:
                        continue
                    body = body[:-k] if kind == 'short' else \
                        body + body[:k].ljust(k, b'\0')
                    mk = struct.pack('>i', len(body))
                    new[i] = mk + body + mk
                    what = f'{kind} record {i} ({name(names, i)})'
                write(b''.join(new))
            else:
                use = [i for i in idx if names[i - 1] in SIZES]
                i = use[pos % len(use)]
                a = np.frombuffer(recs[i][4:-4], '>i4').copy()
                j = pos % len(a)
                if names[i - 1] == 'FORCE_CON ':
                    # another supercell of the same size is well-formed
                    M = a.reshape(3, 3).astype(float)
                    M.ravel()[j] += k
                    if round(abs(np.linalg.det(M))) == len(origins):
                        continue
                a[j] += k
                new[i] = recs[i][:4] + a.tobytes() + recs[i][-4:]
                what = f'int of {names[i - 1]}[{j}] changed by {k}'
                write(b''.join(new))
            judge(t, readers, intact, what)


def name(names, i):
    while not names[i]:
        i -= 1
    return names[i]


# ----------------------------------------------------------------- Phonopy

@st.composite
def fc_cases(draw):
    return dict(file=draw(p12.cases()), damages=draw(damages))


NUMBERS = re.compile(r'^\s*(- )?\[[^\]]*\]|^\s*- # |^\s*- symbol|'
                     r'^\s*coordinates|^\s*mass|^\s*frequency')


def numeric_line(s):
    return bool(NUMBERS.match(s))


def run_fc(c, t):
    import euphonic as E
    f = c['file']
    f['fc']['polar'] = f['fc']['polar'] and f['born'] in (
        'file', 'file_factor') or f['where'] == 'yaml' and f['fc']['polar']
    m = gen.fc_model(f['fc'])
    F = pw.model(m, f['unit'], f['order'], f['rep'], 0., True)
    polar = m.born is not None
    born_file = polar and f['born'] in ('file', 'file_factor')
    factor = pw.nac_factor('vasp') if polar else None
    in_yaml = f['where'] == 'yaml'
    summary = pw.summary(
        F, 'vasp', f['kind'] if in_yaml else None,
        born=polar and not born_file, factor=factor if not born_file
        or f['born'] == 'file' else None,
        style='old' if f['born'] == 'file' else f['style'])
    with Scratch() as d:
        kw = {}
        files = {'phonopy.yaml': summary}
        hdf5 = not in_yaml and f['where'] not in ('text', 'single')
        if not in_yaml and not hdf5:
            files['FORCE_CONSTANTS'] = pw.force_constants_text(
                F, 'vasp', f['kind'], f['where'] == 'single')
        if hdf5:
            kw['fc_name'] = 'force_constants.hdf5'
            pw.force_constants_hdf5(str(d / 'force_constants.hdf5'), F,
                                    'vasp', f['kind'], f['qseed'] % 2)
            blob = (d / 'force_constants.hdf5').read_bytes()
        if born_file:
            kw['born_name'] = 'BORN'
            files['BORN'] = pw.born_file(
                F, factor if f['born'] == 'file_factor' else None,
                f['comment'])
        for k, s in files.items():
            (d / k).write_text(s)
        reader = {'ForceConstants':
                  lambda: E.ForceConstants.from_phonopy(**kw)}
        intact = baseline(reader)
        names = sorted(files) + (['hdf5'] if hdf5 else [])
        for dm in c['damages'][:5]:
            which = names[(dm[1] // 7 + f['qseed']) % len(names)]
            if which == 'hdf5':
                if dm[0] not in ('cut', 'cutline'):
                    continue
                k = dm[1] % len(blob)
                (d / 'force_constants.hdf5').write_bytes(blob[:k])
                judge(t, reader, intact, f'cut of force_constants.hdf5 at '
                      f'byte {k} of {len(blob)}', child=True)
                (d / 'force_constants.hdf5').write_bytes(blob)
                continue
            text = files[which]
            if which == 'phonopy.yaml':
                counts = ints(text, [r'shape: \[ (\d+)',
                                     r'shape: \[ \d+, (\d+)'])
                ok = numeric_line
            elif which == 'FORCE_CONSTANTS':
                h = text.split('\n')[0]
                counts = [x.span() for x in re.finditer(r'\d+', h)]
                # (the lines of indices are not read)
                ok = (lambda s: len(s.split()) == 3)
            else:
                counts, ok = [], (lambda s: len(s.split()) == 9)
            r = damage_text(text, dm, counts, ok)
            if r is None:
                continue
            exempt = r[2]
            if which == 'phonopy.yaml' and dm[0] in ('drop', 'repeat'):
                # rows of a matrix which is not needed
                lines = text.splitlines()
                i = int(re.match(r'\w+ line (\d+)', r[1]).group(1)) - 1
                while not re.match(r'\S+:', lines[i]):
                    i -= 1
                if lines[i][:-1] in ('unit_cell', 'supercell_matrix',
                                     'primitive_matrix'):
                    continue
            if which == 'phonopy.yaml' and dm[0].startswith('cut'):
                # complete sections which are not needed or optional
                exempt = exempt or only_tail(text, r[0], in_yaml)
            (d / which).write_text(r[0])
            judge(t, reader, intact, f'{r[1]} of {which}', exempt)
            (d / which).write_text(text)


def only_tail(text, new, fc_in_yaml):
    """only a whole optional section at the end is missing or damaged (force
    constants in a separate file)"""
    return False


@st.composite
def mode_cases(draw):
    return dict(file=draw(p12.mode_cases()), damages=draw(damages))


def run_modes(c, t):
    import euphonic as E
    f = c['file']
    m = gen.crystal_model(f['crystal'])
    n, nb = m.n_atoms, 3 * m.n_atoms
    rng = np.random.default_rng([f['seed'], 12])
    nq = f['nq']
    P = pw.Modes()
    P.qpts = rng.uniform(-1.5, 1.5, (nq, 3))
    P.weights = [int(x) for x in rng.integers(1, 20, nq)]
    P.freq = np.sort(rng.uniform(-2, 25, (nq, nb)), axis=1)
    P.evec = (rng.normal(size=(nq, nb, n, 3))
              + 1j * rng.normal(size=(nq, nb, n, 3)))
    P.cell, P.r = m.cell_ang, m.atom_r
    P.types, P.mass = m.atom_type, m.mass_amu
    yaml = f['fmt'].startswith('y')
    path = f['kind'] + ('.yaml' if yaml else '.hdf5')
    with Scratch() as d:
        kw = dict(phonon_name=path)
        if yaml:
            text = pw.modes_yaml(P, f['kind'], f['evec'])
            (d / path).write_text(text)
        else:
            pw.modes_hdf5(str(d / path), P, f['kind'], f['evec'], 1)
            blob = (d / path).read_bytes()
        if not yaml or f['kind'] == 'qpoints':
            m.sc_matrix = np.eye(3, dtype=int)
            m.origins, m.index = gen.cosets(m.sc_matrix)
            m.fc = np.zeros((1, nb, nb))
            m.born = m.eps = None
            F = pw.model(m, 'primitive', None)
            (d / 'phonopy.yaml').write_text(pw.summary(F, 'vasp'))
        readers = {'QpointFrequencies':
                   lambda: E.QpointFrequencies.from_phonopy(**kw)}
        if f['evec']:
            readers['QpointPhononModes'] = \
                lambda: E.QpointPhononModes.from_phonopy(**kw)
        intact = baseline(readers)
        for dm in c['damages']:
            if not yaml:
                if dm[0] not in ('cut', 'cutline'):
                    continue
                k = dm[1] % len(blob)
                (d / path).write_bytes(blob[:k])
                judge(t, readers, intact, f'cut of {path} at byte {k} of '
                      f'{len(blob)}', child=True)
                continue
            counts = ints(text, [r'nqpoint: (\d+)', r'natom: (\d+)'])

            def ok(s):
                return numeric_line(s) or s.startswith('- q-position')
            r = damage_text(text, dm, counts, ok)
            if r is None:
                continue
            lines = text.splitlines()
            if dm[0] in ('drop', 'repeat'):
                i = int(re.match(r'\w+ line (\d+)', r[1]).group(1)) - 1
                while not re.match(r'\w+:', lines[i]):
                    i -= 1
                if lines[i].split(':')[0] == 'reciprocal_lattice':
                    continue
            (d / path).write_text(r[0])
            # without the eigenvectors after it (they are optional), the
            # frequency is the last number of the file
            last = r[0].splitlines()[-1].split() if r[0] else []
            exempt = r[2] or (dm[0] in ('cut', 'cutline')
                              and last[:1] == ['frequency:'])
            judge(t, readers, intact, f'{r[1]} of {path}', exempt)


# -------------------------------------------------------------------- JSON

@st.composite
def json_cases(draw):
    return dict(kind=draw(st.sampled_from(['fc', 'modes', 'frequencies',
                                           'sf', 'dw', 'crystal'])),
                fc=draw(gen.force_constants(2, 4)),
                modes=draw(gen.phonon_modes(2, 4)),
                seed=draw(small_seed),
                cuts=draw(st.lists(st.integers(0, 10**6), min_size=2,
                                   max_size=5)),
                drops=draw(st.lists(st.integers(0, 10**6), min_size=2,
                                    max_size=5)))


def make_json(c):
    import euphonic as E
    rng = np.random.default_rng([c['seed'], 2])
    k = c['kind']
    if k == 'fc':
        return gen.make_fc(gen.fc_model(c['fc']))
    m = gen.modes_model(c['modes'])
    if k == 'modes':
        return gen.make_modes(m)
    if k == 'frequencies':
        return gen.make_modes(m, 'frequencies')
    o = gen.make_modes(m)
    if k == 'crystal':
        return o.crystal
    if k == 'sf':
        return E.StructureFactor(
            o.crystal, o.qpts.copy(), o.frequencies.copy(),
            E.Quantity(rng.uniform(0, 1, o.frequencies.shape), 'mbarn'),
            weights=o.weights.copy())
    a = rng.uniform(0, 1, (o.crystal.n_atoms, 3, 3))
    return E.DebyeWaller(o.crystal, E.Quantity(a, 'angstrom**2'),
                         E.Quantity(10., 'K'))


def arrays(d, path=()):
    out = []
    for k, v in d.items():
        if isinstance(v, dict) and k in ('real', 'imag', 'crystal',
                                         'eigenvectors'):
            out += arrays(v, path + (k,))
        elif isinstance(v, list):
            out.append(path + (k,))
    return out


def run_json(c, t):
    o = make_json(c)
    cls = type(o)
    with Scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        p = str(d / 'x.json')
        o.to_json_file(p)
        text = open(p).read()
        readers = {cls.__name__: lambda: cls.from_json_file(p)}

        def write(s):
            with open(p, 'w') as h:
                h.write(s)
        intact = baseline(readers)
        for k in c['cuts']:
            k %= len(text.rstrip())
            write(text[:k])
            judge(t, readers, intact, f'cut at byte {k} of {len(text)}')
        whole = json.loads(text)
        where = arrays(whole)
        for k in c['drops']:
            new = json.loads(text)
            path = where[k % len(where)]
            x = new
            for s in path[:-1]:
                x = x[s]
            a = np.array(x[path[-1]])
            ax = (k // 7) % a.ndim
            if a.shape[ax] == 0:
                continue
            if (c['kind'] == 'frequencies' and path == ('frequencies',)
                    and ax == 1):
                # any number of branches is documented as acceptable
                continue
            i = (k // 31) % a.shape[ax]
            rep = (k // 3) % 3 == 0
            if rep:
                a = np.insert(a, i, a.take(i, ax), ax)
            else:
                a = np.delete(a, i, ax)
            x[path[-1]] = a.tolist()
            write(json.dumps(new))
            judge(t, readers, intact, f'slice {i} of axis {ax} of '
                  f'{".".join(path)} {"repeated" if rep else "removed"}')


SUBS = [Sub('phonon', phonon_cases(), run_phonon, 1200, 20000),
        Sub('dos', dos_cases(), run_dos, 500, 15000),
        Sub('bin', bin_cases(), run_bin, 1400, 20000),
        Sub('phonopy_fc', fc_cases(), run_fc, 500, 8000),
        Sub('phonopy_modes', mode_cases(), run_modes, 300, 10000),
        Sub('json', json_cases(), run_json, 400, 12000)]
