"""P34 The command-line tools read every format as the direct readers do"""
import json
import os
import pathlib
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.p10 import compare, public
from checks.p11 import (BOHR, atoms_of, binaries, blocks_of, phonons,
                        structure)
from checks.p12 import quiet
from checks.p30 import tool
from checks.p31 import Scratch
from harness import castep as cw
from harness import gen
from harness import phonopy as pw
from harness.core import Skip, Sub, Violation, check, close, raises
from harness.gen import small_seed

RULE = ('a case is a folder holding one phonon or force-constants data set '
        'in a format written independently of Euphonic (CASTEP .phonon, '
        '.castep_bin, .check; Phonopy mesh/band/qpoints files in yaml or '
        'hdf5, with or without eigenvectors; phonopy.yaml, perhaps renamed, '
        'with force constants inside, in FORCE_CONSTANTS or in '
        'force_constants.hdf5, with or without BORN; Euphonic JSON of each '
        'class), a file name (dots, spaces, relative or absolute, str or '
        'Path) and whether only frequencies are wanted; the object loaded '
        'is compared with that of the class and reader the format '
        'documents.  tools: the output of euphonic-dispersion, '
        'euphonic-dos or euphonic-intensity-map for the file is that for '
        'the JSON file of the object.  Non-trivial: every case but a JSON '
        'file read whole.')
TECHNIQUE = ('property-based testing: differential between the format-'
             'detecting loader of the command line and the reader of each '
             'format, on files of an independent writer')
ASSUMPTIONS = ['each folder holds one data set (the choice between '
               'contradictory files in one folder is not specified), apart '
               'from unrelated files with other names']

MODES = ('mesh', 'band', 'qpoints')


@st.composite
def sources(draw):
    kind = draw(st.sampled_from(['phonon', 'castep_fc', 'modes', 'modes',
                                 'phonopy_fc', 'phonopy_fc', 'json']))
    c = dict(kind=kind, seed=draw(small_seed))
    if kind == 'phonon':
        c['phonon'] = draw(phonons())
    elif kind == 'castep_fc':
        c['bin'] = draw(binaries())
    elif kind == 'modes':
        c.update(crystal=draw(gen.crystals(1, 3)),
                 nq=draw(st.integers(1, 6)),
                 file=draw(st.sampled_from(MODES)),
                 fmt=draw(st.sampled_from(['yaml', 'hdf5'])),
                 evec=draw(st.sampled_from([True, True, False])),
                 segments=draw(st.integers(1, 3)))
    elif kind == 'phonopy_fc':
        c.update(fc=draw(gen.force_constants(max_atoms=3, max_cells=6)),
                 unit=draw(st.sampled_from(['primitive', 'supercell'])),
                 order=draw(st.one_of(st.none(), small_seed)),
                 where=draw(st.sampled_from(['yaml', 'text', 'hdf5'])),
                 full=draw(st.booleans()),
                 open=draw(st.sampled_from(['yaml', 'renamed', 'hdf5'])),
                 born=draw(st.sampled_from(['yaml', 'file', 'file'])),
                 units=draw(st.sampled_from(sorted(pw.UNITS))))
    else:
        c['what'] = draw(st.sampled_from(['fc', 'modes', 'freqs']))
        if c['what'] == 'fc':
            c['fc'] = draw(gen.force_constants(max_atoms=3, max_cells=6))
        else:
            c['modes'] = draw(gen.phonon_modes(3, 6))
    return c


NAMES = ('x', 'x.y', 'a b', 'x.phonon', 'x.yaml', 'quartz-phonopy', 'é',
         'FORCE_CONSTANTS.json')


@st.composite
def cases(draw):
    return dict(src=draw(sources()), only=draw(st.booleans()),
                name=draw(st.sampled_from(NAMES)),
                how=draw(st.sampled_from(['str', 'path', 'folder',
                                          'absolute'])),
                verbose=draw(st.booleans()), extra=draw(st.booleans()))


def write(c, name, folder):
    """-> file to open, class expected (frequencies_only False, True),
    reader(class), or None where an error is due"""
    import euphonic as E
    FC, QPM, QF = E.ForceConstants, E.QpointPhononModes, E.QpointFrequencies
    rng = np.random.default_rng([c['seed'], 34])
    kind = c['kind']
    if kind == 'phonon':
        p = c['phonon']
        cell, species = structure(p['s'])
        atoms = atoms_of(species)
        blocks = blocks_of(p, len(atoms), rng)
        text, exp = cw.phonon(cell, atoms, blocks, len(p['qs']))
        f = folder / (name + '.phonon')
        f.write_text(text)
        return f, (QPM, QF), lambda cls: cls.from_castep(f)
    if kind == 'castep_fc':
        p = c['bin']
        cell, species = structure(p['s'])
        n = sum(len(r) for _, _, r in species)
        S = np.array(p['sc']['matrix'])
        origins, _ = gen.cosets(S, p['sc']['rep'], p['sc']['order'])
        fc = rng.normal(size=(len(origins), 3 * n, 3 * n)) * .1
        fc = fc + fc.transpose(0, 2, 1)
        born = eps = None
        if p['born']:
            born = rng.normal(size=(n, 3, 3)) * 2
            eps = np.eye(3) * 4 + .1
        m = dict(cell=cell / BOHR, species=[(s, x * gen.AMU_ME, r)
                                            for s, x, r in species])
        f = folder / f'{name}.{p["ext"]}'
        f.write_bytes(cw.castep_bin(m, fc, S, origins, born, eps,
                                    version=p['version']).bytes())
        return f, (FC, FC), lambda cls: cls.from_castep(f)
    if kind == 'modes':
        m = gen.crystal_model(c['crystal'])
        n, nb, nq = m.n_atoms, 3 * m.n_atoms, c['nq']
        if c['file'] == 'band' and c['fmt'] == 'hdf5':
            nq = max(1, nq // c['segments']) * c['segments']
        P = pw.Modes()
        P.qpts = np.round(rng.uniform(-1, 1, (nq, 3)), 10)
        P.weights = [int(x) for x in rng.integers(1, 20, nq)]
        P.freq = np.sort(rng.uniform(1, 25, (nq, nb)), axis=1)
        e = np.array([np.linalg.qr(rng.normal(size=(nb, nb)) + 1j
                                   * rng.normal(size=(nb, nb)))[0]
                      for _ in range(nq)])
        P.evec = e.reshape(nq, nb, n, 3)
        P.cell, P.r = m.cell_ang, m.atom_r
        P.types, P.mass = m.atom_type, m.mass_amu
        m.sc_matrix = np.eye(3, dtype=int)
        m.origins, m.index = gen.cosets(m.sc_matrix)
        m.fc, m.born, m.eps = np.zeros((1, nb, nb)), None, None
        f = folder / f'{c["file"] if c["seed"] % 2 else name}.{c["fmt"]}'
        if c['fmt'] == 'yaml':
            f.write_text(pw.modes_yaml(P, c['file'], c['evec']))
        else:
            pw.modes_hdf5(str(f), P, c['file'], c['evec'], c['segments']
                          if nq % c['segments'] == 0 else 1)
        if c['fmt'] == 'hdf5' or c['file'] == 'qpoints':
            (folder / 'phonopy.yaml').write_text(
                pw.summary(pw.model(m, 'primitive', None)))
        return f, (QPM if c['evec'] else QF, QF), lambda cls: \
            cls.from_phonopy(path=folder, phonon_name=f.name)
    if kind == 'phonopy_fc':
        m = gen.fc_model(c['fc'])
        F = pw.model(m, c['unit'], c['order'], c['seed'] % 3)
        u, form = c['units'], 'full' if c['full'] else 'compact'
        polar = m.born is not None
        where, opened = c['where'], c['open']
        if opened == 'hdf5':
            where = 'hdf5'
        kw = {}
        if polar and c['born'] == 'yaml':
            kw = dict(born=True, factor=pw.nac_factor(u))
        elif polar:
            kw = dict(born=False, factor=pw.nac_factor(u), style='old')
        yaml = 'phonopy.yaml' if opened != 'renamed' else name + '.yaml'
        (folder / yaml).write_text(pw.summary(
            F, u, form if where == 'yaml' else None, **kw))
        read = dict(path=folder, summary_name=yaml)
        if where == 'text':
            (folder / 'FORCE_CONSTANTS').write_text(
                pw.force_constants_text(F, u, form))
            read['fc_name'] = 'FORCE_CONSTANTS'
        elif where == 'hdf5':
            h = ('force_constants' if opened != 'hdf5' or c['seed'] % 2
                 else name) + '.hdf5'
            pw.force_constants_hdf5(str(folder / h), F, u, form)
            read['fc_name'] = h
        if polar and c['born'] != 'yaml':
            (folder / 'BORN').write_text(pw.born_file(F, pw.nac_factor(u),
                                                      c['seed'] % 2))
            read['born_name'] = 'BORN'
        return (folder / (h if opened == 'hdf5' else yaml), (FC, FC),
                lambda cls: cls.from_phonopy(**read))
    f = folder / (name + '.json')
    if c['what'] == 'fc':
        gen.make_fc(gen.fc_model(c['fc'])).to_json_file(str(f))
        return f, (FC, FC), lambda cls: cls.from_json_file(str(f))
    m = gen.modes_model(c['modes'])
    gen.make_modes(m, 'frequencies' if c['what'] == 'freqs'
                   else None).to_json_file(str(f))
    return f, (QPM if c['what'] == 'modes' else QF, QF), \
        lambda cls: cls.from_json_file(str(f))


def extras(folder):
    """files of other names that nobody asked for"""
    for n in ('notes.txt', 'BORN_old', 'other.phonon', 'old.yaml',
              'x.castep'):
        (folder / n).write_text('unrelated: [1, 2]\n')


def spelled(f, how, d):
    """cwd is d, the file is in d/sub"""
    if how == 'folder':
        os.chdir(f.parent)
        return f.name
    if how == 'absolute':
        return str(f)
    r = os.path.relpath(f, d)
    return pathlib.Path(r) if how == 'path' else r


def run(c, t):
    from euphonic.cli.utils import load_data_from_file
    s = c['src']
    t.hit(s['kind'] != 'json' or c['only'])
    t.tag(s['kind'])
    with Scratch() as d:
        folder = d / 'sub'
        folder.mkdir()
        with quiet():
            f, classes, reader = write(s, c['name'], folder)
            if c['extra']:
                extras(folder)
            cls = classes[bool(c['only'])]
            try:
                exp = reader(cls)
            except ValueError:
                if s['kind'] != 'phonon':
                    raise
                # repeated q-points that are not a gamma splitting
                t.tag('ambiguous .phonon')
                raises(ValueError, lambda: load_data_from_file(f, c['only']),
                       'ambiguous .phonon file')
                return
            arg = spelled(f, c['how'], d)
            kw = {}
            if c['only']:
                kw['frequencies_only'] = True
            if c['verbose']:
                kw['verbose'] = True
            try:
                got = load_data_from_file(arg, **kw)
            except Exception as e:
                raise Violation(f'{s["kind"]}: {arg} not loaded: '
                                f'{type(e).__name__}: {e}')
        what = f'{s["kind"]}: {f.name} loaded with {kw}'
        check(type(got) is cls, lambda: f'{what}: {type(got).__name__}, '
              f'expected {cls.__name__}')
        t.tag(cls.__name__)
        k = cls.__name__
        if s['kind'] == 'phonopy_fc':
            t.tag(f'{s["where"]} through {s["open"]}')
            polar = gen.fc_model(s['fc']).born is not None
            check((got.born is not None) == polar, f'{what}: Born charges')
        compare(public(exp, k), public(got, k), what, 1e-13)


# ------------------------------------------------------------------ refusals

@st.composite
def bad_cases(draw):
    return dict(src=draw(sources()), name=draw(st.sampled_from(NAMES[:3])),
                fault=draw(st.sampled_from(['suffix', 'keys', 'alone',
                                            'absent', 'broken'])),
                suffix=draw(st.sampled_from(
                    ['.dat', '.txt', '', '.castep', '.phonon_dos', '.yml',
                     '.h5', '.JSON', '.phonon2', '.check.bak', '.bin'])),
                only=draw(st.booleans()), seed=draw(small_seed))


def run_bad(c, t):
    from euphonic.cli.utils import load_data_from_file
    s = c['src']
    t.tag(c['fault'])
    with Scratch() as d, quiet():
        folder = d / 'sub'
        folder.mkdir()
        f, classes, reader = write(s, c['name'], folder)
        fault = c['fault']
        if fault == 'suffix':
            g = folder / (c['name'].split('.')[0] + c['suffix'])
            f.rename(g)
            f = g
            want, why = ValueError, f'suffix of {f.name}'
        elif fault == 'keys':
            f = folder / 'spectrum.json'
            f.write_text(json.dumps([dict(x_data=[0, 1], y_data=[1]), {},
                                     dict(crystal=dict(n_atoms=1)),
                                     dict(eigenvectors=[])][c['seed'] % 4]))
            want, why = ValueError, 'JSON of something else'
        elif fault == 'alone':
            if s['kind'] != 'phonopy_fc' or f.suffix != '.hdf5':
                raise Skip()
            (folder / 'phonopy.yaml').unlink()
            want, why = Exception, 'hdf5 without phonopy.yaml'
        elif fault == 'absent':
            f.unlink()
            want, why = Exception, 'no such file'
        else:
            b = f.read_bytes()
            f.write_bytes(b[:len(b) // 3] if f.suffix != '.yaml' else b'[1,')
            want, why = Exception, 'truncated file'
        t.hit()
        raises(want, lambda: load_data_from_file(f, c['only']),
               f'{s["kind"]}: {why}')


# --------------------------------------------------------------------- tools

@st.composite
def tool_cases(draw):
    return dict(src=draw(sources()), name=draw(st.sampled_from(NAMES)),
                how=draw(st.sampled_from(['str', 'folder', 'absolute'])),
                tool=draw(st.sampled_from(['dispersion', 'dispersion', 'dos',
                                           'intensity_map'])),
                reorder=draw(st.booleans()), pdos=draw(st.booleans()),
                coherent=draw(st.booleans()))


def deep(a, b, what, atol):
    if isinstance(a, dict):
        check(a.keys() == b.keys(), f'{what}: {sorted(a)}, {sorted(b)}')
        for k in a:
            deep(a[k], b[k], f'{what}: {k}', atol)
        return
    x, y = np.asarray(a), np.asarray(b)
    if x.dtype.kind in 'fi' and y.dtype.kind in 'fi':
        check(x.shape == y.shape, f'{what}: shape')
        close(x, y, 1e-6, atol * max(np.abs(y).max(initial=0), 1e-3),
              what=what)
    else:
        check(a == b, f'{what}: {a} {b}')


def run_tools(c, t):
    s = c['src']
    t.tag(s['kind'], c['tool'])
    if s['kind'] == 'castep_fc':
        raise Skip()    # random force constants: unstable, ill-conditioned
    argv = []
    if c['tool'] == 'dispersion':
        # keep the order of modes: eigenvectors are asked for with --reorder
        full = c['reorder']
        if full:
            argv += ['--reorder']
    elif c['tool'] == 'dos':
        full = c['pdos']
        if full:
            argv += ['--pdos']
    else:
        full = c['coherent']
        argv += ['--weighting', 'coherent' if full else 'dos']
    with Scratch() as d:
        folder = d / 'sub'
        folder.mkdir()
        with quiet():
            f, classes, reader = write(s, c['name'], folder)
            cls = classes[not full]
            try:
                obj = reader(cls)
            except ValueError:
                if s['kind'] != 'phonon':
                    raise
                raise Skip()
            if cls.__name__ == 'ForceConstants':
                argv += (['--grid', '2', '2', '1'] if c['tool'] == 'dos'
                         else ['--q-spacing', '0.2937'])
            obj.to_json_file(str(d / 'ref.json'))
            if (cls.__name__ == 'ForceConstants'
                    and c['tool'] in ('dispersion', 'intensity_map')):
                same_path(obj, cls.from_json_file(str(d / 'ref.json')))
        arg = spelled(f, c['how'], d)
        one = tool(c['tool'], [arg, '--save-json', d / 'a.json', '-s',
                               d / 'a.png'] + argv)
        two = tool(c['tool'], [d / 'ref.json', '--save-json', d / 'b.json',
                               '-s', d / 'b.png'] + argv)
        what = f'{c["tool"]} {f.name} {" ".join(argv)}'
        check(type(one.error) is type(two.error), lambda:
              f'{what}: {one.error!r}, but from JSON {two.error!r}')
        if one.error is not None:
            t.tag('refused')
            return
        t.hit()
        a, b = (json.loads((d / n).read_text()) for n in ('a.json',
                                                          'b.json'))
        if c['tool'] == 'dispersion' and not full:
            deep(a, b, what, 1e-5)
            return
        # counts in bins may move between neighbours, and degenerate modes
        # mix: totals only
        check(a.keys() == b.keys(), what)
        for k in a:
            if k in ('y_data', 'z_data'):
                x, y = np.asarray(a[k]), np.asarray(b[k])
                check(x.shape == y.shape, f'{what}: shape of {k}')
                if c['tool'] == 'dispersion':
                    x, y = np.sort(x, axis=0), np.sort(y, axis=0)
                    deep(x.tolist(), y.tolist(), f'{what}: {k}', 1e-5)
                    continue
                ok = np.isfinite(x) & np.isfinite(y)
                if k == 'z_data':
                    # 1/frequency of modes at zero is noise
                    e = np.asarray(b['y_data'])
                    if e.size == x.shape[1] + 1:
                        e = .5 * (e[1:] + e[:-1])
                    ok &= np.abs(e) > .03 * np.abs(e).max()
                deep([x[ok].sum()], [y[ok].sum()], f'{what}: {k}: sum',
                     1e-5)
            else:
                deep(a[k], b[k], f'{what}: {k}', 1e-5)


def same_path(a, b):
    """SeeK-path's choice among the variants of a Bravais lattice can hang
    on the last digit of the cell vectors: skip cells where it does"""
    import seekpath
    a, b = a.crystal.to_spglib_cell(), b.crystal.to_spglib_cell()
    if not all(np.allclose(x, y, rtol=0, atol=1e-9) for x, y in zip(a, b)):
        return
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p, q = (seekpath.get_explicit_k_path(x, reference_distance=.2937)
                for x in (a, b))
    if (p['explicit_kpoints_labels'] != q['explicit_kpoints_labels']
            or not np.allclose(p['explicit_kpoints_rel'],
                               q['explicit_kpoints_rel'], atol=1e-6)):
        raise Skip('path')


KNOWN = {}
SUBS = [Sub('load', cases(), run, 900, 20000),
        Sub('refusals', bad_cases(), run_bad, 300, 6000),
        Sub('tools', tool_cases(), run_tools, 160, 2500)]
