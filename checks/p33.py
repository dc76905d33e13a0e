"""P33 The C extension is memory-safe, race-free and leak-free"""
import os
import sys

import numpy as np
from hypothesis import strategies as st

from checks.p03 import qlists
from harness import gen, ref
from harness.core import Skip, Sub, Violation, check, close

RULE = ('A case is force constants (1-5 atoms, 1-8 cells, charges or not), '
        'memory layouts and integer types for every array, a list of q-points '
        'with repeats and gamma points, physics options and a number of '
        'threads, run in a child process with an instrumented build of the C '
        'sources of the current tree.  Non-trivial: the instrumented C code '
        'ran and returned, for more than one q-point or thread.')
TECHNIQUE = ('property-based fuzzing of the C extension under sanitizers: '
             'address + undefined behaviour, data races (thread sanitizer '
             'with a transparent thread pool), canaries and allocation '
             'counts, reference counts; differential against pure Python')
ASSUMPTIONS = ['only the sources in c/ are instrumented; accesses made inside '
               'LAPACK are seen through canaries around heap blocks',
               'if a sanitizer cannot start in the environment, its cases '
               'are skipped and counted as outside the domain']
HANG_S = 400
QUICK_S = 110
CLIB = None
ARRAYS = ['cell', 'r', 'mass', 'fc', 'sc', 'origins', 'born', 'eps', 'q',
          'weights']


@st.composite
def common(draw, max_q=12, max_atoms=5, polar=None):
    return dict(
        fc=draw(gen.force_constants(max_atoms, 8, polar)),
        q=[list(x) for x in draw(qlists(max_q))],
        fill=draw(st.sampled_from([0, 0, 40])), qseed=draw(gen.small_seed),
        asr=draw(st.sampled_from([None, None, 'realspace', 'reciprocal'])),
        dipole=draw(st.sampled_from([True, True, True, False])),
        splitting=draw(st.sampled_from([True, True, False])),
        insert_gamma=draw(st.booleans()),
        reduce_qpts=draw(st.booleans()),
        grads=draw(st.booleans()), evecs=draw(st.booleans()),
        n_threads=draw(st.sampled_from([1, 2, 3, 4, 8, 16])),
        layout={k: draw(st.sampled_from(
            ['C', 'C', 'F', 'strided', 'reversed', 'int32', 'int64',
             'float'])) for k in draw(st.lists(
                 st.sampled_from(ARRAYS), max_size=4, unique=True))},
        integral=draw(st.sampled_from([False, False, True])))


def lay(c, name, a):
    a = np.asarray(a)
    how = c['layout'].get(name, 'C')
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full((2 * len(a),) + a.shape[1:], 77, a.dtype)
        b[::2] = a
        return b[::2]
    if how == 'reversed':
        return a[..., ::-1].copy()[..., ::-1]
    if how in ('int32', 'int64') and np.all(a == np.rint(a)):
        return a.astype(how)
    if how == 'float' and name in ('sc', 'origins'):
        return a.astype(float)
    return a


def make(c):
    from euphonic import Crystal, ForceConstants, ureg
    m = gen.fc_model(c['fc'])
    if c['integral']:
        # whole numbers wherever the physics allows, so that the integer
        # layouts apply
        m.mass_amu = np.rint(np.maximum(m.mass_amu, 1))
        m.mass = m.mass_amu * gen.AMU_ME
        if m.born is not None:
            m.born = np.rint(m.born * 2)
            m.eps = np.diag(np.rint(np.diag(m.eps)) + 1.)
        if m.n_atoms == 1:
            m.atom_r = np.rint(m.atom_r)
    cr = Crystal(lay(c, 'cell', m.cell) * ureg('bohr'),
                 lay(c, 'r', m.atom_r), m.atom_type.copy(),
                 lay(c, 'mass', m.mass_amu) * ureg('amu'))
    kw = {}
    if m.born is not None:
        kw = dict(born=lay(c, 'born', m.born) * ureg('e'),
                  dielectric=lay(c, 'eps', m.eps) * ureg(
                      'e**2/(bohr*hartree)'))
    fc = ForceConstants(cr, lay(c, 'fc', m.fc) * ureg('hartree/bohr**2'),
                        lay(c, 'sc', m.sc_matrix),
                        lay(c, 'origins', m.origins), **kw)
    return m, fc


def qpts(c):
    q = np.array(c['q'], float)
    if c['fill']:
        rng = np.random.default_rng(c['qseed'])
        r = np.round(rng.uniform(-1, 1, (c['fill'], 3)), 2)
        r[::5] = np.rint(r[::5])
        q = np.concatenate([q, r])
    if c['integral'] and c['layout'].get('q', '').startswith('int'):
        q = np.rint(q)
    return q


def calc(c, fc, use_c, n_threads):
    q = qpts(c)
    w = np.arange(1., len(q) + 1)
    f = (fc.calculate_qpoint_phonon_modes if c['evecs']
         else fc.calculate_qpoint_frequencies)
    r = f(lay(c, 'q', q), weights=lay(c, 'weights', w), asr=c['asr'],
          dipole=c['dipole'], splitting=c['splitting'],
          insert_gamma=c['insert_gamma'], reduce_qpts=c['reduce_qpts'],
          return_mode_gradients=c['grads'], use_c=use_c, n_threads=n_threads)
    g = None
    if c['grads']:
        r, g = r
        g = g.to('meV*bohr').magnitude
    return dict(q=r.qpts, w=r.weights, f=r.frequencies.to('meV').magnitude,
                e=r.eigenvectors if c['evecs'] else None, g=g)


def counts(fc):
    """reference counts of everything the extension looks up"""
    out = {'crystal': sys.getrefcount(fc.crystal),
           'atom_r': sys.getrefcount(fc.crystal.atom_r)}
    for a in ('_n_sc_images', '_sc_image_i', 'cell_origins', '_born',
              '_dielectric', '_dipole_init_data'):
        if getattr(fc, a, None) is not None:
            out[a] = sys.getrefcount(getattr(fc, a))
    for k, v in (getattr(fc, '_dipole_init_data', None) or {}).items():
        out['dipole ' + k] = sys.getrefcount(v)
    return out


def child_job(job):
    c = job['case']
    m, fc = make(c)
    out = {}
    if job['kind'] == 'count':
        for name in ('vp_live', 'vp_bad'):
            getattr(CLIB, name).restype = __import__('ctypes').c_long
        calc(c, fc, True, c['n_threads'])
        a = counts(fc)
        live = CLIB.vp_live()
        for _ in range(3):
            r = calc(c, fc, True, c['n_threads'])
        b = counts(fc)
        out.update(refs={k: (a[k], b.get(k)) for k in a if a[k] != b.get(k)},
                   live=CLIB.vp_live() - live, bad=CLIB.vp_bad())
    else:
        r = calc(c, fc, True, c['n_threads'])
    if job.get('serial'):
        s = calc(c, make(c)[1], True, 1)
        out['serial'] = s['f']
    out['r'] = r
    return out


CHILDREN = {}
UNUSABLE = {}


def child(kind):
    from harness import csan
    if kind in UNUSABLE:
        raise Skip(f'{kind} cannot run here')
    ch = CHILDREN.get((os.getpid(), kind))
    if ch is None:
        for _ in range(2):
            try:
                ch = csan.Child(kind, 'checks.p33')
            except Exception as e:
                raise Skip(f'{kind} cannot be built: {type(e).__name__}')
            if ch.usable:
                break
            ch.close()
        else:
            UNUSABLE[kind] = True
            raise Skip(f'{kind} cannot run here')
        CHILDREN[os.getpid(), kind] = ch
    return ch


def drop(kind):
    ch = CHILDREN.pop((os.getpid(), kind), None)
    if ch is not None:
        ch.close()


def ask(kind, job):
    """result of the job in the instrumented child; a sanitizer report or a
    repeated crash is a violation"""
    from harness import csan
    for attempt in range(2):
        ch = child(kind)
        try:
            r = ch.call(job)
        except csan.Died as e:
            try:
                rc = ch.p.wait(20)
            except Exception:
                rc = None
            rep = ch.reports()
            drop(kind)
            if rep:
                raise Violation(f'{kind}: ' + '; '.join(rep[:2]))
            if str(e) == 'timeout':
                raise Skip('timeout')
            if attempt:
                raise Violation(f'{kind}: the process died ({rc}) in the '
                                'C extension')
            continue
        rep = ch.reports()
        if rep:
            drop(kind)
            raise Violation(f'{kind}: ' + '; '.join(rep[:2]))
        return r


def compare(c, m, got, want, what):
    scale = max(np.abs(want['f']).max()**2,
                ref.floor(m) * gen.HARTREE_MEV**2)
    close(got['q'], want['q'], 0, 0, f'{what}: q-points')
    close(got['w'], want['w'], 1e-12, what=f'{what}: weights')
    close(np.sign(got['f']) * got['f']**2, np.sign(want['f']) * want['f']**2,
          0, 1e-8 * scale, f'{what}: squared frequencies (meV^2)')
    if c['evecs']:
        from checks.p03 import dmat
        close(dmat(got['f'], got['e']), dmat(want['f'], want['e']), 0,
              1e-7 * scale, f'{what}: dynamical matrix from the modes')
    if c['grads']:
        # zero frequencies divide by zero, in C as in Python
        ok = np.abs(want['f']) > 0.03 * np.abs(want['f']).max()
        check(np.isfinite(got['g'][ok]).all()
              or not np.isfinite(want['g'][ok]).all(),
              f'{what}: mode gradients are not numbers')


def run_kind(kind):
    def run(c, t):
        m, fc = make(c)
        try:
            want = calc(c, fc, False, None)
        except np.linalg.LinAlgError:
            raise Skip('no eigenvalues')
        except TypeError:
            raise Skip('type refused')
        r = ask(kind, dict(case=c, kind='count' if kind == 'plain' else kind))
        if r[0] == 'error':
            raise Violation(f'{kind}: the C extension cannot be used where '
                            f'Python can: {r[1]}')
        out = r[1]
        compare(c, m, out['r'], want, f'{kind} build against Python')
        if kind == 'plain':
            if out['bad'] or out['refs'] or out['live']:
                drop(kind)
            check(not out['bad'], 'a heap block of the extension was written '
                  'outside its bounds')
            check(not out['refs'], 'reference counts changed over three '
                  f'calls: {out["refs"]}')
            check(out['live'] == 0, f'{out["live"]} heap blocks not freed '
                  'after three calls')
        pol = m.born is not None and c['dipole']
        t.tag('polar' if pol else 'not polar', f'threads={c["n_threads"]}',
              *[f'{k} {v}' for k, v in c['layout'].items() if v != 'C'])
        if pol and c['splitting']:
            t.tag('splitting')
        t.hit(len(want['f']) > 1 or c['n_threads'] > 1)
    return run


# ------------------------------------------------- many q-points and threads

@st.composite
def crowd_cases(draw):
    c = draw(common(3, 2, True))
    c.update(fill=draw(st.sampled_from([300, 1000, 3000])), layout={},
             integral=False, dipole=True, splitting=True, insert_gamma=False,
             reduce_qpts=draw(st.sampled_from([False, False, True])),
             grads=False, evecs=draw(st.booleans()),
             n_threads=draw(st.sampled_from([2, 4, 8, 8, 13])))
    return c


def run_crowd(c, t):
    m = gen.fc_model(c['fc'])
    r = ask('plain', dict(case=c, kind='crowd', serial=True))
    if r[0] == 'error':
        raise Violation(r[1])
    f, s = r[1]['r']['f'], r[1]['serial']
    scale = max(np.abs(s).max()**2, ref.floor(m) * gen.HARTREE_MEV**2)
    close(np.sign(f) * f**2, np.sign(s) * s**2, 0, 1e-8 * scale,
          f'{c["n_threads"]} threads against 1 without optimisation: squared '
          'frequencies')
    t.tag(f'q={c["fill"]}', f'threads={c["n_threads"]}')
    t.hit()


SUBS = [Sub('address', common(), run_kind('asan'), 420, 8000),
        Sub('races', common(), run_kind('tsan'), 240, 4000),
        Sub('accounts', common(), run_kind('plain'), 320, 6000),
        Sub('crowd', crowd_cases(), run_crowd, 32, 400)]
