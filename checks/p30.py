"""P30 command-line tools produce what the same API calls produce"""
import contextlib
import io
import json
import os
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Skip, Sub, Violation, check, close
from harness.gen import nice_float, small_seed

os.environ['MPLBACKEND'] = 'Agg'

RULE = ('A case is a generated data file (force constants, modes or '
        'frequencies), a tool and a drawn combination of its options; the '
        'spectrum saved by the tool is compared with the one built from '
        'library calls by this check, its figure with the plotting options. '
        ' Contradictory combinations must end in an error with nothing '
        'saved.  performance: the same command with other C/thread options '
        'must save the same numbers.  Non-trivial: the saved spectrum is '
        'not zero (or, for contradictions, the combination is one).')
TECHNIQUE = ('property-based testing: differential comparison of the tools '
             'with library calls')
ASSUMPTIONS = ['the band path is that of the installed SeeK-path',
               'input files are Euphonic JSON (other formats: P11, P12)']
MAX_WORKERS = 8
QU = {'angstrom': 1.0, 'bohr': 1 / gen.BOHR_ANG, 'nm': 0.1}
UNITS = ['meV', 'THz', '1/cm', 'eV', 'hartree']


# -------------------------------------------------------------- running a tool

class Run:
    """result of a tool"""


def tool(name, argv, seed=0):
    import importlib
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    m = importlib.import_module(f'euphonic.cli.{name}')
    np.random.seed(seed)
    r = Run()
    out = io.StringIO()
    r.error = None
    with warnings.catch_warnings(), contextlib.redirect_stdout(out), \
            contextlib.redirect_stderr(out):
        warnings.simplefilter('ignore')
        try:
            m.main([str(a) for a in argv])
        except SystemExit as e:
            r.error = e if e.code else None
        except Exception as e:
            r.error = e
    r.text = out.getvalue()
    r.figs = [plt.figure(i) for i in plt.get_fignums()]
    return r


def close_all():
    import matplotlib.pyplot as plt
    plt.close('all')


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='p30')
        return pathlib.Path(self.dir)

    def __exit__(self, *a):
        close_all()
        shutil.rmtree(self.dir, ignore_errors=True)


def must(r, argv):
    if r.error is not None:
        raise Violation(f'{" ".join(map(str, argv[1:]))}: '
                        f'{type(r.error).__name__} {r.error} '
                        f'{r.text[-300:] if isinstance(r.error, SystemExit) else ""}')


def save(obj, path):
    with contextlib.redirect_stdout(io.StringIO()):
        obj.to_json_file(str(path))


def load(path):
    import euphonic as E
    d = json.loads(pathlib.Path(path).read_text())
    cls = getattr(E, d['__euphonic_class__'])
    return cls.from_json_file(str(path))


# ------------------------------------------------------------------- inputs

LATT = ('cubic', 'fcc', 'bcc', 'hex', 'tetra', 'ortho', 'mono', 'tri')


@st.composite
def inputs(draw, kinds=('fc', 'modes', 'freqs'), path=False):
    kind = draw(st.sampled_from(list(kinds)))
    c = dict(kind=kind)
    if kind == 'fc':
        c['fc'] = draw(gen.force_constants(
            draw(st.sampled_from([1, 2, 2])), 4,
            polar=draw(st.integers(0, 4)) == 0,
            modes=('spring', 'spring', 'noisy'), lattices=LATT,
            special=draw(st.sampled_from([True, True, False]))))
    else:
        c['modes'] = draw(gen.phonon_modes(3, 8, min_q=3, path=path,
                                           negative=False))
    return c


def build(c):
    if c['kind'] == 'fc':
        m = gen.fc_model(c['fc'])
        return m, gen.make_fc(m)
    m = gen.modes_model(c['modes'])
    return m, gen.make_modes(m, 'frequencies' if c['kind'] == 'freqs'
                             else None)


@st.composite
def fc_options(draw):
    o = {}
    if draw(st.integers(0, 2)) == 0:
        o['--asr'] = draw(st.sampled_from([None, 'reciprocal', 'realspace']))
    if draw(st.integers(0, 4)) == 0:
        o['--dipole-parameter'] = draw(nice_float(.5, 1.5))
    p = draw(st.integers(0, 3))
    if p == 0:
        o['--use-c'] = True
    elif p == 1:
        o['--disable-c'] = True
    o['--n-threads'] = draw(st.sampled_from([1, 1, 2]))
    return o


def calc_kwargs(o, perf=True):
    """keyword arguments of calculate_qpoint_* for the options"""
    kw = dict(n_threads=1)
    if '--asr' in o:
        kw['asr'] = o['--asr'] or 'reciprocal'
    if '--dipole-parameter' in o:
        kw['dipole_parameter'] = o['--dipole-parameter']
    if perf:
        if '--use-c' in o:
            kw['use_c'] = True
        elif '--disable-c' in o:
            kw['use_c'] = False
    return kw


def argv(o, file=None, rng=None):
    a = []
    items = list(o.items())
    if rng is not None:
        items = [items[i] for i in rng.permutation(len(items))]
    for k, v in items:
        a.append(k)
        if v is None or v is True:
            continue
        a += [str(x) for x in v] if isinstance(v, (list, tuple)) else [str(v)]
    # the file name first: some options take any number of values
    return ([str(file)] if file is not None else []) + a


@st.composite
def energy_options(draw, ebins=True):
    o = {}
    if draw(st.booleans()):
        o[draw(st.sampled_from(['--energy-unit', '-u']))] = draw(
            st.sampled_from(UNITS))
    if ebins and draw(st.integers(0, 4)):
        o['--ebins'] = draw(st.integers(2, 30))
    o['e_min'] = draw(st.sampled_from([None, None, 0., .1]))
    o['e_max'] = draw(st.sampled_from([None, None, .7, 1.3]))
    return o


def unit_of(o):
    return o.get('--energy-unit', o.get('-u', 'meV'))


def settle(c, o, top):
    """relative e_min and e_max become options in the chosen unit (top: the
    highest energy, in meV)"""
    import euphonic as E
    o = dict(o)
    for k, f in (('e_min', '--e-min'), ('e_max', '--e-max')):
        x = o.pop(k, None)
        if x is not None:
            o[f] = float(f'{E.Quantity(x * top, "meV").to(unit_of(o)).magnitude:.6g}')
    return o


@st.composite
def plot_options(draw, lines=False):
    o = {}
    if draw(st.integers(0, 3)) == 0:
        o['--title'] = 'TITLE'
    if draw(st.integers(0, 3)) == 0:
        o[draw(st.sampled_from(['--x-label', '--xlabel']))] = 'XX'
    if draw(st.integers(0, 3)) == 0:
        o[draw(st.sampled_from(['--y-label', '--ylabel']))] = 'YY'
    if draw(st.integers(0, 4)) == 0:
        o['--style'] = 'dark_background'
    if draw(st.integers(0, 4)) == 0:
        o['--no-base-style'] = True
    if draw(st.integers(0, 4)) == 0:
        o['--font-size'] = 8
    if draw(st.integers(0, 4)) == 0:
        name = draw(st.sampled_from(['--fig-size', '--figsize']))
        o[name] = [12, 9]
        if draw(st.booleans()):
            u = draw(st.sampled_from(['mm', 'inch', 'cm']))
            o[name + '-unit'] = u
            o[name] = {'mm': [120, 95], 'inch': [5, 4], 'cm': [10, 12]}[u]
    if lines and draw(st.integers(0, 4)) == 0:
        o[draw(st.sampled_from(['--line-width', '--linewidth']))] = 3.25
    return o


def check_figure(r, o, xlabel=None, ylabel=None):
    check(len(r.figs) == 1, f'{len(r.figs)} figures')
    f = r.figs[0]
    x = [a.get_xlabel() for a in f.axes if a.get_xlabel()]
    y = [a.get_ylabel() for a in f.axes if a.get_ylabel()]
    for opt, got, dflt in (('x', x, xlabel), ('y', y, ylabel)):
        v = o.get(f'--{opt}-label', o.get(f'--{opt}label'))
        if v is not None:
            check(v in got, f'{opt} label {got}, asked for {v}')
        elif dflt is not None:
            check(any(dflt in g for g in got), f'{opt} label {got}, '
                  f'should mention {dflt}')
    check(f._suptitle.get_text() == o.get('--title', ''), 'title '
          f'{f._suptitle.get_text()!r}')
    width = o.get('--line-width', o.get('--linewidth'))
    if width is not None:
        got = {ln.get_linewidth() for ax in f.axes for ln in ax.get_lines()
               if len(ln.get_xdata()) > 2}
        check(got <= {width}, f'line widths {got}, asked for {width}')
    size = o.get('--fig-size', o.get('--figsize'))
    if size is not None:
        w = np.array(size) / {'cm': 2.54, 'mm': 25.4, 'inch': 1.}[
            o.get('--fig-size-unit', o.get('--figsize-unit', 'cm'))]
        close(f.get_size_inches(), w, 1e-6, 0, 'figure size')
    return f


def bins_for(freqs, o, headroom=1.05, emax=None):
    """energy bins documented for the tools; freqs in the unit of the
    options"""
    n = o.get('--ebins', 200)
    lo = o.get('--e-min')
    hi = o.get('--e-max', emax)
    import euphonic as E
    room = E.Quantity(1e-5, 'meV').to(unit_of(o)).magnitude
    if lo is None:
        lo = min((freqs - room).min(), 0.)
    if hi is None:
        hi = freqs.max() * headroom
    if lo >= hi:
        return None
    return np.linspace(lo, hi, n + 1)


def compare_1d(got, exp, what):
    """got, exp: spectra or collections of the same kind"""
    check(type(got) is type(exp), f'{what}: {type(got).__name__} saved, '
          f'expected {type(exp).__name__}')
    check(got.x_data.units == exp.x_data.units
          and got.y_data.units == exp.y_data.units, f'{what}: units '
          f'{got.x_data.units}, {got.y_data.units}; expected '
          f'{exp.x_data.units}, {exp.y_data.units}')
    x, y = exp.x_data.magnitude, exp.y_data.magnitude
    close(got.x_data.magnitude, x, 1e-9, 1e-9 * np.abs(x).max(), f'{what}: x')
    close(got.y_data.magnitude, y, 1e-7, 1e-9 * np.nanmax(np.abs(y), initial=0),
          f'{what}: y')


def near_edges(f, e, eps):
    return np.min(np.abs(np.asarray(f).ravel()[:, None] - e)) < eps * (
        np.abs(e).max())


# ---------------------------------------------------------------------- dos

@st.composite
def grid_options(draw):
    k = draw(st.integers(0, 3))
    o = {}
    if k <= 1:
        o['--grid'] = [draw(st.integers(1, 3)) for _ in range(3)]
    else:
        u = draw(st.sampled_from([None, 'angstrom', 'bohr', 'nm']))
        if u is not None:
            o['--length-unit'] = u
        o['--grid-spacing'] = round(draw(nice_float(.35, .9)) / QU[
            u or 'angstrom'], 5)
    return o


@st.composite
def dos_cases(draw):
    inp = draw(inputs(('fc', 'fc', 'fc', 'modes', 'freqs')))
    fc = inp['kind'] == 'fc'
    o = dict(draw(energy_options()))
    if fc:
        o.update(draw(grid_options()))
        o.update(draw(fc_options()))
    if inp['kind'] != 'freqs':
        if draw(st.booleans()):
            o[draw(st.sampled_from(['--weighting', '-w']))] = draw(
                st.sampled_from(['dos', 'coherent-dos', 'incoherent-dos',
                                 'coherent-plus-incoherent-dos']))
        if draw(st.booleans()):
            o['--pdos'] = draw(st.sampled_from(['all', 'first', 'last',
                                                'every']))
    adaptive = fc and draw(st.booleans())
    if adaptive:
        o['--adaptive'] = True
        if draw(st.booleans()):
            o['--adaptive-method'] = draw(st.sampled_from(
                ['reference', 'fast']))
        if draw(st.booleans()):
            o['--adaptive-fit'] = draw(st.sampled_from(
                ['cubic', 'cheby-log']))
    if draw(st.integers(0, 3)) == 0:
        o['--adaptive-error'] = draw(st.sampled_from([.005, .02]))
    if draw(st.integers(0, 2)) == 0:
        o['--shape'] = draw(st.sampled_from(['gauss', 'lorentz']))
    br = draw(st.sampled_from(
        ['none', 'eb', 'eb', 'inst', 'eb poly', 'inst poly', 'scale',
         'scale+inst']))
    return dict(inp=inp, o=o, br=br, w=draw(nice_float(.01, .1)),
                p=[draw(nice_float(.02, .06)), draw(nice_float(0, .05))],
                scale=draw(st.sampled_from([None, None, 2.5, -1., 0.])),
                aw=draw(nice_float(.3, 3)),
                plot=draw(plot_options(True)),
                seed=draw(small_seed), ysave=draw(st.integers(0, 9)) == 0)


def broadening(c, o, top):
    """adds width options; -> (scale of adaptive widths, polynomial)"""
    import euphonic as E
    adaptive = '--adaptive' in o
    f = E.Quantity(1, 'meV').to(unit_of(o)).magnitude * top
    w = float(f'{c["w"] * f:.6g}')
    poly = [float(f'{c["p"][0] * f:.6g}'), c['p'][1]]
    br = c['br']
    if br == 'eb':
        if adaptive:
            o['--eb'] = c['aw']
            return c['aw'], None
        o['--energy-broadening'] = w
        return 1., [w]
    if br == 'inst':
        o['--instrument-broadening'] = w
        return 1., [w]
    if br == 'eb poly':
        o['--energy-broadening'] = poly
        return 1., poly
    if br == 'inst poly':
        o['--instrument-broadening'] = poly
        return 1., poly
    if br == 'scale' and adaptive:
        o['--adaptive-scale'] = c['aw']
        return c['aw'], None
    if br == 'scale+inst' and adaptive:
        o['--adaptive-scale'] = c['aw']
        o['--instrument-broadening'] = w
        return c['aw'], [w]
    return 1., None


def groups(pdos, species, choice):
    """{label: Spectrum1D data} wanted by --pdos, from the per-atom PDOS"""
    y = pdos.y_data
    order = list(dict.fromkeys(species))
    per = {s: sum(y[i] for i, k in enumerate(species) if k == s)
           for s in order}
    if choice == []:
        return {'Total': sum(y[i] for i in range(len(species))), **per}
    return {s: per[s] for s in choice}


def run_dos(c, t):
    import euphonic as E
    from euphonic.util import mode_gradients_to_widths, mp_grid
    m, obj = build(c['inp'])
    species = [str(s) for s in m.atom_type]
    fc = c['inp']['kind'] == 'fc'
    o = dict(c['o'])
    kw = calc_kwargs(o)
    widths = None
    with Scratch() as d:
        file = d / 'data.json'
        save(obj, file)
        # the library calls
        import warnings as ww
        with ww.catch_warnings():
            ww.simplefilter('ignore')
            src = type(obj).from_json_file(str(file))
            if fc:
                if '--grid' in o:
                    grid = tuple(o['--grid'])
                else:
                    u = o.get('--length-unit', 'angstrom')
                    grid = src.crystal.get_mp_grid_spec(
                        E.Quantity(o['--grid-spacing'], f'1/{u}'))
                if np.prod(grid) > 80:
                    raise Skip('large grid')
                q = mp_grid(grid)
                if '--adaptive' in o:
                    modes, g = src.calculate_qpoint_phonon_modes(
                        q, return_mode_gradients=True, **kw)
                    widths = mode_gradients_to_widths(
                        g, src.crystal.cell_vectors)
                else:
                    modes = src.calculate_qpoint_phonon_modes(q, **kw)
            else:
                modes = src
        unit = unit_of(o)
        top = modes.frequencies.to('meV').magnitude.max()
        if top < .5:
            raise Skip('soft')
        o = settle(c, o, top)
        scale, poly = broadening(c, o, top)
        choice = None
        if '--pdos' in o:
            names = list(dict.fromkeys(species))
            choice = {'all': [], 'first': names[:1], 'last': names[-1:],
                      'every': names[::-1]}[o['--pdos']]
            o['--pdos'] = choice
        weight = o.get('--weighting', o.get('-w', 'dos'))
        if c['scale'] is not None:
            o['--scale'] = c['scale']
        f = modes.frequencies.to(unit)
        e = bins_for(f.magnitude, o)
        if o.get('--adaptive-method') == 'fast' and e is not None and \
                near_edges(f.magnitude, e, 1e-10):
            raise Skip('mode at a bin edge')
        o.update(c['plot'])
        out = d / 'out.json'
        o['--save-json'] = str(out)
        if c['ysave']:
            o['-s'] = str(d / 'plot.png')
        a = argv(o, file, np.random.default_rng([c['seed'], 103]))
        r = tool('dos', a)
        t.tag(c['inp']['kind'], weight, 'adaptive' if '--adaptive' in o
              else 'not adaptive', c['br'], f'pdos {choice is not None}')
        if e is None:
            check(isinstance(r.error, Exception) and not out.exists(),
                  'no error for an empty energy range')
            return
        must(r, a)
        # expected
        with ww.catch_warnings():
            ww.simplefilter('ignore')
            x = E.Quantity(e, unit)
            dk = {}
            shape = o.get('--shape', 'gauss')
            if widths is not None:
                widths = widths * scale
                if poly and shape == 'gauss':
                    fwhm = np.polynomial.Polynomial(poly)(f.magnitude)
                    s2 = (E.Quantity(fwhm / (8 * np.log(2)) ** .5, unit)
                          .to('meV').magnitude ** 2)
                    widths = E.Quantity(np.sqrt(
                        widths.to('meV').magnitude ** 2 + s2), 'meV')
                    poly = None
                dk = dict(mode_widths=widths,
                          adaptive_method=o.get('--adaptive-method',
                                                'reference'),
                          adaptive_error=o.get('--adaptive-error', .01),
                          adaptive_error_fit=o.get('--adaptive-fit',
                                                   'cubic'))
            elif near_edges(f.magnitude, e, 1e-10):
                raise Skip('mode at a bin edge')
            if weight == 'dos' and choice is None:
                total = modes.calculate_dos(x, **dk)
                exp = {None: total.y_data}
            else:
                pd = modes.calculate_pdos(
                    x, weighting=None if weight == 'dos' else weight[:-4],
                    **dk)
                if choice is None:
                    exp = {None: groups(pd, species, [])['Total']}
                else:
                    exp = groups(pd, species, choice)

            def widen(s):
                if not poly:
                    return s
                if len(poly) == 1:
                    return s.broaden(E.Quantity(poly[0], unit), shape=shape)
                return s.broaden(
                    lambda v: E.Quantity(np.polynomial.Polynomial(poly)(
                        v.to(unit).magnitude), unit), shape=shape,
                    method='convolve', width_interpolation_error=o.get(
                        '--adaptive-error', .01), width_fit='cheby-log')
            exp = {k: widen(E.Spectrum1D(x, y)) for k, y in exp.items()}
        got = load(out)
        k = 1. if c['scale'] is None else c['scale']
        if None in exp:
            check(type(got) is E.Spectrum1D, f'{type(got)} saved')
            gots = {None: got}
        else:
            check(type(got) is E.Spectrum1DCollection, f'{type(got)} saved')
            gots = {s.metadata['label']: s for s in got}
            check(len(got) == len(exp) and set(gots) == set(exp), lambda:
                  f'lines {[s.metadata for s in got]}, expected '
                  f'{list(exp)}')
            if choice == []:
                check(got[0].metadata['label'] == 'Total', 'Total first')
        for s in exp:
            y = exp[s].y_data * k
            compare_1d(gots[s], E.Spectrum1D(x, y), f'{s or "DOS"}')
            t.hit(np.abs(y.magnitude).max() > 0)
        fig = check_figure(r, o, xlabel='nergy')
        check(len(fig.axes[0].get_lines()) == len(exp), 'lines in figure')
        if c['ysave']:
            check((d / 'plot.png').stat().st_size > 1000, 'figure saved')


# --------------------------------------------------------- band structure

@st.composite
def path_options(draw, fc):
    o = {}
    u = draw(st.sampled_from([None, 'angstrom', 'bohr', 'nm']))
    if u is not None:
        o['--length-unit'] = u
    if fc or draw(st.booleans()):
        o['--q-spacing'] = round(draw(nice_float(.12, .9)) / QU[
            u or 'angstrom'], 5)
    if not fc and draw(st.booleans()):
        o['--btol'] = draw(st.sampled_from([1.5, 3., 10., 50.]))
    return o


def seek(crystal, spacing):
    """(q-points in the given cell, labels, is it seekpath's own cell,
    q-points in the basis of seekpath's cell)"""
    import seekpath
    import warnings as ww
    cell = crystal.to_spglib_cell()
    with ww.catch_warnings():
        ww.simplefilter('ignore')
        p = seekpath.get_explicit_k_path(cell, reference_distance=spacing)
    back = np.array(p['primitive_lattice']) @ np.array(p['rotation_matrix'])
    A = np.array(cell[0])
    rel = np.array(p['explicit_kpoints_rel'])
    recip_p = 2 * np.pi * np.linalg.inv(back).T
    q = rel @ recip_p @ A.T / (2 * np.pi)
    std = np.abs(back - A).max() < 1e-6
    # a new piece starts where the path does not go on from where it was
    new = [seg[0] for a, b, seg in zip(p['path'], p['path'][1:],
                                       p['explicit_segments'][1:])
           if a[1] != b[0]]
    return (rel if std else q), list(p['explicit_kpoints_labels']), std, \
        rel, new


def expected_path(crystal, o, insert):
    import euphonic as E
    u = o.get('--length-unit', 'angstrom')
    sp = E.Quantity(o.get('--q-spacing', .025), f'1/{u}').to(
        '1/angstrom').magnitude
    q, lab, std, rel, new = seek(crystal, sp)
    idx = list(range(len(lab)))
    if insert:
        idx = [i for i in idx for _ in range(
            2 if lab[i] == 'GAMMA' and 0 < i < len(lab) - 1 else 1)]
    lab = [lab[i] for i in idx]
    ticks = [(i, r'$\Gamma$' if s == 'GAMMA' else s)
             for i, s in enumerate(lab) if s]
    breaks = [idx.index(i) for i in new]
    return q[idx], ticks, breaks, std, rel[idx]


@st.composite
def dispersion_cases(draw):
    inp = draw(inputs(('fc', 'fc', 'modes', 'freqs'), path=True))
    o = dict(draw(energy_options(False)), **draw(path_options(
        inp['kind'] == 'fc')))
    if inp['kind'] == 'fc':
        o.update(draw(fc_options()))
    if inp['kind'] != 'freqs' and draw(st.booleans()):
        o['--reorder'] = True
    return dict(inp=inp, o=o, plot=draw(plot_options(True)),
                seed=draw(small_seed))


def split_count(x, btol):
    d = np.diff(x)
    lim = btol * np.median(d)
    if (np.abs(d - lim) < 1e-6 * (lim + 1e-3)).any():
        return None
    return 1 + int((d > lim).sum())


def bands(c, src, o, insert, modes):
    """-> phonons along the path, ticks, breaks, std, alternative phonons"""
    kw = calc_kwargs(o)
    q, ticks, breaks, std, rel = expected_path(src.crystal, o, insert)
    if len(q) > 250:
        raise Skip('long path')
    call = (src.calculate_qpoint_phonon_modes if modes
            else src.calculate_qpoint_frequencies)
    return (call(q, reduce_qpts=False, **kw), ticks, breaks, std,
            None if std else call(rel, reduce_qpts=False, **kw))


def run_dispersion(c, t):
    import euphonic as E
    import warnings as ww
    m, obj = build(c['inp'])
    fc = c['inp']['kind'] == 'fc'
    o = dict(c['o'])
    with Scratch() as d, ww.catch_warnings():
        ww.simplefilter('ignore')
        file = d / 'data.json'
        save(obj, file)
        src = type(obj).from_json_file(str(file))
        unit = unit_of(o)
        ticks = alt = None
        std = True
        if fc:
            ph, ticks, breaks, std, alt = bands(c, src, o, True,
                                                '--reorder' in o)
        else:
            ph = src
        top = ph.frequencies.to('meV').magnitude.max()
        if top < .5:
            raise Skip('soft')
        o = settle(c, o, top)
        o.update(c['plot'])
        out = d / 'out.json'
        o['--save-json'] = str(out)
        a = argv(o, file, np.random.default_rng([c['seed'], 104]))
        r = tool('dispersion', a)
        t.tag(c['inp']['kind'], 'reorder' if '--reorder' in o else '',
              'standard cell' if std else 'other cell')
        must(r, a)
        got = load(out)

        def judge(ph):
            if '--reorder' in o:
                ph = type(ph).from_dict(ph.to_dict())
                ph.reorder_frequencies()
            s = ph.get_dispersion()
            compare_1d(got, E.Spectrum1DCollection(
                s.x_data, s.y_data.to(unit)), 'dispersion')
            exp = ticks if ticks is not None else s.x_tick_labels
            check([tuple(x) for x in got.x_tick_labels]
                  == [tuple(x) for x in exp], lambda: f'tick labels '
                  f'{got.x_tick_labels}, expected {exp}')
            return s
        try:
            s = judge(ph)
        except Violation as v:
            if alt is not None:
                judge(alt)      # otherwise something else is wrong
                raise Violation(f'band path is not that of the cell: {v}',
                                'kpath_basis')
            raise
        t.hit(len(ph.qpts) > 2)
        fig = check_figure(r, o, ylabel='nergy')
        n = len(breaks) + 1 if fc else split_count(
            s.x_data.magnitude, o.get('--btol', 10.))
        if n is not None:
            check(len(fig.axes) == n + 1, f'{len(fig.axes) - 1} panels, '
                  f'expected {n}')
        y = fig.axes[0].get_ylim()
        for k, v in (('--e-min', y[0]), ('--e-max', y[1])):
            if k in o:
                close(v, o[k], 1e-9, 1e-12, f'{k} of the figure')


# ------------------------------------------------------------ intensity maps

@st.composite
def map_cases(draw, dw=False):
    """dw: always with a Debye-Waller factor, from a given grid spacing"""
    inp = draw(inputs(('fc',) if dw else ('fc', 'fc', 'modes', 'freqs'),
                      path=True))
    fc = inp['kind'] == 'fc'
    o = dict(draw(energy_options()), **draw(path_options(fc)))
    if fc:
        o.update(draw(fc_options()))
    w = 'coherent' if dw else draw(
        st.sampled_from(['dos', 'coherent', 'coherent']))
    if inp['kind'] == 'freqs':
        w = 'dos'
    if w != 'dos' or draw(st.booleans()):
        o['-w'] = w
    if fc and (dw or draw(st.booleans())):
        o['--temperature'] = 300. if dw else draw(
            st.sampled_from([0., 5., 300.]))
        if not dw and draw(st.booleans()):
            o['--grid'] = [draw(st.integers(1, 2)) * 2 for _ in range(3)]
        else:
            o['--grid-spacing'] = round(draw(nice_float(.4, 1.)) / QU[
                o.get('--length-unit', 'angstrom')], 5)
    if draw(st.integers(0, 3)) == 0:
        o['--shape'] = draw(st.sampled_from(['gauss', 'lorentz']))
    return dict(inp=inp, o=o, plot=draw(plot_options()),
                eb=draw(st.sampled_from([None, None, 'one', 'poly'])),
                qb=draw(st.sampled_from([None, None, .3])),
                w=draw(nice_float(.02, .15)),
                p=[draw(nice_float(.02, .06)), draw(nice_float(0, .05))],
                scale=draw(st.sampled_from([None, None, 3., -1.])),
                vmin=draw(st.sampled_from([None, None, 0.])),
                vmax=draw(st.sampled_from([None, None, 11.])),
                cmap=draw(st.sampled_from([None, 'bone'])),
                seed=draw(small_seed))


def run_map(c, t):
    import euphonic as E
    import warnings as ww
    from euphonic.util import get_qpoint_labels, mp_grid
    m, obj = build(c['inp'])
    fc = c['inp']['kind'] == 'fc'
    o = dict(c['o'])
    coherent = o.get('-w') == 'coherent'
    with Scratch() as d, ww.catch_warnings():
        ww.simplefilter('ignore')
        file = d / 'data.json'
        save(obj, file)
        src = type(obj).from_json_file(str(file))
        unit = unit_of(o)
        alt, std, dw, breaks = None, True, None, None
        if fc:
            ph, ticks, breaks, std, alt = bands(c, src, o, False, coherent)
            if coherent and '--temperature' in o:
                grid = o.get('--grid') or src.crystal.get_mp_grid_spec(
                    E.Quantity(o['--grid-spacing'],
                               f'1/{o.get("--length-unit", "angstrom")}'))
                dw = src.calculate_qpoint_phonon_modes(
                    mp_grid(grid), **calc_kwargs(o)
                ).calculate_debye_waller(E.Quantity(o['--temperature'], 'K'))
        else:
            ph = src
            if not coherent and c['inp']['kind'] == 'modes':
                ph = src.to_qpoint_frequencies() if hasattr(
                    src, 'to_qpoint_frequencies') else src
            ticks = get_qpoint_labels(ph.qpts,
                                      cell=ph.crystal.to_spglib_cell())
            if len(ph.qpts) < 2:
                raise Skip('one point')
        top = ph.frequencies.to('meV').magnitude.max()
        if top < .5:
            raise Skip('soft')
        o = settle(c, o, top)
        f = E.Quantity(1, 'meV').to(unit).magnitude * top
        poly = None
        if c['eb'] == 'one':
            poly = [float(f'{c["w"] * f:.6g}')]
        elif c['eb'] == 'poly':
            poly = [float(f'{c["p"][0] * f:.6g}'), c['p'][1]]
        if poly:
            o['--energy-broadening'] = poly
        if c['qb'] is not None:
            o['--q-broadening'] = c['qb']
        if c['scale'] is not None:
            o['--scale'] = c['scale']
        for k in ('vmin', 'vmax', 'cmap'):
            if c[k] is not None:
                o['--' + k] = c[k]
        o.update(c['plot'])
        out = d / 'out.json'
        o['--save-json'] = str(out)
        a = argv(o, file, np.random.default_rng([c['seed'], 105]))
        e = bins_for(ph.frequencies.to(unit).magnitude, o)
        shape = o.get('--shape', 'gauss')

        def model(ph):
            e = bins_for(ph.frequencies.to(unit).magnitude, o)
            if near_edges(ph.frequencies.to(unit).magnitude, e, 1e-10):
                raise Skip('mode at a bin edge')
            x = E.Quantity(e, unit)
            s = (ph.calculate_structure_factor(dw=dw).calculate_sqw_map(x)
                 if coherent else ph.calculate_dos_map(x))
            kw = {}
            if poly:
                kw['y_width'] = (
                    E.Quantity(poly[0], unit) if len(poly) == 1 else
                    lambda v: E.Quantity(np.polynomial.Polynomial(poly)(
                        v.to(unit).magnitude), unit))
            if c['qb'] is not None:
                kw['x_width'] = E.Quantity(
                    c['qb'], f'1/{o.get("--length-unit", "angstrom")}')
            if kw:
                s = s.broaden(shape=shape, method='convolve', **kw)
            return s, e
        r = tool('intensity_map', a)
        t.tag(c['inp']['kind'], 'coherent' if coherent else 'dos',
              'standard cell' if std else 'other cell', f'eb {c["eb"]}')
        if e is None:
            check(r.error is not None and not out.exists(),
                  'no error for an empty energy range')
            return
        try:
            s, _ = model(ph)
        except Skip:
            raise
        except Exception as x:
            # e.g. all q-points equal: the tool has to fail as well
            check(r.error is not None, f'library calls give {x!r}, the tool '
                  'does not')
            return
        must(r, a)
        got = load(out)
        check(type(got) is E.Spectrum2D, f'{type(got)} saved')
        k = 1. if c['scale'] is None else c['scale']

        def judge(ph):
            s, e = model(ph)
            z = s.z_data.magnitude * k
            check(got.z_data.units == s.z_data.units
                  and got.x_data.units == s.x_data.units
                  and got.y_data.units == s.y_data.units, 'units '
                  f'{got.z_data.units}, {got.x_data.units}')
            close(got.x_data.magnitude, s.x_data.magnitude, 1e-9,
                  1e-9, 'x_data')
            close(got.y_data.magnitude, e, 1e-9, 1e-9 * np.abs(e).max(),
                  'y_data')
            close(got.z_data.magnitude, z, 1e-7,
                  1e-9 * np.nanmax(np.abs(z), initial=0), 'z_data')
            check([tuple(x) for x in got.x_tick_labels or []]
                  == [tuple(x) for x in ticks], lambda: f'tick labels '
                  f'{got.x_tick_labels}, expected {ticks}')
            return z
        try:
            z = judge(ph)
        except Violation as v:
            if alt is not None:
                judge(alt)
                raise Violation(f'band path is not that of the cell: {v}',
                                'kpath_basis')
            raise
        t.hit(np.nanmax(np.abs(z)) > 0)
        fig = check_figure(r, o, ylabel='nergy')
        if breaks is not None:
            check(len(fig.axes) == len(breaks) + 2, f'{len(fig.axes) - 1} '
                  f'panels, expected {len(breaks) + 1}')
        im = fig.axes[0].get_images()[0]
        for k, v in (('--vmin', im.norm.vmin), ('--vmax', im.norm.vmax)):
            if k in o:
                close(v, o[k], 1e-9, 1e-12, k)
        if c['cmap']:
            check(im.get_cmap().name == c['cmap'],
                  f'colour map {im.get_cmap().name}')


# --------------------------------------------------------------- powder maps

@st.composite
def powder_cases(draw, dw=False):
    inp = draw(inputs(('fc',)))
    o = dict(draw(energy_options()), **draw(fc_options()))
    u = draw(st.sampled_from([None, 'angstrom', 'bohr', 'nm']))
    if u:
        o['--length-unit'] = u
    k = QU[u or 'angstrom']
    qmin = draw(st.sampled_from([None, 0., .3, 1.]))
    n = draw(st.integers(1, 4))
    sp = draw(nice_float(.3, .9))
    if qmin is not None:
        o['--q-min'] = round(qmin / k, 5)
    o['--q-spacing'] = round(sp / k, 5)
    o['--q-max'] = round(((qmin or 0) + sp * (n - draw(
        st.sampled_from([0.3, 0.01, .8])))) / k, 5)
    w = 'coherent' if dw else draw(st.sampled_from(
        ['dos', 'coherent', 'coherent', 'coherent-dos', 'incoherent-dos',
         'coherent-plus-incoherent-dos']))
    if w != 'dos' or draw(st.booleans()):
        o[draw(st.sampled_from(['-w', '--weighting']))] = w
    if w != 'coherent' and draw(st.booleans()):
        o['--pdos'] = draw(st.sampled_from(['first', 'last']))
    if dw or draw(st.booleans()):
        o['--temperature'] = 300. if dw else draw(
            st.sampled_from([0., 5., 300.]))
        if not dw and draw(st.booleans()):
            o['--grid'] = [draw(st.integers(1, 2)) * 2 for _ in range(3)]
        else:
            o['--grid-spacing'] = round(draw(nice_float(.5, 1.)) / k, 5)
    d = draw(st.integers(0, 2))
    if d == 0:
        o['--npts-density'] = draw(st.integers(1, 30))
        o['--npts-min'] = draw(st.integers(1, 6))
        o['--npts-max'] = draw(st.integers(6, 15))
    else:
        o[draw(st.sampled_from(['--npts', '-n']))] = draw(st.integers(1, 20))
    if draw(st.booleans()):
        o['--sampling'] = draw(st.sampled_from(
            ['golden', 'sphere-projected-grid', 'spherical-polar-grid',
             'spherical-polar-improved', 'random-sphere']))
    if draw(st.booleans()):
        o['--jitter'] = True
    if draw(st.integers(0, 3)) == 0:
        o['--shape'] = draw(st.sampled_from(['gauss', 'lorentz']))
    if draw(st.booleans()):
        o['--no-widgets'] = True
    return dict(inp=inp, o=o, plot=draw(plot_options()),
                eb=draw(st.sampled_from([None, None, 'one', 'poly'])),
                qb=draw(st.sampled_from([None, None, 'one', 'poly'])),
                w=draw(nice_float(.02, .15)),
                p=[draw(nice_float(.02, .06)), draw(nice_float(0, .05))],
                kin=draw(st.sampled_from([None, None, 'i', 'f'])),
                energy=draw(nice_float(.3, 3.)),
                angles=draw(st.sampled_from([None, [3., 135.], [20., 90.]])),
                scale=draw(st.sampled_from([None, None, 3.])),
                vmax=draw(st.sampled_from([None, 11.])),
                seed=draw(small_seed), np_seed=draw(st.integers(0, 2**31)))


def run_powder(c, t):
    import euphonic as E
    import warnings as ww
    from euphonic.powder import (sample_sphere_dos, sample_sphere_pdos,
                                 sample_sphere_structure_factor)
    from euphonic.spectra import apply_kinematic_constraints
    from euphonic.util import mp_grid
    m, obj = build(c['inp'])
    species = [str(s) for s in m.atom_type]
    o = dict(c['o'])
    kw = calc_kwargs(o)
    with Scratch() as d, ww.catch_warnings():
        ww.simplefilter('ignore')
        file = d / 'data.json'
        save(obj, file)
        src = type(obj).from_json_file(str(file))
        unit = unit_of(o)
        lu = f'1/{o.get("--length-unit", "angstrom")}'
        ref = src.calculate_qpoint_frequencies(np.array([[0., 0, .5]]), **kw)
        ref = ref.frequencies.to(unit).magnitude
        top = E.Quantity(ref.max(), unit).to('meV').magnitude
        if top < .5:
            raise Skip('soft')
        o = settle(c, o, top)
        f = E.Quantity(top, 'meV').to(unit).magnitude
        if '--pdos' in o:
            names = list(dict.fromkeys(species))
            o['--pdos'] = names[0 if o['--pdos'] == 'first' else -1]
        wt = o.get('-w', o.get('--weighting', 'dos'))
        kin = {}
        if c['kin']:
            v = float(f'{c["energy"] * f:.6g}')
            o['--e-' + c['kin']] = v
            kin = {'e_' + c['kin']: E.Quantity(v, unit)}
            if c['angles'] is not None:
                o['--angle-range'] = c['angles']
                kin['angle_range'] = tuple(c['angles'])
        epoly = qpoly = None
        if c['eb']:
            epoly = ([float(f'{c["w"] * f:.6g}')] if c['eb'] == 'one' else
                     [float(f'{c["p"][0] * f:.6g}'), c['p'][1]])
            o['--energy-broadening'] = epoly
        if c['qb']:
            s = float(o['--q-spacing'])
            qpoly = [float(f'{s * .7:.6g}')] + ([.1] if c['qb'] == 'poly'
                                                else [])
            o['--q-broadening'] = qpoly
        if c['scale'] is not None:
            o['--scale'] = c['scale']
        if c['vmax'] is not None:
            o['--vmax'] = c['vmax']
        o.update(c['plot'])
        out = d / 'out.json'
        o['--save-json'] = str(out)
        a = argv(o, file, np.random.default_rng([c['seed'], 106]))
        e = bins_for(ref, o, 1.2, emax=o.get('--e-i'))
        r = tool('powder_map', a, c['np_seed'])
        t.tag(wt, f'kinematics {c["kin"]}', f'eb {c["eb"]}, qb {c["qb"]}',
              'density' if '--npts-density' in o else 'npts')
        if e is None:
            check(r.error is not None and not out.exists(),
                  'no error for an empty energy range')
            return
        got = None
        lo, hi = o.get('--q-min', 0.), o['--q-max']
        if r.error is None:
            got = load(out)
            qe = got.x_data.to(lu).magnitude
        else:
            n = int(np.ceil((hi - lo) / o['--q-spacing']))
            qe = np.linspace(lo, hi, n + 1)
        x = E.Quantity(e, unit)
        rows = []
        np.random.seed(c['np_seed'])
        try:
            dw, T = None, None
            if wt == 'coherent' and '--temperature' in o:
                T = E.Quantity(o['--temperature'], 'K')
                grid = o.get('--grid') or src.crystal.get_mp_grid_spec(
                    E.Quantity(o['--grid-spacing'], lu))
                dw = src.calculate_qpoint_phonon_modes(
                    mp_grid(tuple(grid)), **kw).calculate_debye_waller(T)
            for q in (qe[1:] + qe[:-1]) / 2:
                npts = o.get('--npts', o.get('-n', 1000))
                if '--npts-density' in o:
                    npts = int(np.ceil(o['--npts-density'] * q ** 2))
                    npts = max(o['--npts-min'], min(o['--npts-max'], npts))
                pk = dict(npts=npts, energy_bins=x, jitter='--jitter' in o,
                          sampling=o.get('--sampling', 'golden'), **kw)
                qq = E.Quantity(q, lu)
                if wt == 'dos' and '--pdos' not in o:
                    s = sample_sphere_dos(src, qq, **pk).y_data
                elif wt == 'coherent':
                    s = sample_sphere_structure_factor(
                        src, qq, dw=dw, temperature=T, **pk).y_data
                else:
                    p = sample_sphere_pdos(
                        src, qq, weighting=None if wt == 'dos' else wt[:-4],
                        **pk)
                    g = groups(p, species, [])
                    s = g[o.get('--pdos', 'Total')]
                rows.append(s)
            z = np.array([s.magnitude for s in rows])
            spec = E.Spectrum2D(E.Quantity(qe, lu), x,
                                E.Quantity(z, rows[0].units))
            bk = {}

            def width(p, u):
                if len(p) == 1:
                    return E.Quantity(p[0], u)
                return lambda v: E.Quantity(np.polynomial.Polynomial(p)(
                    v.to(u).magnitude), u)
            if epoly:
                bk['y_width'] = width(epoly, unit)
            if qpoly:
                bk['x_width'] = width(qpoly, lu)
            if bk:
                spec = spec.broaden(shape=o.get('--shape', 'gauss'), **bk)
            if kin:
                spec = apply_kinematic_constraints(spec, **kin)
        except Exception as ex:
            check(r.error is not None, f'library calls give {ex!r}, the tool '
                  'does not')
            t.tag('both refuse')
            return
        if np.isnan(spec.z_data.magnitude).all():
            return      # nothing to plot
        must(r, a)
        # bins of |q|
        close(qe[0], lo, 1e-9, 1e-9, 'first |q| edge')
        close(qe[-1], hi, 1e-9, 1e-9, 'last |q| edge')
        dq = np.diff(qe)
        close(dq, np.full(len(dq), dq[0]), 1e-9, 1e-9, '|q| bins')
        sp = o['--q-spacing']
        check(dq[0] <= sp * (1 + 1e-9) and (
            len(dq) == 1 or (hi - lo) / (len(dq) - 1) >= sp * (1 - 1e-9)),
            f'|q| bins of {dq[0]}, asked for {sp}')
        check(got.z_data.units == spec.z_data.units, f'unit '
              f'{got.z_data.units}')
        z = spec.z_data.magnitude * (c['scale'] or 1.)
        close(got.y_data.to(unit).magnitude, e, 1e-9,
              1e-9 * np.abs(e).max(), 'energy bins')
        check(got.y_data.units == E.ureg(unit).units, 'energy unit')
        close(got.z_data.magnitude, z, 1e-7,
              1e-9 * np.nanmax(np.abs(z), initial=0), 'powder map')
        t.hit(np.nanmax(np.abs(z)) > 0)
        fig = check_figure(r, o, xlabel='|q|', ylabel='nergy')
        if c['vmax']:
            close(fig.axes[0].get_images()[0].norm.vmax, c['vmax'], 1e-9, 0,
                  'vmax')


# ----------------------------------------------------------- contradictions

CLASH = [
    ('dos', 'fc', ['--grid', 2, 2, 2, '--grid-spacing', .5]),
    ('dos', 'fc', ['--grid', 1, 1, 1, '--use-c', '--disable-c']),
    ('dos', 'fc', ['--grid', 1, 1, 1, '--adaptive', '--adaptive-scale', 2,
                   '--eb', 2]),
    ('dos', 'fc', ['--grid', 1, 1, 1, '--instrument-broadening', 1, '--eb',
                   2]),
    ('dos', 'fc', ['--grid', 1, 1, 1, '--adaptive',
                   '--instrument-broadening', 1, '--eb', 2, .1]),
    ('dos', 'modes', ['--adaptive']),
    ('dos', 'freqs', ['--adaptive']),
    ('dos', 'freqs', ['--pdos']),
    ('dos', 'freqs', ['--weighting', 'coherent-dos']),
    ('dos', 'modes', ['--pdos', 'Xx']),
    ('dos', 'modes', ['--weighting', 'coherent']),
    ('dos', 'modes', ['--shape', 'box']),
    ('dos', 'modes', ['--e-min', 5, '--e-max', 5]),
    ('dos', 'modes', ['--energy-unit', 'angstrom']),
    ('dos', 'modes', ['--energy-unit', 'nonsense']),
    ('dos', 'fc', ['--grid', 1, 1, 1, '--asr', 'other']),
    ('dos', 'fc', ['--grid', 1, 1, 1, '--adaptive', '--adaptive-method',
                   'slow']),
    ('dispersion', 'freqs', ['--reorder']),
    ('dispersion', 'modes', ['--energy-unit', 'nonsense']),
    ('dispersion', 'fc', ['--length-unit', 'nonsense']),
    ('dispersion', 'fc', ['--q-spacing', .9, '--use-c', '--disable-c']),
    ('intensity_map', 'freqs', ['-w', 'coherent']),
    ('intensity_map', 'modes', ['-w', 'coherent', '--temperature', 5]),
    ('intensity_map', 'modes', ['-w', 'coherent-dos']),
    ('intensity_map', 'modes', ['--e-min', 9, '--e-max', 2]),
    ('intensity_map', 'fc', ['--grid', 2, 2, 2, '--grid-spacing', .5,
                             '--q-spacing', .9]),
    ('intensity_map', 'modes', ['--length-unit', 'nonsense']),
    ('powder_map', 'modes', []),
    ('powder_map', 'freqs', []),
    ('powder_map', 'fc', ['-w', 'coherent', '--pdos', 'H']),
    ('powder_map', 'fc', ['--npts', 3, '--npts-density', 3]),
    ('powder_map', 'fc', ['--e-i', 30, '--e-f', 30]),
    ('powder_map', 'fc', ['--sampling', 'other']),
    ('powder_map', 'fc', ['--pdos', 'Xx']),
    ('powder_map', 'fc', ['--e-min', 9, '--e-max', 2]),
]


@st.composite
def clash_cases(draw):
    k = draw(st.integers(0, len(CLASH) - 1))
    kind = CLASH[k][1]
    return dict(k=k, inp=draw(inputs((kind,), path=True)),
                extra=draw(st.booleans()))


def run_clash(c, t):
    name, kind, opts = CLASH[c['k']]
    m, obj = build(c['inp'])
    with Scratch() as d:
        file = d / 'data.json'
        save(obj, file)
        out = d / 'out.json'
        a = [str(file)] + opts + ['--save-json', str(out)]
        if name == 'powder_map':
            a += ['--q-max', '1', '--q-spacing', '.6', '--ebins', '5']
            if '--npts' not in a:
                a += ['--npts', '3']
        if c['extra']:
            a += ['--title', 'X']
        r = tool(name, a)
        t.tag(name)
        t.hit()
        check(r.error is not None, lambda: f'{name} accepts '
              f'{" ".join(map(str, opts))} with {kind}')
        check(not out.exists(), f'{name} {" ".join(map(str, opts))}: error '
              'but a spectrum was saved')


# -------------------------------------------------------------- performance

@st.composite
def perf_cases(draw):
    return dict(inp=draw(inputs(('fc',))), tool=draw(st.sampled_from(
        ['dos', 'dos', 'dispersion', 'intensity_map', 'powder_map'])),
        a=draw(st.sampled_from([['--use-c', '--n-threads', 3], ['--use-c'],
                                ['--n-threads', 2]])),
        adaptive=draw(st.booleans()), asr=draw(st.booleans()),
        top=draw(nice_float(1.1, 1.3)))


def run_perf(c, t):
    m, obj = build(c['inp'])
    with Scratch() as d:
        file = d / 'data.json'
        save(obj, file)
        f = obj.calculate_qpoint_frequencies(np.array(
            [[.25, .25, .25], [.25, -.25, .25], [0, 0, .5]]), n_threads=1)
        hi = float(f'{f.frequencies.to("meV").magnitude.max() * 1.6:.5g}')
        if hi < 1:
            raise Skip('soft')
        base = [str(file), '--e-min', -hi / 10, '--e-max', hi]
        if c['asr']:
            base += ['--asr']
        if c['tool'] != 'dispersion':
            # smooth results do not depend on rounding at the bin edges
            base += ['--ebins', 40, '--eb', *(
                [1.5] if c['adaptive'] and c['tool'] == 'dos'
                else [hi / 15])]
        if c['tool'] == 'dos':
            base += ['--grid', 2, 2, 2]
            if c['adaptive']:
                base += ['--adaptive']
        elif c['tool'] == 'powder_map':
            base += ['--npts', 7, '--q-max', 2, '--q-spacing', .7]
        else:
            base += ['--q-spacing', .4]
        res = []
        for extra in (['--disable-c'], c['a']):
            out = d / 'out.json'
            a = base + extra + ['--save-json', str(out)]
            r = tool(c['tool'], a)
            must(r, a)
            res.append(load(out))
            out.unlink()
        x, y = res
        t.tag(c['tool'], ' '.join(map(str, c['a'])))
        name = 'z_data' if hasattr(x, 'z_data') else 'y_data'
        u, v = (getattr(s, name).magnitude for s in res)
        top = np.abs(u).max()
        t.hit(top > 0)
        close(y.x_data.magnitude, x.x_data.magnitude, 1e-9, 1e-9, 'x')
        if c['tool'] == 'dos' and c['adaptive']:
            # group velocities of degenerate modes depend on the basis
            # chosen in the degenerate subspace
            close(v.sum(), u.sum(), .02, 0, 'integral')
        elif c['tool'] == 'dispersion':
            close(v, u, 1e-5, 1e-3, 'C and Python results')
        else:
            # one mode changing bins at an edge is allowed for
            bad = np.abs(u - v) > 1e-6 * top
            if bad.any():
                d1 = np.abs(u - v).sum() / np.abs(u).sum()
                check(d1 < .2, f'results with {c["a"]} and --disable-c '
                      f'differ by {d1}')
                t.tag('a mode at an edge')


# ------------------------------------------------------------------ sampling

@st.composite
def sampling_cases(draw):
    return dict(npts=draw(st.integers(1, 80)), scheme=draw(st.sampled_from(
        ['golden-square', 'regular-square', 'recurrence-square',
         'golden-sphere', 'sphere-from-square-grid', 'spherical-polar-grid',
         'spherical-polar-improved', 'random-sphere', 'recurrence-cube'])),
        jitter=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 31)),
        save=draw(st.integers(0, 9)) == 0)


def run_sampling(c, t):
    import euphonic.sampling as es
    n, s, j = c['npts'], c['scheme'], dict(jitter=c['jitter'])
    with Scratch() as d:
        a = [n, s] + (['--jitter'] if c['jitter'] else [])
        if c['save']:
            a += ['-s', d / 'x.png']
        r = tool('show_sampling', a, c['seed'])
        if s == 'spherical-polar-improved' and n < 6:
            check(r.error is not None, f'{n} points accepted')
            return
        must(r, a)
        k = 1
        while 2 * k * k < n:
            k += 1
        r2 = 1
        while r2 * r2 < n:
            r2 += 1
        np.random.seed(c['seed'])
        exp = {'golden-square': lambda: es.golden_square(n, **j),
               'regular-square': lambda: es.regular_square(r2, r2, **j),
               'recurrence-square': lambda: es.recurrence_sequence(
                   n, order=2),
               'golden-sphere': lambda: es.golden_sphere(n, **j),
               'sphere-from-square-grid':
                   lambda: es.sphere_from_square_grid(2 * k, k, **j),
               'spherical-polar-grid':
                   lambda: es.spherical_polar_grid(2 * k, k, **j),
               'spherical-polar-improved':
                   lambda: es.spherical_polar_improved(n, **j),
               'random-sphere': lambda: es.random_sphere(n),
               'recurrence-cube': lambda: es.recurrence_sequence(
                   n, order=3)}[s]()
        exp = np.array([tuple(p) for p in exp])
        ax = r.figs[0].axes[0]
        col = ax.collections
        check(len(col) == 1, f'{len(col)} sets of points')
        if exp.shape[1] == 2:
            got = np.asarray(col[0].get_offsets())
        else:
            got = np.array([np.asarray(v) for v in col[0]._offsets3d]).T
        t.tag(s)
        t.hit(n > 1)
        close(got, exp, 1e-12, 1e-12, f'points of {s}')
        if c['save']:
            check((d / 'x.png').stat().st_size > 1000, 'figure saved')


# ----------------------------------------------------------------- optimise

@st.composite
def optimise_cases(draw):
    return dict(inp=draw(inputs(('fc', 'fc', 'fc', 'modes'))),
                lo=draw(nice_float(.3, 1.)), step=draw(nice_float(.2, .6)),
                n=draw(st.integers(0, 3)), loop=draw(st.integers(1, 6)),
                asr=draw(st.booleans()))


def run_optimise(c, t):
    from euphonic.cli.optimise_dipole_parameter import (
        calculate_optimum_dipole_parameter as f)
    m, obj = build(c['inp'])
    with Scratch() as d:
        file = d / 'data.json'
        save(obj, file)
        hi = c['lo'] + c['n'] * c['step']
        kw = dict(dipole_parameter_min=c['lo'], dipole_parameter_max=hi,
                  dipole_parameter_step=c['step'], n=c['loop'], n_threads=1)
        if c['asr']:
            kw['asr'] = 'reciprocal'
        with warnings.catch_warnings(), contextlib.redirect_stdout(
                io.StringIO()):
            warnings.simplefilter('ignore')
            if c['inp']['kind'] != 'fc':
                try:
                    f(str(file), **kw)
                except TypeError:
                    return
                raise Violation('phonon modes accepted')
            r = f(str(file), **kw)
        exp = c['lo'] + c['step'] * np.arange(c['n'] + 1)
        close(r[3], exp, 1e-9, 0, 'dipole parameters tried')
        check(all(len(x) == len(exp) and np.all(np.asarray(x) >= 0)
                  for x in r[4:6]), 'timings')
        i = int(np.argmin(r[5]))
        close([r[0], r[1], r[2]], [exp[i], r[4][i], r[5][i]], 1e-9, 0,
              'optimum is not the quickest')
        t.hit(len(exp) > 1)
        a = [str(file), '--min', c['lo'], '--max', hi, '--step', c['step'],
             '-n', c['loop'], '--n-threads', 1]
        q = tool('optimise_dipole_parameter', a)
        must(q, a)
        for x in exp:
            check(f'{x:.2f}' in q.text, f'{x} not reported')


def known_path():
    """conventional fcc cell: X is (1, 0, 0) there, not (.5, 0, .5)"""
    import euphonic as E
    from euphonic.cli import utils
    bands = getattr(utils, '_bands_from_force_constants', None)
    if bands is None:       # not told apart any more: report it as known
        return True
    f = np.array([[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    cr = E.Crystal(np.eye(3) * 4 * E.ureg('angstrom'), f,
                   np.array(['Al'] * 4), np.full(4, 27.) * E.ureg('amu'))
    fc = E.ForceConstants(
        cr, np.eye(12)[None] * E.ureg('hartree/bohr**2'),
        np.eye(3, dtype=int), np.zeros((1, 3), int))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m, lab = bands(fc, E.Quantity(.3, '1/angstrom'), n_threads=1)[:2]
    except (TypeError, ValueError):     # called in another way
        return True
    x = m.qpts[[i for i, s in lab if s == 'X'][0]]
    return bool(np.abs(x - np.rint(x)).max() > .1)


KNOWN = {'kpath_basis': known_path}
SUBS = [Sub('dos', dos_cases(), run_dos, 500, 4000),
        Sub('dispersion', dispersion_cases(), run_dispersion, 300, 2500),
        Sub('intensity_map', map_cases(), run_map, 350, 2500),
        Sub('powder_map', powder_cases(), run_powder, 350, 2500),
        Sub('map_dw', map_cases(dw=True), run_map, 80, 800),
        Sub('powder_dw', powder_cases(dw=True), run_powder, 80, 800),
        Sub('contradictions', clash_cases(), run_clash, 250, 1500),
        Sub('performance', perf_cases(), run_perf, 100, 800),
        Sub('sampling', sampling_cases(), run_sampling, 80, 1500),
        Sub('optimise', optimise_cases(), run_optimise, 30, 500)]
