"""P31 reference data are looked up faithfully"""
import json
import os
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Sub, check, close, raises
from harness.gen import nice_float, small_seed

RULE = ('bundled: every entry of every property of the bundled collections '
        'against an independent parse of the JSON file and, for the '
        'coherent tables, against sigma = 4 pi |b|^2 of the other table. '
        'user: generated collections (float, integer, complex, null, text, '
        'zero entries; many units; several properties) written to JSON.  '
        'errors: generated damage must give an exception.  calculations: '
        'structure factors, partial DOS and powder averages with a '
        'collection given by name, by file and by value.  Non-trivial: at '
        'least one number looked up.')
TECHNIQUE = ('property-based testing: independent decoding, physical '
             'relation between tables, differential comparison')
ASSUMPTIONS = ['bundled tables agree with sigma = 4 pi |b|^2 within 4 %, '
               'which holds for all elements but Ra',
               'booleans are not numbers']

BUNDLED = {'Sears1992': ['coherent_scattering_length'],
           'BlueBook': ['coherent_cross_section', 'incoherent_cross_section']}
FILES = {'Sears1992': 'sears-1992.json', 'BlueBook': 'bluebook.json'}
# well-known values (Sears 1992), to a tolerance
LENGTHS = {'H': -3.739, 'C': 6.646, 'O': 5.803, 'Na': 3.63, 'Si': 4.1491,
           'Cl': 9.577, 'Ti': -3.438, 'V': -.3824, 'Mn': -3.73, 'Fe': 9.45,
           'Ni': 10.3, 'Cu': 7.718, 'Nb': 7.054, 'La': 8.24, 'Pb': 9.405,
           'Al': 3.449, 'Li': -1.9, 'Ca': 4.7, 'Cd': 4.87 - .7j}
INCOHERENT = {'H': 80.26, 'V': 5.08, 'Na': 1.62, 'Cl': 5.3, 'Ti': 2.87,
              'Ni': 5.2, 'Co': 4.8, 'Sm': 39., 'O': .0008, 'C': .001,
              'Yb': 4., 'Li': .92}


def raw(collection):
    """{property: (unit, {species: number})} of a bundled file, parsed
    without euphonic"""
    import euphonic
    p = pathlib.Path(euphonic.__file__).parent / 'data' / FILES[collection]

    def pairs(items):
        keys = [k for k, _ in items]
        check(len(keys) == len(set(keys)), f'{p.name}: repeated key in '
              f'{[k for k in keys if keys.count(k) > 1]}')
        return dict(items)
    d = json.loads(p.read_text(), object_pairs_hook=pairs)
    return {k: decode(v) for k, v in d['physical_property'].items()}


def decode(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = v['real'] + 1j * v['imag']
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            out[k] = v
    return d['__units__'], out


def compare(got, unit, exp, what):
    import euphonic as E
    check(isinstance(got, dict), f'{what}: {type(got)}')
    check(set(got) == set(exp), lambda: f'{what}: species missing '
          f'{sorted(set(exp) - set(got))}, unexpected '
          f'{sorted(set(got) - set(exp))}')
    u = E.ureg(unit).units if unit else E.ureg('').units
    for k, v in exp.items():
        check(isinstance(got[k], E.Quantity), f'{what} {k}: {type(got[k])}')
        check(got[k].units == u, f'{what} {k}: unit {got[k].units}, '
              f'file has {unit}')
        g = got[k].magnitude
        check(isinstance(g, complex) == isinstance(v, complex) and g in (v, v * 1.0),
              f'{what} {k}: got {g!r}, file has {v!r}')


@st.composite
def bundled_cases(draw):
    c = draw(st.sampled_from(sorted(BUNDLED)))
    return dict(collection=c, prop=draw(st.sampled_from(BUNDLED[c])),
                default=draw(st.booleans()))


def run_bundled(c, t):
    from euphonic.util import get_reference_data
    kw = dict(collection=c['collection'], physical_property=c['prop'])
    if c['default'] and c['collection'] == 'Sears1992':
        kw = {}
    got = get_reference_data(**kw)
    data = raw(c['collection'])
    check(set(BUNDLED[c['collection']]) <= set(data), 'property missing')
    unit, exp = data[c['prop']]
    compare(got, unit, exp, f'{c["collection"]} {c["prop"]}')
    t.hit()
    t.tag(c['prop'])
    b = get_reference_data('Sears1992', 'coherent_scattering_length')
    s = get_reference_data('BlueBook', 'coherent_cross_section')
    for k in set(b) & set(s) - {'Ra'}:
        x = 4 * np.pi * abs(b[k].to('fm').magnitude) ** 2 / 100
        y = s[k].to('barn').magnitude
        check(abs(x - y) <= .04 * x + .02, f'{k}: scattering length '
              f'{b[k]:~} gives {x:.4g} barn, cross section table {s[k]:~}')
    for k, v in LENGTHS.items():
        check(abs(b[k].to('fm').magnitude - v) <= .02 * abs(v) + .01,
              f'{k}: scattering length {b[k]:~}, expected {v} fm')
    i = get_reference_data('BlueBook', 'incoherent_cross_section')
    for k, v in INCOHERENT.items():
        check(abs(i[k].to('barn').magnitude - v) <= .05 * v + .02,
              f'{k}: incoherent cross section {i[k]:~}, expected {v} barn')


# --------------------------------------------------------------- user files

UNITS = ['fm', 'barn', 'mbarn', 'angstrom', 'bohr', 'meV', 'amu',
         'meV/angstrom**2', 'angstrom**2', 'K', 'kg', '1/cm', 'hartree',
         'dimensionless', 'barn/steradian', 'fm**2']
NAMES = ['H', 'He', 'D', 'O', 'Na', 'Fe', 'Gd', '2H', 'Fe3+', 'cat',
         'Bk', 'X', 'Og', 'na', ' Na', 'metadata', 'Å']

value = st.one_of(
    st.floats(-100, 100).map(lambda x: dict(f=x)),
    st.sampled_from([0., -0., 1e-300, -1e300, 5e-324, 3.0, 0.1]).map(
        lambda x: dict(f=x)),
    st.integers(-10 ** 20, 10 ** 20).map(lambda x: dict(i=x)),
    st.integers(-3, 3).map(lambda x: dict(i=x)),
    st.tuples(st.floats(-10, 10), st.floats(-10, 10)).map(
        lambda x: dict(c=list(x))),
    st.tuples(st.integers(-2, 2), st.integers(-2, 2)).map(
        lambda x: dict(c=list(x))),
    st.sampled_from([None, 'unknown', '', '1.0']).map(lambda x: dict(x=x)))


@st.composite
def user_cases(draw):
    props = draw(st.lists(st.sampled_from(
        ['coherent_scattering_length', 'size', 'coherent_cross_section',
         'a b', 'X', 'metadata']), min_size=1, max_size=4, unique=True))
    return dict(
        props=[dict(name=p, unit=draw(st.sampled_from(UNITS)), values=draw(
            st.dictionaries(st.sampled_from(NAMES), value, max_size=7)),
            first=draw(st.booleans()))
            for p in props],
        meta=draw(st.booleans()), path=draw(st.sampled_from(
            ['absolute', 'relative', 'odd name', 'shadow'])),
        indent=draw(st.sampled_from([None, 1])))


def stored(v):
    if 'c' in v:
        return {'__complex__': True, 'real': v['c'][0], 'imag': v['c'][1]}
    return next(iter(v.values()))


def number(v):
    return complex(*v['c']) if 'c' in v else v.get('f', v.get('i'))


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='p31')
        self.old = os.getcwd()
        os.chdir(self.dir)
        return pathlib.Path(self.dir)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def write(d, c, name='data.json'):
    out = {}
    if c['meta']:
        out.update(description='text', reference='text', version=2)
    out['physical_property'] = {}
    for p in c['props']:
        e = {'__units__': p['unit']} if p['first'] else {}
        e.update({k: stored(v) for k, v in p['values'].items()})
        e['__units__'] = p['unit']
        out['physical_property'][p['name']] = e
    f = d / name
    f.write_text(json.dumps(out, indent=c['indent']))
    return f


def run_user(c, t):
    from euphonic.util import get_reference_data
    with Scratch() as d:
        name = {'odd name': 'my data (2)', 'shadow': 'sears-1992.json'}.get(
            c['path'], 'data.json')
        f = write(d, c, name)
        arg = str(f) if c['path'] == 'absolute' else name
        t.tag(c['path'], f'{len(c["props"])} properties')
        for p in c['props']:
            got = get_reference_data(collection=arg,
                                     physical_property=p['name'])
            exp = {k: number(v) for k, v in p['values'].items()
                   if 'x' not in v}
            t.hit(len(exp) > 0)
            compare(got, p['unit'], exp, p['name'])
        raises((ValueError,), lambda: get_reference_data(
            arg, 'no_such_property'), 'unknown property')
        # a bundled collection is found by name wherever one works, also
        # where a file or folder happens to have the same name
        which = sorted(BUNDLED)[len(c['props']) % 2]
        if c['meta']:
            shutil.copy(f, which)
        else:
            os.mkdir(which)
        for q in BUNDLED[which]:
            compare(get_reference_data(which, q), *raw(which)[q],
                    f'{which} next to {"a file" if c["meta"] else "a folder"}'
                    ' of that name')


# ------------------------------------------------------------------- errors

@st.composite
def error_cases(draw):
    return dict(base=draw(user_cases()), kind=draw(st.sampled_from(
        ['no units', 'unknown units', 'no properties', 'unknown property',
         'unknown collection', 'case', 'directory', 'truncated', 'empty',
         'other property units', 'species'])), cut=draw(nice_float(.05, .95)),
        name=draw(st.sampled_from(['', 'Sears', 'sears1992', 'bluebook',
                                   'SEARS1992', 'nothing.json', '/', '.'])),
        modes=draw(gen.phonon_modes(2, 2)), how=draw(st.sampled_from(
            ['sf', 'pdos', 'pdos2'])))


def run_error(c, t):
    from euphonic.util import get_reference_data
    import euphonic as E
    k = c['kind']
    t.tag(k)
    t.hit()
    b = c['base']
    name = b['props'][0]['name']
    with Scratch() as d:
        f = write(d, b)
        j = json.loads(f.read_text())
        pp = j['physical_property']
        exc = Exception
        if k == 'no units':
            del pp[name]['__units__']
            exc = ValueError
        elif k == 'unknown units':
            pp[name]['__units__'] = 'no_such_unit'
            exc = ValueError
        elif k == 'no properties':
            j['physical_properties'] = j.pop('physical_property')
        elif k == 'unknown property':
            del pp[name]
            exc = ValueError
        elif k == 'case':
            pp[name.upper() + '_'] = pp.pop(name)
            exc = ValueError
        elif k == 'unknown collection':
            raises(ValueError, lambda: get_reference_data(c['name'], name),
                   f'collection {c["name"]!r}')
            return
        elif k == 'directory':
            (d / 'dir').mkdir()
            raises(Exception, lambda: get_reference_data(
                str(d / 'dir'), name), 'directory')
            return
        elif k == 'species':
            m = gen.modes_model(c['modes'])
            p = gen.make_modes(m)
            sp = str(m.atom_type[-1])
            have = {str(s): 1.5 for s in m.atom_type if s != sp}
            props = {q: dict(have, __units__=u) for q, u in
                     (('coherent_scattering_length', 'fm'),
                      ('coherent_cross_section', 'barn'),
                      ('incoherent_cross_section', 'barn'))}
            if c['how'] == 'pdos2':
                props['coherent_cross_section'][sp] = 2.
            f.write_text(json.dumps(dict(physical_property=props)))
            bins = np.linspace(0, 100, 5) * E.ureg('meV')
            if c['how'] == 'sf':
                def call():
                    return p.calculate_structure_factor(str(f))
            else:
                def call():
                    return p.calculate_pdos(
                        bins, cross_sections=str(f),
                        weighting='coherent-plus-incoherent'
                        if c['how'] == 'pdos2' else 'coherent')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                raises(Exception, call, f'{sp} missing from the collection')
            return
        elif k == 'other property units':
            # damage elsewhere does not matter
            pp['other'] = {'H': 1.}
            f.write_text(json.dumps(j))
            u, e = decode(pp[name])
            compare(get_reference_data(str(f), name), u, e, name)
            return
        text = json.dumps(j)
        if k == 'truncated':
            text = text[:int(len(text) * c['cut'])]
        elif k == 'empty':
            text = ''
        f.write_text(text)
        raises(exc, lambda: get_reference_data(str(f), name), k)


# -------------------------------------------------------------- calculations

@st.composite
def calc_cases(draw):
    what = draw(st.sampled_from(['sf', 'sf', 'pdos', 'pdos', 'powder sf',
                                 'powder pdos']))
    c = dict(what=what, how=draw(st.sampled_from(['name', 'file'])),
             weighting=draw(st.sampled_from(
                 [None, 'coherent', 'incoherent',
                  'coherent-plus-incoherent'])),
             seed=draw(small_seed), ints=draw(st.booleans()),
             unit=draw(st.sampled_from(['same', 'other'])),
             species=draw(st.integers(0, 88)))
    if what.startswith('powder'):
        c.update(fc=draw(gen.force_constants(2, 2, polar=False,
                                             modes=('spring',))),
                 modq=draw(nice_float(.3, 3)))
    else:
        c['modes'] = draw(gen.phonon_modes(3, 5))
    return c


def run_calc(c, t):
    import euphonic as E
    from euphonic.powder import (sample_sphere_pdos,
                                 sample_sphere_structure_factor)
    if 'fc' in c:
        m = gen.fc_model(c['fc'])
        o = gen.make_fc(m)
    else:
        m = gen.modes_model(c['modes'])
        # any element of the tables
        kinds = sorted(set(raw('BlueBook')['incoherent_cross_section'][1])
                       & set(raw('Sears1992')[
                           'coherent_scattering_length'][1]))
        m.atom_type = m.atom_type.copy().astype('<U2')
        m.atom_type[0] = kinds[c['species'] % len(kinds)]
        o = gen.make_modes(m)
    sf = c['what'].endswith('sf')
    kinds = sorted({str(s) for s in m.atom_type})
    rng = np.random.default_rng([c['seed'], 101])
    t.tag(c['what'], c['how'], f'weighting {c["weighting"]}')
    props = ['coherent_scattering_length'] if sf else [
        'coherent_cross_section', 'incoherent_cross_section']
    with Scratch() as d:
        if c['how'] == 'name':
            arg = 'Sears1992' if sf else 'BlueBook'
            tab = {p: raw(arg)[p] for p in props}
        else:
            tab = {}
            for p in props:
                v = {s: (int(rng.integers(0, 9)) if c['ints'] else
                         float(rng.uniform(-2 if sf else 0, 9)))
                     for s in kinds}
                tab[p] = (str(rng.choice(['fm', 'angstrom', 'bohr'] if sf
                                         else ['barn', 'mbarn', 'fm**2'])),
                          v)
            arg = str(d / 'x.json')
            pathlib.Path(arg).write_text(json.dumps(dict(
                physical_property={p: dict(v, __units__=u)
                                   for p, (u, v) in tab.items()})))
        used = props if sf else {
            None: [], 'coherent': props[:1], 'incoherent': props[1:],
            'coherent-plus-incoherent': props}[c['weighting']]
        exp = {}
        for s in kinds:
            parts = [tab[p][1][s] * E.ureg(tab[p][0]) for p in used]
            if parts:
                exp[s] = sum(parts[1:], parts[0])
                if c['unit'] == 'other':
                    exp[s] = exp[s].to('bohr' if sf else 'bohr**2')
        if c['unit'] == 'other':
            exp['Xx'] = next(iter(exp.values()), None)
        bins = np.linspace(0, 160, 40) * E.ureg('meV')

        def call(given):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if c['what'] == 'sf':
                    return o.calculate_structure_factor(given)
                if c['what'] == 'pdos':
                    return o.calculate_pdos(bins, weighting=c['weighting'],
                                            cross_sections=given)
                if c['what'] == 'powder sf':
                    return sample_sphere_structure_factor(
                        o, c['modq'] * E.ureg('1/angstrom'), npts=7,
                        temperature=None, energy_bins=bins,
                        scattering_lengths=given, n_threads=1)
                return sample_sphere_pdos(
                    o, c['modq'] * E.ureg('1/angstrom'), npts=7,
                    energy_bins=bins, weighting=c['weighting'],
                    cross_sections=given, n_threads=1)
        a = call(arg)
        if not used:
            # no cross sections are involved
            t.hit(c['how'] == 'file')
            b = call('BlueBook')
        else:
            b = call(exp)
            t.hit()
    if c['what'] == 'sf':
        x, y = a.structure_factors, b.structure_factors
    else:
        x, y = a.y_data, b.y_data
    y = y.to(x.units).magnitude
    close(x.magnitude, y, 1e-9, 1e-12 * (np.abs(y).max() + 1e-300),
          f'{c["what"]} with {c["how"]} and with explicit values')


SUBS = [Sub('bundled', bundled_cases(), run_bundled, 12, 24,
            corpus=[dict(collection=c, prop=p, default=d)
                    for c in BUNDLED for p in BUNDLED[c]
                    for d in (True, False)]),
        Sub('user', user_cases(), run_user, 500, 12000),
        Sub('errors', error_cases(), run_error, 300, 5000),
        Sub('calculations', calc_cases(), run_calc, 300, 6000)]
