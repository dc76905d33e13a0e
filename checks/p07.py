"""P07 mode gradients are frequency derivatives; widths follow"""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Skip, Sub, check, close, raises

RULE = ('gradients: force constants, q-points, sum rule option, C/Python; '
        'compared with 4th order finite differences of separately calculated '
        'frequencies in three Cartesian directions, or with the documented '
        'expectation value for polar crystals.  Non-trivial: at least one '
        'mode separated from the others and from zero has a non-zero '
        'gradient.  widths: random gradients, cell and units; non-trivial '
        'if some gradient is non-zero.')
TECHNIQUE = ('property-based testing: finite-difference differential oracle '
             'and documented formula')


@st.composite
def cases(draw, polar=False):
    return dict(fc=draw(gen.force_constants(3, 6, polar=polar)),
                q=draw(gen.qpoints(1, 3)),
                asr=draw(st.sampled_from([None, 'realspace', 'reciprocal'])),
                use_c=draw(st.sampled_from([None, None, False])),
                reduce=draw(st.booleans()), evecs=draw(st.booleans()),
                pad=draw(st.sampled_from([0, 0, 30, 70, 130, 260])),
                pseed=draw(gen.small_seed),
                unit=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])))


def build(c):
    m = gen.fc_model(c['fc'])
    fc = gen.make_fc(m)
    fc.crystal.cell_vectors_unit = c['unit']
    return m, fc


def graded(f, q, c, **kw):
    """modes and gradients at q, calculated in the midst of other
    q-points"""
    if not c['pad'] or c['use_c'] is False:
        r, g = f(q, return_mode_gradients=True, **kw)
        return r, r.frequencies, g, getattr(r, 'eigenvectors', None)
    rng = np.random.default_rng([c['pseed'], 7])
    full = np.round(rng.uniform(-1, 1, (c['pad'], 3)), 3)
    at = rng.permutation(len(full) - 1)[:len(q)]
    at[-1] = len(full) - 1
    full[at] = q
    # copies of one of them all over the list
    k = rng.integers(len(q))
    if not np.allclose(q[k], np.rint(q[k])):
        same = rng.uniform(size=len(full)) < .6
        same[at] = False
        same[at[k]] = True
        full[same] = q[k]
    else:
        same = np.zeros(len(full), bool)
    r, g = f(full, return_mode_gradients=True, **kw)
    e = getattr(r, 'eigenvectors', None)
    if same.any():
        fs, gs = r.frequencies[same].magnitude, g[same].magnitude
        ok = separated(np.sign(fs) * fs**2, (fs**2).max() + 1e-9).all(0)
        s = np.nan_to_num(np.abs(g.magnitude), posinf=0.).max()
        close(gs[:, ok], np.repeat(gs[:1, ok], len(gs), 0), 1e-6,
              1e-6 * s + 1e-9 * np.abs(fs).max(),
              'gradients of the same q-point at several positions')
    return r, r.frequencies[at], g[at], None if e is None else e[at]


def separated(lam, scale, frac=1e-3):
    n = lam.shape[1]
    d = np.abs(lam[:, :, None] - lam[:, None, :]) + np.eye(n) * 1e300
    return (d.min(2) > frac * scale) & (np.abs(lam) > frac * scale)


def run(c, t):
    m, fc = build(c)
    q = np.array(c['q'])
    kw = dict(asr=c['asr'], use_c=c['use_c'])
    f = (fc.calculate_qpoint_phonon_modes if c['evecs']
         else fc.calculate_qpoint_frequencies)
    _, freq, g, _ = graded(f, q, c, reduce_qpts=c['reduce'], **kw)
    freq = freq.to('hartree').magnitude
    check(g.shape == (len(q), 3 * m.n_atoms, 3), f'gradients shape {g.shape}')
    g = g.to('hartree*bohr').magnitude
    lam = np.sign(freq) * freq**2
    scale = max(np.abs(lam).max(), ref.floor(m))
    # (the derivative is documented for real frequencies)
    ok = separated(lam, scale) & (lam > 0)
    # 4th order central difference of lambda in Cartesian directions
    recip = 2 * np.pi * np.linalg.inv(m.cell).T
    steps = [(-2, 1 / 12), (-1, -2 / 3), (1, 2 / 3), (2, -1 / 12)]
    nums = []
    for hf in (1e-3, 2e-3):
        h = hf * np.linalg.norm(recip, axis=1).min()
        num = np.zeros_like(g)
        jobs = [(a, wt, q + st_ * np.linalg.inv(recip)[a] * h)
                for a in range(3) for st_, wt in steps]
        fr = fc.calculate_qpoint_frequencies(
            np.concatenate([x[2] for x in jobs]), **kw).frequencies
        fr = fr.to('hartree').magnitude.reshape(len(jobs), len(q), -1)
        for (a, wt, _), x in zip(jobs, fr):
            num[:, :, a] += wt * np.sign(x) * x**2 / h
        nums.append(num)
    num = nums[0]
    # the difference has to be converged in the step (avoided crossings)
    ok &= (np.abs(nums[0] - nums[1]).max(2)
           < 1e-3 * (np.abs(num).max(2) + 1e-3 * np.abs(num).max()))
    num = num / (2 * np.abs(freq)[..., None] + 1e-300)
    # omega = sign * sqrt|lam|: d omega = d lam / (2 |omega|)
    span = np.sqrt(scale) / (np.linalg.norm(recip, axis=1).min())
    close(g[ok], num[ok], 2e-3, 2e-3 * span, 'mode gradient vs finite '
          'difference')
    t.tag(f'asr={c["asr"]}', f'use_c={c["use_c"]}')
    t.hit(ok.any() and np.abs(g[ok]).max() > 1e-2 * span)


def run_exp(c, t):
    m, fc = build(c)
    images, amb = ref.ws_images(m)
    if amb:
        raise Skip('image on the tolerance boundary')
    asr = None if c['asr'] == 'realspace' else c['asr']
    q = np.array(c['q'])
    _, f, g, evecs = graded(fc.calculate_qpoint_phonon_modes, q, c, asr=asr,
                            use_c=c['use_c'], reduce_qpts=c['reduce'])
    g = g.to('hartree*bohr').magnitude
    f = f.to('meV').magnitude / gen.HARTREE_MEV
    lam = np.sign(f) * f**2
    scale = max(np.abs(lam).max(), ref.floor(m))
    ok = separated(lam, scale, 1e-5)
    E = evecs.reshape(len(q), f.shape[1], f.shape[1])
    w = 1 / np.sqrt(np.repeat(m.mass, 3))
    hit = False
    for k in range(len(q)):
        _, G = ref.dyn_mat(m, q[k], images, grad=True)
        G = G * np.outer(w, w)[:, :, None]
        e = np.einsum('va,abx,vb->vx', E[k].conj(), G, E[k]).real
        e = e / (2 * f[k][:, None])
        gs = np.abs(e[ok[k]]).max() if ok[k].any() else 0
        close(g[k][ok[k]], e[ok[k]], 1e-6, 1e-6 * gs + 1e-12,
              f'gradient expectation value at {q[k]}')
        hit |= gs > 1e-9
    t.tag('polar' if m.born is not None else 'nonpolar')
    t.hit(hit)


@st.composite
def width_cases(draw):
    return dict(crystal=draw(gen.crystals(1, 1)), n=draw(st.integers(1, 30)),
                modes=draw(st.integers(1, 6)), seed=draw(gen.small_seed),
                gu=draw(st.sampled_from(['meV*angstrom', 'hartree*bohr',
                                         'meV*bohr', 'eV*nm', 'THz*angstrom'
                                         ])),
                cu=draw(st.sampled_from(['angstrom', 'bohr', 'nm'])),
                scalar=draw(st.booleans()))


def run_widths(c, t):
    from euphonic import ureg
    from euphonic.util import mode_gradients_to_widths
    m = gen.crystal_model(c['crystal'])
    rng = np.random.default_rng(c['seed'])
    shape = (c['n'], c['modes']) + (() if c['scalar'] else (3,))
    g = rng.normal(size=shape) * 10 * (rng.uniform(size=shape) > .1)
    if c['scalar']:
        g = abs(g)
    gu = c['gu']
    if 'THz' in gu:   # energy given as frequency through the same context
        gu = gu.replace('THz', 'eV')
    fac = {'angstrom': 1, 'bohr': gen.BOHR_ANG, 'nm': 10}
    efac = {'meV': 1, 'hartree': gen.HARTREE_MEV, 'eV': 1000}
    e, l = gu.split('*')
    cell = (m.cell_ang * ureg('angstrom')).to(c['cu'])
    gq = g * ureg(gu)
    w = mode_gradients_to_widths(gq, cell)
    mod = g if c['scalar'] else np.sqrt((g**2).sum(-1))
    vol = abs(np.linalg.det(m.cell_ang))
    exp = mod * efac[e] * fac[l] * 2 / np.cbrt(c['n'] * vol)
    close(w.to('meV').magnitude, exp, 1e-7, 1e-12, 'mode widths (meV)')
    check(np.array_equal(gq.magnitude, g), 'gradients modified')
    for bad in ((c['n'],), (c['n'], c['modes'], 2), (c['n'], c['modes'], 1),
                (c['n'], c['modes'], 3, 1)):
        raises(ValueError, lambda: mode_gradients_to_widths(
            np.ones(bad) * ureg(gu), cell), f'gradients of shape {bad}')
    t.tag('scalar' if c['scalar'] else 'vector', gu)
    t.hit(np.any(g))


SUBS = [Sub('finite_difference', cases(), run, 240, 4000),
        Sub('expectation', cases(None), run_exp, 240, 4000),
        Sub('widths', width_cases(), run_widths, 400, 4000)]
