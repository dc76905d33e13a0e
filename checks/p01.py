"""P01 interpolated phonons equal an independent lattice-dynamics model"""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Skip, Sub, check

RULE = ('A case is a crystal (all lattice families, left- and right-handed, '
        '1-4 atoms, special or general positions, optionally outside the unit '
        'interval), a supercell (diagonal or not, any cell order), a force '
        'constants matrix and a list of q-points.  Non-trivial: more than one '
        'cell in the supercell or an atom pair with more than one image, and '
        'at least one q-point that is not gamma.')
ASSUMPTIONS = [
    'supercells whose Wigner-Seitz cell is not spanned by the first shell of '
    'lattice vectors (very skewed) are outside the generator',
    'images within 0.1 % (but not exactly on) the Wigner-Seitz boundary are '
    'skipped: the boundary tolerance is not specified']


@st.composite
def cases(draw, max_atoms=4, max_cells=8):
    return dict(fc=draw(gen.force_constants(max_atoms, max_cells)),
                q=draw(gen.qpoints(1, 5)),
                use_c=draw(st.sampled_from([None, True, False])),
                reduce=draw(st.booleans()),
                modes_only=draw(st.sampled_from([False, False, True])))


def run(c, t):
    from euphonic import ureg
    m = gen.fc_model(c['fc'])
    images, amb = ref.ws_images(m)
    if amb:
        raise Skip('image on the tolerance boundary')
    fc = gen.make_fc(m)
    q = np.array(c['q'])
    kw = dict(dipole=False, use_c=c['use_c'], reduce_qpts=c['reduce'])
    if c['modes_only']:
        r = fc.calculate_qpoint_frequencies(q.copy(), **kw)
        ev = None
    else:
        r = fc.calculate_qpoint_phonon_modes(q.copy(), **kw)
        ev = r.eigenvectors
    f = r.frequencies.to('meV').magnitude / gen.HARTREE_MEV
    n = m.n_atoms
    check(f.shape == (len(q), 3 * n), f'frequencies shape {f.shape}')
    check(np.array_equal(r.qpts, q), 'q-points differ from those requested')
    for k in range(len(q)):
        D = ref.mass_weight(m, ref.dyn_mat(m, q[k], images))
        ref.check_modes(D, f[k], None if ev is None else ev[k],
                        f'q-point {q[k]}', floor=ref.floor(m))
    multi = any(len(v) > 1 for v in images.values())
    t.tag('lattice=' + c['fc']['crystal']['lattice'],
          f'atoms={n}', f'cells={len(m.origins)}',
          'several images' if multi else 'single images',
          f'use_c={c["use_c"]}', 'mode=' + c['fc']['mode'])
    t.hit((multi or len(m.origins) > 1) and np.any(q != 0))


SUBS = [Sub('model', cases(), run, 1200, 20000),
        Sub('large', cases(8, 36), run, 160, 4000)]
