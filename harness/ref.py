"""Reference models (plain numpy, written from the documentation and the
textbook formulae; no code of the package is used)."""
import itertools

import numpy as np


# ------------------------------------------------------ lattice dynamics
def ws_images(m, tol_in=1e-6, tol_out=1.5e-3):
    """For every (cell, i, j): lattice vectors (unit-cell coordinates) of the
    supercell images of atom j whose distance from atom i is minimal, i.e.
    within (or on the boundary of) the Wigner-Seitz cell.  `ambiguous` is
    True if an image is neither clearly on the boundary nor clearly off."""
    S = m.sc_matrix
    sc = S @ m.cell
    sh = np.array(list(itertools.product(range(-3, 4), repeat=3)))
    inv = np.linalg.inv(S)
    ws = np.array([v for v in itertools.product(range(-2, 3), repeat=3)
                   if any(v)]) @ sc
    wsn = ws / (ws**2).sum(1)[:, None]
    out = {}
    ambiguous = False
    for k, o in enumerate(m.origins):
        for i in range(m.n_atoms):
            for j in range(m.n_atoms):
                d = o + m.atom_r[j] - m.atom_r[i]
                near = sh - np.rint(d @ inv)
                d = d @ m.cell + near @ sc
                p = (d @ wsn.T).max(1)          # <= 1/2 inside
                inside = p <= 0.5 + tol_in
                # anything between the clean boundary and beyond the
                # documented-by-code slack is undecidable here
                if np.any((p > 0.5 + 1e-7) & (p < 0.5 + tol_out)):
                    ambiguous = True
                out[k, i, j] = near[inside] @ S
    return out, ambiguous


def dyn_mat(m, q, images=None, grad=False, fc=None):
    """Unweighted dynamical matrix at q (fractional), and its Cartesian
    gradient"""
    if images is None:
        images, _ = ws_images(m)
    if fc is None:
        fc = m.fc
    n = m.n_atoms
    D = np.zeros((3 * n, 3 * n), complex)
    G = np.zeros((3 * n, 3 * n, 3), complex)
    for (k, i, j), im in images.items():
        R = m.origins[k] + im
        ph = np.exp(2j * np.pi * (R @ np.asarray(q)))
        blk = fc[k, 3*i:3*i+3, 3*j:3*j+3]
        D[3*i:3*i+3, 3*j:3*j+3] += blk * ph.mean()
        if grad:
            g = (1j * ph[:, None] * (R @ m.cell)).mean(0)
            G[3*i:3*i+3, 3*j:3*j+3] += blk[:, :, None] * g
    return (D, G) if grad else D


def _gvecs(m, lam, eps, q, cut):
    recip = 2 * np.pi * np.linalg.inv(m.cell).T
    # K eps K <= 4 lam^2 cut
    emin = np.linalg.eigvalsh(eps).min()
    kmax = np.sqrt(4 * lam**2 * cut / emin)
    # |G_i| index bound: n_i <= kmax * |a_i| / 2pi
    nmax = np.ceil(kmax * np.linalg.norm(m.cell, axis=1) / (2 * np.pi)
                   ).astype(int) + 1
    if np.prod(2 * nmax + 1) > 4e6:
        return None
    g = np.stack(np.meshgrid(*[np.arange(-k, k + 1) for k in nmax],
                             indexing='ij'), -1).reshape(-1, 3)
    K = (g + q) @ recip
    kek = np.einsum('ia,ab,ib->i', K, eps, K)
    keep = (kek / (4 * lam**2) <= cut) & (np.abs(g + q).max(1) > 1e-9)
    return K[keep], kek[keep]


def dipole_lambda(m, eps):
    """Convergence parameter for which the real-space part is negligible"""
    ie = np.linalg.inv(eps)
    sh = np.array(list(itertools.product(range(-3, 4), repeat=3)))
    dmin = np.inf
    for i in range(m.n_atoms):
        for j in range(m.n_atoms):
            d = m.atom_r[j] - m.atom_r[i]
            d = (d - np.rint(d) + sh) @ m.cell
            e = np.einsum('ia,ab,ib->i', d, ie, d)
            if i == j:
                e = e[e > 1e-9]
            dmin = min(dmin, e.min())
    return 5.4 / np.sqrt(dmin)


def dipole_bare(m, q, eps, lam, cut=30.0):
    q = np.asarray(q, float)
    q = q - np.rint(q)
    gk = _gvecs(m, lam, eps, q, cut)
    if gk is None:
        return None
    K, kek = gk
    vol = abs(np.linalg.det(m.cell))
    w = 4 * np.pi / vol * np.exp(-kek / (4 * lam**2)) / kek
    n = m.n_atoms
    r = m.atom_r @ m.cell
    # phase exp(i K.(r_i - r_j)) with K = q + G: cell-origin convention
    ph = np.exp(1j * (K @ r.T))
    C = np.empty((n, n, 3, 3), complex)
    for i in range(n):
        for j in range(n):
            x = w * ph[:, i] * ph[:, j].conj()
            C[i, j] = np.einsum('k,ka,kb->ab', x, K, K)
    return C


def dipole(m, q, q_dir=None):
    """Dipole-dipole dynamical matrix (Gonze & Lee eq. 71-75), optional
    non-analytic term along q_dir (fractional)"""
    lam = dipole_lambda(m, m.eps)
    C = dipole_bare(m, q, m.eps, lam)
    C0 = dipole_bare(m, np.zeros(3), m.eps, lam)
    if C is None or C0 is None:
        return None
    n, Z = m.n_atoms, m.born
    D = np.einsum('iax,jby,ijxy->iajb', Z, Z, C)
    for i in range(n):
        s = np.einsum('ax,jby,jxy->ab', Z[i], Z, C0[i])
        s = 0.5 * (s + s.T)
        D[i, :, i, :] -= s
    if q_dir is not None:
        D = D + nac(m, q_dir).reshape(n, 3, n, 3)
    return D.reshape(3 * n, 3 * n)


def nac(m, q_dir):
    recip = 2 * np.pi * np.linalg.inv(m.cell).T
    k = np.asarray(q_dir, float) @ recip
    vol = abs(np.linalg.det(m.cell))
    zq = np.einsum('iab,b->ia', m.born, k).ravel()
    return 4 * np.pi / vol * np.outer(zq, zq) / (k @ m.eps @ k)


def mass_weight(m, D):
    w = 1 / np.sqrt(np.repeat(m.mass, 3))
    return D * np.outer(w, w)


def freqs_from_dyn(Dm):
    w = np.linalg.eigvalsh(Dm)
    return np.sign(w) * np.sqrt(np.abs(w))


def check_modes(Dm, freqs, evecs, what, tol=1e-8, floor=0.0):
    """freqs (hartree) and evecs (modes, n_atoms, 3) solve Dm: the squared
    frequencies are its eigenvalues in order, evecs orthonormal eigenvectors.
    tol is relative to the spectral norm of Dm."""
    from harness.core import check
    scale = np.abs(np.linalg.eigvalsh(Dm)).max() + floor + 1e-300
    lam = np.sign(freqs) * freqs**2
    ref = np.linalg.eigvalsh(Dm)
    err = np.abs(lam - ref).max() / scale
    check(err < tol, lambda: f'{what}: squared frequencies differ from the '
          f'eigenvalues of the model by {err:.2e} (relative); '
          f'got {lam[np.argmax(abs(lam-ref))]:.6e}, '
          f'model {ref[np.argmax(abs(lam-ref))]:.6e}')
    check(np.all(np.diff(freqs) >= -1e-9 * np.sqrt(scale)),
          lambda: f'{what}: frequencies not ascending {freqs}')
    if evecs is not None:
        n = len(Dm)
        E = evecs.reshape(n, n)
        orth = np.abs(E.conj() @ E.T - np.eye(n)).max()
        check(orth < 1e-8, lambda: f'{what}: eigenvectors not orthonormal, '
              f'deviation {orth:.2e}')
        res = np.abs(Dm @ E.T - E.T * lam).max() / scale
        check(res < 10 * tol, lambda: f'{what}: eigenvector residual '
              f'{res:.2e} (relative)')


def floor(m):
    """Magnitude of the terms summed into a mass-weighted dynamical matrix
    (rounding is relative to this, not to what is left after cancellation)"""
    return np.abs(m.fc).max() / m.mass.min() + 1e-9


# ------------------------------------------------------------- symmetry
def point_group(cell, tol=1e-6):
    """Integer matrices W (acting on fractional column vectors) that leave
    the lattice unchanged"""
    g = cell @ cell.T
    n2 = np.diag(g)
    # candidates: lattice vectors as long as each cell vector
    lim = np.ceil(np.sqrt(n2.max()) * np.linalg.norm(
        np.linalg.inv(cell), axis=0) + 1e-6).astype(int)
    pts = np.array(list(itertools.product(
        *[range(-k, k + 1) for k in lim])))
    l2 = np.einsum('ij,jk,ik->i', pts, g, pts)
    scale = n2.max()
    cand = [pts[np.abs(l2 - n2[i]) < tol * scale] for i in range(3)]
    out = []
    for a in cand[0]:
        for b in cand[1]:
            if abs(a @ g @ b - g[0, 1]) > tol * scale:
                continue
            for c in cand[2]:
                if abs(a @ g @ c - g[0, 2]) > tol * scale or \
                        abs(b @ g @ c - g[1, 2]) > tol * scale:
                    continue
                w = np.array([a, b, c]).T
                if abs(abs(round(np.linalg.det(w))) - 1) < 1e-9:
                    out.append(w)
    return np.array(out)


def symmetry_ops(cell, atom_r, atom_type, tol=1e-5):
    """All (W, w, permutation): atom i moves to atom permutation[i] under
    r -> W r + w (fractional).  tol in the unit of cell"""
    atom_r = np.asarray(atom_r, float)
    atom_type = np.asarray(atom_type)
    kinds, counts = np.unique(atom_type, return_counts=True)
    rare = np.where(atom_type == kinds[np.argmin(counts)])[0]
    sh = np.array(list(itertools.product((-1, 0, 1), repeat=3)))
    ops = []
    for w in point_group(cell):
        r = atom_r @ w.T
        for j in rare:
            tr = atom_r[j] - r[rare[0]]
            tr = tr - np.floor(tr + 1e-9)
            d = (r + tr)[:, None] - atom_r[None]
            d = d - np.rint(d)
            dist = np.linalg.norm((d[:, :, None] + sh) @ cell,
                                  axis=-1).min(-1)
            ok = (dist < tol) & (atom_type[:, None] == atom_type[None])
            if ok.any(1).all():
                p = ok.argmax(1)
                if len(set(p)) == len(p):
                    ops.append((w, tr, p))
    return ops


def cartesian_rotation(cell, w):
    """orthogonal matrix acting on Cartesian column vectors"""
    return cell.T @ w @ np.linalg.inv(cell.T)
