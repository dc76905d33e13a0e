"""Writers of CASTEP-format files.  Every function returns the text/bytes and
the numbers a reader has to find in them (parsed back from what was printed,
never through euphonic)."""
import struct

import numpy as np


def num(s):
    return float(s)


def header(kind, cell, atoms, n_branches, count, n_species=None):
    """`atoms`: list of (r, symbol, mass).  -> lines, dict"""
    L = [' BEGIN header']
    if kind == 'phonon':
        L += [f' Number of ions     {len(atoms):10d}',
              f' Number of branches {n_branches:10d}',
              f' Number of wavevectors {count:7d}',
              ' Frequencies in         cm-1',
              ' IR intensities in      (D/A)**2/amu',
              ' Raman activities in    A**4 amu**(-1)']
    else:
        L += [f'  Number of ions     {len(atoms):10d}',
              f'  Number of species  {n_species:10d}',
              f'  Number of branches {n_branches:10d}',
              f'  Number of bins in DOS {count:9d}']
    L.append(' Unit cell vectors (A)')
    cl = [''.join(f'{x:12.6f}' for x in v) for v in cell]
    L += cl
    L.append(' Fractional Co-ordinates')
    exp = dict(cell=np.array([[num(x) for x in s.split()] for s in cl]),
               r=[], types=[], mass=[])
    for i, (r, sym, mass) in enumerate(atoms):
        rs = ''.join(f'{x:12.6f}' for x in r)
        ms = f'{mass:14.6f}'
        L.append(f'{i + 1:6d} {rs}   {sym:2s} {ms}')
        exp['r'].append([num(x) for x in rs.split()])
        exp['types'].append(sym)
        exp['mass'].append(num(ms))
    L.append(' END header')
    exp['r'] = np.array(exp['r']).reshape(-1, 3)
    exp['mass'] = np.array(exp['mass'])
    return L, exp


def qline(idx, q, w, direction=None):
    s = f'     q-pt={idx:5d}  ' + ''.join(f'{x:11.6f}' for x in q) \
        + f'{w:18.10f}'
    if direction is not None:
        s += '   ' + ''.join(f'{x:10.6f}' for x in direction)
    return s, [num(f'{x:.6f}') for x in q], num(f'{w:.10f}')


def phonon(cell, atoms, blocks, n_qpts, extra=0):
    """`blocks`: list of dict(idx, q, w, direction, freq (cm-1), evec,
    [intensities])"""
    n, nb = len(atoms), 3 * len(atoms)
    L, exp = header('phonon', cell, atoms, nb, n_qpts)
    out = dict(q=[], w=[], f=[], e=[], idx=[], split=[])
    for b in blocks:
        s, q, w = qline(b['idx'], b['q'], b['w'], b['direction'])
        L.append(s)
        out['q'].append(q)
        out['w'].append(w)
        out['idx'].append(b['idx'])
        out['split'].append(b['direction'] is not None)
        fr = []
        for k, f in enumerate(b['freq']):
            fs = f'{f:15.6f}'
            fr.append(num(fs))
            tail = ''.join(f'{abs(f) * .013 * (j + 1):18.7f}'
                           for j in range(b.get('extra', extra)))
            L.append(f'{k + 1:8d} {fs}{tail:>26s}')
        out['f'].append(fr)
        L.append('                        Phonon Eigenvectors')
        L.append('Mode Ion                X                           '
                 '        Y                                   Z')
        ev = np.zeros((nb, n, 3), complex)
        for k in range(nb):
            for a in range(n):
                ss = []
                for x in range(3):
                    re, im = (f'{b["evec"][k, a, x].real:16.12f}',
                              f'{b["evec"][k, a, x].imag:16.12f}')
                    ss.append(re + ' ' + im)
                    ev[k, a, x] = num(re) + 1j * num(im)
                L.append(f'{k + 1:5d}{a + 1:5d}' + '    '.join(ss))
        out['e'].append(ev)
    out = {k: np.array(v) for k, v in out.items()}
    return '\n'.join(L) + '\n', dict(exp, **out)


def phonon_dos(cell, atoms, blocks, freq, total, partial):
    """`partial`: list of (symbol, values) in species order"""
    nb = 3 * len(atoms)
    L, exp = header('dos', cell, atoms, nb, len(freq), len(partial))
    L.append(' BEGIN GRADIENTS   n   f   |Grad_q f|')
    out = dict(q=[], w=[], f=[], g=[])
    for b in blocks:
        s, q, w = qline(b['idx'], b['q'], b['w'])
        L.append(s)
        out['q'].append(q)
        out['w'].append(w)
        fr, gr = [], []
        for k, (f, g) in enumerate(zip(b['freq'], b['grad'])):
            fs, gs = f'{f:15.6f}', f'{g:24.7f}'
            fr.append(num(fs))
            gr.append(num(gs))
            L.append(f'{k + 1:8d} {fs}{gs}' + ' ' * 34)
        out['f'].append(fr)
        out['g'].append(gr)
    L.append(' END GRADIENTS')
    L.append(' BEGIN DOS   Freq (cm-1)  g(f)   '
             + ''.join(f'{s:10s}' for s, _ in partial))
    bins, rows = [], []
    for i, x in enumerate(freq):
        cols = [f'{x:20.10f}'] + [f'{v:14.8f}' for v in
                                  [total[i]] + [p[i] for _, p in partial]]
        L.append(' '.join(cols))
        rows.append([num(c) for c in cols])
    L.append('  END DOS')
    rows = np.array(rows)
    out = {k: np.array(v) for k, v in out.items()}
    out.update(bins=rows[:, 0], total=rows[:, 1],
               partial={s: rows[:, 2 + i]
                        for i, (s, _) in enumerate(partial)},
               order=[s for s, _ in partial])
    return '\n'.join(L) + '\n', dict(exp, **out)


# ------------------------------------------------------------------- binary

class Records:
    def __init__(self):
        self.b = []
        self.names = []

    def raw(self, data, name=''):
        m = struct.pack('>i', len(data))
        self.b.append(m + data + m)
        self.names.append(name)

    def text(self, s, width=0):
        self.raw(s.encode().ljust(width), s)

    def ints(self, x):
        self.raw(np.asarray(x).astype('>i4').tobytes())

    def floats(self, x):
        self.raw(np.asarray(x, float).astype('>f8').tobytes())

    def bytes(self):
        return b''.join(self.b)


def cell_block(R, m, extra):
    """`m`: dict(cell (rows a, b, c, bohr), species [(symbol, mass_me,
    positions)])"""
    R.text('BEGIN_UNIT_CELL', 256)
    ns = [len(p) for _, _, p in m['species']]
    pos = np.zeros((len(ns), max(ns), 3))
    for i, (_, _, p) in enumerate(m['species']):
        pos[i, :len(p)] = p

    def rec(name, kind, val):
        R.text(name, 256)
        getattr(R, kind)(val)
    rec('CELL%REAL_LATTICE', 'floats', m['cell'].T)
    if extra:
        rec('CELL%RECIP_LATTICE', 'floats',
            2 * np.pi * np.linalg.inv(m['cell']))
        rec('CELL%VOLUME', 'floats', [abs(np.linalg.det(m['cell']))])
    rec('CELL%NUM_SPECIES', 'ints', [len(ns)])
    rec('CELL%NUM_IONS', 'ints', [sum(ns)])
    rec('CELL%MAX_IONS_IN_SPECIES', 'ints', [max(ns)])
    rec('CELL_VERSION_NUMBER', 'floats', [1.2])
    rec('CELL%NUM_IONS_IN_SPECIES', 'ints', ns)
    rec('CELL%IONIC_POSITIONS', 'floats', pos)
    if extra:
        rec('CELL%IONIC_VELOCITIES', 'floats', np.zeros_like(pos))
    rec('CELL%SPECIES_MASS', 'floats', [x for _, x, _ in m['species']])
    R.text('CELL%SPECIES_SYMBOL', 256)
    R.raw(b''.join(s.encode().ljust(8) for s, _, _ in m['species']))
    if extra:
        rec('CELL%NUM_SYMMETRY_OPERATIONS', 'ints', [1])
    R.text('END_UNIT_CELL', 256)


def castep_bin(m, fc=None, sc=None, origins=None, born=None, eps=None,
               version='19.100', second=None, extra=True, parameters=True,
               born_first=False, row=0):
    """`fc`: (n_cells, 3n, 3n) hartree/bohr^2 in Euphonic order"""
    R = Records()
    if parameters:
        R.text('BEGIN_PARAMETERS_DUMP', 30)
        R.text(version, 10)
        if extra:
            R.text('SOME%PARAMETER', 30)
            R.ints([3])
        R.text('END_PARAMETERS_DUMP', 30)
    cell_block(R, m, extra)
    cell_block(R, second or m, extra)
    if extra:
        R.text('E_FERMI   ', 10)
        R.floats([.3])

    def dip():
        if born is not None:
            R.text('BORN_CHGS ', 10)
            R.floats(born)
        if eps is not None:
            R.text('DIELECTRIC', 10)
            R.floats(np.asarray(eps).T)
    if born_first:
        dip()
    if fc is not None:
        R.text('FORCE_CON ', 10)
        R.ints(np.asarray(sc).T)
        R.floats(np.transpose(fc, (0, 2, 1)))
        R.ints(origins)
        R.ints([row])
    if not born_first:
        dip()
    R.text('END       ', 10)
    return R
