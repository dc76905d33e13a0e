"""Writes docs/4-seeded.md from seeded/*/meta.json (run before
gen_design.py)"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]
# changes which an earlier version of the check missed, and what was added
MISSED = {
    'random-sphere-tiled': 'random points and displacements are all '
                           'different and uncorrelated',
    'ewald-shells-max': 'sub-check `long`: flat and long cells',
    'imap-dw-spacing-unit': 'grid spacings in any unit for the Debye-Waller grid of the map',
    'plot-break-tol': 'spectra on axes of any magnitude and offset',
    'refdata-shadow': 'sub-check `run_user` from a folder with files called '
                      'like the collections',
}
out = ['## Planted bugs', '',
       'Each is kept in `seeded/<id>/` with its patch and a demonstration, '
       'and was confirmed in a copy of the repository: it builds, all stable '
       'tests pass, the demonstration fails only with the patch.  The check '
       'named finds it at quick tier with seed 1 (exit 1 and the VIOLATION '
       'line of that property).', '']
for d in sorted((ROOT / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    s = (f'* `{d.name}` ({m["property"]}): {m["what_it_breaks"]}; needs '
         f'{m["needs"]}.')
    if d.name in MISSED:
        s += f' Missed at first; added: {MISSED[d.name]}.'
    out.append(s)
(ROOT / 'docs/4-seeded.md').write_text('\n'.join(out) + '\n')
