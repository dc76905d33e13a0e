"""Writes DESIGN.md: docs/1-intro.md, one section per property (from
properties.jsonl and the check modules), then the other files of docs/."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.path.append(str(ROOT / '.deps'))
ORACLE = json.loads((ROOT / 'docs' / 'oracles.json').read_text())
out = [(ROOT / 'docs/1-intro.md').read_text().rstrip(),
       '\n## The properties and how each is decided\n\n'
       'Statements are in `properties.jsonl`.  *Generated* gives the cases '
       'and the rule of non-triviality, *oracle* what decides, *bounds* what '
       'is outside the domain.  Case counts are those of one quick run; a '
       'thorough run makes about twelve times as many.\n']
for line in (ROOT / 'properties.jsonl').open():
    p = json.loads(line)
    pid = p['id']
    m = importlib.import_module(f'checks.{pid.lower()}')
    subs = ', '.join(f'{s.name} ({s.quick})' for s in m.SUBS)
    o = ORACLE.get(pid, {})
    rule = ' '.join(m.RULE.split())
    bounds = '; '.join(getattr(m, 'ASSUMPTIONS', None) or ['none'])
    out.append(
        f'### {pid} {p["title"]}\n\n'
        f'* Sub-checks (quick cases each): {subs}\n'
        f'* Generated: {rule}\n'
        f'* Oracle: {o.get("oracle", "")}\n'
        f'* Bounds: {bounds}\n'
        f'* Beyond the tests: {p["why_tests_cant"]} '
        f'{o.get("reach", "")}'.rstrip() + '\n')
for f in sorted((ROOT / 'docs').glob('[2-9]-*.md')):
    out.append(f.read_text().rstrip() + '\n')
(ROOT / 'DESIGN.md').write_text('\n'.join(out))
