"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.path.append(str(ROOT / '.deps'))
props = [json.loads(x) for x in (ROOT / 'properties.jsonl').open()]
checks, na = [], []
for p in props:
    pid = p['id']
    f = ROOT / 'checks' / f'{pid.lower()}.py'
    if not f.exists():
        na.append(dict(property=pid, reason='not built yet'))
        continue
    m = importlib.import_module(f'checks.{pid.lower()}')
    doc = m.__doc__.strip()
    checks.append(dict(
        property=pid,
        quick_cmd=f'./check.sh {pid} --tier quick',
        thorough_cmd=f'./check.sh {pid} --tier thorough',
        technique=getattr(m, 'TECHNIQUE', 'property-based testing against an '
                          'independent reference model'),
        level=getattr(m, 'LEVEL', 'exploration'),
        level_note=getattr(m, 'NOTE', m.RULE)[:1500]))
man = dict(version=1, setup_cmd='./setup.sh', checks=checks)
man['not_applicable'] = na
(ROOT / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')
(ROOT / 'MANIFEST.json').read_text()
print(len(checks), 'checks;', len(na), 'not applicable')
