import argparse
import os
import pathlib
import sys
import warnings

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.path = [p for p in sys.path if pathlib.Path(p or '.').resolve()
            != ROOT / 'harness']
warnings.simplefilter('ignore')


def cli():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    from harness import bootstrap, core
    bootstrap.ensure_hypothesis()
    bootstrap.load_euphonic()
    if a.replay:
        return core.replay(a.property, a.replay)
    return core.main(a.property, a.tier, a.seed, a.workers, a.only, a.budget,
                     a.scale)


if __name__ == '__main__':
    rc = cli()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
