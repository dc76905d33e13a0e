"""Driver: runs the sub-checks of one property with hypothesis in several
worker processes, shrinks failures, writes evidence and replay files."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import queue
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = pathlib.Path(__file__).resolve().parent.parent


class Violation(AssertionError):
    """The property is broken.  `key` identifies the failing input class /
    call site and is what known_findings.txt refers to."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """Case outside the domain of the property (counted as trivial)."""


class Sub:
    """One executable statement: strategy -> case (JSON-able dict), run(case, t)."""
    def __init__(self, name, strategy, run, quick, thorough=None, corpus=()):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 12
        self.corpus = list(corpus)


class Tally:
    """Handed to run(): classification of the case."""
    def __init__(self):
        self.tags = []
        self.nontrivial = False

    def tag(self, *names):
        self.tags.extend(str(n) for n in names)

    def hit(self, cond=True):
        """Declare the case non-trivial (by the rule of the check)."""
        if cond:
            self.nontrivial = True


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def close(a, b, rtol=1e-9, atol=0.0, what='', key=None):
    """assert_allclose with Violation (NaN equal NaN)"""
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f'{what}: shape {a.shape} != {b.shape}', key)
    with np.errstate(invalid='ignore'):
        bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    bad &= ~((a == b) | (np.isnan(a) & np.isnan(b)))
    if np.any(bad):
        i = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
        worst = np.nanmax(np.abs(a - b)) if a.size else 0
        raise Violation(
            f'{what}: {int(bad.sum())}/{bad.size} values differ, first at '
            f'{tuple(int(j) for j in i)}: got {a[i]!r} expected {b[i]!r}; '
            f'max abs diff {worst!r} (rtol={rtol}, atol={atol})', key)


def raises(exc, fn, what=''):
    """fn() must raise one of exc"""
    try:
        r = fn()
    except exc as e:
        return e
    except Exception as e:
        raise Violation(f'{what}: expected {exc}, got {type(e).__name__}: {e}')
    raise Violation(f'{what}: expected {exc}, but returned {type(r).__name__}')


def _seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8],
                          'big') >> 1


def load_known():
    known = {}
    path = VERIF / 'known_findings.txt'
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith('known: '):
                f = dict(w.split('=', 1) for w in line[7:].split()[:2])
                known[(f['property'], f['key'])] = line.split(None, 3)[3]
    return known


class _SubStats:
    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.tags = Counter()
        self.samples = []
        self.known = Counter()
        self.skipped = 0


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in reversed(tb):
        if '/harness/core.py' not in fr.filename:
            where = f'{pathlib.Path(fr.filename).name}:{fr.lineno} in {fr.name}'
            break
    if isinstance(e, Violation):
        return str(e)
    return f'unexpected {type(e).__name__}: {e} [{where}]'


def run_case(sub, case, stats, known, prop):
    """-> None if the property held, else description"""
    t = Tally()
    if stats is not None:
        stats.evals += 1
    try:
        sub.run(case, t)
    except Skip as e:
        if stats is not None:
            stats.skipped += 1
            stats.tags[f'outside domain: {e}'] += 1
        return None
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        key = getattr(e, 'key', None)
        if key is not None and (prop, key) in known:
            if stats is not None:
                stats.known[key] += 1
            return None
        return describe(e)
    if stats is not None:
        for tag in set(t.tags):
            stats.tags[tag] += 1
        if t.nontrivial:
            blob = json.dumps(jsonable(case), sort_keys=True)
            hh = hashlib.md5(blob.encode()).digest()[:10]
            if hh not in stats.nontrivial:
                stats.nontrivial.add(hh)
                if len(stats.samples) < 3 and len(blob) < 1500:
                    stats.samples.append(jsonable(case))
    return None


class _Fail(Exception):
    pass


def _worker(modname, prop, tier, seed, w, nw, budget, only, q, curfile):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    import numpy as np
    try:
        mod = importlib.import_module(modname)
        known = load_known()
        subs = [s for s in mod.SUBS if not only or s.name in only]
        total_weight = sum(getattr(s, tier) for s in subs)
        t_start = time.time()
        for k, sub in enumerate(subs):
            # rotate so that workers are in different sub-checks
            sub = subs[(k + w) % len(subs)]
            stats = _SubStats()
            n = getattr(sub, tier)
            n = n // nw + (1 if w < n % nw else 0)
            remaining = budget - (time.time() - t_start)
            sub_deadline = time.time() + max(
                remaining / (len(subs) - k) * 1.5, 2.0)
            state = dict(best=None, msg=None, t_fail=None)

            def body(case):
                now = time.time()
                if state['t_fail'] is None:
                    if now > sub_deadline and stats.evals > 2:
                        return
                elif now - state['t_fail'] > shrink_s:
                    return
                curfile.seek(0)
                curfile.truncate()
                curfile.write(json.dumps(
                    dict(sub=sub.name, case=jsonable(case), t=now)))
                curfile.flush()
                np.random.seed(_seed(seed, 'np', sub.name) % 2**32)
                msg = run_case(sub, case,
                               stats if state['t_fail'] is None else None,
                               known, prop)
                if msg is not None:
                    if state['t_fail'] is None:
                        state['t_fail'] = time.time()
                    state['best'], state['msg'] = jsonable(case), msg
                    raise _Fail(msg)

            shrink_s = float(os.environ.get(
                'VERIF_SHRINK_S', 25 if tier == 'quick' else 90))
            try:
                if w == 0 or sub.corpus and nw == 1:
                    for case in sub.corpus:
                        body(case)
                if n > 0:
                    test = given(sub.strategy)(body)
                    test = settings(
                        max_examples=n, deadline=None, database=None,
                        derandomize=False, print_blob=False,
                        report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink),
                    )(test)
                    test = hseed(_seed(seed, prop, sub.name, w))(test)
                    test()
            except BaseException as e:
                if state['best'] is None:
                    if isinstance(e, Exception) and 'Unsatisfiable' in \
                            type(e).__name__:
                        pass
                    else:
                        q.put(('error', w, sub.name,
                               ''.join(traceback.format_exception(e))))
                        return
            q.put(('stats', w, sub.name, stats, budget and
                   time.time() > sub_deadline))
            if state['best'] is not None:
                q.put(('violation', w, sub.name, state['best'], state['msg']))
        q.put(('done', w))
    except BaseException as e:
        q.put(('error', w, '?', ''.join(traceback.format_exception(e))))


def write_replay(prop, sub, case, msg, seed, tier):
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    blob = json.dumps(dict(property=prop, sub=sub, case=case, message=msg,
                           seed=seed, tier=tier), indent=1)
    name = f'{prop}-{sub}-{hashlib.md5(blob.encode()).hexdigest()[:8]}.json'
    (d / name).write_text(blob)
    return d / name


def replay(prop, path):
    mod = importlib.import_module(f'checks.{prop.lower()}')
    r = json.loads(pathlib.Path(path).read_text())
    sub = [s for s in mod.SUBS if s.name == r['sub']][0]
    msg = run_case(sub, r['case'], _SubStats(), load_known(), prop)
    if msg is None:
        print(f'{prop}/{sub.name}: property holds on this case')
        return 0
    print(f'{prop}/{sub.name}: {msg}')
    print(f'VIOLATION property={prop} replay={path}')
    return 1


def main(prop, tier, seed, workers=None, only=None, budget=None, scale=1.0):
    t0 = time.time()
    modname = f'checks.{prop.lower()}'
    mod = importlib.import_module(modname)
    if workers is None:
        try:
            ncpu = len(os.sched_getaffinity(0))
        except AttributeError:
            ncpu = os.cpu_count() or 1
        workers = max(1, min(8, ncpu))
    workers = min(workers, getattr(mod, 'MAX_WORKERS', 8))
    if scale != 1.0:
        for s in mod.SUBS:
            s.quick = max(1, int(s.quick * scale))
            s.thorough = max(1, int(s.thorough * scale))
    if budget is None:
        budget = (getattr(mod, 'QUICK_S', 100) if tier == 'quick'
                  else getattr(mod, 'THOROUGH_S', 900))
    hang_s = getattr(mod, 'HANG_S', 240)
    known = load_known()

    # Known findings must still fail, otherwise they are not reported
    for (kprop, key), what in known.items():
        if kprop != prop:
            continue
        repro = getattr(mod, 'KNOWN', {}).get(key)
        if repro is not None and repro():
            print(f'KNOWN-FINDING: property={prop} {what}')

    ctx = mp.get_context('fork')
    q = ctx.Queue()
    rundir = VERIF / '.cache'
    rundir.mkdir(exist_ok=True)
    procs, files = [], []
    import tempfile
    for w in range(workers):
        f = tempfile.TemporaryFile('w+', dir=rundir)
        files.append(f)
        p = ctx.Process(target=_worker, daemon=False, args=(
            modname, prop, tier, seed, w, workers, budget, only, q, f))
        p.start()
        procs.append(p)

    stats, violations, errors = {}, [], []
    capped = set()
    alive = set(range(workers))
    dead_since = {}
    hard = budget * 2 + 200
    while alive:
        try:
            m = q.get(timeout=0.5)
        except queue.Empty:
            m = None
        if m is not None:
            if m[0] == 'stats':
                _, w, name, s, cap = m
                if cap:
                    capped.add(name)
                a = stats.setdefault(name, _SubStats())
                a.evals += s.evals
                a.skipped += s.skipped
                a.nontrivial |= s.nontrivial
                a.tags += s.tags
                a.known += s.known
                a.samples += s.samples
            elif m[0] == 'violation':
                violations.append(m[2:])
            elif m[0] == 'error':
                errors.append(m[2:])
                alive.discard(m[1])
            elif m[0] == 'done':
                alive.discard(m[1])
            continue
        for w in list(alive):
            p = procs[w]

            def current():
                files[w].seek(0)
                try:
                    return json.loads(files[w].read())
                except ValueError:
                    return None
            if not p.is_alive():
                dead_since.setdefault(w, time.time())
                if time.time() - dead_since[w] > 2:  # queue drained
                    cur = current()
                    alive.discard(w)
                    if cur and p.exitcode is not None and p.exitcode < 0 \
                            and p.exitcode != -signal.SIGKILL:
                        violations.append((
                            cur['sub'], cur['case'],
                            f'the process died with signal {-p.exitcode}'))
                    else:
                        errors.append(('?', f'worker {w} ended with '
                                       f'{p.exitcode}'))
            else:
                cur = current()
                if cur and time.time() - cur['t'] > hang_s and \
                        time.time() - t0 < hard:
                    violations.append((cur['sub'], cur['case'],
                                       f'no answer within {hang_s} s'))
                    p.kill()
                    alive.discard(w)
        if violations and not errors:
            # one is enough; give the others a moment to shrink theirs
            if time.time() - t0 > 30 or len(violations) > 2 or \
                    'VERIF_SHRINK_S' in os.environ:
                break
        if time.time() - t0 > hard:
            errors.append(('?', f'wall clock limit {hard} s'))
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()

    evals = sum(s.evals for s in stats.values())
    nontriv = sum(len(s.nontrivial) for s in stats.values())
    samples = []
    for name, s in stats.items():
        for c in s.samples[:2]:
            samples.append(dict(sub=name, case=c))
    ev = dict(
        property=prop, tier=tier, seed=seed,
        level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=evals, distinct_nontrivial=nontriv,
            rule=mod.RULE, samples=samples[:24],
            sub_checks={n: dict(evaluations=s.evals,
                                distinct_nontrivial=len(s.nontrivial),
                                outside_domain=s.skipped,
                                stopped_by_time=n in capped,
                                known_finding_hits=dict(s.known),
                                classes=dict(s.tags.most_common(40)))
                        for n, s in sorted(stats.items())},
            workers=workers),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        violations=len(violations),
        wall_s=round(time.time() - t0, 2))
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1))

    if violations:
        violations.sort(key=lambda v: len(json.dumps(v[1])))
        seen = set()
        for sub, case, msg in violations:
            if sub in seen:
                continue
            seen.add(sub)
            path = write_replay(prop, sub, case, msg, seed, tier)
            print(f'{prop}/{sub}: {msg}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for name, e in errors[:1]:
            e = e if len(e) < 4000 else e[:1000] + ' ... ' + e[-3000:]
            print(f'harness error in {prop}/{name}:\n{e}', file=sys.stderr)
        return 2
    print(f'{prop} held: {evals} cases, {nontriv} distinct non-trivial, '
          f'{ev["wall_s"]} s')
    return 0
