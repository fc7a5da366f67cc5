"""Runner shared by every check: generated cases, sharding, shrinking, replay files, evidence.

A property module exposes PROPERTY (id), RULE (text: what makes a case non-trivial), SUBS (list of Sub).
A Sub is one executable oracle over generated cases: `strategy` produces a JSON-able case and
`run(case)` exercises the real code and raises Violation, or returns Info(nontrivial, labels).
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, given, settings
from hypothesis.internal.conjecture.engine import ConjectureRunner

from .sut import CaseTimeout, HarnessError, Violation, begin_case, end_case

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VP_WORKERS', '8'))
SHRINK_S = float(os.environ.get('VP_SHRINK', '25'))
QUICK_SCALE = float(os.environ.get('VP_SCALE', '5'))
LINE_BUDGET = 20_000_000
VARY = ConjectureRunner.generate_mutations_from


class Info:
    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = nontrivial
        self.labels = tuple(labels)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, cpu_s=20):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.cpu_s = cpu_s


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """Run one case under a CPU budget. A budget hit is not a verdict: the case is then re-run counting
    executed lines, and only a case over the (deterministic) line budget counts as non-terminating."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu_s)
    try:
        begin_case(case)
        return sub.run(case)
    except CaseTimeout:
        pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        end_case()
    return _recount(sub, case)


def _recount(sub, case):
    left = [LINE_BUDGET]

    def tracer(frame, event, arg):
        if 'baumeva' not in frame.f_code.co_filename:
            return None

        def local(fr, ev, a):
            left[0] -= 1
            if left[0] < 0:
                raise Violation(f'no termination: more than {LINE_BUDGET} lines of the library executed in one case '
                                f'(at {fr.f_code.co_filename}:{fr.f_lineno})')
            return local
        return local

    signal.setitimer(signal.ITIMER_PROF, 300)
    try:
        begin_case(case)
        sys.settrace(tracer)
        return sub.run(case)
    except CaseTimeout:
        return Info(False, ['inconclusive_timeout'])
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_PROF, 0)
        end_case()


class _Fail(AssertionError):
    pass


def _hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def _task(arg):
    prop, sub_i, shard, n, seed = arg
    mod = _load(prop)
    sub = mod.SUBS[sub_i]
    res = {'sub': sub.name, 'shard': shard, 'evals': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'fail': None,
           'error': None, 'wall': 0.0}
    if _STOP is not None and _STOP.is_set():
        return res
    t0 = time.time()
    st = {'first': None, 'fail': None, 'stop': False, 'err': None}

    def body(case):
        if st['stop'] or (_STOP is not None and _STOP.is_set() and st['fail'] is None):
            return
        if st['first'] and time.time() - st['first'] > SHRINK_S:
            st['stop'] = True
            return
        res['evals'] += 1
        try:
            info = run_case(sub, case)
        except HarnessError:
            st['err'] = traceback.format_exc() + '\ncase: ' + json.dumps(case)
            st['stop'] = True
            raise
        except (Violation, Exception) as e:
            if isinstance(e, Violation):
                msg = e.message
            else:       # results of a shape no valid result has, which the oracle could not even read
                msg = ('what the library left behind cannot be examined: ' +
                       ' / '.join(x.strip() for x in traceback.format_exception(e)[-3:]))
            if st['first'] is None:
                st['first'] = time.time()
            size = len(json.dumps(case))
            if st['fail'] is None or size <= st['fail'][0]:
                st['fail'] = (size, case, msg)
            if msg.startswith('no termination'):
                st['stop'] = True
            raise _Fail(msg) from None
        info = info or Info()
        for lb in info.labels:
            res['labels'][lb] = res['labels'].get(lb, 0) + 1
        if info.nontrivial:
            res['nontrivial'].add(_hash(case))
            if len(res['samples']) < 2 and res['evals'] > 3:
                res['samples'].append(case)

    test = given(sub.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, verbosity=Verbosity.quiet,
                    phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                    report_multiple_bugs=False, print_blob=False)(test)
    test = hypothesis.seed(seed)(test)
    # variations of one case (Hypothesis repeats parts of it) find different things than independent cases: half of the
    # shards draw independent cases only, and so do all shards of few cases
    ConjectureRunner.generate_mutations_from = VARY if shard % 2 and n >= 30 else lambda self, data: None
    try:
        test()
    except BaseException as e:  # noqa: every outcome is already in st
        if isinstance(e, KeyboardInterrupt):
            raise
        if st['fail'] is None and st['err'] is None:
            st['err'] = traceback.format_exc()
    if st['fail'] is not None:
        res['fail'] = {'case': st['fail'][1], 'message': st['fail'][2]}
        if _STOP is not None:
            _STOP.set()
    elif st['err']:
        res['error'] = st['err']
    res['wall'] = time.time() - t0
    return res


_STOP = None


def _load(prop):
    import importlib
    return importlib.import_module('vlib.props.' + prop.lower())


def seed_of(base, *parts):
    h = hashlib.blake2b(repr((base,) + parts).encode(), digest_size=6).digest()
    return int.from_bytes(h, 'big')


def main(prop, tier):
    global _STOP
    t0 = time.time()
    base = int(os.environ.get('VERIF_SEED', '1') or '1')
    mod = _load(prop)
    tasks = []
    for i, sub in enumerate(mod.SUBS):
        total = int(sub.quick * QUICK_SCALE) if tier == 'quick' else sub.thorough
        shards = max(1, min(WORKERS if tier == 'quick' else WORKERS * 4, total // 2 or 1))
        per = -(-total // shards)
        for s in range(shards):
            tasks.append((prop, i, s, per, seed_of(base, prop, sub.name, s)))
    ctx = mp.get_context('fork')
    _STOP = ctx.Event()
    with ctx.Pool(min(WORKERS, len(tasks)), maxtasksperchild=None) as pool:
        results = pool.map(_task, tasks, chunksize=1)
    # aggregate
    evals = sum(r['evals'] for r in results)
    nontriv = set()
    labels, per_sub, samples = {}, {}, []
    for r in results:
        nontriv |= {r['sub'] + ':' + h for h in r['nontrivial']}
        d = per_sub.setdefault(r['sub'], {'evaluations': 0, 'nontrivial': 0, 'cpu_s': 0.0})
        d['evaluations'] += r['evals']
        d['nontrivial'] += len(r['nontrivial'])
        d['cpu_s'] = round(d['cpu_s'] + r['wall'], 2)
        for k, v in r['labels'].items():
            k = r['sub'] + '.' + k
            labels[k] = labels.get(k, 0) + v
    seen = {}
    for r in results:
        if seen.get(r['sub'], 0) < 1 and r['samples']:
            seen[r['sub']] = 1
            samples.append({'oracle': r['sub'], 'case': r['samples'][0]})
    fails = [r for r in results if r['fail']]
    errors = [r for r in results if r['error']]
    ev = {
        'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration',
        'coverage': {'evaluations': evals, 'distinct_nontrivial': len(nontriv), 'rule': mod.RULE, 'samples': samples,
                     'per_oracle': per_sub, 'classes': dict(sorted(labels.items()))},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len({r['sub'] for r in fails}),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if fails:
        r = fails[0]
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-{r["sub"]}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'oracle': r['sub'], 'message': r['fail']['message'],
                       'case': r['fail']['case']}, f, indent=1)
        print(f'{prop} {r["sub"]}: {r["fail"]["message"]}')
        print(f'minimal case: {json.dumps(r["fail"]["case"])[:2000]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        print(errors[0]['error'], file=sys.stderr)
        print(f'ERROR in the check {prop} ({errors[0]["sub"]}), no verdict', file=sys.stderr)
        return 3
    print(f'{prop} held: {evals} cases, {len(nontriv)} distinct non-trivial, {ev["wall_s"]} s')
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    mod = _load(rec['property'])
    sub = next(s for s in mod.SUBS if s.name == rec['oracle'])
    try:
        run_case(sub, rec['case'])
    except HarnessError:
        raise
    except (Violation, Exception) as v:
        print(getattr(v, 'message', repr(v)))
        print(f'VIOLATION property={rec["property"]} replay={os.path.abspath(path)}')
        return 1
    print(f'{rec["property"]} {rec["oracle"]}: the case passes')
    return 0
