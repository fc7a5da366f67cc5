"""C20: runs do not interfere: arguments are left alone, results stay as returned, reused and interleaved objects
behave like fresh ones."""
import copy
import random

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, no_inf, run_cfg, seeds
from ..sut import (Parts, Recorder, Run, baumeva, bga, call, collector, cond_list, fingerprint,
                   first_diff, frontend, mk_penalty, py_gens, require, run_any, seeded, silent,
                   static_tables)

PROPERTY = 'C20'
RULE = ('A case is one or several runs: arguments (genes, conditions, initial population, target, data, penalty tables) '
        'compared with deep copies taken before; the same object optimized again; components used for several problems '
        'in turn; two runs advanced in an interleaved schedule. Oracle: equality with the value before the run, or with '
        'the same run made alone with fresh objects and the same random numbers. Non-trivial: at least 2 generations.')
ASSUMPTIONS = ['single thread; the objective function itself keeps no state']


def freeze(x):
    """Deep, type-aware rendering."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(i) for i in x])
    if isinstance(x, dict):
        return ('dict', sorted((repr(k), freeze(v)) for k, v in x.items()))
    return repr(x)


def run_arguments(case):
    cfg = case['cfg']
    prob = cfg['prob']
    data_arg = {'a': [1, 2, [3]], 'b': (4, 5)} if case['data'] else None
    rec = Recorder(prob, with_data=bool(case['data']), expect_data=data_arg)
    gens = py_gens(prob['kind'], prob['gens'])
    if case['gens_list'] and prob['kind'] != 'order':
        gens = list(gens)
        if prob['kind'] in ('binary', 'gray'):
            gens = [list(g) for g in gens]
    conds = cond_list(prob)
    inp = copy.deepcopy(cfg.get('inp'))
    spec = prob.get('penalty')
    tables = static_tables(spec) if spec and spec['p'] == 'static' else None
    pen = bga.StaticPenalty(*tables) if tables else mk_penalty(spec)
    target = copy.deepcopy(cfg.get('target'))
    # the gene arguments may be used by several runs; so may the lists inside them
    before = [freeze(x) for x in (gens, conds, inp, target, data_arg)]
    pen_before = freeze(tables)
    ga = call('constructing ' + cfg['front'], frontend, cfg, rec, gens=gens, conditions=conds, input_population=inp,
              penalty=pen, obj_value=target)
    seeded(cfg['seed'])
    first = call('optimize', ga.optimize)
    names = ('gens', 'conditions', 'input_population', 'obj_value', 'input_data')

    def unchanged(what):
        for name, b, x in zip(names, before, (gens, conds, inp, target, data_arg)):
            require(freeze(x) == b, lambda: f'{what} changed the caller\'s {name}: {b} became {freeze(x)}')
        require(freeze(tables) == pen_before,
                lambda: f'{what} changed the penalty tables: {pen_before} -> {freeze(tables)}')
    unchanged('optimize()')
    fp = fingerprint(first)
    # damage to the result reaches neither the arguments nor a second run
    held = copy.deepcopy(first.best_solution)
    seeded(cfg['seed'], 11)
    second = call('second optimize', ga.optimize)
    unchanged('a second optimize()')
    require(second is not first, 'optimize() returned the same result object twice')
    require(fingerprint(first) == fp and repr(held) == repr(first.best_solution),
            lambda: f'a second optimize() changed the first result: {first_diff(fp, fingerprint(first))}')
    fp2 = fingerprint(second)
    require(fp2 == fp, lambda: f'optimize() again with the same seed gave another result: {first_diff(fp, fp2)}')
    for ind in list(first.population) + [first.best_solution] + list(first.best_solution.get('pareto_set', [])):
        g = ind.get('genotype')
        if isinstance(g, list):
            g[:] = [None] * len(g)
        ph = ind.get('phenotype')
        if isinstance(ph, list):
            ph[:] = [None] * len(ph)
    unchanged('editing the result')
    require(fingerprint(second) == fp2, 'the results of two runs share data')
    # another object built from the same arguments
    seeded(cfg['seed'], 3)
    ga3 = call('constructing ' + cfg['front'], frontend, cfg, rec, gens=gens, conditions=conds, input_population=inp,
               penalty=pen, obj_value=target)
    fp3 = fingerprint(call('optimize of another object', ga3.optimize))
    require(fp3 == fp, lambda: f'a second object built from the same arguments gave another result: '
                               f'{first_diff(fp, fp3)}')
    return Info(cfg['ngen'] >= 2, [cfg['front'], 'constrained' if conds else 'free', 'inp' if inp else 'noinp'])


def drive(run, ngen):
    run.start()
    for _ in range(1, ngen):
        run.step()
    return fingerprint(run.data)


def run_reuse(case):
    """The same component objects used for several problems in turn."""
    cfgs = case['cfgs']
    base = cfgs[0]
    shared = Parts(base, Recorder(base['prob']))
    for i, cfg in enumerate(cfgs):
        rec = Recorder(cfg['prob'])
        fresh = Parts(cfg, rec)
        seeded(cfg['seed'])
        solo = drive(Run(cfg, rec, fresh), cfg['ngen'])
        rec2 = Recorder(cfg['prob'])
        mixed = Parts(cfg, rec2)         # its own fitness, shared operators
        mixed.selection, mixed.crossover = shared.selection, shared.crossover
        mixed.mutation, mixed.new_generation = shared.mutation, shared.new_generation
        seeded(cfg['seed'], 17)
        again = drive(Run(cfg, rec2, mixed), cfg['ngen'])
        require(solo == again, lambda: f'problem {i}: operators used before on other problems behave differently from '
                                       f'fresh ones: {first_diff(solo, again)}')
        require(rec.calls == rec2.calls, 'the objective was called differently')
    return Info(len(cfgs) > 1, [base['sel'], base['cross'], base['mut']])


def run_refit(case):
    """The same fitness and penalty object used for several runs of one problem."""
    cfg = case['cfg']
    rec = Recorder(cfg['prob'])
    parts = Parts(cfg, rec)
    fps = []
    for s in case['seeds']:
        seeded(s)
        r1 = Recorder(cfg['prob'])
        solo = drive(Run(cfg, r1, Parts(cfg, r1)), cfg['ngen'])
        seeded(s, 5)
        again = drive(Run(cfg, rec, parts), cfg['ngen'])
        require(solo == again, lambda: f'a fitness/penalty object used before behaves differently from a fresh one: '
                                       f'{first_diff(solo, again)}')
        fps.append(solo)
    return Info(cfg['ngen'] >= 2, [cfg['fit'], (cfg['prob'].get('penalty') or {}).get('p', 'free')])


class Stepper:
    """A run one can advance operation by operation with its own stream of random numbers."""

    def __init__(self, cfg, seed, parts=None):
        self.cfg, self.seed = cfg, seed
        seeded(seed)
        self.run = Run(cfg, None, parts)
        self.state = random.getstate()
        self.ops = [self.run.evaluate, self.run.update]
        for _ in range(1, cfg['ngen']):
            self.ops += [self.run.select, self.run.cross, self.run.mutate, self.run.renew, self.run.evaluate,
                         self.run.update]
        self.i = 0

    def advance(self):
        baumeva.generator.rnd_seed = self.seed
        random.setstate(self.state)
        self.ops[self.i]()
        self.state = random.getstate()
        self.i += 1

    @property
    def done(self):
        return self.i == len(self.ops)


def run_interleave(case):
    solo = []
    for cfg, s in zip(case['cfgs'], case['seeds']):
        st_ = Stepper(cfg, s)
        while not st_.done:
            st_.advance()
        solo.append(fingerprint(st_.run.data))
    live = [Stepper(cfg, s) for cfg, s in zip(case['cfgs'], case['seeds'])]
    k = 0
    while any(not x.done for x in live):
        pick = case['sched'][k % len(case['sched'])] % len(live)
        k += 1
        while live[pick].done:
            pick = (pick + 1) % len(live)
        live[pick].advance()
    for i, x in enumerate(live):
        got = fingerprint(x.run.data)
        require(got == solo[i], lambda: f'run {i} interleaved with another one ended differently: '
                                        f'{first_diff(solo[i], got)}')
    return Info(all(c['ngen'] >= 2 for c in case['cfgs']), ['x'.join(c['fit'] for c in case['cfgs'])])


def run_nested(case):
    """A run made from inside the objective function of another one (tuning one optimizer with another)."""
    outer, inner = case['cfgs']
    s1, s2 = case['seeds']

    def inner_run():
        st_ = random.getstate()
        seeded(s2)
        fp = fingerprint(run_any(inner, Recorder(inner['prob'])))
        random.setstate(st_)
        baumeva.generator.rnd_seed = s1
        return fp
    seeded(s1)
    alone = fingerprint(run_any(outer, Recorder(outer['prob'])))
    inner_alone = inner_run()
    rec = Recorder(outer['prob'])
    count, orig = [0], rec.compute

    def compute(point):
        if count[0] in case['at']:
            fp = inner_run()
            require(fp == inner_alone, 'a run made during another run ended differently from the run alone')
        count[0] += 1
        return orig(point)
    rec.compute = compute
    seeded(s1)
    got = fingerprint(run_any(outer, rec))
    require(got == alone, lambda: f'a run was changed by another run made from its objective function: '
                                  f'{first_diff(alone, got)}')
    return Info(True, [outer['front'] + '/' + inner['front']])


def run_collector(case):
    """CollectorGA: set_population() again starts over; earlier results stay."""
    cfg = case['cfg']
    rec = Recorder(cfg['prob'])
    with silent():
        seeded(cfg['seed'])
        c = call('CollectorGA', collector, cfg, rec)
        call('optimize', c.optimize)
        first = c.ga_data
        fp = fingerprint(first)
        p = cfg['prob']
        from ..sut import POPS
        seeded(cfg['seed'], 4)
        call('set_population', c.set_population, population=POPS[p['kind']], num_individ=cfg['n'],
             num_generations=cfg['ngen'], gens=py_gens(p['kind'], p['gens']), input_population=cfg.get('inp'),
             children_percent=cfg['cp'], early_stop=cfg.get('early', 10))
        call('optimize', c.optimize)
        again = c.ga_data
        seeded(cfg['seed'], 9)
        other = call('CollectorGA', collector, cfg, Recorder(cfg['prob']))
        require(baumeva.CollectorGA.ga_data is None, 'a run changed the CollectorGA class itself')
        call('optimize', other.optimize)
    require(again is not first and fingerprint(first) == fp, 'a second run of a CollectorGA changed the first result')
    require(fingerprint(again) == fp, lambda: f'a CollectorGA set up again gave another result with the same seed: '
                                              f'{first_diff(fp, fingerprint(again))}')
    require(fingerprint(other.ga_data) == fp, 'a second CollectorGA gave another result with the same seed')
    return Info(cfg['ngen'] >= 2, [cfg['fit'], cfg['sel']])


class Lister(Recorder):
    """An objective that keeps the lists (or arrays) it returns, as a memoizing one does."""
    form = list

    def __call__(self, *args):
        v = super().__call__(*args)
        if not isinstance(v, (tuple, list)):
            return v
        key = tuple(self.calls[-1])
        if key not in self.kept:
            self.kept[key] = self.form(v)
        return self.kept[key]


def run_returned(case):
    """Lists returned by the objective stay the caller's."""
    cfg = case['cfg']
    seeded(cfg['seed'])
    plain = fingerprint(run_any(cfg, Recorder(cfg['prob'])))
    rec = Lister(cfg['prob'])
    rec.kept = {}
    if case['one'] and not cfg['prob'].get('conds') and not cfg['prob'].get('multi'):
        rec.compute = lambda point, f=rec.compute: [f(point)]
    seeded(cfg['seed'], 8)
    data = run_any(cfg, rec)
    got = fingerprint(data)
    require(got == plain, lambda: f'the objective returns lists it keeps: another result than with fresh tuples: '
                                  f'{first_diff(plain, got)}')
    for ind in list(data.population) + list((data.best_solution or {}).get('pareto_set', [])):
        for k in ('genotype', 'phenotype', 'score', 'obj_score'):
            if isinstance(ind.get(k), list):
                ind[k].append('edited')
    for key, v in rec.kept.items():
        want = rec.compute(list(key))
        require(repr(list(v)) == repr(list(want)), lambda: f'the list the objective returned for {key} was changed: '
                                                           f'{v!r}, it was {want!r}')
    return Info(bool(rec.kept), [cfg['front'], 'constrained' if cfg['prob'].get('conds') else 'free'])


class Fault(Exception):
    pass


def run_faults(case):
    """An exception of the objective reaches the caller, and nothing of the broken run reaches later ones."""
    cfg = case['cfg']
    exc = {'own': Fault('injected'), 'type': TypeError('injected'), 'index': IndexError('injected'),
           'value': ValueError('injected'), 'zero': ZeroDivisionError('injected'), 'attr': AttributeError('injected'),
           'key': KeyError('injected'), 'stop': StopIteration('injected')}[case['exc']]
    rec = Recorder(cfg['prob'])
    seeded(cfg['seed'])
    alone = fingerprint(call('optimize', call('constructing', frontend, cfg, rec).optimize))
    total = len(rec.calls)
    left = [None]

    def faulty(*a):
        if left[0] is not None:
            left[0] -= 1
            if left[0] < 0:
                raise exc
        return rec(*a)
    faulty.with_data, faulty.expect_data = False, None
    ga = call('constructing', frontend, cfg, faulty)
    for part in case['at']:
        left[0] = int(part * (total - 1))
        seeded(cfg['seed'], 3)
        try:
            with silent():
                ga.optimize()
        except Exception as e:
            require(e is exc or e.__cause__ is exc or e.__context__ is exc,
                    lambda: f'the objective raised {exc!r}, the caller got {e!r}')
        else:
            require(False, lambda: f'the objective raised {exc!r} at call {int(part * (total - 1))} and optimize() went on')
        left[0] = None
        seeded(cfg['seed'], 5)
        got = fingerprint(call('optimize after a failed run', ga.optimize))
        require(got == alone, lambda: f'after a run that failed in the objective, the same object gives another result: '
                                      f'{first_diff(alone, got)}')
    return Info(True, [cfg['front'], case['exc']])


@st.composite
def args_case(draw):
    return {'cfg': draw(front_cfg(n_hi=14, ngen_hi=7, ngen_lo=2)), 'data': draw(st.booleans()),
            'gens_list': draw(st.booleans())}


@st.composite
def reuse_case(draw):
    a = draw(run_cfg(n_hi=14, ngen_hi=5, ngen_lo=2)) if draw(st.integers(0, 2)) else \
        draw(run_cfg(kinds=('binary', 'gray'), multi=draw(st.sampled_from(['vega', 'ffga'])), n_hi=10, ngen_hi=4, ngen_lo=2))
    cfgs = [a]
    kind = a['prob']['kind']
    for _ in range(draw(st.integers(1, 2))):
        kk = ('binary', 'gray') if kind in ('binary', 'gray') else (kind,)
        multi = {'vega': 'vega', 'ffga': 'ffga'}.get(a['fit'], False)
        b = draw(run_cfg(kinds=kk, multi=multi, n_hi=14, ngen_hi=5, ngen_lo=2,
                         **({'max_objs': 2} if multi == 'vega' else {})))
        if multi == 'vega':
            m = len(a['prob']['objs'])
            b['prob']['objs'] = (b['prob']['objs'] * m)[:m]
            b['prob'].pop('conds', None)
            b['prob'].pop('penalty', None)
            b['target'] = None
            b['n'] = max(b['n'], m)
            b['cp'] = b['cp'] if int(b['cp'] * b['n'] / m) >= 1 else 1.0
            b.pop('inp', None)
        for k in ('sel', 'cross', 'mut', 'mlvl', 'transfer', 'tsize'):
            b[k] = a[k]
        b['n'] = max(b['n'], a['tsize'] + 1)
        cfgs.append(no_inf(b))
    return {'cfgs': cfgs}


def any_run(**k):
    return st.one_of(run_cfg(**k), run_cfg(**k), run_cfg(kinds=('binary', 'gray'), multi='vega', **k),
                     run_cfg(kinds=('binary', 'gray'), multi='ffga', **k))


SUBS = [
    Sub('arguments', args_case(), run_arguments, 400),
    Sub('reuse', reuse_case(), run_reuse, 400),
    Sub('refit', st.fixed_dictionaries({'cfg': any_run(n_hi=10, ngen_hi=5, ngen_lo=2),
                                        'seeds': st.lists(seeds, min_size=2, max_size=3)}), run_refit, 300),
    Sub('interleaved', st.fixed_dictionaries({
        'cfgs': st.lists(any_run(n_hi=10, ngen_hi=5, ngen_lo=2), min_size=2, max_size=3),
        'seeds': st.lists(seeds, min_size=3, max_size=3),
        'sched': st.lists(st.integers(0, 2), min_size=1, max_size=12)}), run_interleave, 300),
    Sub('nested', st.fixed_dictionaries({
        'cfgs': st.lists(front_cfg(n_hi=8, ngen_hi=4, ngen_lo=2), min_size=2, max_size=2),
        'seeds': st.lists(seeds, min_size=2, max_size=2), 'at': st.lists(st.integers(0, 30), min_size=1, max_size=3)}),
        run_nested, 200),
    Sub('returned', st.fixed_dictionaries({'cfg': front_cfg(collector=True, n_hi=10, ngen_hi=5, ngen_lo=2), 'one': st.booleans()}),
        run_returned, 300),
    Sub('faults', st.fixed_dictionaries({'cfg': front_cfg(n_hi=10, ngen_hi=5, ngen_lo=2),
                                         'exc': st.sampled_from(['own', 'type', 'index', 'value', 'zero', 'attr', 'key', 'stop']),
                                         'at': st.lists(st.floats(0, 1), min_size=1, max_size=2)}), run_faults, 300),
    Sub('collector', st.fixed_dictionaries({'cfg': any_run(n_hi=12, ngen_hi=6, ngen_lo=2)}), run_collector, 250),
]
