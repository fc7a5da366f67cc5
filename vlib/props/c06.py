"""C06: the recorded history says what happened, one entry per generation, and is never rewritten."""
import copy
import math
import random

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..sut import Recorder, Run, bga, call, content, observe, require, synth

PROPERTY = 'C06'
RULE = ('A case is a run of any algorithm, or a sequence of generations with arbitrary scores recorded one after the '
        'other. Oracle: statistics recomputed from snapshots of every generation taken as it was recorded; earlier '
        'entries compared with their value at recording time. Non-trivial: at least 2 recorded generations.')
MULTI_KEYS = ('genotype', 'phenotype', 'obj_score', 'feasible', 'rank')


def check_single(pops, hist_best, hist_mid, hist_worst, what):
    g = len(pops)
    require(len(hist_best) == len(hist_mid) == len(hist_worst) == g,
            lambda: f'{what}: {len(hist_best)}/{len(hist_mid)}/{len(hist_worst)} entries after {g} generations')
    for t, pop in enumerate(pops):
        s = sorted(i['score'] for i in pop)
        require(hist_best[t] == s[-1], lambda: f'{what}: historical_best[{t}] = {hist_best[t]!r}, best score {s[-1]!r}')
        require(hist_worst[t] == s[0], lambda: f'{what}: historical_worst[{t}] = {hist_worst[t]!r}, worst {s[0]!r}')
        mid = s[len(s) // 2]
        require(hist_mid[t] == mid,
                lambda: f'{what}: historical_mediocre[{t}] = {hist_mid[t]!r}, the middle individual of {len(s)} has '
                        f'{mid!r}')


def check_avg(data, what):
    """The mean score of the current generation (one number per individual: not defined for VEGA's score lists)."""
    s = [i['score'] for i in data.population]
    if any(isinstance(x, (list, tuple)) or not math.isfinite(x) for x in s):
        return
    avg = call('get_avg_score', data.get_avg_score)
    want = math.fsum(s) / len(s)
    require(abs(avg - want) <= 1e-9 * (1e-300 + sum(abs(x) for x in s)),
            lambda: f'{what}: average score {avg!r}, the mean of {s} is {want!r}')


def check_counters(pops, idx, no_improve, best, what):
    g = len(pops)
    require(idx == g, lambda: f'{what}: idx_generation = {idx} after {g} recorded generations')
    scores = [max(i['score'] for i in p) for p in pops]
    first = scores.index(max(scores))
    require(no_improve == g - 1 - first,
            lambda: f'{what}: num_generation_no_improve = {no_improve}, the best was last improved {g - 1 - first} '
                    f'generations ago (best scores {scores})')


def front_of(pop):
    return [i for i in pop if i['rank'] == 1]


def bag(inds):
    return sorted(content(i, MULTI_KEYS) for i in inds)


def check_multi(pops, hist_best, best, idx, no_improve, what):
    g = len(pops)
    require(len(hist_best) == g, lambda: f'{what}: {len(hist_best)} history entries after {g} generations')
    require(idx == g, lambda: f'{what}: idx_generation = {idx} after {g} recorded generations')
    for t, pop in enumerate(pops):
        require(bag(hist_best[t]) == bag(front_of(pop)),
                lambda: f'{what}: historical_best[{t}] is not the set of non-dominated individuals of generation {t}: '
                        f'{bag(hist_best[t])} instead of {bag(front_of(pop))}')
    require(bag(best['pareto_set']) == bag(front_of(pops[-1])),
            lambda: f'{what}: pareto_set is not that of the last generation')
    # how long the set has been unchanged: at least this long it was changing / unchanged
    last_change = max((t for t in range(1, g) if bag(front_of(pops[t])) != bag(front_of(pops[t - 1]))), default=0)
    require(best['idx_generation'] >= last_change,
            lambda: f'{what}: the Pareto set changed in generation {last_change}, best_solution idx_generation is '
                    f'{best["idx_generation"]}')
    require(no_improve == g - 1 - best['idx_generation'],
            lambda: f'{what}: num_generation_no_improve = {no_improve}, the set dates from generation '
                    f'{best["idx_generation"]} of {g}')


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    pops = [s.pop for s in snaps]
    multi = bool(cfg['prob'].get('multi'))
    for g, s in enumerate(snaps):
        w = f'{cfg["front"]} after generation {g}'
        if multi:
            check_multi(pops[:g + 1], s.hist_best, s.best, s.idx_generation, s.no_improve, w)
        else:
            check_single(pops[:g + 1], s.hist_best, s.hist_mid, s.hist_worst, w)
            check_counters(pops[:g + 1], s.idx_generation, s.no_improve, s.best, w)
    w = f'{cfg["front"]} returned'
    if multi:
        check_multi(pops, data.historical_best, data.best_solution, data.idx_generation,
                    data.num_generation_no_improve, w)
    else:
        check_single(pops, data.historical_best, data.historical_mediocre, data.historical_worst, w)
        check_counters(pops, data.idx_generation, data.num_generation_no_improve, data.best_solution, w)
        if cfg['front'] != 'Collector1':
            h = data.historical_best
            require(all(a <= b for a, b in zip(h, h[1:])), lambda: f'{w}: historical_best decreases: {h}')
    return Info(len(snaps) >= 2, [cfg['front']])


def run_steps(cfg):
    """Hand-driven; between records nothing may touch the history."""
    r = Run(cfg)
    multi = bool(cfg['prob'].get('multi'))
    pops = []
    r.start()
    pops.append(r.snapshot())

    def state():
        d = r.data
        return repr((d.historical_best, d.historical_mediocre, d.historical_worst, d.best_solution, d.idx_generation,
                     d.num_generation_no_improve))
    before = state()
    for g in range(1, cfg['ngen']):
        for op in (r.select, r.cross, r.mutate, r.renew, r.evaluate):
            op()
            require(state() == before, lambda: f'generation {g}: {op.__name__} changed the recorded history')
        r.update()
        pops.append(r.snapshot())
        d = r.data
        check_avg(d, f'generation {g}')
        if multi:
            check_multi(pops, d.historical_best, d.best_solution, d.idx_generation, d.num_generation_no_improve,
                        f'generation {g}')
        else:
            check_single(pops, d.historical_best, d.historical_mediocre, d.historical_worst, f'generation {g}')
            check_counters(pops, d.idx_generation, d.num_generation_no_improve, d.best_solution, f'generation {g}')
        before = state()
    return Info(cfg['ngen'] >= 2, [cfg['fit'], cfg['sel']])


def run_history(case):
    data = call('GaData', bga.GaData, num_generations=len(case['hist']))
    pops = []
    rnd = random.Random(case['seed'])
    for g, scores in enumerate(case['hist']):
        data.population = synth([[0, i] for i in range(len(scores))], scores)
        for ind in data.population:          # what else is stored with an individual plays no role
            ind['feasible'] = rnd.random() < 0.5
            ind['obj_score'] = rnd.choice([0, 1, -ind['score']])
        call('update', data.update)
        pops.append([copy.deepcopy(dict(i)) for i in data.population])
        check_single(pops, data.historical_best, data.historical_mediocre, data.historical_worst, f'generation {g}')
        check_counters(pops, data.idx_generation, data.num_generation_no_improve, data.best_solution, f'generation {g}')
        check_avg(data, f'generation {g}')
    return Info(len(case['hist']) >= 2)


def run_multi_history(case):
    """Hand-made generations with given ranks; fronts that repeat, grow, shrink and come back."""
    data = call('MultiGaData', bga.MultiGaData, num_generations=len(case['hist']))
    pops = []
    run = 0
    for g, inds in enumerate(case['hist']):
        pop = synth([[a, 0] for a, _r in inds], [1.0 / (1 + r) for _a, r in inds], rank=[r for _a, r in inds],
                    phenotype=[[a] for a, _r in inds])
        data.population = pop
        call('update', data.update)
        pops.append([copy.deepcopy(dict(i)) for i in data.population])
        check_multi(pops, data.historical_best, data.best_solution, data.idx_generation,
                    data.num_generation_no_improve, f'generation {g}')
        check_avg(data, f'generation {g}')
        run = run + 1 if g and inds == case['hist'][g - 1] else 0
        require(data.num_generation_no_improve >= run,
                lambda: f'generation {g}: the same set for the last {run + 1} generations, num_generation_no_improve = '
                        f'{data.num_generation_no_improve}')
        for ind in pop:      # what happens to individuals later does not reach the record
            ind['genotype'][0] = 'gone'
            ind['rank'] = 77
    check_multi(pops, data.historical_best, data.best_solution, data.idx_generation, data.num_generation_no_improve,
                'end')
    return Info(len(case['hist']) >= 2)


score = st.one_of(st.integers(-3, 3), st.floats(-100, 100, allow_nan=False), st.sampled_from([0, 0.1, 0.1 + 1e-12]))
inds = st.lists(st.tuples(st.integers(0, 3), st.sampled_from([1, 1, 1, 2, 3])).map(list), min_size=1, max_size=5).map(
    lambda l: l if any(r == 1 for _a, r in l) else l + [[0, 1]])


@st.composite
def multi_hist(draw):
    base = draw(st.lists(inds, min_size=1, max_size=3))
    return [draw(st.sampled_from(base)) for _ in range(draw(st.integers(1, 12)))]


long_hist = st.builds(lambda b, n, s: {'hist': (b * n)[:n], 'seed': s}, st.lists(
    st.lists(score, min_size=1, max_size=3), min_size=1, max_size=7), st.integers(100, 520), seeds)


SUBS = [
    Sub('frontends', front_cfg(collector=True, n_hi=25, ngen_hi=12, ngen_lo=2), run_front, 800),
    Sub('stepwise', st.one_of(run_cfg(n_hi=20, ngen_hi=8, ngen_lo=2),
                              run_cfg(kinds=('binary', 'gray'), multi='vega', ngen_hi=6, ngen_lo=2),
                              run_cfg(kinds=('binary', 'gray'), multi='ffga', ngen_hi=6, ngen_lo=2)), run_steps, 600),
    Sub('history', st.fixed_dictionaries({'hist': st.lists(st.lists(score, min_size=1, max_size=9), min_size=1,
                                                           max_size=25), 'seed': seeds}), run_history, 800),
    Sub('long_history', long_hist, run_history, 24, 200),
    Sub('multi_history', st.fixed_dictionaries({'hist': multi_hist(), 'seed': seeds}), run_multi_history, 800),
    Sub('large', front_cfg(fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'Collector1'), n_hi=100, n_lo=50,
                           ngen_hi=50, ngen_lo=30), run_front, 16, 200),
]
