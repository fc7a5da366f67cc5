"""C04: the reported best solution is the best individual ever evaluated, as it was evaluated."""
import copy

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..sut import (CONTENT, Recorder, Run, bga, call, close, content, observe, point_of, random, score_ok, ref_decode, ref_feasible, ref_penalty,
                   ref_score, require, split_values, synth, tol)

PROPERTY = 'C04'
RULE = ('A case is a single-objective run (front-end, CollectorGA, hand-driven, or a history of recorded generations '
        'with arbitrary scores that rise and fall). Oracle: running maximum over every individual of every recorded '
        'generation and over every call of the objective. Non-trivial: at least 2 generations.')


def check_best(snaps_pop, best, what):
    """best must be the first-reached maximum of the generations recorded so far."""
    scores = [max(i['score'] for i in pop) for pop in snaps_pop]
    top = max(scores)
    g = scores.index(top)
    require(best is not None, f'{what}: no best solution')
    require(best['score'] == top, lambda: f'{what}: best_solution score {best["score"]!r}, best recorded so far {top!r} '
                                          f'(generation {g})')
    require(best.get('idx_generation') == g,
            lambda: f'{what}: best_solution idx_generation {best.get("idx_generation")}, first reached in generation {g}')
    require(content(best) in {content(i) for i in snaps_pop[g] if i['score'] == top},
            lambda: f'{what}: best_solution { {k: best.get(k) for k in CONTENT} } is not one of the best individuals of '
                    f'generation {g} as evaluated')


def check_own_values(cfg, rec, best, gen, prev_feasible):
    """best's stored values are those of its own point."""
    prob = cfg['prob']
    pt = point_of(prob['kind'], best)
    objs, kinds, vals = split_values(prob, rec.compute(pt))
    require(best['obj_score'] == objs[0],
            lambda: f'best_solution obj_score {best["obj_score"]!r}, the objective at {pt} is {objs[0]!r}')
    require(best['feasible'] == ref_feasible(kinds, vals),
            lambda: f'best_solution feasible={best["feasible"]} at {pt} with conditions {kinds} = {vals}')
    pen = 0
    if kinds:
        pen = ref_penalty(prob['penalty'], kinds, vals, gen, prev_feasible)
    require(score_ok(best['score'], cfg.get('target'), objs[0], pen),
            lambda: f'best_solution score {best["score"]!r} at {pt}, expected '
                    f'{ref_score(cfg.get("target"), objs[0], pen)!r}')
    if prob['kind'] in ('binary', 'gray'):
        ref, _ = ref_decode(prob['gens'], best['genotype'], prob['kind'] == 'gray')
        require(all(abs(a - b) <= tol(g) for a, b, g in zip(pt, ref, prob['gens'])),
                lambda: f'best_solution genotype {best["genotype"]} does not encode {pt}')


def eternal(prob):
    """Scores do not depend on the generation."""
    return not prob.get('conds') or prob['penalty']['p'] == 'static'


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    pops = [s.pop for s in snaps]
    for g, s in enumerate(snaps):
        check_best(pops[:g + 1], s.best, f'{cfg["front"]} generation {g}')
    best = data.best_solution
    check_best(pops, best, f'{cfg["front"]} final')
    gb = best['idx_generation']
    check_own_values(cfg, rec, best, gb, snaps[gb - 1].best['feasible'] if gb else False)
    if eternal(cfg['prob']):
        def sc(v):
            objs, kinds, vals = split_values(cfg['prob'], v)
            return ref_score(cfg.get('target'), objs[0],
                             ref_penalty(cfg['prob']['penalty'], kinds, vals, 0, False) if kinds else 0)
        top = max(sc(v) for v in rec.values)
        require(close(best['score'], top),
                lambda: f'best_solution score {best["score"]!r}, but a point of score {top!r} was evaluated')
    return Info(len(snaps) >= 2, [cfg['front'], 'constrained' if cfg['prob'].get('conds') else 'free',
                                  'improved' if gb else 'best_in_gen0'])


def run_steps(cfg):
    r = Run(cfg)
    pops, bests = [], []
    r.start()
    pops.append(r.snapshot())
    check_best(pops, r.data.best_solution, 'generation 0')
    last = copy.deepcopy(r.data.best_solution)
    for g in range(1, cfg['ngen']):
        for op in (r.select, r.cross, r.mutate, r.renew, r.evaluate):
            op()
            require(content(r.data.best_solution) == content(last) and
                    r.data.best_solution['idx_generation'] == last['idx_generation'],
                    lambda: f'generation {g}: {op.__name__} changed the stored best solution')
        prev = last['feasible']
        r.update()
        pops.append(r.snapshot())
        check_best(pops, r.data.best_solution, f'generation {g}')
        if r.data.best_solution['idx_generation'] == g:
            check_own_values(cfg, r.rec, r.data.best_solution, g, prev)
        last = copy.deepcopy(r.data.best_solution)
    # the stored best is a copy: what happens to the individuals later does not reach it
    for ind in r.data.population:
        ind['score'] = -1e18
        ind['genotype'][0] = None
    require(content(r.data.best_solution) == content(last), 'the stored best solution shares data with the population')
    return Info(cfg['ngen'] >= 2, [cfg['prob']['kind'], cfg['sel'], cfg['transfer']])


def run_history(case):
    """Recorded generations with arbitrary scores (a custom scheme need not be elitist)."""
    data = call('GaData', bga.GaData, num_generations=len(case['hist']))
    pops, rng = [], random.Random(case['seed'])
    for g, scores in enumerate(case['hist']):
        pop = synth([[g % 7, i] for i in range(len(scores))], scores, feasible=[rng.random() < 0.5 for _ in scores])
        data.population = pop
        call('update', data.update)
        pops.append([copy.deepcopy(dict(i)) for i in data.population])
        check_best(pops, data.best_solution, f'generation {g} of {case["hist"]}')
        for ind in data.population:      # later damage to individuals must not reach the stored best
            ind['genotype'][0] = 'x'
            ind['score'] = -1
    check_best(pops, data.best_solution, 'end')
    return Info(len(case['hist']) >= 2, ['len%d' % min(9, len(case['hist']) // 4)])


score = st.one_of(st.integers(-5, 5), st.floats(-100, 100, allow_nan=False), st.sampled_from([-1e300, 0, 0.0, 1e-300, 0.5]),
                  st.sampled_from([0.1, 0.1 + 1e-12, 1 / 3, 1 / 3 + 1e-15]))
SINGLE = ('BinaryGA', 'CategoricalGA', 'CombinatoryGA')
SUBS = [
    Sub('frontends', front_cfg(fronts=SINGLE + ('Collector1',), n_hi=25, ngen_hi=14, ngen_lo=2), run_front, 900),
    Sub('stepwise', run_cfg(n_hi=25, ngen_hi=10, ngen_lo=2), run_steps, 700),
    Sub('history', st.fixed_dictionaries({'hist': st.lists(st.lists(score, min_size=1, max_size=8), min_size=1,
                                                           max_size=25), 'seed': seeds}), run_history, 800),
    Sub('large', front_cfg(fronts=SINGLE, n_hi=120, n_lo=50, ngen_hi=50, ngen_lo=30), run_front, 24, 200),
]
