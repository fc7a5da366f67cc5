"""C17: Pareto ranks, the Pareto set of a generation, and the fitness derived from them."""
from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..sut import (FITNESS, POPS, Recorder, Run, bga, call, close, content, dominates, observe, point_of, require,
                   split_values)

PROPERTY = 'C17'
RULE = ('A case is a generation of given objective vectors (small integers and floats: ties, duplicates, chains) or a '
        'VEGA/FFGA run with 1 to 7 objectives. Oracle: brute-force dominance over the vectors the objective returns. '
        'Non-trivial: at least one individual dominates another and at least two are non-dominated or tied.')
ASSUMPTIONS = ['dominance compares every value the objective returns, all minimized']
KEYS = ('genotype', 'phenotype', 'obj_score', 'feasible')


def check_ranks(inds, vecs, fit, what):
    nontriv = False
    for i, ind in enumerate(inds):
        r = 1 + sum(dominates(v, vecs[i]) for v in vecs)
        nontriv = nontriv or r > 1
        require(ind['rank'] == r, lambda: f'{what}: individual {i} with values {vecs[i]} has rank {ind["rank"]}, '
                                          f'{r - 1} individuals dominate it: {vecs}')
        if fit == 'ffga':
            require(close(ind['score'], 1.0 / (1 + r)),
                    lambda: f'{what}: FFGA score {ind["score"]!r} of an individual of rank {r}')
    if fit == 'ffga':
        for a, va in zip(inds, vecs):
            for b, vb in zip(inds, vecs):
                if dominates(va, vb):
                    require(a['score'] > b['score'], lambda: f'{what}: {va} dominates {vb} but does not score higher')
    return nontriv


def check_set(best, inds, vecs, what):
    nd = sorted(content(i, KEYS) for i, v in zip(inds, vecs) if not any(dominates(w, v) for w in vecs))
    got = sorted(content(i, KEYS) for i in best['pareto_set'])
    require(got == nd, lambda: f'{what}: pareto_set {got} instead of the non-dominated {nd}')


def run_synthetic(case):
    """Given vectors, individuals of a binary population numbered by their decoded value."""
    rows = case['rows']
    kind, fit = case['kind'], case['fit']
    n = len(rows)
    pop = POPS[kind]()
    form = tuple if case['form'] == 'tuple' else list

    def build():
        pop.set_params(num_individ=n, gens=((0, 31, 1),), input_population=[[i] for i in range(n)])
        pop.fill()
    call('population', build)
    data = bga.MultiGaData(num_generations=3)
    data.population = pop
    f = call('fitness', FITNESS[fit], obj_function=lambda x: form(rows[int(round(x[0]))]))
    call('fitness.execute', f.execute, data)
    vecs = [rows[int(round(i['phenotype'][0]))] for i in data.population]
    nontriv = check_ranks(data.population, vecs, fit, f'{fit}')
    for i, v in zip(data.population, vecs):
        require(list(i['obj_score']) == list(v), lambda: f'obj_score {i["obj_score"]} of values {v}')
        if fit == 'vega':
            require([-s for s in i['score']] == list(v), lambda: f'VEGA scores {i["score"]} of values {v}')
    call('update', data.update)
    vecs = [rows[int(round(i['phenotype'][0]))] for i in data.population]
    check_set(data.best_solution, data.population, vecs, 'update')
    # a second evaluation, with one individual replaced by an unevaluated one, ranks everybody anew
    j = case['j'] % n
    ind = data.population[j]
    before = len(data.population)
    data.population.remove(ind)
    if len(data.population) >= 1 and before > 1:
        data.population.is_sorted = False
        call('fitness.execute', f.execute, data)
        vecs = [rows[int(round(i['phenotype'][0]))] for i in data.population]
        check_ranks(data.population, vecs, fit, f'{fit} after a change of the generation')
        call('update', data.update)
        vecs = [rows[int(round(i['phenotype'][0]))] for i in data.population]
        check_set(data.best_solution, data.population, vecs, 'second update')
    return Info(nontriv and len({tuple(r) for r in rows}) >= 2, [fit, f'm{len(rows[0])}'])


def vecs_of(cfg, rec, inds):
    out = []
    for i in inds:
        v = rec.compute(point_of(cfg['prob']['kind'], i))
        out.append(list(v))
    return out


def run_steps(cfg):
    r = Run(cfg)
    nontriv = False
    for g in range(cfg['ngen']):
        if g:
            r.breed()
        r.evaluate()
        inds = list(r.data.population)
        nontriv |= check_ranks(inds, vecs_of(cfg, r.rec, inds), cfg['fit'], f'generation {g}')
        r.update()
        inds = list(r.data.population)
        check_set(r.data.best_solution, inds, vecs_of(cfg, r.rec, inds), f'generation {g}')
    return Info(nontriv, [cfg['fit'], cfg['sel'], f'm{len(cfg["prob"]["objs"])}'])


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    nontriv = False
    for g, s in enumerate(snaps):
        v = vecs_of(cfg, rec, s.pop)
        nontriv |= check_ranks(s.pop, v, cfg['fit'], f'{cfg["front"]} generation {g}')
        check_set(s.best, s.pop, v, f'{cfg["front"]} generation {g}')
        for i, w in zip(s.pop, v):
            objs, _k, _c = split_values(cfg['prob'], w)
            require(all(close(a, b) for a, b in zip(i['obj_score'], objs)) and len(i['obj_score']) == len(objs),
                    lambda: f'{cfg["front"]}: obj_score {i["obj_score"]}, objectives in declared order {objs}')
    check_set(data.best_solution, snaps[-1].pop, vecs_of(cfg, rec, snaps[-1].pop), f'{cfg["front"]} returned')
    return Info(nontriv, [cfg['front'], 'constrained' if cfg['prob'].get('conds') else 'free'])


@st.composite
def rows_case(draw):
    m = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7]))
    v = draw(st.sampled_from([st.integers(0, 3), st.integers(-5, 5), st.sampled_from([0.0, -0.0, 0.5, 1e-9, -1e-9, 1e9]),
                              st.floats(-10, 10, allow_nan=False), st.integers(0, 1)]))
    n = draw(st.sampled_from([1, 2, 3, 5, 8, 8, 16, 30]))
    return {'rows': draw(st.lists(st.lists(v, min_size=m, max_size=m), min_size=n, max_size=n)),
            'kind': draw(st.sampled_from(['binary', 'gray'])), 'fit': draw(st.sampled_from(['vega', 'ffga'])),
            'form': draw(st.sampled_from(['tuple', 'list'])), 'j': draw(st.integers(0, 40)), 'seed': draw(seeds)}


B = ('binary', 'gray')
SUBS = [
    Sub('synthetic', rows_case(), run_synthetic, 3000),
    Sub('stepwise', st.one_of(run_cfg(kinds=B, multi='vega', ngen_hi=6, ngen_lo=2),
                              run_cfg(kinds=B, multi='ffga', ngen_hi=6, ngen_lo=2)), run_steps, 800),
    Sub('frontends', front_cfg(fronts=('VEGA', 'FFGA'), ngen_hi=8, ngen_lo=2), run_front, 800),
]
