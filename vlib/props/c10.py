"""C10: penalties follow their documented formulas and never touch feasible individuals."""
import copy

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, penalty, run_cfg, seeds
from ..sut import (FITNESS, Recorder, Run, baumeva, bga, call, score_ok, content, mk_penalty, observe, point_of, py_gens, random,
                   ref_feasible, ref_penalty, require, split_values, synth)
from collections import Counter

PROPERTY = 'C10'
RULE = ('A case is a penalty method with generated parameters, a list of conditions and either given condition values '
        'for several individuals evaluated one after the other with one penalty object, or a whole constrained run. '
        'The penalty is recovered from the score (score = -(objective + penalty) or 1/(1 + |target - objective| + '
        'penalty)) and compared with the formula. Non-trivial: some individual violates a condition and the penalty '
        'is positive.')
ASSUMPTIONS = ['static penalty intervals cover every violation (the documentation ends them with infinity)']


def evaluate(pen_obj, conds, rows, t, bf, fit='hyper', target=None, obj=0.0):
    """Score of individuals with given condition values in generation t; the optimized value is `obj` everywhere."""
    full = []
    for r in rows:
        it = iter(r)
        full.append([obj if k == 'optimize' else next(it) for k in conds])
    pop = synth([[i] for i in range(len(rows))], phenotype=[[i] for i in range(len(rows))])
    data = (bga.GaData if fit == 'hyper' else bga.MultiGaData)(num_generations=5)
    data.population = pop
    data.idx_generation = t
    data.best_solution = {'feasible': bf}
    f = call('fitness', FITNESS[fit], obj_function=lambda x: tuple(full[x[0]]), obj_value=target, penalty=pen_obj,
             conditions=list(conds))
    call('fitness.execute', f.execute, data)
    return [i['score'] for i in data.population]


def run_formula(case):
    conds, rows, t, bf = case['conds'], case['rows'], case['t'], case['bf']
    kinds = [k for k in conds if k != 'optimize']
    pen = mk_penalty(case['penalty'])
    nontriv = False
    fit = case['fit']
    m = conds.count('optimize')
    tgt = case['target']
    target = tgt if fit == 'hyper' or tgt is None else [tgt] * m
    # the object is used again, in another generation as well: nothing may accumulate or stick
    for rep, (t, bf) in enumerate([(t, bf), (case['t2'], not bf), (t, bf)]):
        scores = evaluate(pen, conds, rows, t, bf, fit=fit, target=target, obj=case['obj'])
        for r, s in zip(rows, scores):
            want_p = ref_penalty(case['penalty'], kinds, r, t, bf)
            want = -(case['obj'] + want_p) if tgt is None else 1.0 / (1 + abs(tgt - case['obj']) + want_p)
            got = s if fit == 'hyper' else s[0]
            if fit == 'vega':
                require(all(x == s[0] for x in s), 'objectives of equal value are penalized differently')
            require(score_ok(got, tgt, case['obj'], want_p),
                    lambda: f'{case["penalty"]} conditions {kinds} values {r} generation {t} best feasible={bf} '
                            f'objective {case["obj"]} target {tgt}: score {got!r}, expected {want!r} (penalty '
                            f'{want_p!r}); evaluation {rep + 1} with this penalty object')
            if ref_feasible(kinds, r):
                plain = -case['obj'] if tgt is None else 1.0 / (1 + abs(tgt - case['obj']))
                require(got == plain, lambda: f'{case["penalty"]}: feasible values {r} were penalized: score {got!r}')
            elif want_p > 0:
                nontriv = True
    return Info(nontriv, [case['penalty']['p'], fit, f't{min(t, 3)}'])


def run_monotone(case):
    """Dynamic and adaptive: a bigger violation of one condition never costs less; later generations cost at least as
    much (dynamic); an infeasible best makes the adaptive penalty heavier than a feasible one."""
    conds, row, t = case['conds'], case['rows'][0], case['t']
    j = case['j'] % len(row)
    worse = list(row)
    k = [c for c in conds if c != 'optimize'][j]
    worse[j] = (worse[j] + case['by']) if (k == '<=' or worse[j] >= 0) else worse[j] - case['by']
    pen = mk_penalty(case['penalty'])
    a, b = evaluate(pen, conds, [row, worse], t, case['bf'])
    require(-b >= -a - 1e-9 * abs(a), lambda: f'{case["penalty"]} generation {t}: values {row} cost {-a!r}, the worse '
                                              f'{worse} cost {-b!r}')
    if case['penalty']['p'] == 'dynamic':
        c, = evaluate(pen, conds, [row], t + 1, case['bf'])
        require(-c >= -a - 1e-9 * abs(a), lambda: f'{case["penalty"]}: values {row} cost {-a!r} in generation {t} and '
                                                  f'{-c!r} in generation {t + 1}')
    else:
        f, = evaluate(pen, conds, [row], t + 1, True)
        g, = evaluate(pen, conds, [row], t + 1, False)
        require(-g >= -f, lambda: f'{case["penalty"]}: cost {-f!r} with a feasible best, {-g!r} with an infeasible one')
    return Info(-b > 0, [case['penalty']['p']])


def check_fresh(cfg, rec, inds, t, bf, what):
    prob = cfg['prob']
    hit = False
    for ind in inds:
        pt = point_of(prob['kind'], ind)
        objs, kinds, vals = split_values(prob, rec.compute(pt))
        p = ref_penalty(prob['penalty'], kinds, vals, t, bf)
        hit = hit or p > 0
        scores = ind['score'] if prob.get('multi') else [ind['score']]
        for i, (o, s) in enumerate(zip(objs, scores)):
            tg = cfg.get('target')
            tg = tg[i] if isinstance(tg, list) else tg
            want = -(o + p) if tg is None else 1.0 / (1 + abs(tg - o) + p)
            require(score_ok(s, tg, o, p), lambda: f'{what}: score {s!r} at {pt}; {prob["penalty"]}, conditions {kinds} = {vals}, '
                                            f'best feasible={bf}, generation {t}: expected {want!r} (penalty {p!r})')
    return hit


class Best:
    """Feasibility of the best solution so far (multi-objective: of any member of the Pareto set)."""

    def __init__(self, prob, rec):
        self.prob, self.rec, self.top, self.flag = prob, rec, None, False

    def feasible(self, ind):
        _o, kinds, vals = split_values(self.prob, self.rec.compute(point_of(self.prob['kind'], ind)))
        return ref_feasible(kinds, vals)

    def update(self, pop, stored):
        if self.prob.get('multi'):
            self.flag = any(self.feasible(i) for i in pop if i['rank'] == 1)
            return
        top = max(i['score'] for i in pop)
        if self.top is None or top > self.top:
            self.top = top
            flags = {self.feasible(i) for i in pop if i['score'] == top}
            self.flag = stored if len(flags) > 1 else flags.pop()       # equally good ones: either may be kept


def run_steps(cfg):
    r = Run(cfg)
    hit = False
    best = Best(cfg['prob'], r.rec)
    for g in range(cfg['ngen']):
        if g:
            r.breed()
        old = [i['score'] is None for i in r.data.population]
        r.evaluate()
        fresh = [i for i, new in zip(r.data.population, old) if new]
        hit |= check_fresh(cfg, r.rec, fresh, g, best.flag, f'generation {g}')
        r.update()
        best.update(r.snapshot(), bool(r.data.best_solution['feasible']))
    return Info(hit, [cfg['prob']['penalty']['p'], cfg['fit']])


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    hit = False
    best = Best(cfg['prob'], rec)
    for g, s in enumerate(snaps):
        old = Counter(content(i) for i in (snaps[g - 1].pop if g else []))
        fresh = []
        for i in s.pop:
            c = content(i)
            if old[c] > 0:
                old[c] -= 1
            else:
                fresh.append(i)
        if cfg['fit'] != 'ffga':
            hit |= check_fresh(cfg, rec, fresh, g, best.flag,
                               f'{cfg["front"]} generation {g}')
        best.update(s.pop, bool(s.best['feasible']))
    return Info(hit, [cfg['front'], cfg['prob']['penalty']['p']])


def run_front_flag(case):
    """Multi-objective: whether any member of the recorded Pareto set, of any size and order, is feasible decides."""
    n, front, m = case['n'], min(case['n'], case['front']), 2
    pop = synth([[i] for i in range(n)], phenotype=[[i] for i in range(n)])
    feas = {i % n for i in case['feas']}
    for i, ind in enumerate(pop):
        ind.update(score=[0.5] * m, rank=1 if i < front else 2 + i % 3, obj_score=[i, -i], feasible=i in feas)
    random.Random(case['seed']).shuffle(pop)
    data = bga.MultiGaData(num_generations=5)
    data.population = pop
    for _ in range(case['t']):
        call('update', data.update)
    bf = any(i < front for i in feas)
    data.population = synth([[0]], phenotype=[[0]])
    f = call('fitness', FITNESS['vega'], obj_function=lambda x: (1.0, 2.0, case['v']), obj_value=None,
             penalty=mk_penalty(case['penalty']), conditions=['optimize', 'optimize', '!='])
    call('fitness.execute', f.execute, data)
    p = ref_penalty(case['penalty'], ['!='], [case['v']], case['t'], bf)
    got = data.population[0]['score']
    require(score_ok(got[0], None, 1.0, p) and score_ok(got[1], None, 2.0, p),
            lambda: f'{case["penalty"]}: Pareto set of {front}, feasible members {sorted(i for i in feas if i < front)}: scores '
                    f'{got} with violation {case["v"]}, expected {[-(1 + p), -(2 + p)]}')
    return Info(front > 1, ['feasible' if bf else 'infeasible', 'large' if front > 20 else 'small'])


viol = st.one_of(st.sampled_from([0, 0.0, -1, 0.25, 1, 2, 3, -2, 0.5, 7.5, 1e-6, 100, 1e-10, -1e-10, 1e-13, 1e5]), st.floats(-20, 20, allow_nan=False).map(
    lambda x: round(x, 4)))


@st.composite
def rows_case(draw, pens=None):
    kinds = draw(st.lists(st.sampled_from(['<=', '!=']), min_size=1, max_size=4))
    fit = draw(st.sampled_from(['hyper', 'hyper', 'vega'])) if pens is None else 'hyper'
    conds = list(kinds)
    for _ in range(1 if fit == 'hyper' else 2):
        conds.insert(draw(st.integers(0, len(conds))), 'optimize')
    pen = draw(penalty([{'k': k} for k in kinds]).filter(lambda p: pens is None or p['p'] in pens))
    rows = draw(st.lists(st.lists(viol, min_size=len(kinds), max_size=len(kinds)), min_size=1, max_size=5))
    return {'conds': conds, 'fit': fit, 'penalty': pen, 'rows': rows, 't': draw(st.sampled_from([0, 1, 1, 2, 3, 7, 40])),
            't2': draw(st.sampled_from([0, 1, 5, 30])),
            'bf': draw(st.booleans()), 'target': draw(st.sampled_from([None, None, 0, 5])),
            'obj': draw(st.sampled_from([0.0, 0.0, 2.5, -4.0])), 'seed': draw(seeds)}


SUBS = [
    Sub('front_flag', st.fixed_dictionaries({
        'n': st.integers(1, 90), 'front': st.integers(1, 90), 'feas': st.lists(st.integers(0, 89), max_size=2),
        't': st.integers(1, 3), 'v': st.sampled_from([0.5, 1, 3.25, -2]), 'seed': seeds,
        'penalty': penalty([{'k': '!='}]).filter(lambda p: p['p'] == 'adaptive')}), run_front_flag, 200),
    Sub('formula', rows_case(), run_formula, 2500),
    Sub('monotone', st.builds(lambda c, j, b: dict(c, j=j, by=b), rows_case(pens=('dynamic', 'adaptive')),
                              st.integers(0, 5), st.sampled_from([0.5, 1, 3.25])), run_monotone, 700),
    Sub('stepwise', st.one_of(run_cfg(constrained=True, n_hi=16, ngen_hi=8, ngen_lo=2),
                              run_cfg(constrained=True, kinds=('binary', 'gray'), multi='vega', ngen_hi=5, ngen_lo=2)),
        run_steps, 800),
    Sub('frontends', front_cfg(constrained=True, fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'Collector1'),
                               n_hi=16, ngen_hi=8, ngen_lo=2), run_front, 700),
    Sub('large', front_cfg(constrained=True, fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'Collector1'), n_hi=80,
                           n_lo=40, ngen_hi=40, ngen_lo=20), run_front, 16, 200),
]
