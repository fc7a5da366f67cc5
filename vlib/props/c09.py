"""C09: the feasible flag tells exactly whether all conditions hold."""
import numpy as np
from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, penalty, run_cfg, seeds
from ..sut import (Recorder, Run, bga, call, close, mk_penalty, observe, point_of, ref_feasible, require, split_values,
                   synth)

PROPERTY = 'C09'
RULE = ('A case is a constrained problem: conditions in any number and order around the optimized values, with given or '
        'computed condition values including exact zeros and values next to zero. Oracle: the definition ("<=" means '
        '<= 0, "!=" means == 0). Non-trivial: the case contains at least one feasible and one infeasible individual, '
        'or a mismatch that must be refused.')
ASSUMPTIONS = ['"!=" marks an equality condition (value must be 0), as in the penalty methods and the README example']


def check_inds(cfg, rec, inds, what):
    seen = set()
    for ind in inds:
        pt = point_of(cfg['prob']['kind'], ind)
        objs, kinds, vals = split_values(cfg['prob'], rec.compute(pt))
        want = ref_feasible(kinds, vals)
        seen.add(want)
        require(bool(ind['feasible']) == want,
                lambda: f'{what}: feasible={ind["feasible"]} at {pt}: conditions {kinds} have values {vals}')
    return seen


def run_steps(cfg):
    r = Run(cfg)
    seen = set()
    for g in range(cfg['ngen']):
        if g:
            r.breed()
        r.evaluate()
        seen |= check_inds(cfg, r.rec, r.data.population, f'generation {g}')
        r.update()
        if not cfg['prob'].get('multi'):
            check_inds(cfg, r.rec, [r.data.best_solution], f'generation {g} best_solution')
        else:
            check_inds(cfg, r.rec, r.data.best_solution['pareto_set'], f'generation {g} pareto_set')
    return Info(len(seen) == 2, [cfg['fit'], cfg['prob']['penalty']['p'], 'conds%d' % len(cfg['prob']['conds'])])


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    seen = set()
    for g, s in enumerate(snaps):
        seen |= check_inds(cfg, rec, s.pop, f'{cfg["front"]} generation {g}')
    if cfg['prob'].get('multi'):
        check_inds(cfg, rec, data.best_solution['pareto_set'], 'pareto_set')
        for h in data.historical_best:
            check_inds(cfg, rec, h, 'historical Pareto set')
    else:
        check_inds(cfg, rec, [data.best_solution], 'best_solution')
    return Info(len(seen) == 2, [cfg['front']])


FORMS = {'tuple': tuple, 'list': list, 'np': np.array}
FIT = {'hyper': bga.HyperbolaFitness, 'vega': bga.VEGAHyperbolaFitness, 'ffga': bga.FFGAFitness}


def evaluate(case, rows, conditions):
    """One generation whose i-th individual gets the returned values rows[i]."""
    form = FORMS[case['form']]
    pop = synth([[i] for i in range(len(rows))], phenotype=[[i] for i in range(len(rows))])
    data = (bga.GaData if case['fit'] == 'hyper' else bga.MultiGaData)(num_generations=3)
    data.population = pop
    data.idx_generation = case['t']
    data.best_solution = {'feasible': True}
    fit = call('fitness', FIT[case['fit']], obj_function=lambda x: form(rows[x[0]]), obj_value=None,
               penalty=mk_penalty(case['penalty']), conditions=conditions)
    return fit, data


def run_values(case):
    conds = case['conds']
    fit, data = evaluate(case, case['rows'], list(conds))
    call('fitness.execute', fit.execute, data)
    seen = set()
    for ind in data.population:
        row = case['rows'][ind['genotype'][0]]
        kinds = [k for k in conds if k != 'optimize']
        vals = [v for k, v in zip(conds, row) if k != 'optimize']
        objs = [v for k, v in zip(conds, row) if k == 'optimize']
        want = ref_feasible(kinds, vals)
        seen.add(want)
        require(bool(ind['feasible']) == want, lambda: f'{conds}: values {row} -> feasible={ind["feasible"]}')
        if case['fit'] == 'hyper':
            require(close(float(ind['obj_score']), float(objs[0])),
                    lambda: f'{conds}: values {row} -> obj_score {ind["obj_score"]!r}, the optimized value is {objs[0]!r}')
        else:
            require([float(x) for x in ind['obj_score']] == [float(x) for x in objs],
                    lambda: f'{conds}: values {row} -> obj_score {ind["obj_score"]}, the optimized values are {objs}')
    return Info(len(seen) == 2, [case['fit'], case['form']])


def run_mismatch(case):
    """Too few or too many returned values are refused (single-objective)."""
    conds = case['conds']
    rows = [list(r) for r in case['rows']]
    bad = case['bad']
    if bad == 'more':
        rows = [r + [0] for r in rows]
    elif bad == 'less':
        rows = [r[:-1] for r in rows]
    elif bad == 'scalar':
        rows = [[r[0]] for r in rows]
    fit, data = evaluate(dict(case, fit='hyper'), rows, list(conds))
    try:
        fit.execute(data)
    except Exception:
        return Info(True, [bad])
    require(False, lambda: f'conditions {conds}: {len(rows[0])} returned values were accepted')


def run_unconditional_many(case):
    """More than one value without conditions is refused (single-objective)."""
    pop = synth([[0], [1]])
    data = bga.GaData(num_generations=1)
    data.population = pop
    fit = call('fitness', bga.HyperbolaFitness, obj_function=lambda x: FORMS[case['form']]([1.0, 2.0, 3.0][:case['k']]))
    try:
        fit.execute(data)
    except Exception:
        return Info(True)
    require(False, lambda: f'{case["k"]} values were accepted without conditions')


edge = st.one_of(st.sampled_from([0, 0, 0.0, -0.0, 1e-12, -1e-12, 1, -1, 5e-324, -5e-324, 0.5]), st.integers(-3, 3),
                 st.floats(-5, 5, allow_nan=False))


@st.composite
def rows_case(draw, multi=True):
    kinds = draw(st.lists(st.sampled_from(['<=', '!=']), min_size=1, max_size=draw(st.sampled_from([5, 5, 9]))))
    fit = draw(st.sampled_from(['hyper', 'hyper', 'vega', 'ffga'])) if multi else 'hyper'
    conds = list(kinds)
    for _ in range(1 if fit == 'hyper' else draw(st.sampled_from([1, 2, 2, 3, 3, 5, 6, 7]))):
        conds.insert(draw(st.integers(0, len(conds))), 'optimize')
    pen = draw(penalty([{'k': k} for k in kinds]))
    rows = draw(st.lists(st.lists(edge, min_size=len(conds), max_size=len(conds)), min_size=1, max_size=6))
    if draw(st.booleans()):     # one surely feasible
        rows = rows + [[0 if c != 'optimize' else 1.5 for c in conds]]
    return {'conds': conds, 'fit': fit, 'penalty': pen, 'rows': rows, 'form': draw(st.sampled_from(['tuple', 'list', 'np'])),
            't': draw(st.integers(0, 5)), 'seed': draw(seeds)}


SUBS = [
    Sub('values', rows_case(), run_values, 3600),
    Sub('stepwise', st.one_of(run_cfg(constrained=True, n_hi=16, ngen_hi=6),
                              run_cfg(constrained=True, kinds=('binary', 'gray'), multi='vega', ngen_hi=4),
                              run_cfg(constrained=True, kinds=('binary', 'gray'), multi='ffga', ngen_hi=4)), run_steps, 1200),
    Sub('frontends', front_cfg(constrained=True, collector=True, n_hi=16, ngen_hi=6), run_front, 700),
    Sub('mismatch', st.builds(lambda c, b: dict(c, bad=b), rows_case(multi=False),
                              st.sampled_from(['more', 'less', 'scalar'])), run_mismatch, 300),
    Sub('unconditional', st.fixed_dictionaries({'k': st.integers(2, 3), 'form': st.sampled_from(['tuple', 'list', 'np']),
                                                'seed': seeds}), run_unconditional_many, 12, 12),
    Sub('large', front_cfg(constrained=True, fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'Collector1'), n_hi=80,
                           n_lo=40, ngen_hi=30, ngen_lo=20), run_front, 16, 200),
]
