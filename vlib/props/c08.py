"""C08: every individual is evaluated once, with the right arguments, and scored by the documented formula."""
import copy
from collections import Counter
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..sut import (Parts, Recorder, Run, baumeva, bga, call, close, content, observe, point_of, ref_decode, ref_penalty,
                   ref_score, require, score_ok, split_values, synth, tol)

PROPERTY = 'C08'
RULE = ('A case is a run of any algorithm (all penalties, with or without a target and input_data), or one generation of '
        'given objective values in a generated return form. Oracle: objective recomputed at the stored point, documented '
        'score formula, multiset of calls against multiset of new individuals. Non-trivial: at least one individual '
        'was evaluated and compared.')

DATA = {'zero': 0, 'empty': [], 'dict': {}, 'false': False, 'str': '', 'obj': object(), 'list': [1, 2], 'np': np.zeros(3),
        'np0': np.array(0.0), 'tuple': (), 'float': 2.5}


def check_scores(cfg, rec, inds, t, best_feasible, what):
    """inds were evaluated in generation t."""
    prob = cfg['prob']
    for ind in inds:
        pt = point_of(prob['kind'], ind)
        if prob['kind'] in ('binary', 'gray'):
            own_point, _n = ref_decode(prob['gens'], ind['genotype'], prob['kind'] == 'gray')
            require(all(abs(a - b) <= tol(g) for a, b, g in zip(pt, own_point, prob['gens'])),
                    lambda: f'{what}: {"".join(ind["genotype"])} was evaluated at {pt}, it means {own_point}')
        objs, kinds, vals = split_values(prob, rec.compute(pt))
        pen = ref_penalty(prob['penalty'], kinds, vals, t, best_feasible) if kinds else 0
        if prob.get('multi'):
            require(len(ind['obj_score']) == len(objs) and all(a == b for a, b in zip(ind['obj_score'], objs)),
                    lambda: f'{what}: obj_score {ind["obj_score"]}, the objectives at {pt} are {objs}')
            if cfg['fit'] == 'vega':
                tg = cfg.get('target') or [None] * len(objs)
                want = [ref_score(t_, o, pen) for t_, o in zip(tg, objs)]
                require(len(ind['score']) == len(want) and all(score_ok(a, t_, o, pen)
                                                               for a, t_, o in zip(ind['score'], tg, objs)),
                        lambda: f'{what}: score {ind["score"]} at {pt}, expected {want}')
        else:
            require(ind['obj_score'] == objs[0],
                    lambda: f'{what}: obj_score {ind["obj_score"]!r}, the objective at {pt} is {objs[0]!r}')
            want = ref_score(cfg.get('target'), objs[0], pen)
            require(score_ok(ind['score'], cfg.get('target'), objs[0], pen),
                    lambda: f'{what}: score {ind["score"]!r} at {pt} (target {cfg.get("target")}, objective {objs[0]!r}, '
                            f'penalty {pen!r}), expected {want!r}')


def best_feasible(best):
    return bool(best and best['feasible'])


def run_steps(cfg):
    key = cfg.get('data')
    rec = Recorder(cfg['prob'], with_data=key is not None, expect_data=DATA[key] if key else None)
    r = Run(cfg, rec)
    kind = r.kind
    multi = cfg['prob'].get('multi')
    done = 0
    for g in range(cfg['ngen']):
        if g:
            r.breed()
        before = r.snapshot()
        bf = best_feasible(r.data.best_solution)
        n0 = len(rec.calls)
        r.evaluate()
        after = [copy.deepcopy(dict(i)) for i in r.data.population]
        require(len(after) == len(before), 'evaluation changed the size of the population')
        fresh = []
        for b, a in zip(before, after):
            require(a['genotype'] == b['genotype'], lambda: f'evaluation changed genotype {b["genotype"]} to '
                                                            f'{a["genotype"]}')
            if b['score'] is None:
                fresh.append(a)
            elif cfg['fit'] != 'ffga':
                require(content(a) == content(b), lambda: f'generation {g}: an individual kept from an earlier '
                                                          f'generation was changed by evaluation: {b} -> {a}')
            else:
                require(content(a, ('phenotype', 'obj_score', 'feasible')) == content(b, ('phenotype', 'obj_score',
                                                                                          'feasible')),
                        lambda: f'generation {g}: results of a kept individual changed: {b} -> {a}')
            require(a['score'] is not None and a['obj_score'] is not None, 'an individual was left without a score')
        done += len(fresh)
        check_scores(cfg, rec, fresh, g, bf, f'generation {g}')
        if not multi:
            calls = Counter(map(repr, rec.calls[n0:]))
            want = Counter(repr(point_of(kind, a)) for a in fresh)
            require(calls == want, lambda: f'generation {g}: {sum(calls.values())} objective calls for '
                                           f'{sum(want.values())} new individuals (every new one exactly once, kept '
                                           f'ones never)')
        r.update()
    return Info(done > 0, [cfg['fit'], 'data' if key else 'nodata', 'constrained' if cfg['prob'].get('conds') else
                           'free', 'min' if cfg.get('target') is None else 'target'])


def run_front(cfg):
    key = cfg.get('data')
    rec = Recorder(cfg['prob'], with_data=key is not None, expect_data=DATA[key] if key else None)
    data, snaps = observe(cfg, rec)
    multi = cfg['prob'].get('multi')
    keys = ('genotype', 'phenotype', 'obj_score', 'feasible') if cfg['fit'] == 'ffga' else None
    for g, s in enumerate(snaps):
        old = Counter(content(i) if keys is None else content(i, keys) for i in (snaps[g - 1].pop if g else []))
        fresh = []
        for i in s.pop:
            c = content(i) if keys is None else content(i, keys)
            if old[c] > 0:
                old[c] -= 1
            else:
                fresh.append(i)
        check_scores(cfg, rec, fresh, g, best_feasible(snaps[g - 1].best if g else None),
                     f'{cfg["front"]} generation {g}')
        if not multi:
            calls = Counter(map(repr, rec.calls[snaps[g - 1].calls if g else 0:s.calls]))
            for i in fresh:
                require(calls[repr(point_of(cfg['prob']['kind'], i))] > 0,
                        lambda: f'generation {g}: {i} was not evaluated')
    if not multi:
        want = cfg['n'] + (len(snaps) - 1) * int(cfg['cp'] * cfg['n'])
        require(len(rec.calls) == want, lambda: f'{cfg["front"]}: {len(rec.calls)} evaluations, {want} individuals')
    return Info(True, [cfg['front'], 'data' if key else 'nodata'])


WRAP = {'plain': lambda v: v, 'list1': lambda v: [v], 'tuple1': lambda v: (v,), 'np': lambda v: np.float64(v),
        'np1': lambda v: np.array([v]), 'int': lambda v: int(v), 'npint': lambda v: np.int64(int(v)),
        'frac': lambda v: Fraction(v), 'f32': lambda v: np.float32(v)}


def run_returns(case):
    """One generation of given objective values, returned in a given form."""
    vals = case['vals']
    if case['form'] in ('int', 'npint', 'frac', 'f32'):    # forms that cannot hold an infinite value, or 1e300
        vals = [v if abs(v) < 2 ** 62 else 5 for v in vals]
    key = case.get('data')
    form = WRAP[case['form']]
    inp = DATA[key] if key else None
    seen = []

    def value(x):
        seen.append(x[0])
        return form(vals[x[0]])

    def obj(*a):
        if key:
            require(len(a) == 2 and a[0] is inp, lambda: f'input_data {key} was not passed: arguments {a!r}')
            return value(a[1])
        require(len(a) == 1, lambda: f'{len(a)} arguments without input_data')
        return value(a[0])
    pop = synth([[i] for i in range(len(vals))])
    data = bga.GaData(num_generations=1)
    data.population = pop
    fit = call('fitness', bga.HyperbolaFitness, obj_function=obj, obj_value=case['target'], input_data=inp)
    call('fitness.execute', fit.execute, data)
    require(sorted(seen) == list(range(len(vals))), lambda: f'evaluated {sorted(seen)}, expected each of {len(vals)} once')
    for i, ind in enumerate(data.population):
        raw = form(vals[i])
        v = raw[0] if case['form'] in ('list1', 'tuple1', 'np1') else raw
        require(np.shape(ind['obj_score']) == () and close(float(ind['obj_score']), float(v), rel=1e-12),
                lambda: f'objective value {raw!r}: obj_score {ind["obj_score"]!r}')
        if type(v) is int:
            require(ind['obj_score'] == v, lambda: f'objective value {raw!r}: obj_score {ind["obj_score"]!r}')
        want = ref_score(case['target'], v, 0)
        require(np.shape(ind['score']) == () and (close(float(ind['score']), float(want), rel=1e-6) if case['form'] == 'f32'
                                                  else score_ok(ind['score'], case['target'], v, 0)),
                lambda: f'objective value {v!r}, target {case["target"]}: score {ind["score"]!r}, expected {want!r}')
        require(ind['feasible'] is True or ind['feasible'] == True, 'an unconstrained individual is not feasible')  # noqa
    # ordering: closer to the target (or smaller) scores at least as high
    key_of = (lambda v: abs(case['target'] - v)) if case['target'] is not None else (lambda v: v)
    if case['form'] in ('plain', 'list1', 'np'):
        for i in range(len(vals)):
            for j in range(len(vals)):
                if key_of(vals[i]) < key_of(vals[j]):
                    require(data.population[i]['score'] >= data.population[j]['score'],
                            lambda: f'objective {vals[i]!r} is better than {vals[j]!r} but scores lower')
    # a second evaluation does nothing
    n0 = len(seen)
    before = [content(i) for i in data.population]
    call('fitness.execute again', fit.execute, data)
    require(len(seen) == n0 and [content(i) for i in data.population] == before,
            'evaluating an evaluated generation again changed it')
    return Info(True, [case['form'], 'data=%s' % key])


def run_front_data(case):
    """input_data through every front-end."""
    inp = DATA[case['data']]
    bad = []

    def obj(*a):
        if len(a) != 2 or a[0] is not inp:
            bad.append(a)
        x = a[-1]
        v = float(sum(hash(repr(q)) % 7 for q in x))
        return (v, -v) if case['front'] in ('VEGA', 'FFGA') else v
    cls = getattr(baumeva, case['front'])
    gens = {'CategoricalGA': (['a', 'b'], (1, 5, 1)), 'CombinatoryGA': (0, 5, 4)}.get(case['front'], ((0, 5, 1), (0, 3, 1)))
    ga = call('constructing', cls, num_generations=3, num_individ=8, gens=gens, obj_function=obj, input_data=inp,
              is_print=False)
    call('optimize', ga.optimize)
    require(not bad, lambda: f'{case["front"]}: input_data {case["data"]} was not passed: called with {bad[0]!r}')
    return Info(True, [case['front']])


class OwnPenalty(bga.BasePenalty):
    """A penalty written by the user: the sum of positive parts of '<=' and of magnitudes of '!=', to a power."""

    def __init__(self, factor, power):
        super().__init__(power)
        self.factor, self.seen = factor, []

    def get_sum_conditional_func(self, conditionals, values):
        self.sum_conditional = sum(self.part(c, v) for c, v in zip(conditionals, values))

    def part(self, c, v):
        return (abs(v) if c == '!=' else max(0, v)) ** self.power

    def execute(self, conditionals, values, **kw):
        self.seen.append((list(conditionals), list(values)))
        return self.factor * sum(self.part(c, v) for c, v in zip(conditionals, values))


def run_own_penalty(cfg):
    """The penalty object is the user's: it is asked about each new individual's own condition values."""
    prob = cfg['prob']
    rec = Recorder(prob)
    pen = OwnPenalty(cfg['factor'], cfg['power'])
    r = Run(cfg, rec, Parts(cfg, rec, penalty=pen))
    for g in range(cfg['ngen']):
        if g:
            r.breed()
        fresh = [i for i in r.data.population if i['score'] is None]
        pen.seen.clear()
        r.evaluate()
        want = []
        for ind in fresh:
            objs, kinds, vals = split_values(prob, rec.compute(point_of(prob['kind'], ind)))
            want.append(repr((kinds, vals)))
            p = cfg['factor'] * sum(pen.part(c, v) for c, v in zip(kinds, vals))
            if prob.get('multi'):
                sc = [ref_score(None if cfg.get('target') is None else cfg['target'][i], o, p) for i, o in enumerate(objs)]
                tg = cfg.get('target') or [None] * len(objs)
                ok = len(ind['score']) == len(sc) and all(score_ok(a, t, o, p) for a, t, o in zip(ind['score'], tg, objs))
            else:
                sc = ref_score(cfg.get('target'), objs[0], p)
                ok = score_ok(ind['score'], cfg.get('target'), objs[0], p)
            require(ok, lambda: f'generation {g}: score {ind["score"]!r}, expected {sc!r} (objective {objs}, own penalty {p!r})')
        require(set(map(repr, pen.seen)) <= set(want),
                lambda: f'generation {g}: the penalty was asked about {pen.seen}, the new individuals have {want}')
        r.update()
    return Info(True, [cfg['fit']])


def own(s):
    return st.builds(lambda c, f, p: dict(c, factor=f, power=p), s, st.sampled_from([0.5, 1, 3, 1000.0]), st.sampled_from([1, 2, 0.5]))


def with_data(s):
    return st.builds(lambda c, d: dict(c, data=d) if d else c, s,
                     st.sampled_from([None, None, None] + sorted(DATA)))


val = st.one_of(st.integers(-1000, 1000), st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0, 0.0, -0.5, 1e12, -1e12,
                                                                                              1e-9, 3, 7]),
                st.integers(-2 ** 62, 2 ** 62), st.sampled_from([float('inf'), 1e300, 2 ** 53 + 1, 10 ** 17 + 1]))
SUBS = [
    Sub('stepwise', with_data(st.one_of(run_cfg(n_hi=20, ngen_hi=6),
                                        run_cfg(kinds=('binary', 'gray'), multi='vega', ngen_hi=4),
                                        run_cfg(kinds=('binary', 'gray'), multi='ffga', ngen_hi=4))), run_steps, 1200),
    Sub('frontends', with_data(front_cfg(collector=True, n_hi=20, ngen_hi=6)), run_front, 800),
    Sub('returns', st.fixed_dictionaries({
        'vals': st.lists(val, min_size=1, max_size=8), 'form': st.sampled_from(sorted(WRAP)),
        'target': st.one_of(st.none(), st.sampled_from([0, 1, -2.5, 100, 7])),
        'data': st.one_of(st.none(), st.sampled_from(sorted(DATA))), 'seed': seeds}), run_returns, 1500),
    Sub('front_data', st.fixed_dictionaries({'front': st.sampled_from(['BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA',
                                                                       'FFGA']), 'data': st.sampled_from(sorted(DATA)),
                                             'seed': seeds}), run_front_data, 120, 400),
    Sub('own_penalty', own(st.one_of(run_cfg(constrained=True, n_hi=12, ngen_hi=5),
                                     run_cfg(constrained=True, kinds=('binary', 'gray'), multi='vega', ngen_hi=4))), run_own_penalty,
        300),
    Sub('crowd', front_cfg(collector=True, n_lo=250, n_hi=400, ngen_lo=2, ngen_hi=3), run_front, 10, 60),
    Sub('large', front_cfg(fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'Collector1'), n_hi=100, n_lo=50,
                           ngen_hi=40, ngen_lo=20), run_front, 16, 200),
]
