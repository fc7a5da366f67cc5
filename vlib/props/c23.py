"""C23: invalid parameters are rejected, wherever they are given; their valid neighbours are accepted."""
import copy
import math
import warnings

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import bin_gens, condition, front_cfg, input_pop, objective, seeds
from ..sut import (FITNESS, FRONT_PARTS, MUTATIONS, POPS, Recorder, SELECTIONS, Violation, baumeva, bga, call, cond_list,
                   frontend, mk_penalty, new_data, new_population, py_gens, require, seeded, silent, synth)

PROPERTY = 'C23'
RULE = ('A case is a valid configuration and one parameter replaced by an invalid value (mutation level, transfer mode, '
        'tournament size, penalty coefficients, penalty type, condition sign, size or values of the initial population, '
        'number of values returned by the objective). Oracle: the valid configuration runs, the invalid one raises. '
        'Non-trivial: every case (both halves are exercised).')
ASSUMPTIONS = ['integer mutation levels (0, 1) and a tournament as large as the population are left open: the '
               'documentation and the code disagree about them',
               'tournament sizes are not checked for FFGA, which does not hold tournaments']


def rejects(fn, what):
    """The call must raise an Exception."""
    try:
        with warnings.catch_warnings(), silent():
            warnings.simplefilter('ignore')
            fn()
    except Exception:
        return
    raise Violation(f'{what} was accepted')


def accepts(fn, what):
    with silent():
        return call(what, fn)


# ---------------------------------------------------------------- components
def run_mutation(case):
    cls = MUTATIONS[case['mut']]
    accepts(lambda: cls(case['good']), f'{cls.__name__}({case["good"]!r})')
    bad = case['bad']
    bad = {'nan_list': [0.5], 'dict': {}}.get(bad, bad) if isinstance(bad, str) else bad
    rejects(lambda: cls(bad), f'{cls.__name__}({bad!r})')
    return Info(True, [case['mut'], type(bad).__name__])


good_lvl = st.one_of(st.sampled_from(['weak', 'normal', 'strong', 0.0, 1.0]), st.floats(0, 1, allow_nan=False))
bad_lvl = st.one_of(
    st.floats(min_value=1, max_value=1e6, exclude_min=True), st.floats(min_value=-1e6, max_value=0, exclude_max=True),
    st.sampled_from([1.0000001, -1e-9, 2.0, 'WEAK', 'Normal', '', 'average', 'strong ', '0.5', None, 'nan_list', 'dict',
                     float('inf'), -float('inf')]),
    st.text(max_size=6).filter(lambda x: x not in ('weak', 'normal', 'strong', 'dict', 'nan_list')))


def run_transfer(case):
    for cls in (bga.NewGeneration, bga.MultiNewGeneration):
        accepts(lambda: cls(case['good']), f'{cls.__name__}({case["good"]!r})')
        rejects(lambda: cls(case['bad']), f'{cls.__name__}({case["bad"]!r})')
    return Info(True, [case['good']])


bad_transfer = st.one_of(st.sampled_from(['Best', 'RANDOM', '', 'worst', 'bestrandom', 'best ', None, 0, 1, True]),
                         st.text(max_size=6).filter(lambda x: x not in ('best', 'random')))


def run_tournament(case):
    n, m = case['n'], case['m']
    if case['vega']:
        scores = [[(i * 7 + j * 3) % 11 for j in range(m)] for i in range(n)]
    else:
        scores = [(i * 7) % 11 for i in range(n)]
    pop = synth([[i] for i in range(n)], scores)
    data = (bga.MultiGaData if case['vega'] else bga.GaData)(num_generations=3, children_percent=1.0)
    data.population = pop

    def sel(t):
        return bga.VEGATournamentSelection(m, t) if case['vega'] else bga.TournamentSelection(t)
    accepts(lambda: sel(case['good']).execute(data), f'tournament of {case["good"]} among {n}')
    rejects(lambda: sel(case['bad']).execute(data), f'tournament of {case["bad"]} among {n}')
    return Info(True, ['vega' if case['vega'] else 'single', 'big' if case['bad'] > n else 'small'])


@st.composite
def tournament_case(draw):
    n = draw(st.integers(3, 20))
    return {'n': n, 'm': draw(st.integers(2, 3)), 'vega': draw(st.booleans()), 'good': draw(st.integers(2, n - 1)),
            'bad': draw(st.one_of(st.integers(-3, 1), st.integers(n + 1, n + 30))), 'seed': draw(seeds)}


def run_adaptive(case):
    g = case['good']
    accepts(lambda: bga.AdaptivePenalty(betta_1=g[0], betta_2=g[1]), f'AdaptivePenalty(betta_1={g[0]}, betta_2={g[1]})')
    b = [float(repr(float(v))) for v in case['bad']]       # equal numbers need not be one object
    rejects(lambda: bga.AdaptivePenalty(betta_1=b[0], betta_2=b[1]), f'AdaptivePenalty(betta_1={b[0]}, betta_2={b[1]})')
    return Info(True, ['equal' if b[0] == b[1] else 'low'])


gt1 = st.floats(1.001, 50)
le1 = st.one_of(st.floats(-10, 1), st.sampled_from([1, 1.0, 0, 0.999, -1]))
adaptive_case = st.fixed_dictionaries({
    'good': st.tuples(gt1, gt1).filter(lambda t: t[0] != t[1]).map(list),
    'bad': st.one_of(st.tuples(le1, gt1), st.tuples(gt1, le1), gt1.map(lambda x: (x, x)), st.tuples(le1, le1)).map(list)})


def run_static(case):
    """Tables with different numbers of entries."""
    iv = {i: [(0, 1), (1, float('inf'))] for i in range(case['k'])}
    r = {i: [1, 2] for i in range(case['k'])}
    short = {i: [1, 2] for i in range(case['k'] - 1)}
    long_ = {i: [1, 2] for i in range(case['k'] + 1)}
    accepts(lambda: bga.StaticPenalty(iv, r, {}, {}), 'StaticPenalty with equality tables')
    accepts(lambda: bga.StaticPenalty({}, {}, iv, r), 'StaticPenalty with inequality tables')
    for other in (short, long_):
        rejects(lambda: bga.StaticPenalty(iv, other, {}, {}),
                f'StaticPenalty with {len(iv)} equality intervals and {len(other)} coefficients')
        rejects(lambda: bga.StaticPenalty({}, {}, iv, other),
                f'StaticPenalty with {len(iv)} inequality intervals and {len(other)} coefficients')
    return Info(True, [f'k{case["k"]}'])


class Duck:
    """Looks like a penalty, is none."""

    def execute(self, *a, **k):
        return 0

    def name(self):
        return 'dynamic'


# ---------------------------------------------------------------- whole configurations
def run_front(case):
    cfg = case['cfg']
    f, what = cfg['front'], case['what']
    rec = Recorder(cfg['prob'])
    seeded(cfg['seed'])
    accepts(lambda: frontend(cfg, rec).optimize(), f'valid {f} configuration')
    p = cfg['prob']
    over = {}
    rec2 = Recorder(cfg['prob'])
    if what == 'mutation_lvl':
        bad = case['bad_lvl']
        over['mutation_lvl'] = {'nan_list': [0.5], 'dict': {}}.get(bad, bad) if isinstance(bad, str) else bad
    elif what == 'transfer_parents':
        over['transfer_parents'] = case['bad_transfer']
    elif what == 'tournament_size':
        t = case['t']
        over['tournament_size'] = t if t < 2 else cfg['n'] + t - 1
    elif what == 'too_many':
        over['input_population'] = (case['inp'] * (cfg['n'] + 1))[:cfg['n'] + case['extra']]
    elif what == 'outside':
        over['input_population'] = spoil(cfg, case)
    elif what == 'count':
        off = case['off']

        def obj(x):
            v = rec2(x)
            if not p.get('conds'):
                return (v,) * max(2, off)
            v = list(v)
            return tuple(v + [0] * off) if off > 0 else tuple(v[:max(0, len(v) + off)])
        over['obj_function'] = obj
    elif what == 'scalar':
        over['obj_function'] = lambda x: 1.5
    elif what == 'penalty_type':
        over['penalty'] = {'duck': Duck(), 'class': bga.DynamicPenalty}.get(str(case['bad_penalty']), case['bad_penalty'])
    elif what == 'sign':
        conds = cond_list(p)
        i = [k for k, c in enumerate(conds) if c != 'optimize']
        conds[i[case['pos'] % len(i)]] = case['bad_sign']
        over['conditions'] = conds
    shown = {k: v for k, v in over.items() if k != 'obj_function'}
    rejects(lambda: frontend(cfg, rec2, **over).optimize(), f'{f} with invalid {what} {shown}')
    return Info(True, [f, what])


def spoil(cfg, case):
    inp = copy.deepcopy(case['inp'])
    ind = inp[case['pos'] % len(inp)]
    g = case['pos2'] % len(ind)
    lo, hi, _s = cfg['prob']['gens'][g]
    w = hi - lo
    how = case['how']
    if how == 'above':
        ind[g] = hi + w * 0.75 + 1
    elif how == 'below':
        ind[g] = lo - w * 0.75 - 1
    elif how == 'just_above':
        ind[g] = hi + max(1e-6 * w, 1e-9 * max(abs(hi), 1))
    elif how == 'just_below':
        ind[g] = lo - max(1e-6 * w, 1e-9 * max(abs(lo), 1))
    elif how == 'short':
        ind.pop()
    else:
        ind.append(lo)
    return inp


@st.composite
def front_case(draw):
    what = draw(st.sampled_from(['mutation_lvl', 'transfer_parents', 'tournament_size', 'too_many', 'outside', 'count',
                                 'scalar', 'penalty_type', 'sign']))
    single = ('BinaryGA', 'CategoricalGA', 'CombinatoryGA')
    fronts = {'tournament_size': single + ('VEGA',), 'outside': ('BinaryGA', 'VEGA', 'FFGA'), 'count': single,
              'scalar': single + ('VEGA', 'FFGA'), 'sign': single + ('VEGA', 'FFGA')}.get(what, single + ('VEGA', 'FFGA'))
    con = {'sign': True, 'scalar': True, 'penalty_type': True}.get(what)
    cfg = draw(front_cfg(fronts=fronts, n_hi=12, ngen_hi=4, ngen_lo=2, constrained=con))
    p = cfg['prob']
    if what == 'sign' and p['penalty']['p'] == 'static' and draw(st.booleans()):
        p['penalty'] = {'p': 'dynamic', 'args': {}}
    case = {'cfg': cfg, 'what': what, 'bad_lvl': draw(bad_lvl), 'bad_transfer': draw(bad_transfer),
            't': draw(st.one_of(st.integers(-3, 1), st.integers(2, 30))), 'extra': draw(st.integers(1, 3)),
            'inp': draw(input_pop(p['kind'], p['gens'], cfg['n'])), 'pos': draw(st.integers(0, 20)),
            'pos2': draw(st.integers(0, 20)),
            'how': draw(st.sampled_from(['above', 'below', 'just_above', 'just_below', 'short', 'long'])),
            'off': draw(st.sampled_from([-2, -1, 1, 2, 3])),
            'bad_penalty': draw(st.sampled_from(['dynamic', 5, 'DynamicPenalty', [1], 0.5, 'duck', 'class'])),
            'bad_sign': draw(st.sampled_from(['>=', '==', '<', '=', '', 'OPTIMIZE', '>', ' <=', None]))}
    return case


def run_population(case):
    """The same rules when a population is built by hand."""
    kind, gens, n = case['kind'], case['gens'], case['n']

    def build(inp):
        pop = POPS[kind]()
        pop.set_params(num_individ=n, gens=py_gens(kind, gens), input_population=inp)
        pop.fill()
        return pop
    pop = accepts(lambda: build(case['inp']), 'a valid initial population')
    require(len(pop) == n, lambda: f'{len(pop)} individuals instead of {n}')
    rejects(lambda: build((case['inp'] * (n + 1))[:n + case['extra']]), f'an initial population larger than {n}')
    bad = spoil({'prob': {'gens': gens}}, case) if kind in ('binary', 'gray') else None
    if bad is not None:
        rejects(lambda: build(bad), f'the initial population {bad} for genes {gens}')
    return Info(True, [kind, case['how']])


@st.composite
def population_case(draw):
    from ..gen import gens_of
    kind = draw(st.sampled_from(['binary', 'gray', 'binary', 'gray', 'cat', 'order']))
    gens = draw(gens_of(kind))
    n = draw(st.integers(1, 12))
    return {'kind': kind, 'gens': gens, 'n': n, 'inp': draw(input_pop(kind, gens, n)), 'extra': draw(st.integers(1, 4)),
            'pos': draw(st.integers(0, 20)), 'pos2': draw(st.integers(0, 20)),
            'how': draw(st.sampled_from(['above', 'below', 'just_above', 'just_below', 'short', 'long'])),
            'seed': draw(seeds)}


def run_penalty_values(case):
    """Penalties applied by hand: unknown signs and wrong numbers of values."""
    spec = case['pen']
    kinds = [c['k'] for c in case['conds']]
    vals = case['vals'][:len(kinds)]

    def ex(k, v):
        pen = mk_penalty(spec)
        if spec['p'] == 'dynamic':
            return pen.execute(conditionals=k, values=v, iter_generation=3)
        if spec['p'] == 'adaptive':
            return pen.execute(conditionals=k, values=v, best_individ={'feasible': True}, iter_generation=3)
        return pen.execute(conditionals=k, values=v)
    accepts(lambda: ex(kinds, vals), 'a penalty')
    rejects(lambda: ex(kinds, vals + [1.0]), f'{spec["p"]} penalty of {len(kinds)} conditions and {len(vals) + 1} values')
    rejects(lambda: ex(kinds, vals[:-1]), f'{spec["p"]} penalty of {len(kinds)} conditions and {len(vals) - 1} values')
    i = case['pos'] % len(kinds)
    bad = kinds[:i] + [case['bad_sign']] + kinds[i + 1:]
    rejects(lambda: ex(bad, vals), f'{spec["p"]} penalty with condition {case["bad_sign"]!r}')
    return Info(True, [spec['p']])


@st.composite
def penalty_case(draw):
    from ..gen import penalty
    conds = draw(st.lists(condition, min_size=1, max_size=4))
    return {'conds': conds, 'pen': draw(penalty(conds)),
            'vals': draw(st.lists(st.floats(0.01, 9), min_size=4, max_size=4)),
            'pos': draw(st.integers(0, 9)), 'bad_sign': draw(st.sampled_from(['>=', '==', '<', '=', '', '>', ' <=', None,
                                                                            'optimise']))}


def run_values(case):
    """Number of values returned by the objective, fitness used by hand."""
    k = case['conds']
    total = len(k) if k else 1
    pop = synth([[i] for i in range(4)])

    def ex(values, scalar=False):
        data = bga.GaData(num_generations=2)
        data.population = copy.deepcopy(pop)
        f = bga.HyperbolaFitness(obj_function=lambda x: values[0] if scalar else tuple(values), obj_value=case['target'],
                                 penalty=bga.DynamicPenalty() if k else None, conditions=list(k) if k else None)
        f.execute(data)
    vals = [0.5] * (total + case['off'])
    accepts(lambda: ex([0.5] * total, scalar=not k), f'{total} values for conditions {k}')
    if len(vals) != total and len(vals) >= 1:
        rejects(lambda: ex(vals), f'{len(vals)} returned values for conditions {k}')
    if k:
        rejects(lambda: ex([0.5], scalar=True), f'a single number for conditions {k}')
        for bad in ('dynamic', Duck(), bga.DynamicPenalty, 3):
            rejects(lambda: bga.HyperbolaFitness(obj_function=len, penalty=bad, conditions=list(k)),
                    f'a penalty that is not a penalty object, {bad!r},')
    return Info(True, [f'conds{len(k)}'])


SUBS = [
    Sub('mutation', st.fixed_dictionaries({'mut': st.sampled_from(sorted(MUTATIONS)), 'good': good_lvl, 'bad': bad_lvl}),
        run_mutation, 1200),
    Sub('transfer', st.fixed_dictionaries({'good': st.sampled_from(['best', 'random']), 'bad': bad_transfer}),
        run_transfer, 200),
    Sub('tournament', tournament_case(), run_tournament, 500),
    Sub('adaptive', adaptive_case, run_adaptive, 400),
    Sub('static', st.fixed_dictionaries({'k': st.integers(1, 6)}), run_static, 20),
    Sub('population', population_case(), run_population, 900),
    Sub('penalties', penalty_case(), run_penalty_values, 500),
    Sub('values', st.fixed_dictionaries({
        'conds': st.sampled_from([[], ['optimize', '<='], ['<=', 'optimize'], ['optimize', '<=', '!='],
                                  ['!=', '!=', 'optimize', '<=']]),
        'off': st.integers(-3, 4), 'target': st.sampled_from([None, 0])}), run_values, 120),
    Sub('frontends', front_case(), run_front, 1200),
]
