"""C05: how the next generation is made up: all children plus unchanged survivors, never without the best."""
import copy
from collections import Counter
from itertools import combinations

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..stats import binom_ok, chi2_ok
from ..sut import Recorder, Run, bga, call, content, late, observe, random, require, synth

PROPERTY = 'C05'
RULE = ('A case is a run (front-end, CollectorGA, hand-driven with every selection/crossover/mutation) or a synthetic '
        'generation with generated duplicates and score ties plus a set of children. Oracle: multiset relation between '
        'consecutive generations. Non-trivial: at least one transition between generations was compared.')
ASSUMPTIONS = ['num_individ >= 3, children_percent gives at least one child']


def expected_children(cfg):
    m = len(cfg['prob']['objs'])
    if cfg['fit'] == 'vega':
        return m * int(cfg['cp'] * cfg['n'] / m)
    return int(cfg['cp'] * cfg['n'])


def is_front(ind):
    return ind.get('rank') == 1


def subtract(a, b):
    """multiset a - b and whether b is contained in a."""
    c = Counter(a)
    c.subtract(Counter(b))
    return +c, all(v >= 0 for v in c.values())


def check_transition(mode, transfer, n, prev, children, new, what, keys=None):
    """prev/new: populations (list of dicts) before/after forming the generation; children: the bred individuals."""
    def cont(i):
        return content(i) if keys is None else content(i, keys)
    rest, ok = subtract(map(cont, new), map(cont, children))
    require(ok, lambda: f'{what}: a child is missing from the new generation')
    _, ok = subtract(map(cont, prev), rest.elements())
    require(ok, lambda: f'{what}: the new generation contains an individual that is neither a child nor an unchanged, '
                        f'once-used member of the previous one')
    kept = list(rest.elements())
    if mode != 'ffga':
        require(len(new) == n + 1, lambda: f'{what}: {len(new)} individuals, expected num_individ + 1 = {n + 1} '
                                           f'({len(children)} children)')
    if mode != 'ffga':       # VEGA: lists of scores, compared objective by objective
        top = max(i['score'] for i in prev)
        require(any(cont(i) in rest for i in prev if i['score'] == top),
                lambda: f'{what}: no best individual (score {top!r}) of the previous generation survived')
        k = n + 1 - len(children)
        if transfer == 'best' and k > 0:
            order = sorted((i['score'] for i in prev), reverse=True)
            edge = order[k - 1]
            genos = {repr(i['genotype']) for i in prev if i['score'] > edge}
            got = Counter()
            for i in prev:
                if cont(i) in rest:
                    got[repr(i['genotype'])] += 1
            lost = [g for g in genos if g not in got]
            require(not lost, lambda: f'{what}: transfer_parents="best" lost top individuals {lost}')
            # a worse one only in place of one whose genotype another survivor has
            above = [repr(i['genotype']) for i in prev if i['score'] > edge]
            at = [repr(i['genotype']) for i in prev if i['score'] == edge]
            spare = len(above) - len(set(above)) + min(k - len(above), len(at) - len(set(at) - set(above)))
            bag = {cont(i): i['score'] for i in prev}
            worse = sum(bag[c] < edge for c in kept)
            require(worse <= spare, lambda: f'{what}: transfer_parents="best" kept {worse} individuals worse than the best {k}, '
                                            f'of which only {spare} can be duplicates')
            all_distinct = len({repr(i['genotype']) for i in prev}) == len(prev)
            if all_distinct:
                bag = {cont(i): i['score'] for i in prev}
                ks = sorted((bag[c] for c in kept), reverse=True)
                require(ks == order[:k], lambda: f'{what}: transfer_parents="best" kept scores {ks}, the best {k} of '
                                                 f'the previous generation are {order[:k]}')
    if mode == 'ffga' and transfer == 'best':
        want = Counter(cont(i) for i in prev if is_front(i))
        require(Counter(kept) == want, lambda: f'{what}: kept {len(kept)} individuals, the previous front has '
                                               f'{sum(want.values())} (not the same individuals)')
    return kept


def run_steps(cfg):
    mode = {'hyper': 'single', 'vega': 'vega', 'ffga': 'ffga'}[cfg['fit']]
    r = Run(cfg)
    r.start()
    last = max(i['score'] for i in r.data.population)
    want = expected_children(cfg)
    for g in range(1, cfg['ngen']):
        r.select()
        prev = r.snapshot()
        r.cross()
        r.mutate()
        kids = [copy.deepcopy(dict(i)) for i in r.data.children]
        require(len(kids) == want, lambda: f'generation {g}: {len(kids)} children, children_percent={cfg["cp"]} of '
                                           f'{cfg["n"]} asks for {want}')
        before = r.snapshot()
        require([content(a) for a in before] == [content(a) for a in prev],
                lambda: f'generation {g}: breeding changed the previous generation')
        r.renew()
        ids = [id(i) for i in r.data.population]
        require(len(set(ids)) == len(ids), lambda: f'generation {g}: one individual is in the new generation twice')
        check_transition(mode, cfg['transfer'], cfg['n'], prev, kids, r.snapshot(), f'generation {g}')
        r.evaluate()
        if mode != 'ffga':
            now = max(i['score'] for i in r.data.population)
            require(now >= last, lambda: f'generation {g}: best score of the population fell from {last!r} to {now!r}')
            last = now
        r.update()
    return Info(cfg['ngen'] >= 2, [mode, cfg['transfer'], cfg['prob']['kind']])


def run_front(cfg):
    """The same relation, observed from outside: survivors are previous individuals with unchanged results."""
    mode = {'hyper': 'single', 'vega': 'vega', 'ffga': 'ffga'}[cfg['fit']]
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    want = expected_children(cfg)
    keys = ('genotype', 'phenotype', 'obj_score', 'feasible') if mode == 'ffga' else None
    for g in range(1, len(snaps)):
        prev, new = snaps[g - 1].pop, snaps[g].pop
        w = f'{cfg["front"]} generation {g}'

        def cont(i):
            return content(i) if keys is None else content(i, keys)
        if mode != 'ffga':
            require(len(new) == cfg['n'] + 1, lambda: f'{w}: {len(new)} individuals, expected {cfg["n"] + 1}')
        inter = Counter(map(cont, prev)) & Counter(map(cont, new))
        k = len(new) - want
        require(sum(inter.values()) >= k,
                lambda: f'{w}: only {sum(inter.values())} of {len(new)} individuals are unchanged members of the '
                        f'previous generation, at least {k} must be')
        if mode != 'ffga':
            require(mode == 'vega' or snaps[g].calls - snaps[g - 1].calls == want,
                    lambda: f'{w}: {snaps[g].calls - snaps[g - 1].calls} evaluations, {want} children')
            top = max(i['score'] for i in prev)
            require(any(cont(i) in inter for i in prev if i['score'] == top), lambda: f'{w}: the best was lost')
            require(max(i['score'] for i in new) >= top, lambda: f'{w}: the best score fell')
            if cfg['transfer'] == 'best' and len({repr(i['genotype']) for i in prev}) == len(prev):
                edge = sorted((i['score'] for i in prev), reverse=True)[k - 1]
                for i in prev:
                    if i['score'] > edge:
                        require(cont(i) in inter, lambda: f'{w}: transfer_parents="best" lost {i["genotype"]} of score '
                                                          f'{i["score"]!r}, one of the best {k}')
        elif mode == 'ffga' and cfg['transfer'] == 'best':
            for i in prev:
                if is_front(i):
                    require(cont(i) in inter, lambda: f'{w}: non-dominated {i["phenotype"]} was dropped')
    return Info(len(snaps) >= 2, [cfg['front'], cfg['transfer']])


@st.composite
def generation(draw):
    n = draw(st.integers(3, 16))
    extra = draw(st.sampled_from([0, 1, 1]))
    size = n + extra
    pool = draw(st.integers(1, size))
    c = draw(st.integers(1, n))
    distinct = draw(st.booleans())
    front = [7] * draw(st.sampled_from([0, 0, 1, 9, 20]))       # genotypes may differ only far behind
    genos = [front + [i if distinct else draw(st.integers(0, pool)), 0] for i in range(size)]
    sc = draw(st.sampled_from(['by_genotype', 'ties', 'free']))
    if sc == 'free':
        scores = [draw(st.floats(-10, 10, allow_nan=False)) for _ in genos]
    elif sc == 'ties':
        scores = [draw(st.integers(0, 3)) for _ in genos]
    else:
        tab = draw(st.permutations(list(range(size + 1))))
        scores = [tab[g[-2] % len(tab)] for g in genos]
    kids = [front + [draw(st.integers(0, size)), 1 + draw(st.integers(0, 1))] for _ in range(c)]
    return {'n': n, 'genos': genos, 'scores': scores, 'kids': kids,
            'transfer': draw(st.sampled_from(['best', 'best', 'random'])), 'seed': draw(seeds)}


def prepare(case):
    pop = synth(case['genos'], case['scores'])
    pop.num_individ = case['n']
    kids = synth(case['kids'])
    data = bga.GaData(num_generations=2)
    data.population = pop
    data.children = kids
    late(data, [case['seed'], case['n']])
    return data


def run_synthetic(case):
    data = prepare(case)
    random.seed(case['seed'])
    prev = [copy.deepcopy(dict(i)) for i in data.population]
    kids = [copy.deepcopy(dict(i)) for i in data.children]
    ng = call('NewGeneration', bga.NewGeneration, case['transfer'])
    call('new generation', ng.execute, data)
    ids = [id(i) for i in data.population]
    require(len(set(ids)) == len(ids), 'one individual is in the new generation twice')
    check_transition('single', case['transfer'], case['n'], prev, kids, [dict(i) for i in data.population], 'synthetic')
    return Info(True, [case['transfer'], 'dups' if len({repr(g) for g in case['genos']}) < len(case['genos']) else
                       'distinct'])


def run_random(case):
    """'random': the survivors besides the best are a uniform sample without replacement."""
    n, c = case['n'], case['c']
    size = n + case['extra']
    k = n - c
    others = list(range(size - 1))
    cells = list(combinations(others, k))
    trials = max(400, 25 * len(cells)) if len(cells) <= 60 else 1500
    obs, single = Counter(), Counter()
    random.seed(case['seed'])
    order = list(range(size))
    random.shuffle(order)
    if case.get('alike'):      # different genotypes of the same values, or the same text: not duplicates
        genos = [[int('1' * (i // 2 + 1 + i % 2)), int('1' * (i // 2 + 2 - i % 2))] for i in order]
    else:
        genos = [[i, 0] for i in order]
    number = {tuple(g): i for g, i in zip(genos, order)}
    scores = [float(i) for i in order]
    ng = bga.NewGeneration('random')
    for _ in range(trials):
        data = bga.GaData(num_generations=2)
        data.population = _pop(genos, scores, n)
        data.children = _pop([[99, 9]] * c, [None] * c, c)
        late(data, case['seed'])
        call('new generation', ng.execute, data)
        kept = sorted(number[tuple(i['genotype'])] for i in data.population if tuple(i['genotype']) in number)
        require(kept and kept[-1] == size - 1, lambda: f'random transfer: the best is missing from {kept}')
        got = tuple(kept[:-1])
        require(len(set(got)) == k, lambda: f'random transfer kept {kept}, expected the best and {k} others')
        obs[got] += 1
        for i in got:
            single[i] += 1
    if len(cells) <= 60:
        chi2_ok(obs, {x: trials / len(cells) for x in cells}, f'random transfer of {k} of {len(others)}')
    for i in others:
        binom_ok(single[i], trials, k / len(others), k / len(others), f'random transfer keeps individual ranked {i} of '
                                                                      f'{size} (keeps {k} besides the best)')
    return Info(True, [f'k{min(k, 4)}'])


def _pop(genos, scores, n):
    st_ = random.getstate()
    pop = synth(genos, scores)
    random.setstate(st_)
    pop.num_individ = n
    return pop


@st.composite
def rand_case(draw):
    n = draw(st.integers(3, 12))
    return {'n': n, 'c': draw(st.integers(1, n - 1)), 'extra': draw(st.integers(0, 1)),
            'alike': draw(st.booleans()), 'seed': draw(seeds)}


SUBS = [
    Sub('stepwise', st.one_of(run_cfg(n_hi=30, ngen_hi=8, ngen_lo=2),
                              run_cfg(kinds=('binary', 'gray'), multi='vega', ngen_hi=6, ngen_lo=2),
                              run_cfg(kinds=('binary', 'gray'), multi='ffga', ngen_hi=6, ngen_lo=2)), run_steps, 1000),
    Sub('frontends', front_cfg(collector=True, n_hi=30, ngen_hi=8, ngen_lo=2), run_front, 700),
    Sub('synthetic', generation(), run_synthetic, 2500),
    Sub('random', rand_case(), run_random, 40),
    Sub('crowd', front_cfg(collector=True, n_lo=250, n_hi=400, ngen_lo=2, ngen_hi=3), run_front, 10, 60),
    Sub('large', front_cfg(fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'Collector1'), n_hi=120, n_lo=50,
                           ngen_hi=50, ngen_lo=30), run_front, 24, 200),
    Sub('few', st.builds(lambda c, k: dict(c, cp=(c['n'] - k + 0.5) / c['n']), front_cfg(
        fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'Collector1'), n_hi=120, n_lo=50, ngen_hi=20, ngen_lo=8),
                         st.sampled_from([1, 1, 2, 3])), run_front, 24, 200),
]
