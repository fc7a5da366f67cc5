"""C15: what a mutation does to a child, and that it reaches every result it should."""
import copy
import json
from collections import Counter

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import cat_gens, run_cfg, seeds
from ..stats import chi2_ok
from ..sut import MUTATIONS, POPS, Run, allowed, bga, call, content, late, py_gens, random, ref_bits, require, synth

PROPERTY = 'C15'
RULE = ('A case is a set of children and a mutation operator, mostly at level 1.0 (always mutate), or a run. Oracle: the '
        'result must be one the operator can produce from the child; frequencies of results against the law (places '
        'uniform); parents, population and other fields unchanged. Non-trivial: genotypes of at least 2 genes, or a '
        'gene with at least 2 values.')
ASSUMPTIONS = ['frequencies are rejected at p < 1e-10 only', 'categorical genes have distinct values']


def law(op, g):
    """Probability of each result of mutating the permutation g once."""
    L = len(g)
    out = Counter()
    if op == 'swap':
        for i in range(L):
            for j in range(i + 1, L):
                h = list(g)
                h[i], h[j] = h[j], h[i]
                out[tuple(h)] += 2 / (L * (L - 1))
    elif op == 'inversion':
        for i in range(L):
            for j in range(i + 1, L):
                out[tuple(g[:i] + g[i:j + 1][::-1] + g[j + 1:])] += 2 / (L * (L - 1))
    elif op == 'movement':
        for i in range(L):
            for j in range(L):
                if i != j:
                    h = list(g)
                    v = h.pop(i)
                    h.insert(j, v)
                    out[tuple(h)] += 1 / (L * (L - 1))
    else:
        top = max(1, L - 2)
        for c in range(1, top + 1):
            for s in range(L - c + 1):
                rest = g[:s] + g[s + c:]
                dest = [d for d in range(len(rest) + 1) if d != s]
                for d in dest:
                    out[tuple(rest[:d] + g[s:s + c] + rest[d:])] += 1 / top / (L - c + 1) / len(dest)
    return out


def possible(op, g, h):
    """h is what one mutation of g (distinct values) can give."""
    g, h = list(g), list(h)
    if len(g) != len(h) or g == h:
        return False
    diff = [j for j in range(len(g)) if g[j] != h[j]]
    l, r = diff[0], diff[-1] + 1
    a, b = g[l:r], h[l:r]
    if op == 'swap':
        return len(diff) == 2 and g[l] == h[r - 1] and g[r - 1] == h[l]
    if op == 'inversion':
        return b == a[::-1]
    if b[0] not in a:
        return False
    k = a.index(b[0])
    return b == a[k:] + a[:k] and (op == 'shift' or k == 1 or k == len(a) - 1)


def mutate(op, children, pop, lvl, t=0):
    """Mutate children (genotypes) of a generation `pop`; returns the new genotypes."""
    data = bga.GaData(num_generations=2)
    data.population = pop
    late(data, [len(children), list(children[0]) if children else 0, t], start=t)
    kids = pop.get_empty_copy()
    for g in children:
        k = pop.get_empty_individ()
        k['genotype'] = list(g)
        kids.append(k)
    data.children = kids
    data.parents = pop.get_empty_copy()
    data.parents.extend(copy.deepcopy(i) for i in pop)
    before = [content(i) for i in pop], [content(i) for i in data.parents]
    other = [{k: v for k, v in i.items() if k != 'genotype'} for i in kids]
    m = op if not isinstance(op, str) else call('mutation', MUTATIONS[op], lvl)
    call('mutation.execute', m.execute, data)
    require(([content(i) for i in data.population], [content(i) for i in data.parents]) == before,
            'mutation changed parents or population')
    require(len(data.children) == len(children), 'mutation changed the number of children')
    require([{k: v for k, v in i.items() if k != 'genotype'} for i in data.children] == other,
            'mutation changed another field of a child')
    return [i['genotype'] for i in data.children]


def order_pop(L, extra=0, n=3):
    pop = bga.OrderCatPopulation()

    def f():
        pop.set_params(num_individ=n, gens=(0, L - 1 + extra, L), input_population=None)
        pop.fill()
    call('population', f)
    return pop


def run_order(case):
    op = case['op']
    m = call('mutation', MUTATIONS[op], case['lvl'])
    rng = random.Random(case['seed'])
    moved = 0
    for L in case['lens']:
        pop = order_pop(L, case['extra'])
        kids = [rng.sample(range(L + case['extra']), L) for _ in range(case['n'])]
        out = mutate(m, kids, pop, case['lvl'])
        for a, b in zip(kids, out):
            ok = possible(op, a, b)
            if case['lvl'] == 1.0:
                require(ok, lambda: f'{op} at level 1.0: {a} became {b}')
            else:
                require(ok or list(a) == list(b), lambda: f'{op} at level {case["lvl"]}: {a} became {b}')
            require(sorted(a) == sorted(b), lambda: f'{op}: {a} became {b}, not a permutation')
            moved += list(a) != list(b)
    return Info(moved > 0, [op, 'lvl1' if case['lvl'] == 1.0 else 'lvl<1'])


def run_law(case):
    op, L = case['op'], case['L']
    pop = order_pop(L)
    g = random.Random(case['seed']).sample(range(L), L)
    want = law(op, g)
    T = max(2500, min(16000, 25 * len(want)))
    out = mutate(op, [g] * T, pop, 1.0)
    for k in set(map(tuple, out)):
        require((k in want) == possible(op, g, k), 'the two forms of the law disagree')
    chi2_ok(Counter(map(tuple, out)), {k: T * v for k, v in want.items()}, f'{op} of {g}', min_expected=12)
    return Info(len(want) >= 2, [op, f'L{L}'])


def ranges(op, L):
    """Probability of each range of positions [l, r] outside of which a mutation leaves everything in place."""
    out = Counter()
    if op in ('swap', 'inversion'):
        for i in range(L):
            for j in range(i + 1, L):
                out[(i, j)] += 2 / (L * (L - 1))
    elif op == 'movement':
        for i in range(L):
            for j in range(L):
                if i != j:
                    out[(min(i, j), max(i, j))] += 1 / (L * (L - 1))
    else:
        top = max(1, L - 2)
        for c in range(1, top + 1):
            for s in range(L - c + 1):
                for d in range(L - c + 1):
                    if d != s:
                        out[(min(s, d), max(s, d) + c - 1)] += 1 / top / (L - c + 1) / (L - c)
    return out


def run_places(case):
    """Long permutations: where mutations begin, where they end, and how far they reach."""
    op, L = case['op'], case['L']
    T = 5000 if L <= 60 else 2500
    pop = order_pop(L)
    g = random.Random(case['seed']).sample(range(L), L)
    out = mutate(op, [g] * T, pop, 1.0)
    obs = []
    for h in out:
        require(possible(op, g, h), lambda: f'{op}: {g} became {h}')
        diff = [j for j in range(L) if g[j] != h[j]]
        obs.append((diff[0], diff[-1]))
    want = ranges(op, L)
    for what, f in (('first place', lambda k: k[0]), ('last place', lambda k: k[1]), ('reach', lambda k: k[1] - k[0])):
        exp = Counter()
        for k, v in want.items():
            exp[f(k)] += T * v
        chi2_ok(Counter(map(f, obs)), dict(exp), f'{op} of {L} genes: {what}')
    return Info(True, [op])


def bin_pop(gens, kind='binary', n=2):
    pop = POPS[kind]()

    def f():
        pop.set_params(num_individ=n, gens=py_gens(kind, gens), input_population=None)
        pop.fill()
    call('population', f)
    return pop


def run_bits(case):
    gens = case['gens']
    pop = bin_pop(gens, case['kind'])
    s = sum(ref_bits(g)[0] for g in gens)
    rng = random.Random(case['seed'])
    kids = [[rng.choice('01') for _ in range(s)] for _ in range(case['n'])]
    out = mutate('bin', kids, pop, case['lvl'])
    for a, b in zip(kids, out):
        require(len(a) == len(b) and all(x in ('0', '1') for x in b), lambda: f'{"".join(a)} became {b}')
        if case['lvl'] == 1.0:
            require(all(x != y for x, y in zip(a, b)), lambda: f'level 1.0: {"".join(a)} became {"".join(b)}')
        if case['lvl'] == 0.0:
            require(a == b, lambda: f'level 0.0: {"".join(a)} became {"".join(b)}')
    if case['lvl'] == 0.5:       # every bit, each way
        for j in range(s):
            for bit in '01':
                rows = [(a, b) for a, b in zip(kids, out) if a[j] == bit]
                if len(rows) >= 60:
                    require(any(a[j] != b[j] for a, b in rows), lambda: f'bit {j} of {s} never flips from {bit}')
                    require(any(a[j] == b[j] for a, b in rows), lambda: f'bit {j} of {s} always flips from {bit}')
    return Info(s >= 2, [case['kind'], str(case['lvl'])])


def run_cat(case):
    gens = case['gens']
    dom = [sorted(a, key=repr) for a in allowed('cat', gens)]
    pop = bin_pop(gens, 'cat')
    rng = random.Random(case['seed'])
    T = 1200
    base = json.loads(json.dumps([rng.choice(d) for d in dom]))     # equal values, not the same objects
    out = mutate('cat', [base] * T, pop, case['lvl'])
    for b in out:
        require(len(b) == len(base), lambda: f'{base} became {b}')
        for j, v in enumerate(b):
            require(v in dom[j], lambda: f'gene {j} became {v!r}, not one of {dom[j]}')
    for j, d in enumerate(dom):
        others = [v for v in d if v != base[j]]
        if not others:
            require(all(b[j] == base[j] for b in out), 'a gene with a single value changed')
            continue
        if case['lvl'] == 1.0:
            require(all(b[j] != base[j] for b in out), lambda: f'level 1.0: gene {j} = {base[j]!r} kept its value')
        if case['lvl'] == 0.0:
            require(all(b[j] == base[j] for b in out), lambda: f'level 0.0: gene {j} changed')
        ch = Counter(repr(b[j]) for b in out if b[j] != base[j])
        k = sum(ch.values())
        if k >= 200:
            chi2_ok(ch, {repr(v): k / len(others) for v in others}, f'categorical gene {gens[j]} from {base[j]!r}')
    return Info(any(len(d) > 1 for d in dom), [str(case['lvl'])])


def run_steps(cfg):
    r = Run(cfg)
    r.start()
    op = cfg['mut']
    dom = [sorted(a, key=repr) for a in allowed('cat', cfg['prob']['gens'])] if op == 'cat' else None
    for g in range(1, cfg['ngen']):
        r.select()
        kept = [content(i) for i in r.data.population], [content(i) for i in r.data.parents]
        r.cross()
        before = [copy.deepcopy(dict(i)) for i in r.data.children]
        r.mutate()
        for a, b in zip(before, r.data.children):
            x, y = a['genotype'], b['genotype']
            if op == 'bin':
                ok = len(x) == len(y) and all(v in ('0', '1') for v in y) and \
                    (cfg['mlvl'] != 1.0 or all(p != q for p, q in zip(x, y)))
            elif op == 'cat':
                ok = len(x) == len(y) and all(v in d for v, d in zip(y, dom)) and \
                    (cfg['mlvl'] != 1.0 or all(p != q or len(d) == 1 for p, q, d in zip(x, y, dom)))
            else:
                ok = possible(op, x, y) or (x == y and cfg['mlvl'] != 1.0)
            require(ok, lambda: f'generation {g}: {op} at {cfg["mlvl"]} turned {x} into {y}')
            require(cfg['mlvl'] != 0.0 or x == y, lambda: f'generation {g}: level 0.0 turned {x} into {y}')
            require(b['score'] is None and b['obj_score'] is None, 'mutation set a score')
        require(([content(i) for i in r.data.population], [content(i) for i in r.data.parents]) == kept,
                lambda: f'generation {g}: crossover {cfg["cross"]} and {op} mutation changed parents or population')
        r.renew()
        r.evaluate()
        r.update()
    return Info(cfg['ngen'] >= 2, [op])


orders = st.sampled_from(['swap', 'inversion', 'movement', 'shift'])
lvls = st.sampled_from([1.0, 1.0, 0.5, 0.0, 'strong'])
lengths = st.one_of(st.integers(2, 14), st.integers(2, 14), st.integers(2, 14), st.integers(15, 60))


@st.composite
def law_case(draw):
    op = draw(orders)
    return {'op': op, 'L': draw(st.integers(2, 12 if op == 'shift' else draw(st.sampled_from([8, 8, 26])))), 'seed': draw(seeds)}


SUBS = [
    Sub('permutations', st.fixed_dictionaries({'op': orders, 'lens': st.lists(lengths, min_size=1, max_size=3),
                                               'n': st.integers(1, 12), 'extra': st.sampled_from([0, 0, 3]),
                                               'lvl': st.sampled_from([1.0, 1.0, 0.5, 'strong']), 'seed': seeds}),
        run_order, 1400),
    Sub('law', law_case(), run_law, 200, 2000, cpu_s=60),
    Sub('places', st.one_of(st.fixed_dictionaries({'op': orders, 'L': st.integers(9, 60), 'seed': seeds}),
                            st.fixed_dictionaries({'op': orders, 'L': st.integers(9, 60), 'seed': seeds}),
                            st.fixed_dictionaries({'op': orders, 'L': st.integers(70, 110), 'seed': seeds}),
                            st.fixed_dictionaries({'op': st.sampled_from(['swap', 'inversion', 'movement']),
                                                   'L': st.integers(260, 400), 'seed': seeds})),
         run_places, 96, 1000, cpu_s=60),
    Sub('bits', st.fixed_dictionaries({'gens': st.lists(st.sampled_from([[0, 1, 1], [0, 7, 1], [0, 5, 1], [-3, 3, 0.1],
                                                                         [0, 100, 1], [0, 100000, 1]]), min_size=1, max_size=12),
                                       'kind': st.sampled_from(['binary', 'gray']), 'n': st.sampled_from([1, 5, 300]),
                                       'lvl': st.sampled_from([1.0, 0.5, 0.0]), 'seed': seeds}), run_bits, 480),
    Sub('categories', st.fixed_dictionaries({'gens': st.one_of(cat_gens(max_genes=5), cat_gens(max_genes=5), cat_gens(wide=True)), 'lvl': st.sampled_from([1.0, 0.5, 0.0, 'strong']),
                                             'seed': seeds}), run_cat, 320),
    Sub('stepwise', run_cfg(n_hi=16, ngen_hi=5, ngen_lo=2), run_steps, 1000),
]
