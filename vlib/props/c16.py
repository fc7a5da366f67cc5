"""C16: the mutation level sets how often mutation happens."""
from collections import Counter

from hypothesis import strategies as st
from scipy.stats import binom

from ..core import Info, Sub
from ..gen import bin_gens, cat_gens, seeds
from ..stats import binom_ok, chi2_ok
from ..sut import MUTATIONS, allowed, baumeva, call, py_gens, random, ref_bits, require, watch_updates
from .c14 import law as cross_law
from .c15 import bin_pop, law as move_law, mutate, order_pop

PROPERTY = 'C16'
RULE = ('A case is a mutation operator at a level (number, or weak/normal/strong) on problems of generated length, one '
        'operator object possibly used on several problems, or a front-end run whose first generation is n copies of one '
        'point (so that every change in the second generation is a mutation). Oracle: binomial law of the changed '
        'bits/genes/children at the specified probability. Non-trivial: probability strictly between 0 and 1 or an '
        'exact extreme (0.0, 1.0) with at least 50 trials.')
ASSUMPTIONS = ['the library draws mutation with a resolution of 0.001, so probabilities are compared within +-0.001; '
               'rejected at p < 1e-10 only']
RES = 0.001001


def prob(op, lvl, length):
    if not isinstance(lvl, str):
        return lvl
    if op in ('bin', 'cat'):
        return min(1.0, {'weak': 0.3, 'normal': 1.0, 'strong': 3.0}[lvl] / length)
    return {'weak': 0.03, 'normal': 0.1, 'strong': 0.3}[lvl]


def check_count(k, n, p, what):
    if n == 0:
        return
    if p == 0:
        require(k == 0, lambda: f'{what}: {k} of {n} changed at level 0')
    elif p == 1:
        require(k == n, lambda: f'{what}: only {k} of {n} changed at level 1')
    else:
        binom_ok(k, n, p - RES, p + RES, what)


def run_bits(case):
    m = call('mutation', MUTATIONS['bin'], case['lvl'])
    ok = False
    for gens in case['spaces']:
        s = sum(ref_bits(g)[0] for g in gens)
        pop = bin_pop(gens, case['kind'])
        N = max(200, case.get('draws', 24000) // s)
        rng = random.Random(case['seed'])
        kids = [[rng.choice('01') for _ in range(s)] for _ in range(N)]
        out = mutate(m, kids, pop, case['lvl'], case['t'])
        p = prob('bin', case['lvl'], s)
        flips = [sum(x != y for x, y in zip(a, b)) for a, b in zip(kids, out)]
        w = f'bit string of {s}, level {case["lvl"]!r}'
        check_count(sum(flips), N * s, p, w)
        ok = True
        per_bit = [sum(a[j] != b[j] for a, b in zip(kids, out)) for j in range(s)]
        for j in range(s):
            check_count(per_bit[j], N, p, f'{w}: bit {j}')
        for bit in '01':
            rows = [(x, y) for a, b in zip(kids, out) for x, y in zip(a, b) if x == bit]
            check_count(sum(x != y for x, y in rows), len(rows), p, f'{w}: bits {bit}')
        if not isinstance(case['lvl'], str) and 0 < p < 1 and s <= 40:     # bits mutate independently
            chi2_ok(Counter(flips), {f: N * float(binom.pmf(f, s, p)) for f in range(s + 1)}, f'{w}: flips per child')
    return Info(ok, [str(case['lvl']) if isinstance(case['lvl'], str) else 'number', f'problems{len(case["spaces"])}'])


def run_cat(case):
    m = call('mutation', MUTATIONS['cat'], case['lvl'])
    ok = False
    for gens in case['spaces']:
        dom = [sorted(a, key=repr) for a in allowed('cat', gens)]
        L = len(gens)
        pop = bin_pop(gens, 'cat')
        N = max(300, case.get('draws', 24000) // L)
        rng = random.Random(case['seed'])
        kids = [[rng.choice(d) for d in dom] for _ in range(N)]
        out = mutate(m, kids, pop, case['lvl'], case['t'])
        p = prob('cat', case['lvl'], L)
        multi = [j for j, d in enumerate(dom) if len(d) > 1]
        check_count(sum(a[j] != b[j] for a, b in zip(kids, out) for j in multi), N * len(multi), p,
                    f'{L} categorical genes, level {case["lvl"]!r}')
        for j, d in enumerate(dom):
            k = sum(a[j] != b[j] for a, b in zip(kids, out))
            if len(d) == 1:
                require(k == 0, 'a gene with a single value changed')
            else:
                ok = True
                check_count(k, N, p, f'{L} categorical genes, level {case["lvl"]!r}: gene {j}')
    return Info(ok, [str(case['lvl']) if isinstance(case['lvl'], str) else 'number'])


def run_order(case):
    op = case['op']
    m = call('mutation', MUTATIONS[op], case['lvl'])
    for L in case['lens']:
        pop = order_pop(L)
        N = 14000 if isinstance(case['lvl'], str) else 5000
        rng = random.Random(case['seed'])
        kids = [rng.sample(range(L), L) for _ in range(N)]
        out = mutate(m, kids, pop, case['lvl'], case['t'])
        k = sum(list(a) != list(b) for a, b in zip(kids, out))
        check_count(k, N, prob(op, case['lvl'], L), f'{op} on {L} genes, level {case["lvl"]!r}')
    return Info(True, [op])


def run_front(case):
    """First generation: n copies of one point. Crossover of equal parents changes nothing, so what differs in the
    second generation was mutated."""
    front, lvl = case['front'], case['lvl']
    n, cp = case['n'], case['cp']
    gens, pt = case['gens'], case['point']
    kind = case['kind']
    multi = front in ('VEGA', 'FFGA')
    calls = []

    class R:
        pass
    R.calls = calls

    def obj(x):
        calls.append(list(x))
        return (1.0, 1.0) if multi else 1.0
    k = dict(num_generations=2, num_individ=n, gens=py_gens(kind, gens), obj_function=obj, children_percent=cp,
             early_stop=5, input_population=[list(pt)] * n, is_print=False)
    if lvl is not None:
        k['mutation_lvl'] = lvl
    if front in ('BinaryGA', 'VEGA', 'FFGA'):
        k['is_gray'] = kind == 'gray'
    with watch_updates(R) as snaps:
        ga = call('constructing', getattr(baumeva, front), **k)
        call('optimize', ga.optimize)
    require(len(snaps) == 2, f'{front}: {len(snaps)} generations instead of 2')
    base = snaps[0].pop[0]['genotype']
    c = 2 * int(cp * n / 2) if front == 'VEGA' else int(cp * n)
    lv = 'normal' if lvl is None else lvl
    w = f'{front} {kind} mutation_lvl={lvl!r}'
    if kind in ('binary', 'gray'):
        s = len(base)
        p = prob('bin', lv, s)
        flips = sum(sum(x != y for x, y in zip(base, i['genotype'])) for i in snaps[1].pop)
        check_count(flips, c * s, p, w + f': bits of {c} children of {s} bits')
    elif kind == 'cat':
        L = len(gens)
        dom = allowed('cat', gens)
        for j in range(L):
            k = sum(i['genotype'][j] != base[j] for i in snaps[1].pop)
            if len(dom[j]) > 1:
                check_count(k, c, prob('cat', lv, L), w + f': gene {j} of {L} in {c} children')
    else:
        # order crossover of equal parents may rotate them: compare with the law of crossover followed by movement
        p = prob('order', lv, gens[2])
        want = Counter()
        for child, q in cross_law('order', list(base), list(base)).items():
            want[child] += q * (1 - p)
            if p:
                for r, x in move_law('movement', list(child)).items():
                    want[r] += q * p * x
        got = Counter(tuple(i['genotype']) for i in snaps[1].pop)
        got[tuple(base)] -= len(snaps[1].pop) - c
        require(got[tuple(base)] >= 0, lambda: f'{w}: survivors are missing')
        if p == 0 or p == 1:
            for r in +got:
                require(r in want, lambda: f'{w}: {list(r)} from {base}')
        chi2_ok(+got, {r: c * x for r, x in want.items() if x > 0}, w + f': {c} children of {base}')
    return Info(True, [front, 'default' if lvl is None else ('named' if isinstance(lvl, str) else 'number')])


lvl = st.one_of(st.sampled_from(['weak', 'normal', 'strong', 0.0, 1.0]),
                st.sampled_from([0.001, 0.002, 0.004, 0.009, 0.019, 0.03, 0.05, 0.95, 0.995, 0.999]), st.integers(0, 1000).map(lambda x: x / 1000))


@st.composite
def front_case(draw):
    from ..gen import point
    f = draw(st.sampled_from(['BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA']))
    kind = {'CategoricalGA': 'cat', 'CombinatoryGA': 'order'}.get(f) or draw(st.sampled_from(['binary', 'gray']))
    if kind in ('binary', 'gray'):
        gens = draw(bin_gens(max_genes=4, max_bits=8))
    elif kind == 'cat':
        gens = draw(cat_gens())
    else:
        k = draw(st.integers(2, 5))
        gens = [0, k - 1, k]
    return {'front': f, 'kind': kind, 'gens': gens, 'point': draw(point(kind, gens)), 'n': {'FFGA': 60, 'CombinatoryGA': 900}.get(f, 300),
            'cp': draw(st.sampled_from([0.95, 1.0, 0.8])), 'lvl': draw(st.one_of(st.none(), lvl)), 'seed': draw(seeds)}


def many(gene, lo, hi):
    """One problem of lo to hi genes (all sizes alike, where lists() prefers short ones)."""
    return st.integers(lo, hi).flatmap(lambda n: st.lists(gene, min_size=n, max_size=n)).map(lambda g: [g])


gen_no = st.one_of(st.just(0), st.integers(0, 120))
tiny_bits = st.sampled_from([[[0, 1, 1]], [[0, 1, 1], [0, 1, 1]], [[0, 3, 1]], [[0, 7, 1]]])
bit_space = st.one_of(tiny_bits, bin_gens(max_genes=5, max_bits=8), bin_gens(max_genes=12, max_bits=8))
one_cat = st.sampled_from([[{'l': [1, 2]}], [{'r': [0, 4, 2]}], [{'l': ['a', 'b', 'c']}, {'l': [1, 2]}]])
cat_space = st.one_of(one_cat, cat_gens(), cat_gens(), cat_gens(wide=True))
short_gene = st.sampled_from([[0, 1, 1], [0, 3, 1], [0, 7, 1], [-1, 1, 0.25], [0, 15, 1]])
short_cat = st.sampled_from([{'l': [1, 2]}, {'r': [0, 4, 2]}, {'l': ['a', 'b', 'c']}, {'l': [0]}])
named = st.sampled_from(['weak', 'normal', 'strong', 'normal'])
SUBS = [
    Sub('bits', st.fixed_dictionaries({'lvl': lvl, 't': gen_no, 'kind': st.sampled_from(['binary', 'gray']),
                                       'spaces': st.lists(bit_space, min_size=1, max_size=3),
                                       'seed': seeds}), run_bits, 150, 2000, cpu_s=60),
    Sub('categories', st.fixed_dictionaries({'lvl': lvl, 't': gen_no, 'spaces': st.lists(cat_space, min_size=1, max_size=3), 'seed': seeds}),
        run_cat, 150, 2000, cpu_s=60),
    Sub('many_bits', st.fixed_dictionaries({'lvl': named, 't': gen_no, 'kind': st.sampled_from(['binary', 'gray']),
                                            'spaces': many(short_gene, 9, 110), 'seed': seeds, 'draws': st.just(200000)}),
        run_bits, 24, 400, cpu_s=60),
    Sub('many_categories', st.fixed_dictionaries({'lvl': named, 't': gen_no, 'seed': seeds, 'draws': st.just(100000),
                                                  'spaces': many(short_cat, 9, 150)}),
        run_cat, 16, 400, cpu_s=60),
    Sub('permutations', st.fixed_dictionaries({'lvl': lvl, 't': gen_no, 'op': st.sampled_from(['swap', 'inversion', 'movement', 'shift']),
                                               'lens': st.lists(st.integers(2, 12), min_size=1, max_size=2), 'seed': seeds}),
        run_order, 150, 2000, cpu_s=60),
    Sub('frontends', front_case(), run_front, 240, 2500, cpu_s=60),
]
