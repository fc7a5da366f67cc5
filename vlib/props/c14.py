"""C14: children are made of their own two parents, by the rule of the crossover operator."""
import copy
from collections import Counter
from itertools import product

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..stats import binom_ok, chi2_ok
from ..sut import CROSSOVERS, Recorder, Run, bga, call, content, late, observe, random, require, synth

PROPERTY = 'C14'
RULE = ('A case is a list of parent pairs whose genes are labelled with their owner and place, or a run. Oracle: the child '
        'must be one of the results the operator can produce from its pair; frequencies of the results against the law '
        '(cut points uniform over the inside of the genotype, both parents equally likely in each role). Non-trivial: '
        'genotypes of at least 2 genes.')
ASSUMPTIONS = ['frequencies are rejected at p < 1e-10 only']


def cuts(L):
    """Allowed (a, b) of a two-cut operator."""
    r = range(1, L) if L > 2 else range(L + 1)
    return [(a, b) for a in r for b in r if a < b]


def law(op, p, q):
    """Probability of each possible child of p and q (uniform crossover: None)."""
    L = len(p)
    out = Counter()
    if op == 'one':
        pts = range(1, L) if L > 1 else [1]
        for x, y in ((p, q), (q, p)):
            for c in pts:
                out[tuple(x[:c] + y[c:])] += 0.5 / len(pts)
    elif op == 'two':
        cs = cuts(L)
        for x, y in ((p, q), (q, p)):
            for a, b in cs:
                out[tuple(x[:a] + y[a:b] + x[b:])] += 0.5 / len(cs)
    elif op == 'order':
        cs = cuts(L)
        for x, y in ((p, q), (q, p)):
            for a, b in cs:
                seg = x[a:b]
                rest = [v for v in y if v not in seg]
                right = L - b
                out[tuple(rest[right:right + a] + seg + rest[:right])] += 0.5 / len(cs)
    return out


def possible(op, p, q, child):
    L = len(p)
    child = list(child)
    if len(child) != L:
        return False
    if op == 'uniform':
        return all(c == a or c == b for c, a, b in zip(child, p, q))
    lo, hi = (1, L - 1) if L > 2 else (0, L)        # allowed cut points of the two-cut operators
    for x, y in ((p, q), (q, p)):
        if op == 'one':
            if L == 1 and child == list(x):
                return True
            for c in range(1, L):
                if child[c - 1] != x[c - 1]:
                    break
                if child[c:] == list(y[c:]):
                    return True
        elif op == 'two':
            out = [j for j in range(L) if child[j] != x[j]]       # must come from y
            if out:
                a, b = out[0], out[-1] + 1
                if a >= lo and b <= hi and child[a:b] == list(y[a:b]):
                    return True
            elif any(child[j] == y[j] for j in range(lo, hi)):
                return True
        else:
            for a in range(lo, hi):
                for b in range(a + 1, hi + 1):
                    if child[b - 1] != x[b - 1]:
                        break
                    seg = set(x[a:b])
                    rest = [v for v in y if v not in seg]
                    if child[b:] == rest[:L - b] and child[:a] == rest[L - b:L - b + a]:
                        return True
    return False


def cross(op, pairs, filler=None):
    """Children of the given genotype pairs; checks what must hold for every operator."""
    flat = [g for pr in pairs for g in pr]
    parents = synth(flat, [1.0] * len(flat))
    data = bga.GaData(num_generations=2)
    data.population = synth(flat, [0.5] * len(flat))
    data.population[0]['feasible'] = False
    for i in parents:
        i['feasible'] = False
    data.parents = parents
    late(data, [len(flat), flat[0], flat[-1]])
    before = [content(i) for i in parents], [content(i) for i in data.population]
    c = op if not isinstance(op, str) else CROSSOVERS[op]()
    call('crossover', c.execute, data)
    require(([content(i) for i in data.parents], [content(i) for i in data.population]) == before,
            'crossover changed parents or population')
    require(len(data.children) == len(pairs), lambda: f'{len(data.children)} children of {len(pairs)} pairs')
    ids = [id(i['genotype']) for i in data.children]
    old = {id(i['genotype']) for i in data.parents} | {id(i['genotype']) for i in data.population}
    require(len(set(ids)) == len(ids) and not old & set(ids), 'a child shares its genotype with another individual')
    for k in data.children:
        require(k.get('score') is None and k.get('obj_score') is None and k.get('feasible') is True,
                lambda: f'a child starts with results of another individual: {k}')
        require(set(k) == set(data.population[0]), lambda: f'a child has the fields {sorted(k)}')
    return [k['genotype'] for k in data.children]


def run_labels(case):
    op = case['op']
    n = 0
    obj = CROSSOVERS[op]()
    for L in case['lens']:      # one operator object on problems of different length
        pairs = []
        for i in range(case['pairs']):
            if op == 'order':
                rng = random.Random(case['seed'] + i)
                dom = range(L + case['extra'])
                pairs.append((rng.sample(dom, L), rng.sample(dom, L)))
            else:
                pairs.append(([f'p{i}.{j}' for j in range(L)], [f'q{i}.{j}' for j in range(L)]))
        kids = cross(obj, pairs)
        for (p, q), k in zip(pairs, kids):
            n += 1
            require(possible(op, p, q, k), lambda: f'{op}: {k} is not a child of {p} and {q}')
            if op == 'order':
                require(len(set(k)) == L, lambda: f'order: {k} repeats a value')
    return Info(max(case['lens']) >= 2, [op])


ODD = (0, '', None, 1.5, ()), ('0', 1, 'x', -1, 'None')


def run_law(case):
    op, L = case['op'], case['L']
    rng = random.Random(case['seed'])
    if op == 'order':
        dom = range(case['off'], case['off'] + L + case['extra'])
        p, q = rng.sample(dom, L), rng.sample(dom, L)
    else:
        p, q = [f'p{j}' for j in range(L)], [f'q{j}' for j in range(L)]
        if case['odd']:
            p, q = [ODD[0][j % 5] for j in range(L)], [ODD[1][j % 5] for j in range(L)]
            if case['odd'] > 1:
                p, q = q, p
        for j in range(L):       # genes the parents have in common
            if L > 1 and rng.random() < case['share']:
                q[j] = p[j]
    want = law(op, p, q)
    T = max(2500, min(16000, 25 * len(want)))
    kids = cross(op, [(p, q)] * T)
    if op == 'uniform':
        def check(js, what):
            cells = Counter()
            for c in product(*[(p[j], q[j]) for j in js]):
                cells[c] += T / 2 ** len(js)
            chi2_ok(Counter(tuple(k[j] for j in js) for k in kids), cells, f'uniform crossover of {p} and {q}: {what}')
        for j in range(L):
            check([j], f'gene {j}')
        for j in range(L - 1):
            check([j, j + 1], f'genes {j}, {j + 1}')
        if L >= 3:
            check([0, L - 1], 'first and last gene')
        apart = [j for j in range(L) if p[j] != q[j]]
        if apart:
            flips = Counter(k[j] == p[j] for k in kids for j in apart)
            chi2_ok(flips, {x: T * len(apart) / 2 for x in (True, False)}, f'uniform crossover of {L}: genes of the first parent')
    else:
        for k in set(map(tuple, kids)):
            require((k in want) == possible(op, p, q, k), 'the two forms of the law disagree')
        chi2_ok(Counter(map(tuple, kids)), {k: T * v for k, v in want.items()}, f'{op} of {p} and {q}', min_expected=12)
    return Info(L >= 2, [op, f'L{min(L, 8)}'])


def run_long(case):
    """Long genotypes: every cut point and both roles, read off labelled genes (order crossover: disjoint values)."""
    op, L = case['op'], case['L']
    p, q = ([('p', j) for j in range(L)], [('q', j) for j in range(L)])
    T = 30 * L if L < 200 else 3000
    kids = cross(op, [(p, q)] * T)
    roles, first, last, lens = Counter(), Counter(), Counter(), Counter()
    for k in kids:
        own = [x[0] for x in k]
        x, y = (p, q) if own[0] == 'p' else (q, p)
        inner = y[0][0]
        require(len(k) == L and inner in own, lambda: f'{op} of {L}: child {k}')
        roles[own[0]] += 1
        a = own.index(inner)
        b = L - own[::-1].index(inner)
        first[a] += 1
        if op == 'one':
            want = x[:a] + y[a:]
        else:
            want = x[:a] + y[a:b] + x[b:] if op == 'two' else x[L - b:L - b + a] + y[a:b] + x[:L - b]
            last[b] += 1
            lens[b - a] += 1
        require(k == want, lambda: f'{op} of {L}: {k} is not a child of {p} and {q}')
    chi2_ok(roles, {'p': T / 2, 'q': T / 2}, f'{op} of length {L}: roles')
    if op == 'one':
        laws = [('cut', first, {c: 1 / (L - 1) for c in range(1, L)})]
    else:
        t = (L - 1) * (L - 2) / 2
        laws = [('first cut', first, {a: (L - 1 - a) / t for a in range(1, L - 1)}),
                ('second cut', last, {b: (b - 1) / t for b in range(2, L)}),
                ('length', lens, {n: (L - 1 - n) / t for n in range(1, L - 1)})]
    for name, got, want in laws:
        chi2_ok(got, {k: T * v for k, v in want.items()}, f'{op} of length {L}: {name}')
        for k, v in want.items():
            binom_ok(got[k], T, v, v, f'{op} of length {L}: {name} {k}')
    return Info(True, [op])


def run_steps(cfg):
    r = Run(cfg)
    r.start()
    for g in range(1, cfg['ngen']):
        r.select()
        par = [copy.deepcopy(dict(i)) for i in r.data.parents]
        r.cross()
        require(len(r.data.children) * 2 == len(par), lambda: f'{len(r.data.children)} children of {len(par)} parents')
        for i, k in enumerate(r.data.children):
            p, q = par[2 * i]['genotype'], par[2 * i + 1]['genotype']
            require(possible(cfg['cross'], p, q, k['genotype']),
                    lambda: f'generation {g} {cfg["cross"]}: {k["genotype"]} is not a child of {p} and {q}')
            require(k['score'] is None and k['obj_score'] is None and k['feasible'] is True,
                    lambda: f'generation {g}: a child starts with results of another individual: {k}')
        r.mutate()
        require([content(i) for i in r.data.parents] == [content(i) for i in par], 'mutating children changed parents')
        r.renew()
        r.evaluate()
        r.update()
    return Info(cfg['ngen'] >= 2, [cfg['cross'], cfg['prob']['kind']])


def run_front(cfg):
    """Without mutation every new individual is a child of a selected pair."""
    cfg = dict(cfg, mlvl=0.0)
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    n = 0
    for g in range(1, len(snaps)):
        par = [i['genotype'] for i in snaps[g].parents]
        pairs = list(zip(par[::2], par[1::2]))
        old = {repr(i['genotype']) for i in snaps[g - 1].pop}
        for i in snaps[g].pop:
            if repr(i['genotype']) not in old:
                n += 1
                require(any(possible(cfg['cross'], p, q, i['genotype']) for p, q in pairs),
                        lambda: f'{cfg["front"]} generation {g}: {i["genotype"]} is no child of a selected pair')
    return Info(n > 0, [cfg['front']])


ops = st.sampled_from(['one', 'two', 'uniform', 'order'])


@st.composite
def label_case(draw):
    op = draw(ops)
    lens = draw(st.lists(st.integers(2 if op == 'order' else 1, 30), min_size=1, max_size=3))
    if draw(st.integers(0, 4)) == 4:
        lens.append(draw(st.integers(31, 50 if op == 'order' else 160)))
    return {'op': op, 'lens': lens, 'pairs': draw(st.integers(1, 25)), 'extra': draw(st.sampled_from([0, 0, 1, 5, 30])),
            'seed': draw(seeds)}


@st.composite
def law_case(draw):
    op = draw(ops)
    return {'op': op, 'L': draw(st.integers(2 if op == 'order' else 1, {'one': 120, 'two': 25, 'uniform': 80, 'order': 14}[op])),
            'extra': draw(st.sampled_from([0, 0, 1, 4])), 'off': draw(st.sampled_from([0, 0, 1, -3, -40, 100])),
            'odd': draw(st.sampled_from([0, 0, 0, 1, 2])), 'share': draw(st.sampled_from([0, 0, 0.3, 0.7])), 'seed': draw(seeds)}


SUBS = [
    Sub('labels', label_case(), run_labels, 1600),
    Sub('law', law_case(), run_law, 200, 2000, cpu_s=60),
    Sub('long', st.fixed_dictionaries({'op': st.sampled_from(['one', 'two', 'order']), 'L': st.one_of(st.integers(15, 130), st.integers(15, 130), st.integers(260, 400)),
                                       'seed': seeds}), run_long, 40, 400, cpu_s=60),
    Sub('stepwise', run_cfg(n_hi=20, ngen_hi=6, ngen_lo=2), run_steps, 1200),
    Sub('frontends', front_cfg(n_hi=16, ngen_hi=5, ngen_lo=2), run_front, 700),
]
