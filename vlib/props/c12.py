"""C12: selection pressure: how often each member becomes a parent."""
from collections import Counter
from math import comb

from hypothesis import strategies as st
from scipy.stats import binom

from ..core import Info, Sub
from ..gen import seeds
from ..stats import P_MIN, chi2_ok
from ..sut import SELECTIONS, bga, call, late, random, require, synth

PROPERTY = 'C12'
RULE = ('A case is a generation with given scores (spread, ties, extremes, non-positive) and a selection method; about '
        '3000 pairs are drawn and the frequencies of ordered pairs and of first parents compared with the law of the '
        'method. Non-trivial: the law gives at least two different probabilities or the generation has a tie.')
ASSUMPTIONS = ['frequencies are rejected at p < 1e-10 only; roulette weights are the scores when all scores are positive, '
               'otherwise only the order of the scores is used']
PAIRS = 3000


def tournament_law(scores, t):
    N = len(scores)
    t = min(t, N - 1)
    tot = comb(N, t)
    out = []
    for s in scores:
        low = sum(x < s for x in scores)
        eq = sum(x == s for x in scores)
        out.append((comb(low + eq, t) - comb(low, t)) / tot / eq)
    return out


def ranked_law(scores):
    w = []
    for s in scores:
        low = sum(x < s for x in scores)
        eq = sum(x == s for x in scores)
        w.append(low + (eq + 1) / 2)
    t = sum(w)
    return [x / t for x in w]


def balanced_law(scores):
    t = sum(scores)
    return [x / t for x in scores]


def pair_law(p):
    """Ordered pairs: the second parent by the same law among the rest."""
    cells = {}
    for i in range(len(p)):
        rest = sum(p[:i]) + sum(p[i + 1:])
        for j in range(len(p)):
            if i != j and p[i] > 0 and p[j] > 0:
                cells[(i, j)] = p[i] * p[j] / rest
    return cells


def draw_pairs(sel, scores, total=PAIRS, m=1, deco=None):
    """Ordered pairs of member numbers from repeated executions.

    `deco` seeds what must not matter: equal genotypes, infeasible members, Pareto ranks, objective values, and an
    earlier selection with the same object from another generation."""
    N = len(scores)
    n = N - 1
    rng = random.Random(deco)
    genos, extra = [[i] for i in range(N)], {}
    if deco is not None:
        k = rng.choice([1, 2, 3, N, 10 * N])
        genos = [[rng.randrange(k)] for _ in range(N)]
        extra = {'feasible': [rng.random() < rng.choice([0.2, 0.5, 0.8]) for _ in range(N)],
                 'rank': [rng.randint(1, 4) for _ in range(N)],
                 # as in a run: children have no number yet, survivors the one of their previous generation
                 'idx_individ': [rng.choice([None, rng.randrange(N)]) for _ in range(N)],
                 'obj_score': [[rng.uniform(-9, 9) for _ in range(m)] if m > 1 else rng.uniform(-9, 9) for _ in range(N)]}
    pop = synth(genos, scores, phenotype=[[i] for i in range(N)], **extra)
    pop.num_individ = n
    data = (bga.MultiGaData if m > 1 else bga.GaData)(num_generations=3, children_percent=1.0)
    data.population = pop
    out = []
    g = late(data, deco) if deco is not None and deco % 3 == 0 else 0
    if deco is not None and deco % 2:
        other = scores[1:] + scores[:1]
        for ind, s in zip(pop, other):
            ind['score'] = s
        for _ in range(1 + deco % 3):
            call('selection.execute', sel.execute, data)
        for ind, s in zip(pop, scores):
            ind['score'] = s
        if deco % 3 != 2:
            late(data, deco + 1, start=g + 1)
    while len(out) < total:
        call('selection.execute', sel.execute, data)
        ids = [p['phenotype'][0] for p in data.parents]
        require(len(ids) >= 2, 'selection returned no pair')
        out += list(zip(ids[::2], ids[1::2]))
    return out


def run(case):
    scores, sel = case['scores'], case['sel']
    N = len(scores)
    s = call('selection', SELECTIONS[sel], {'tsize': case['tsize']})
    pairs = draw_pairs(s, scores, case.get('pairs', PAIRS), deco=case.get('deco'))
    T = len(pairs)
    if sel == 'tournament':
        p = tournament_law(scores, case['tsize'])
    elif sel == 'ranked':
        p = ranked_law(scores)
    elif min(scores) > 0:
        p = balanced_law(scores)
    else:
        p = None
    w = f'{sel}{case["tsize"] if sel == "tournament" else ""} scores {scores}'
    first = Counter(a for a, _b in pairs)
    if p is not None:
        cells = {k: T * v for k, v in pair_law(p).items()}
        chi2_ok(first, {i: T * p[i] for i in range(N) if p[i] > 0}, w + ': first parent')
        chi2_ok(pairs_count(pairs), cells, w + ': pairs')
        second = Counter(b for _a, b in pairs)
        exp2 = Counter()
        for (i, j), e in cells.items():
            exp2[j] += e
        chi2_ok(second, dict(exp2), w + ': second parent')
        order = {i: r / N for r, i in enumerate(sorted(range(N), key=lambda i: scores[i]))}
        trend(first, {i: T * p[i] for i in range(N)}, order, w + ': first parent')
        trend(second, dict(exp2), order, w + ': second parent')
    else:
        for i in range(N):
            for j in range(N):
                if scores[i] >= scores[j] and i != j:
                    ci, cj = first[i], first[j]
                    # the better one is not chosen less often
                    require(binom.sf(cj - 1, ci + cj, 0.5) > P_MIN,
                            lambda: f'{w}: member {j} (score {scores[j]!r}) was first parent {cj} times, the member {i} '
                                    f'(score {scores[i]!r}) only {ci} times')
        if max(scores) - min(scores) > 0:
            best, worst = scores.index(max(scores)), scores.index(min(scores))
            require(first[best] > first[worst], lambda: f'{w}: the best score is not preferred ({first[best]} against '
                                                        f'{first[worst]} of {T})')
    return Info(len(set(scores)) > 1, [sel, 'ties' if len(set(scores)) < N else 'distinct',
                                       'nonpos' if min(scores) <= 0 else 'pos', case.get('scale', 'large')])


def trend(got, want, place, what):
    """Mean place in the score order of those selected: sensitive to a slightly wrong selection pressure."""
    T = sum(want.values())
    mean = sum(e * place[i] for i, e in want.items()) / T
    var = sum(e * (place[i] - mean) ** 2 for i, e in want.items()) / T
    if var * T < 20:
        return
    z = (sum(c * place[i] for i, c in got.items()) - T * mean) / (var * T) ** 0.5
    require(abs(z) < 7, lambda: f'{what}: the mean place of the selected in the score order is off by {z:.1f} standard '
                                f'deviations')


def pairs_count(pairs):
    return Counter(pairs)


@st.composite
def cases(draw):
    N = draw(st.integers(4, 9))
    kind = draw(st.sampled_from(['pos', 'pos', 'grid', 'ties', 'neg', 'neg_ties', 'dominant', 'sign', 'wide']))
    s = {'pos': st.floats(0.01, 1.0).map(lambda x: round(x, 3)), 'grid': st.integers(1, 50).map(lambda x: x / 50),
         'ties': st.sampled_from([0.1, 0.5, 0.9]), 'neg': st.integers(-100, -1), 'neg_ties': st.sampled_from([-3, -2, 0]),
         'dominant': st.sampled_from([0.001, 0.002, 1.0]), 'sign': st.integers(-20, 20),
         'wide': st.sampled_from([1, 10, 100, 1000])}[kind]
    scores = draw(st.lists(s, min_size=N, max_size=N))
    scale = draw(st.sampled_from(['one', 'one', 'scaled', 'close', 'dwarfed']))
    if scale == 'scaled':         # the laws do not depend on the unit
        f = 10.0 ** draw(st.integers(-12, 9))
        scores = [v * f for v in scores]
    elif scale == 'close':        # small differences count in full for tournaments and ranks
        f = 10.0 ** -draw(st.integers(3, 12))
        scores = [1.0 + v * f for v in scores]
    elif scale == 'dwarfed':      # one member above all: the others still compete for the second place
        f = 10.0 ** -draw(st.integers(6, 12))
        scores = [v * f for v in scores]
        scores[draw(st.integers(0, N - 1))] = 1.0
    return {'scores': scores, 'sel': draw(st.sampled_from(['tournament', 'balanced', 'ranked'])),
            'tsize': draw(st.integers(2, N - 2)), 'seed': draw(seeds), 'scale': scale,
            'deco': draw(st.one_of(st.none(), st.integers(0, 999), st.integers(0, 999)))}


@st.composite
def large_cases(draw):
    N = draw(st.one_of(st.integers(30, 110), st.integers(30, 110), st.integers(30, 110), st.integers(250, 320)))
    base = [draw(st.integers(1, 400)) / 400 for _ in range(min(N, 30))]
    scores = [base[i % len(base)] + (i // len(base)) / 1000 for i in range(N)]
    if draw(st.booleans()):       # many equal scores, in runs or mixed
        k = draw(st.integers(2, 5))
        scores = [base[i * k // N if k % 2 else i % k] for i in range(N)]
    return {'scores': scores,
            'sel': draw(st.sampled_from(['tournament', 'balanced', 'ranked'])),
            'tsize': draw(st.integers(2, N // 2)), 'seed': draw(seeds), 'pairs': 12000,
            'deco': draw(st.one_of(st.none(), st.integers(0, 999)))}


@st.composite
def dwarfed_cases(draw):
    """One member whose score is above all others: the first place is its, the others compete for the second."""
    N = draw(st.integers(4, 8))
    f = 10.0 ** -draw(st.integers(6, 13))
    scores = [draw(st.integers(1, 20)) * f for _ in range(N)]
    scores[draw(st.integers(0, N - 1))] = 1.0
    return {'scores': scores, 'sel': draw(st.sampled_from(['balanced', 'balanced', 'tournament', 'ranked'])),
            'tsize': draw(st.integers(2, N - 2)), 'seed': draw(seeds), 'scale': 'dwarfed',
            'deco': draw(st.one_of(st.none(), st.integers(0, 999)))}


SUBS = [Sub('dwarfed', dwarfed_cases(), run, 60, 400, cpu_s=60), Sub('frequencies', cases(), run, 700, 4000, cpu_s=60), Sub('large', large_cases(), run, 64, 400, cpu_s=60)]
