"""C13: VEGA: every objective gets the same share of the parents, selected on that objective alone."""
from collections import Counter

from hypothesis import strategies as st
from scipy.stats import binom

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..stats import P_MIN, chi2_ok
from ..sut import (SELECTIONS, Recorder, Run, assign_pairs, call, observe, require, tournament_floor)
from .c12 import balanced_law, draw_pairs, pair_law, ranked_law, tournament_law, trend

PROPERTY = 'C13'
RULE = ('A case is a generation with a score vector per member, a VEGA selection method, or a VEGA run. Oracle: pairs '
        'must be assignable to the objectives in equal numbers; frequencies against the even mixture of the '
        'single-objective laws; unambiguous generations (each objective has its own clear winners) count shares '
        'exactly. Non-trivial: at least 2 objectives and 2 pairs.')
ASSUMPTIONS = ['frequencies are rejected at p < 1e-10 only']
LAW = {'tournament': None, 'balanced': balanced_law, 'ranked': ranked_law}


def run_mixture(case):
    m, scores, sel = case['m'], case['scores'], case['sel']
    N = len(scores)
    s = call('selection', SELECTIONS['v' + sel], {'nobj': m, 'tsize': case['tsize']})
    pairs = draw_pairs(s, scores, total=3000, m=m, deco=case.get('deco'))
    T = len(pairs)
    exp = Counter()
    for o in range(m):
        col = [v[o] for v in scores]
        if sel == 'tournament':
            p = tournament_law(col, case['tsize'])
        else:
            p = LAW[sel](col)
        for k, v in pair_law(p).items():
            exp[k] += T / m * v
    w = f'VEGA {sel} {case["tsize"]} scores {scores}'
    chi2_ok(Counter(pairs), dict(exp), w + ': pairs')
    e1, o1 = Counter(), Counter(a for a, _b in pairs)
    for (i, _j), e in exp.items():
        e1[i] += e
    chi2_ok(o1, dict(e1), w + ': first parents')
    for o in range(m):
        col = [v[o] for v in scores]
        order = {i: r / N for r, i in enumerate(sorted(range(N), key=lambda i: col[i]))}
        trend(o1, dict(e1), order, w + f': first parents in the order of objective {o}')
    return Info(m >= 2, [sel, f'm{m}', 'negative' if min(map(min, scores)) < 0 else 'positive', case.get('size', 'small')])


def run_lone(case):
    """All objectives but one are the same for everyone (even odds there): whatever the sign of the scores, a better
    score in the remaining one never makes a member a rarer first parent."""
    m, col, o, sel = case['m'], case['col'], case['o'] % case['m'], case['sel']
    N = len(col)
    scores = [[col[i] if k == o else case['const'] for k in range(m)] for i in range(N)]
    s = call('selection', SELECTIONS['v' + sel], {'nobj': m, 'tsize': case['tsize']})
    pairs = draw_pairs(s, scores, total=4000, m=m, deco=case.get('deco'))
    first = Counter(a for a, _b in pairs)
    w = f'VEGA {sel} {case["tsize"]} scores {scores}'
    for i in range(N):
        for j in range(N):
            if col[i] >= col[j] and i != j:
                ci, cj = first[i], first[j]
                require(binom.sf(cj - 1, ci + cj, 0.5) > P_MIN,
                        lambda: f'{w}: member {j} was first parent {cj} times, member {i} only {ci} times')
    if max(col) > min(col):
        top, low = [first[i] for i in range(N) if col[i] == max(col)], [first[i] for i in range(N) if col[i] == min(col)]
        require(sum(top) / len(top) > sum(low) / len(low),
                lambda: f'{w}: the best of objective {o} are not preferred to the worst ({top} against {low})')
    return Info(max(col) > min(col) and m >= 2, [sel, f'm{m}', 'negative' if min(col) < 0 else 'positive'])


def run_exact(case):
    """Objective o is dominated by its own two members 2o and 2o+1: every pair shows which objective chose it."""
    m, sel = case['m'], case['sel']
    N = max(2 * m + case['extra'], 4)
    n = N - 1
    lo, hi = 1e-13, 1.0
    scores = [[hi + 0.001 * i if i // 2 == o and i < 2 * m else lo for o in range(m)] for i in range(N)]
    s = call('selection', SELECTIONS['v' + sel], {'nobj': m})
    for _ in range(20):
        pairs = draw_pairs(s, scores, total=1, m=m)
        k = int(1.0 * n / m)
        require(len(pairs) == m * k, lambda: f'VEGA {sel}: {len(pairs)} pairs for {m} objectives of {n} individuals, '
                                             f'expected {m} x {k}')
        got = Counter()
        for a, b in pairs:
            require(a // 2 == b // 2 and a < 2 * m, lambda: f'VEGA {sel}: pair {(a, b)} for scores {scores}')
            got[a // 2] += 1
        require(all(got[o] == k for o in range(m)), lambda: f'VEGA {sel}: pairs per objective {dict(got)}, expected {k} '
                                                            f'each')
    return Info(m >= 2 and k >= 1, [sel, f'm{m}'])


def options(parents, pop, m, tsize):
    cols = [[i['score'][o] for i in pop] for o in range(m)]
    out = []
    for a, b in zip(parents[::2], parents[1::2]):
        out.append([o for o in range(m) if tournament_floor(cols[o], a['score'][o], tsize)
                    and tournament_floor(cols[o], b['score'][o], tsize)])
    return out


def run_steps(cfg):
    r = Run(cfg)
    r.start()
    m = len(cfg['prob']['objs'])
    k = int(cfg['cp'] * cfg['n'] / m)
    for g in range(1, cfg['ngen']):
        pop = r.snapshot()
        r.select()
        require(len(r.data.parents) == 2 * m * k, lambda: f'generation {g}: {len(r.data.parents)} parents, expected '
                                                          f'{m} x {k} pairs')
        if cfg['sel'] == 'vtournament':
            check_share(r.data.parents, pop, m, k, cfg['tsize'], f'generation {g}')
        r.cross()
        r.mutate()
        r.renew()
        r.evaluate()
        r.update()
    return Info(cfg['ngen'] >= 2, [cfg['sel'], f'm{m}'])


def check_share(parents, pop, m, k, tsize, what):
    opts = options(parents, pop, m, tsize)
    require(assign_pairs(opts, m, k),
            lambda: f'{what}: the {len(opts)} pairs cannot be {k} winners of tournaments of {tsize} on each of {m} '
                    f'objectives (objectives each pair could have won: {opts})')


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    m = len(cfg['prob']['objs'])
    k = int(cfg['cp'] * cfg['n'] / m)
    for g in range(1, len(snaps)):
        par = snaps[g].parents
        require(len(par) == 2 * m * k, lambda: f'VEGA generation {g}: {len(par)} parents, expected {m} x {k} pairs')
        check_share(par, snaps[g - 1].pop, m, k, cfg['tsize'], f'VEGA generation {g}')
    return Info(len(snaps) >= 2, ['VEGA', f'm{m}', 'constrained' if cfg['prob'].get('conds') else 'free'])


@st.composite
def mixtures(draw):
    m = draw(st.sampled_from([2, 2, 3, 3, 4, 5, 6, 7]))
    N = draw(st.integers(max(4, m + 2), max(8, m + 2)))
    kind = draw(st.sampled_from(['pos', 'ties', 'grid']))
    s = {'pos': st.floats(0.01, 1.0).map(lambda x: round(x, 3)), 'grid': st.integers(1, 20).map(lambda x: x / 20),
         'ties': st.sampled_from([0.1, 0.5, 0.9])}[kind]
    scores = draw(st.lists(st.lists(s, min_size=m, max_size=m), min_size=N, max_size=N))
    scale = draw(st.sampled_from(['one', 'one', 'scaled', 'close']))
    if scale == 'scaled':
        f = [10.0 ** draw(st.integers(-12, 9)) for _ in range(m)]
        scores = [[v * x for v, x in zip(row, f)] for row in scores]
    elif scale == 'close':
        f = [10.0 ** -draw(st.integers(3, 12)) for _ in range(m)]
        scores = [[1.0 + v * x for v, x in zip(row, f)] for row in scores]
    sel = draw(st.sampled_from(['tournament', 'balanced', 'ranked']))
    if sel != 'balanced' and draw(st.booleans()):       # as without a target: the order of the scores decides
        scores = [[-v for v in row] for row in scores]
    return {'m': m, 'scores': scores,
            'sel': sel, 'tsize': draw(st.integers(2, N - 2)),
            'seed': draw(seeds), 'deco': draw(st.one_of(st.none(), st.integers(0, 999), st.integers(0, 999)))}


@st.composite
def crowds(draw):
    m = draw(st.sampled_from([2, 2, 3, 4, 6]))
    N = draw(st.integers(25, 80))
    sel = draw(st.sampled_from(['tournament', 'balanced', 'ranked']))
    cols = []
    for _ in range(m):
        base = draw(st.lists(st.integers(1, 400), min_size=8, max_size=8))
        k = draw(st.integers(1, 8))
        a = draw(st.integers(1, N - 1))
        cols.append([base[i * a % N % k] / 400 + (0 if k < 8 else i * a % N / 1000) for i in range(N)])
    sign = -1 if sel != 'balanced' and draw(st.booleans()) else 1
    return {'m': m, 'scores': [[sign * c[i] for c in cols] for i in range(N)], 'sel': sel,
            'tsize': draw(st.integers(2, N // 2)), 'seed': draw(seeds), 'size': 'crowd',
            'deco': draw(st.one_of(st.none(), st.integers(0, 999)))}


@st.composite
def lones(draw):
    m = draw(st.integers(2, 6))
    N = draw(st.integers(max(4, m + 2), 9))
    s = draw(st.sampled_from([st.integers(-100, -1), st.sampled_from([-3, -2, 0]), st.integers(-20, 20),
                              st.integers(0, 3), st.integers(-9, 9).map(lambda x: x * 1e-9), st.integers(1, 9)]))
    return {'m': m, 'o': draw(st.integers(0, 5)), 'col': draw(st.lists(s, min_size=N, max_size=N)),
            'const': draw(st.sampled_from([0, -1, 1, -7.5, 1e-9, 300])),
            'sel': draw(st.sampled_from(['balanced', 'balanced', 'tournament', 'ranked'])),
            'tsize': draw(st.integers(2, N - 2)), 'seed': draw(seeds), 'deco': draw(st.one_of(st.none(), st.integers(0, 999)))}


def high_pressure(c):
    return dict(c, tsize=max(2, c['n'] - 1 - c['n'] % 2))


SUBS = [
    Sub('lone', lones(), run_lone, 120, 900, cpu_s=60),
    Sub('crowd', crowds(), run_mixture, 48, 300, cpu_s=60),
    Sub('mixture', mixtures(), run_mixture, 360, 1500, cpu_s=60),
    Sub('exact', st.fixed_dictionaries({'m': st.integers(1, 8), 'extra': st.integers(0, 6),
                                        'sel': st.just('balanced'), 'seed': seeds}),
        run_exact, 300),
    Sub('stepwise', run_cfg(kinds=('binary', 'gray'), multi='vega', ngen_hi=6, ngen_lo=2).map(high_pressure), run_steps, 700),
    Sub('frontend', st.one_of(front_cfg(fronts=('VEGA',), ngen_hi=6, ngen_lo=2),
                              front_cfg(fronts=('VEGA',), ngen_hi=6, ngen_lo=2).map(high_pressure)), run_front, 700),
]
