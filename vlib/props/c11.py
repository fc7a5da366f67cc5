"""C11: what selection hands over: the right number of pairs of two different members, as copies."""
import copy
from collections import Counter

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..sut import SELECTIONS, Recorder, Run, bga, call, content, observe, require, synth, tournament_floor

PROPERTY = 'C11'
RULE = ('A case is a generation with given scores (ties, negatives, extremes, duplicates of genotypes) and a selection '
        'method, or a run. Oracle: pair count, membership, distinctness, independence of the copies, and the score a '
        'tournament winner must have. Non-trivial: at least one pair was selected.')
KEYS = ('genotype', 'phenotype', 'score', 'obj_score', 'feasible', 'rank')


def check_selected(parents, pop, pairs, sel, tsize, what, m=1, scores_of=None):
    require(len(parents) == 2 * pairs, lambda: f'{what}: {len(parents)} parents, expected {pairs} pairs')
    have = Counter(content(i, KEYS) for i in pop)
    for a, b in zip(parents[::2], parents[1::2]):
        ca, cb = content(a, KEYS), content(b, KEYS)
        require(ca in have and cb in have,
                lambda: f'{what}: parent {a if ca not in have else b} is not a member of the population')
        require(ca != cb or have[ca] > 1, lambda: f'{what}: a pair is made of one and the same member {a["genotype"]}')
    if sel == 'tournament':
        sc = [i['score'] for i in pop]
        for p in parents:
            require(tournament_floor(sc, p['score'], tsize),
                    lambda: f'{what}: parent of score {p["score"]!r} cannot have won a tournament of {tsize} among {sorted(sc)}')


def run_synthetic(case):
    scores = case['scores']
    m = case['m']
    vec = m > 1
    n, N = case['n'], len(scores)
    pop = synth(case['genos'], scores, rank=[1 + i % 3 for i in range(N)], phenotype=[[i] for i in range(N)])
    for i, k in zip(pop, case.get('stale') or []):    # numbers of the previous generation, none for children
        i['idx_individ'] = k
    for i in pop:
        i['obj_score'] = [1.0] * m
    pop.num_individ = n
    data = (bga.MultiGaData if vec else bga.GaData)(num_generations=3, children_percent=case['cp'])
    data.population = pop
    before = [copy.deepcopy(dict(i)) for i in pop]
    ids = [id(i) for i in pop]
    sel = call('selection', SELECTIONS[('v' if vec else '') + case['sel']], {'tsize': case['tsize'], 'nobj': m})
    for rep in range(2):
        call('selection.execute', sel.execute, data)
        require([id(i) for i in data.population] == ids or
                sorted(content(i, KEYS) for i in data.population) == sorted(content(i, KEYS) for i in before),
                lambda: f'{case["sel"]}: selection changed the population')
        pairs = m * int(case['cp'] * n / m) if vec else int(case['cp'] * n)
        w = f'{case["sel"]}{" (VEGA)" if vec else ""} of {N}, children_percent {case["cp"]} of {n}, execution {rep + 1}'
        check_selected(data.parents, before, pairs, case['sel'] if not vec else None, case['tsize'], w)
        pid = [id(i) for i in data.parents]
        require(len(set(pid)) == len(pid) and not set(pid) & set(ids), f'{w}: parents are not separate copies')
        for p in data.parents:
            p['genotype'][0] = 'spoilt'
            p['score'] = None
            p['phenotype'][0] = 'spoilt'
            p['obj_score'][0] = 'spoilt'
        require(sorted(content(i, KEYS) for i in data.population) == sorted(content(i, KEYS) for i in before),
                lambda: f'{w}: changing a parent changed the population')
    return Info(pairs > 0, [case['sel'], 'vega' if vec else 'single'])


def run_steps(cfg):
    r = Run(cfg)
    r.start()
    m = len(cfg['prob']['objs'])
    pairs = m * int(cfg['cp'] * cfg['n'] / m) if cfg['fit'] == 'vega' else int(cfg['cp'] * cfg['n'])
    for g in range(1, cfg['ngen']):
        before = r.snapshot()
        r.select()
        after = r.snapshot()
        require(sorted(content(i, KEYS) for i in after) == sorted(content(i, KEYS) for i in before),
                lambda: f'generation {g}: selection changed the population')
        check_selected(r.data.parents, before, pairs, cfg['sel'], cfg['tsize'], f'generation {g} {cfg["sel"]}')
        r.cross()
        r.mutate()
        require(sorted(content(i, KEYS) for i in r.snapshot()) == sorted(content(i, KEYS) for i in before),
                lambda: f'generation {g}: breeding changed the population')
        r.renew()
        r.evaluate()
        r.update()
    return Info(cfg['ngen'] >= 2, [cfg['sel'], cfg['prob']['kind']])


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    m = len(cfg['prob']['objs'])
    pairs = m * int(cfg['cp'] * cfg['n'] / m) if cfg['fit'] == 'vega' else int(cfg['cp'] * cfg['n'])
    for g in range(1, len(snaps)):
        check_selected(snaps[g].parents, snaps[g - 1].pop, pairs, cfg['sel'], cfg['tsize'], f'{cfg["front"]} generation {g}')
    return Info(len(snaps) >= 2, [cfg['front']])


@st.composite
def generation(draw):
    n = draw(st.integers(3, 15)) if draw(st.integers(0, 7)) else draw(st.integers(16, 150))
    N = n + draw(st.sampled_from([0, 1, 1, 5]))
    m = draw(st.sampled_from([1, 1, 1, 2, 3, 6]))
    if m > n:
        m = 1
    pool = draw(st.sampled_from([N * 10, N * 10, 2]))
    genos = [[i if pool > 2 else draw(st.integers(0, pool))] for i in range(N)]
    kind = draw(st.sampled_from(['pos', 'neg', 'ties', 'mixed', 'dominant', 'zero']))
    s = {'pos': st.floats(0.001, 1), 'neg': st.floats(-100, 0), 'ties': st.sampled_from([0.25, 0.5]),
         'mixed': st.floats(-5, 5), 'dominant': st.sampled_from([1e-12, 1e-9, 1.0]), 'zero': st.just(0)}[kind]
    base = [draw(s) for _ in range(min(N, 20) * m)]
    scores = [base[i % len(base)] if m == 1 else [base[(i * m + o) % len(base)] for o in range(m)] for i in range(N)]
    if kind == 'dominant' and m == 1:
        scores = [1e-15] * N
        scores[draw(st.integers(0, N - 1))] = 1.0
    cp = draw(st.sampled_from([0.95, 1.0, 0.5, 0.7]))
    if int(cp * n / m) < 1:
        cp = 1.0
    return {'n': n, 'genos': genos, 'stale': draw(st.one_of(st.none(), st.lists(st.one_of(st.none(), st.integers(0, N)), min_size=N, max_size=N))),
            'scores': scores, 'm': m, 'cp': cp, 'sel': draw(st.sampled_from(['tournament', 'balanced',
                                                                                                 'ranked'])),
            'tsize': draw(st.one_of(st.integers(2, n - 1), st.integers(2, min(n - 1, 5)))), 'seed': draw(seeds)}


SUBS = [
    Sub('synthetic', generation(), run_synthetic, 4000),
    Sub('stepwise', st.one_of(run_cfg(n_hi=25, ngen_hi=6, ngen_lo=2),
                              run_cfg(kinds=('binary', 'gray'), multi='vega', ngen_hi=5, ngen_lo=2),
                              run_cfg(kinds=('binary', 'gray'), multi='ffga', ngen_hi=5, ngen_lo=2)), run_steps, 1600),
    Sub('frontends', front_cfg(collector=True, n_hi=25, ngen_hi=6, ngen_lo=2), run_front, 1000),
    Sub('crowd', front_cfg(collector=True, n_lo=250, n_hi=400, ngen_lo=2, ngen_hi=3), run_front, 10, 60),
    Sub('large', front_cfg(fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'Collector1'), n_hi=120, n_lo=50,
                           ngen_hi=40, ngen_lo=15), run_front, 16, 200),
]
