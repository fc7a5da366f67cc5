"""C01: every candidate stays inside the declared search space."""
from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..sut import (MUTATIONS, SELECTIONS, Recorder, Run, baumeva, bga, call, check_point, point_of, ref_bits, require,
                   run_any, silent)

PROPERTY = 'C01'
RULE = ('A case is a generated problem (binary, Gray, categorical or combinatory gens; objective; optional conditions) '
        'with a full operator/parameter configuration, run by a front-end, CollectorGA or by hand; every argument of '
        'the objective and every member of population, parents and children is tested for membership in the declared '
        'space. Non-trivial: the run bred at least one generation of children (num_generations >= 2).')
ASSUMPTIONS = ['lo < hi and step > 0 for binary genes; at least one value per categorical gene; genotypes of a '
               'combinatory problem have at least 2 genes']


def check_genotype(kind, gens, g, what):
    require(isinstance(g, list), lambda: f'{what}: genotype is {type(g).__name__}')
    if kind in ('binary', 'gray'):
        total = sum(ref_bits(x)[0] for x in gens)
        require(len(g) == total and all(b in ('0', '1') for b in g),
                lambda: f'{what}: genotype {g} is not a string of {total} bits')
    else:
        check_point(kind, gens, g, what)


def check_all(cfg, inds, what, decoded=True):
    kind, gens = cfg['prob']['kind'], cfg['prob']['gens']
    for i, ind in enumerate(inds):
        w = f'{what}[{i}]'
        check_genotype(kind, gens, ind['genotype'], w)
        if kind in ('binary', 'gray') and decoded:
            check_point(kind, gens, ind['phenotype'], w)


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    data = run_any(cfg, rec)
    check_all(cfg, data.population, 'final population')
    if cfg['prob'].get('multi'):
        check_all(cfg, data.best_solution['pareto_set'], 'pareto set')
        for h in data.historical_best:
            check_all(cfg, h, 'historical Pareto set')
    else:
        check_all(cfg, [data.best_solution], 'best solution')
    return Info(cfg['ngen'] >= 2, [cfg['front'], cfg['prob']['kind']])


def run_steps(cfg):
    r = Run(cfg)
    check_all(cfg, r.data.population, 'first generation')
    r.start()
    for g in range(1, cfg['ngen']):
        r.select()
        check_all(cfg, r.data.parents, f'generation {g} parents')
        r.cross()
        check_all(cfg, r.data.children, f'generation {g} after crossover', decoded=False)
        r.mutate()
        check_all(cfg, r.data.children, f'generation {g} after mutation', decoded=False)
        r.renew()
        r.evaluate()
        check_all(cfg, r.data.population, f'generation {g} population')
        for ind in r.data.population:
            p = point_of(r.kind, ind)
            check_point(r.kind, r.gens, p, 'population')
        r.update()
    return Info(cfg['ngen'] >= 2, [cfg['prob']['kind'], cfg['cross'], cfg['mut']])


@st.composite
def word_case(draw):
    """The documented word-search use: a whole first generation of permutations of the user's own symbols."""
    k = draw(st.integers(2, 12))
    syms = draw(st.permutations('ABCDEFGHIJKLMNOPQRSTUVWXYZ'))[:k]
    n = draw(st.integers(3, 20))
    return {'syms': syms, 'n': n, 'pop': draw(st.lists(st.permutations(syms), min_size=n, max_size=n)),
            'mut': draw(st.sampled_from(['swap', 'inversion', 'movement', 'shift'])),
            'sel': draw(st.sampled_from(['tournament', 'balanced', 'ranked'])),
            'mlvl': draw(st.sampled_from([0.35, 1.0, 'strong'])), 'seed': draw(seeds),
            'transfer': draw(st.sampled_from(['best', 'random'])), 'ngen': draw(st.integers(2, 8))}


def run_word(case):
    syms = sorted(case['syms'])
    calls = [0]

    def obj(x):
        calls[0] += 1
        require(sorted(x) == syms, lambda: f'{x} is not a permutation of the supplied symbols {syms}')
        return sum(a != b for a, b in zip(x, case['syms']))

    parts = dict(fitness=bga.HyperbolaFitness(obj_function=obj, obj_value=0), selection=SELECTIONS[case['sel']]({'tsize': 2}),
                 crossover=bga.OrderCrossover(), mutation=MUTATIONS[case['mut']](case['mlvl']),
                 new_generation=bga.NewGeneration(case['transfer']))
    c = baumeva.CollectorGA(**parts)

    def go():
        with silent():
            c.set_population(population=bga.OrderCatPopulation, num_individ=case['n'], num_generations=case['ngen'],
                             gens=(0, len(syms) - 1, len(syms)), input_population=case['pop'], early_stop=100)
            c.optimize()
    call('word search', go)
    for ind in c.ga_data.population:
        require(sorted(ind['genotype']) == syms, lambda: f'{ind["genotype"]} is not a permutation of {syms}')
    return Info(True, [case['mut']])


SUBS = [
    Sub('frontends', front_cfg(collector=True, n_hi=40, ngen_hi=10), run_front, 1200),
    Sub('stepwise', run_cfg(n_hi=40, ngen_hi=8, ngen_lo=2), run_steps, 1500),
    Sub('large', st.one_of(front_cfg(collector=True, n_hi=120, ngen_hi=30, ngen_lo=15, n_lo=60, max_genes=20),
                           front_cfg(n_hi=30, ngen_hi=60, ngen_lo=30)), run_front, 48, 300),
    Sub('words', word_case(), run_word, 300),
]
