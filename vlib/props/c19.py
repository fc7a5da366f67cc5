"""C19: a run is a function of its configuration and seed; without a seed, and between generations, it is random."""
import copy
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg
from ..sut import (HarnessError, MUTATIONS, REPO, Recorder, Run, Violation, baumeva, bga, call, fingerprint, first_diff,
                   require, run_any, seeded, synth)

PROPERTY = 'C19'
RULE = ('A case is a run configuration with seeds (0, small, 32-bit and larger), run several times in one process with '
        'other random numbers drawn and other runs made in between, or in separate processes with different string '
        'hashing; or operators applied repeatedly to the same generation. Oracle: equality of everything the run leaves '
        'behind (same seed), inequality where coincidence has probability below 1e-12 (different seed, no seed, next '
        'generation). Non-trivial: at least 2 generations, or more than one operator application.')
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

seeds19 = st.one_of(st.sampled_from([0, 0, 1, 42, 2 ** 32, 2 ** 32 + 1, 2 ** 64 + 3, 10 ** 30]), st.integers(0, 2 ** 31),
                    st.integers(0, 1000))


def result(cfg, seed, junk):
    seeded(seed, junk)
    rec = Recorder(cfg['prob'])
    return fingerprint(run_any(cfg, rec)), rec


def run_repeat(case):
    cfg, s = case['cfg'], case['seed']
    a, ra = result(cfg, s, case['junk'])
    if case['other'] is not None:        # an unrelated run in between, with its own seed
        result(case['other'], case['seed2'], 5)
    b, rb = result(cfg, s, case['junk'] + 12345)
    require(a == b, lambda: f'two runs with seed {s} differ: {first_diff(a, b)}')
    require(ra.calls == rb.calls, lambda: f'two runs with seed {s} call the objective function differently')
    return Info(cfg['ngen'] >= 2, [cfg['front'], 'seed0' if s == 0 else 'seed'])


WORKER = '''
import sys, json
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/vp-pycache'
sys.path.insert(0, sys.argv[1])
from vlib.sut import Recorder, Violation, fingerprint, run_any, seeded
import hashlib
job = json.load(sys.stdin)
for c in job['runs']:
    seeded(c['seed'], job['junk'])
    try:
        print(json.dumps(fingerprint(run_any(c['cfg'], Recorder(c['cfg']['prob'])))))
    except Violation as v:
        print(json.dumps('VIOLATION ' + v.message))
'''


def run_process(case):
    outs = []
    for hs in case['hash']:
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(PYTHONHASHSEED=str(hs), VP_REPO=REPO)
        p = subprocess.run([sys.executable, '-c', WORKER, HERE], input=json.dumps({'runs': case['runs'], 'junk': hs}),
                           capture_output=True, text=True, env=env, timeout=240)
        if p.returncode != 0:
            raise HarnessError('worker failed: ' + p.stderr[-2000:])
        outs.append([json.loads(line) for line in p.stdout.splitlines()])
    for i, (a, b) in enumerate(zip(*outs)):
        for r in (a, b):
            if r.startswith('VIOLATION '):
                raise Violation(r[10:])
        require(a == b, lambda: f'run {i} with seed {case["runs"][i]["seed"]} differs between two processes: '
                                f'{first_diff(a, b)}')
    return Info(True, ['runs%d' % len(case['runs'])])


def pairwise_distinct(xs, what):
    for i in range(len(xs)):
        for j in range(i):
            require(xs[i] != xs[j], lambda: f'{what}: applications {j + 1} and {i + 1} made the same random choices')


def run_fresh(case):
    """Operators applied again and again to one generation never repeat their random choices."""
    cfg, s = case['cfg'], case['seed']
    seeded(s, 3)
    r = Run(cfg)
    r.start()
    n = len(r.data.population)
    parents, pairs = [], []
    for k in range(6):
        if k > 3:                # another selection object
            from ..sut import SELECTIONS
            r.parts.selection = call('selection', SELECTIONS[cfg['sel']], {'tsize': cfg['tsize'], 'nobj': len(cfg['prob']['objs'])})
        r.select()
        ids = [p['idx_individ'] for p in r.data.parents]
        parents.append(ids)
        r.cross()
        r.mutate()
    # all scores are equal: every selection draws its pairs uniformly
    pairwise_distinct(parents, f'selection ({cfg["sel"]}, {n} individuals, seed {s})')
    labels = [cfg['sel'], 'unseeded' if s is None else 'seeded']
    return Info(True, labels)


def run_fresh_ops(case):
    """Crossover and mutation on fixed parents / children."""
    s, k = case['seed'], 40
    seeded(s, 3)
    data = bga.GaData(num_generations=5)
    pop = synth([[i * 100 + j for j in range(k)] for i in range(120)])      # every gene shows whose it is
    data.population = pop
    data.parents = pop.get_empty_copy()
    data.parents.extend(copy.deepcopy(dict(i)) for i in pop)
    cls = {'one': bga.OnePointCrossover, 'two': bga.TwoPointCrossover, 'uniform': bga.UniformCrossover,
           'order': bga.OrderCrossover}[case['cross']]
    cuts, roles = [], []

    def note():
        own = [[g // 100 % 2 for g in i['genotype']] for i in data.children]
        cuts.append([[x ^ o[0] for x in o] for o in own])
        roles.append([o[0] for o in own])
    for new in (True, False, False, False, True, True):     # one object again and again, new objects, another seed
        if new:
            op = cls()
        call('crossover', op.execute, data)
        note()
    if s is not None:
        seeded(s + 1, 3)
        call('crossover', cls().execute, data)
        note()
    require(len(cuts[0]) == 60, lambda: f'{len(cuts[0])} children of 60 pairs')
    pairwise_distinct(cuts, f'crossover ({case["cross"]}, seed {s}), cut points')
    pairwise_distinct(roles, f'crossover ({case["cross"]}, seed {s}), roles of the parents')
    name = case['mut'] if case['cross'] == 'order' else case['mut2']
    if case['cross'] == 'order':
        pop = bga.OrderCatPopulation()
        pop.set_params(num_individ=30, gens=(0, k - 1, k))
        call('fill', pop.fill)
        data.population = pop
    elif name == 'bin':
        pop = bga.BinaryPopulation()
        pop.set_params(num_individ=30, gens=((0, 1023, 1),) * 4)
        call('fill', pop.fill)
        data.population = pop
    elif name == 'cat':
        pop = bga.CatPopulation()
        pop.set_params(num_individ=30, gens=((0, 99, 1),) * 20)
        call('fill', pop.fill)
        data.population = pop
    for lvl in (0.5,) if name == 'bin' else (0.5, 1.0):      # at 1.0 only what is done to a child is random
        outs = []
        for new in (True, False, False, False, True, True):
            if new:
                mut = MUTATIONS[name](lvl)
            data.children = pop.get_empty_copy()
            data.children.extend(copy.deepcopy(dict(i)) for i in pop)
            call('mutation', mut.execute, data)
            outs.append([i['genotype'][:] for i in data.children])
        pairwise_distinct(outs, f'mutation ({name}, level {lvl}, seed {s})')
        # applied to one and the same child: the children of one application differ as well
        data.children = pop.get_empty_copy()
        data.children.extend(copy.deepcopy(dict(pop[0])) for _ in range(30))
        call('mutation', mut.execute, data)
        got = {repr(i['genotype']) for i in data.children}
        require(len(got) > 4, lambda: f'mutation ({name}, level {lvl}, seed {s}) of 30 equal children gave {len(got)} results')
    for i, ind in enumerate(pop):        # random transfer of parents: 15 of 29 in random order
        ind['score'] = ind['obj_score'] = i
    ng = bga.NewGeneration('random')
    outs = []
    for _ in range(4):
        data.population = pop
        data.children = pop.get_empty_copy()
        data.children.extend(copy.deepcopy(dict(i)) for i in pop[:15])
        for c in data.children:
            c['score'] = None
        call('new generation', ng.execute, data)
        outs.append([i['score'] for i in data.population])
    pairwise_distinct(outs, f'transfer of random parents (seed {s})')
    return Info(True, [case['cross'], name])


def run_generations(case):
    """A whole run through a front-end, all scores equal: the pairs chosen in different generations differ."""
    cfg, s = case['cfg'], case['seed']
    seeded(s, 9)
    from ..sut import observe
    _data, snaps = observe(cfg, Recorder(cfg['prob']))
    seqs = [[p['idx_individ'] for p in sn.parents] for sn in snaps[1:]]
    require(len(seqs) >= 2, lambda: f'the run stopped after {len(snaps)} generations')
    # later generations differ in content; identical choices of indices would be a repeated random sequence
    pairwise_distinct(seqs, f'{cfg["front"]} (seed {s}): selection in successive generations')
    return Info(True, [cfg['front'], 'unseeded' if s is None else 'seeded'])


def run_differ(case):
    cfg = case['cfg']
    s1, s2 = case['seeds']
    fps = []
    for s, junk in ((s1, 1), (s2, 1), (None, 1), (None, 1), (s1, 77)):
        seeded(s, junk)
        r = Run(cfg)
        r.start()
        fps.append(repr([i['genotype'] for i in r.data.population]))
    require(fps[0] == fps[4], lambda: f'the first generation of seed {s1} changed after other runs')
    for i, j, w in ((0, 1, f'seeds {s1} and {s2}'), (0, 2, f'seed {s1} and no seed'), (2, 3, 'two runs without a seed')):
        require(fps[i] != fps[j], lambda: f'{w} give the same first generation')
    return Info(True, [cfg['prob']['kind']])


FR = ('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA')


@st.composite
def repeat_case(draw):
    return {'cfg': draw(front_cfg(collector=True, n_hi=16, ngen_hi=8, ngen_lo=2)), 'seed': draw(seeds19),
            'junk': draw(st.integers(0, 99)), 'seed2': draw(seeds19),
            'other': draw(st.one_of(st.none(), front_cfg(collector=True, n_hi=8, ngen_hi=3)))}


@st.composite
def process_case(draw):
    runs = [{'cfg': draw(front_cfg(fronts=FR + ('CategoricalGA',), collector=True, n_hi=14, ngen_hi=6, ngen_lo=2)),
             'seed': draw(seeds19)} for _ in range(8)]
    return {'runs': runs, 'hash': draw(st.sampled_from([[0, 1], [1, 2], [17, 4242]]))}


WIDE = {'binary': [[0, 1000, 0.001]] * 4, 'gray': [[-5.5, 5.5, 0.0001]] * 4, 'cat': [{'r': [0, 999, 1]}] * 8,
        'order': [0, 39, 40]}


@st.composite
def const_cfg(draw, front=None):
    """All scores equal, more than enough pairs that a repetition cannot be a coincidence."""
    f = front or draw(st.sampled_from(FR))
    kind = {'CategoricalGA': 'cat', 'CombinatoryGA': 'order'}.get(f) or draw(st.sampled_from(['binary', 'gray']))
    n = draw(st.integers(12, 20))
    multi = f in ('VEGA', 'FFGA')
    prob = {'kind': kind, 'gens': WIDE[kind], 'objs': [{'f': 'const', 'salt': 0}] * (2 if multi else 1)}
    if multi:
        prob['multi'] = True
    from ..sut import FRONT_PARTS
    cfg = dict(FRONT_PARTS[f], prob=prob, n=n, cp=draw(st.sampled_from([0.95, 1.0, 0.8])), ngen=4, early=1000,
               mlvl=draw(st.sampled_from(['normal', 0.5])), transfer=draw(st.sampled_from(['best', 'random'])),
               tsize=draw(st.integers(2, 5)), front=f, target=None)
    if f == 'FFGA':
        cfg['n'] = 12
    return cfg


opt_seed = st.one_of(seeds19, st.none())


@st.composite
def fresh_case(draw):
    cfg = draw(const_cfg())
    if not cfg['prob'].get('multi'):
        cfg['sel'] = draw(st.sampled_from(['tournament', 'balanced', 'ranked']))
        cfg['cross'] = draw(st.sampled_from(['one', 'two', 'uniform'])) if cfg['prob']['kind'] != 'order' else 'order'
    elif cfg['fit'] == 'vega':
        cfg['sel'] = draw(st.sampled_from(['vtournament', 'vbalanced', 'vranked']))
    return {'cfg': cfg, 'seed': draw(opt_seed)}


SUBS = [
    Sub('repeat', repeat_case(), run_repeat, 500),
    Sub('processes', process_case(), run_process, 24, 300, cpu_s=300),
    Sub('fresh', fresh_case(), run_fresh, 200),
    Sub('fresh_operators', st.fixed_dictionaries({
        'cross': st.sampled_from(['one', 'two', 'uniform', 'order']),
        'mut': st.sampled_from(['swap', 'inversion', 'movement', 'shift']),
        'mut2': st.sampled_from(['bin', 'cat']), 'seed': opt_seed}), run_fresh_ops, 100),
    Sub('generations', st.fixed_dictionaries({'cfg': const_cfg(), 'seed': opt_seed}), run_generations, 120),
    Sub('differ', st.fixed_dictionaries({
        'cfg': const_cfg(), 'seeds': st.lists(seeds19, min_size=2, max_size=2, unique=True)}), run_differ, 80),
]
