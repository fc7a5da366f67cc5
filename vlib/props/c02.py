"""C02: binary and Gray coding is a faithful, fine-enough grid over each gene's range."""
from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import bin_gene, bin_gens, front_cfg, run_cfg, seeds
from ..sut import POPS, Recorder, Run, bga, call, observe, py_gens, ref_bits, ref_decode, require, tol

PROPERTY = 'C02'
RULE = ('A case is a list of (min, max, step) genes, given as decimals whose quotients are inexact in floating point '
        'as well as integers, and a set of bit strings to decode (all of them when there are at most 2^9). Oracle: '
        'exact rational arithmetic on the decimals. Non-trivial: more than one gene, or a gene of at least 2 bits.')
ASSUMPTIONS = ['lo < hi, step > 0, genes written as decimals with at most 12 places and ranges of more than one unit in 10^13; equality up to 1e-9 of the range']


def decode(kind, gens, genotypes):
    """Decoded values of given bit strings, through population and fitness as in a run."""
    pop = POPS[kind]()
    seen = []

    def obj(x):
        seen.append(x)
        return 0

    def build():
        pop.set_params(num_individ=len(genotypes), gens=py_gens(kind, gens), input_population=None)
        pop.fill()
    call('fill', build)
    total = sum(ref_bits(g)[0] for g in gens)
    for ind in pop:
        require(len(ind['genotype']) == total,
                lambda: f'gens {gens}: genotype of {len(ind["genotype"])} bits, the fewest bits not coarser than the '
                        f'step are {total} ({[ref_bits(g)[0] for g in gens]})')
    for ind, g in zip(pop, genotypes):
        ind['genotype'] = list(g)
        ind['phenotype'] = None
        ind['score'] = None
    data = bga.GaData(num_generations=1)
    data.population = pop
    fit = bga.HyperbolaFitness(obj_function=obj, obj_value=0)
    call('fitness', fit.execute, data)
    for ind, g in zip(pop, genotypes):
        require(ind['genotype'] == list(g), lambda: f'evaluation changed genotype {"".join(g)} to {ind["genotype"]}')
    out = [ind['phenotype'] for ind in pop]
    require(seen == out, 'objective arguments differ from the decoded values')
    return out


def check_values(case, genotypes, out):
    gens, gray = case['gens'], case['kind'] == 'gray'
    for g, v in zip(genotypes, out):
        ref, _ = ref_decode(gens, g, gray)
        require(len(v) == len(gens), lambda: f'{len(v)} values decoded for {len(gens)} genes')
        for a, b, gene in zip(v, ref, gens):
            require(gene[0] <= a <= gene[1], lambda: f'gene {gene}: decoded {a!r} outside its range')
            require(abs(a - b) <= tol(gene),
                    lambda: f'{case["kind"]} gens {gens}: {"".join(g)} decodes to {v}, expected {ref}')


def run_exhaustive(case):
    gens = case['gens']
    total = sum(ref_bits(g)[0] for g in gens)
    genotypes = [list(format(i, f'0{total}b')) for i in range(2 ** total)]
    out = decode(case['kind'], gens, genotypes)
    check_values(case, genotypes, out)
    require(len({tuple(v) for v in out}) == len(out), lambda: f'gens {gens}: two bit strings decode to the same point')
    # structure, independent of the reference decoder
    pos = 0
    for gi, gene in enumerate(gens):
        b, steps = ref_bits(gene)
        vals = {}
        for g, v in zip(genotypes, out):
            vals.setdefault(''.join(g[pos:pos + b]), set()).add(v[gi])
        require(all(len(s) == 1 for s in vals.values()), lambda: f'gene {gi} depends on bits of other genes')
        order = sorted((next(iter(s)), k) for k, s in vals.items())
        require(abs(order[0][0] - gene[0]) <= tol(gene) and abs(order[-1][0] - gene[1]) <= tol(gene),
                lambda: f'gene {gene}: end points {order[0][0]}, {order[-1][0]} not representable')
        for (x, kx), (y, ky) in zip(order, order[1:]):
            require(abs((y - x) - (gene[1] - gene[0]) / steps) <= 2 * tol(gene), lambda: f'gene {gene}: uneven step')
            require(y - x <= gene[2] * (1 + 1e-9) + 2 * tol(gene), lambda: f'gene {gene}: step {y - x} is coarser')
            diff = sum(p != q for p, q in zip(kx, ky))
            if case['kind'] == 'gray':
                require(diff == 1, lambda: f'Gray: neighbours {kx} and {ky} differ in {diff} bits')
            else:
                require(int(ky, 2) == int(kx, 2) + 1, lambda: f'binary: {kx} and {ky} are not consecutive')
        pos += b
    return Info(total >= 2, [case['kind'], f'genes{len(gens)}'])


def run_sampled(case):
    gens = case['gens']
    total = sum(ref_bits(g)[0] for g in gens)
    genotypes = [['0'] * total, ['1'] * total]
    for s in case['words']:
        genotypes.append(list(format(s % (2 ** total), f'0{total}b')))
    # one-hot and prefix patterns
    for i in range(0, total, max(1, total // 12)):
        genotypes.append(['1' if j == i else '0' for j in range(total)])
        genotypes.append(['1' if j <= i else '0' for j in range(total)])
    out = decode(case['kind'], gens, genotypes)
    check_values(case, genotypes, out)
    return Info(True, [case['kind'], 'bits>32' if max(ref_bits(g)[0] for g in gens) > 32 else 'bits<=32'])


def run_neighbour(case):
    """Neighbouring grid points of a wide gene."""
    gene = case['gens'][0]
    b, steps = ref_bits(gene)
    idx = sorted({i % steps for i in case['idx']} | {steps - 1, 0, steps // 2, max(0, steps // 2 - 1)})
    gs = []
    for i in idx:
        for j in (i, i + 1):
            w = j ^ (j >> 1) if case['kind'] == 'gray' else j
            gs.append(list(format(w, f'0{b}b')))
    out = decode(case['kind'], [gene], gs)
    for n, i in enumerate(idx):
        x, y = out[2 * n][0], out[2 * n + 1][0]
        require(x <= y and abs((y - x) - (gene[1] - gene[0]) / steps) <= 2 * tol(gene),
                lambda: f'{case["kind"]} gene {gene}: points {i}, {i + 1} decode to {x}, {y}')
    return Info(b >= 2, [case['kind']])


def own_code(cfg, ind, what):
    p = cfg['prob']
    ref, total = ref_decode(p['gens'], ind['genotype'], p['kind'] == 'gray')
    require(len(ind['genotype']) == total, lambda: f'{what}: genotype of {len(ind["genotype"])} bits, not {total}')
    v = ind['phenotype']
    require(isinstance(v, list) and len(v) == len(ref) and all(abs(a - b) <= tol(g) for a, b, g in
                                                               zip(v, ref, p['gens'])),
            lambda: f'{what}: stored values {v}, its code {"".join(ind["genotype"])} means {ref}')


def run_runs(cfg):
    """In every generation of a run the stored values are those of the individual's own code."""
    data, snaps = observe(cfg, Recorder(cfg['prob']))
    for g, s in enumerate(snaps):
        for ind in s.pop:
            own_code(cfg, ind, f'{cfg["front"]} generation {g}')
    for ind in (data.best_solution['pareto_set'] if cfg['prob'].get('multi') else [data.best_solution]):
        own_code(cfg, ind, f'{cfg["front"]} best solution')
    return Info(len(snaps) >= 2, [cfg['front'], cfg['prob']['kind']])


def run_steps(cfg):
    """Every combination of components; parents and survivors too."""
    r = Run(cfg)
    r.start()
    for g in range(1, cfg['ngen']):
        r.select()
        for ind in list(r.data.parents) + list(r.data.population):
            own_code(cfg, ind, f'generation {g}, parents')
        r.cross()
        r.mutate()
        r.renew()
        r.evaluate()
        for ind in r.data.population:
            own_code(cfg, ind, f'generation {g}')
        r.update()
    return Info(cfg['ngen'] >= 2, [cfg['fit'], cfg['cross']])


kinds = st.sampled_from(['binary', 'gray'])
BK = ('binary', 'gray')


@st.composite
def wide_gene(draw):
    b = draw(st.integers(15, 50))
    lo = draw(st.integers(-1000, 1000))
    return [lo, lo + draw(st.integers(2 ** (b - 1), 2 ** b)), 1]


@st.composite
def near_gene(draw):
    """Just more, or just less, than a number of steps that fills a code."""
    lo, s = draw(st.integers(-50, 50)), draw(st.sampled_from([1, 1, 2, 5, 0.5, 0.25]))
    n = 2 ** draw(st.integers(1, 9)) - 1
    e = draw(st.sampled_from([1, -1])) * draw(st.integers(1, 9)) * 10 ** draw(st.integers(0, 5))
    return [lo, float(f'{(lo + n * s) * 10 ** 7 + e:.0f}e-7'), s]


SUBS = [
    Sub('exhaustive', st.fixed_dictionaries({'kind': kinds, 'gens': bin_gens(max_genes=4, max_bits=8, max_total_bits=9),
                                             'seed': seeds}), run_exhaustive, 1600),
    Sub('sampled', st.fixed_dictionaries({
        'kind': kinds, 'gens': st.one_of(bin_gens(max_genes=8, max_bits=14),
                                         st.lists(st.one_of(wide_gene(), bin_gene(10), near_gene()), min_size=1, max_size=4)),
        'words': st.lists(st.integers(0, 2 ** 130), min_size=1, max_size=12), 'seed': seeds}), run_sampled, 2400),
    Sub('neighbours', st.fixed_dictionaries({'kind': kinds, 'gens': st.lists(st.one_of(bin_gene(14), bin_gene(14), near_gene(), wide_gene()), min_size=1, max_size=1),
                                             'idx': st.lists(st.integers(0, 2 ** 50), max_size=12), 'seed': seeds}),
        run_neighbour, 1200),
    Sub('runs', front_cfg(fronts=('BinaryGA', 'VEGA', 'FFGA'), n_hi=15, ngen_hi=8, ngen_lo=2), run_runs, 300),
    Sub('steps', st.one_of(run_cfg(kinds=BK, n_hi=12, ngen_hi=5, ngen_lo=2), run_cfg(kinds=BK, multi='vega', ngen_hi=5, ngen_lo=2),
                           run_cfg(kinds=BK, multi='ffga', ngen_hi=5, ngen_lo=2)), run_steps, 300),
]
