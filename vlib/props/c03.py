"""C03: the first generation."""
from collections import Counter

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import bin_gens, cat_gens, front_cfg, gens_of, input_pop, order_gens, seeds
from ..stats import binom_ok, chi2_ok
from ..sut import (POPS, Recorder, allowed, call, check_point, new_population, observe, point_of, py_gens, ref_bits,
                   ref_decode, require, seeded, tol)

PROPERTY = 'C03'
RULE = ('A case is a search space, a population size and optionally supplied individuals (any number up to the size). '
        'Oracle: size, supplied points first and in order and at the nearest grid point, the others in the space; '
        'frequencies of random individuals against the uniform distribution over the space. Non-trivial: a case with '
        'supplied individuals, or a frequency test of at least 2 cells.')
ASSUMPTIONS = ['uniformity is rejected at p < 1e-10 only']


def fill(case):
    return call('first generation', new_population, {'prob': case['prob'], 'n': case['n'], 'inp': case.get('inp')})


def check_supplied(kind, gens, got, want):
    """`got` is the point of an individual supplied as `want`."""
    if kind not in ('binary', 'gray'):
        require(list(got) == list(want), lambda: f'supplied individual {want} became {got}')
        return
    for a, v, gene in zip(got, want, gens):
        _b, steps = ref_bits(gene)
        half = (gene[1] - gene[0]) / steps / 2
        require(abs(a - v) <= half * (1 + 1e-9) + tol(gene),
                lambda: f'{kind} gene {gene}: supplied value {v!r} became {a!r}, more than half a step ({half}) away')


def run_supplied(case):
    kind, gens = case['prob']['kind'], case['prob']['gens']
    pop = fill(case)
    require(len(pop) == case['n'], lambda: f'{len(pop)} individuals in the first generation, num_individ={case["n"]}')
    inp = case.get('inp') or []
    for i, ind in enumerate(pop):
        check_point(kind, gens, point_of(kind, ind), f'individual {i}')
        require(ind['score'] is None and ind['obj_score'] is None, 'a new individual already has a score')
        if kind in ('binary', 'gray'):
            ref, total = ref_decode(gens, ind['genotype'], kind == 'gray')
            require(len(ind['genotype']) == total and all(abs(a - b) <= tol(g) for a, b, g in
                                                          zip(ind['phenotype'], ref, gens)),
                    lambda: f'genotype {ind["genotype"]} does not encode {ind["phenotype"]}')
        if i < len(inp):
            check_supplied(kind, gens, point_of(kind, ind), inp[i])
    return Info(bool(inp), [kind, 'supplied%d' % min(len(inp), 3)])


def run_grid(case):
    """Representable values survive a round trip exactly; supplying decoded points gives the same genotypes."""
    kind, gens = case['prob']['kind'], case['prob']['gens']
    pop = fill(case)
    pts = [list(ind['phenotype']) for ind in pop]
    genos = [list(ind['genotype']) for ind in pop]
    again = fill(dict(case, inp=pts))
    for g, p, ind in zip(genos, pts, again):
        require(ind['genotype'] == g and ind['phenotype'] == p,
                lambda: f'{kind} gens {gens}: representable point {p} ({"".join(g)}) was supplied and became '
                        f'{ind["phenotype"]} ({"".join(ind["genotype"])})')
    return Info(True, [kind])


def run_uniform(case):
    """All of a small space equally likely (joint distribution), with some individuals supplied as well."""
    p = case['prob']
    kind, gens = p['kind'], p['gens']
    cells = space(kind, gens)
    if cells > 300:
        return Info(False, ['too_many_cells'])
    n = max(600, cells * 40)
    inp = case.get('inp') or []
    pop = fill({'prob': p, 'n': n + len(inp), 'inp': inp})
    require(len(pop) == n + len(inp), 'size of the first generation')
    rest = [tuple(point_of(kind, i)) for i in pop][len(inp):]
    obs = Counter(map(repr, rest))
    require(len(obs) <= cells, lambda: f'{len(obs)} different individuals in a space of {cells}')
    # cells never seen still count: give them names
    exp = {k: n / cells for k in obs}
    for i in range(cells - len(obs)):
        exp[f'unseen{i}'] = n / cells
    chi2_ok(obs, exp, f'{kind} {gens}: random first generation over {cells} points')
    for lag in (1, 2, 3):      # an individual says nothing about the next ones
        eq = sum(a == b for a, b in zip(rest, rest[lag:]))
        binom_ok(eq, len(rest) - lag, 1 / cells, 1 / cells, f'{kind} {gens}: individuals {lag} apart that are equal')
    return Info(cells >= 2, [kind])


def run_apart(case):
    """Small populations: whether two given members are equal is a matter of chance alone, neither avoided nor favoured
    (supplied ones included)."""
    p = case['prob']
    kind, gens = p['kind'], p['gens']
    n = case['n']
    inp = (case.get('inp') or [])[:n - 1]
    eq, T = Counter(), 0
    for k in range(400):
        seeded((case['seed'] + 7919 * k) % 2 ** 31)
        pop = fill({'prob': p, 'n': n, 'inp': inp})
        rows = [tuple(map(repr, i['genotype'])) for i in pop]
        T += 1
        for j in range(len(inp), n):
            for i in range(j):
                eq[(i, j)] += rows[i] == rows[j]
    cells = space(kind, gens)
    for (i, j), c in eq.items():
        binom_ok(c, T, 1 / cells, 1 / cells, f'{kind} {gens}, {n} individuals, {len(inp)} supplied: members {i} and {j} equal')
    tot = sum(eq.values())            # pairs are uncorrelated: same variance as if they were independent
    m = T * len(eq)
    sd = (m * (1 / cells) * (1 - 1 / cells)) ** 0.5
    require(cells == 1 or abs(tot - m / cells) <= 9 * sd + 9,
            lambda: f'{kind} {gens}, {n} individuals, {len(inp)} supplied: {tot} of {m} pairs equal, expected {m / cells:.1f}')
    return Info(cells >= 2 and n >= 2, [kind, 'supplied' if inp else 'random'])


def space(kind, gens):
    cells = 1
    if kind in ('binary', 'gray'):
        for g in gens:
            cells *= ref_bits(g)[1] + 1
    elif kind == 'cat':
        for a in allowed(kind, gens):
            cells *= len(a)
    else:
        for i in range(gens[2]):
            cells *= gens[1] - gens[0] + 1 - i
    return cells


def run_marginal(case):
    """Large spaces: every bit / value / position uniform, neighbouring genes independent."""
    p = case['prob']
    kind, gens = p['kind'], p['gens']
    n = 3000
    pop = fill({'prob': p, 'n': n})
    if kind in ('binary', 'gray'):
        rows = [i['genotype'] for i in pop]
        doms = [['0', '1']] * len(rows[0])
    elif kind == 'cat':
        rows = [i['genotype'] for i in pop]
        doms = [sorted(a, key=repr) for a in allowed(kind, gens)]
    else:
        rows = [i['genotype'] for i in pop]
        doms = [list(range(gens[0], gens[1] + 1))] * gens[2]
    for j, d in enumerate(doms):
        obs = Counter(repr(r[j]) for r in rows)
        chi2_ok(obs, {repr(v): n / len(d) for v in d}, f'{kind} {gens}: position {j}')
    if kind != 'order':
        for j in range(len(doms) - 1):
            a, b = doms[j], doms[j + 1]
            if len(a) * len(b) * 25 <= n:
                obs = Counter((repr(r[j]), repr(r[j + 1])) for r in rows)
                chi2_ok(obs, {(repr(x), repr(y)): n / len(a) / len(b) for x in a for y in b},
                        f'{kind} {gens}: positions {j},{j + 1}')
    return Info(True, [kind])


def run_front(cfg):
    kind, gens = cfg['prob']['kind'], cfg['prob']['gens']
    rec = Recorder(cfg['prob'])
    _data, snaps = observe(cfg, rec)
    require(len(snaps[0].pop) == cfg['n'],
            lambda: f'{cfg["front"]}: {len(snaps[0].pop)} individuals in the first generation, num_individ={cfg["n"]}')
    if not cfg['prob'].get('multi'):
        first = rec.calls[:snaps[0].calls]
        require(len(first) == cfg['n'], lambda: f'{len(first)} evaluations in the first generation of {cfg["n"]}')
        for got, want in zip(first, cfg.get('inp') or []):
            check_supplied(kind, gens, got, want)
    pts = [point_of(kind, i) for i in snaps[0].pop]
    for want in cfg.get('inp') or []:
        def near(pt):
            try:
                check_supplied(kind, gens, pt, want)
                return True
            except BaseException:
                return False
        require(any(near(q) for q in pts), lambda: f'{cfg["front"]}: supplied individual {want} is not in the first '
                                                   f'generation')
    return Info(bool(cfg.get('inp')), [cfg['front']])


def run_reject(case):
    """A supplied population that does not fit is refused, not silently altered."""
    p, how = case['prob'], case['how']
    kind, gens = p['kind'], p['gens']
    inp = [list(x) for x in case['inp']]
    n = len(inp)
    if how == 'toomany':
        n -= 1
        if n < 1:
            return Info(False)
    elif kind in ('binary', 'gray'):
        i, j = case['i'] % len(inp), case['j'] % len(gens)
        if how == 'long':
            inp[i] = inp[i] + [gens[-1][0]]
        elif how == 'short':
            inp[i] = inp[i][:-1]
        elif how == 'below':
            inp[i][j] = gens[j][0] - gens[j][2] * 0.75
        else:
            inp[i][j] = gens[j][1] + gens[j][2] * 0.75
    else:
        return Info(False)
    pop = POPS[kind]()
    try:
        pop.set_params(num_individ=n, gens=py_gens(kind, gens), input_population=inp)
        pop.fill()
    except Exception:
        return Info(True, [kind, how])
    require(False, lambda: f'{kind} gens {gens}, num_individ={n}: supplied population {inp} ({how}) was accepted as '
                           f'{[point_of(kind, i) for i in pop]}')


def run_distinct(case):
    """Independent draws from a huge space do not repeat, and neither do parts of them."""
    p = case['prob']
    kind = p['kind']
    pop = fill({'prob': p, 'n': case['n']})
    require(len(pop) == case['n'], 'size of the first generation')
    rows = [tuple(map(repr, i['genotype'])) for i in pop]
    require(len(set(rows)) == len(rows), lambda: f'{kind}: {len(rows) - len(set(rows))} repeated individuals among '
                                                 f'{len(rows)} random ones of a space of at least 2^64 points')
    h = len(rows[0]) // 2
    for part in (slice(0, h), slice(h, None)):    # at least 2^32 values each: a few coincidences at most
        d = len(rows) - len({r[part] for r in rows})
        require(d <= 3, lambda: f'{kind}: {d} coinciding halves among {len(rows)} random individuals')
    if kind in ('binary', 'gray'):
        for j in range(len(rows[0])):
            binom_ok(sum(r[j] == "'1'" for r in rows), len(rows), 0.5, 0.5, f'{kind} {p["gens"]}: bit {j} set')
    return Info(True, [kind])


@st.composite
def huge_space(draw):
    kind = draw(st.sampled_from(['binary', 'gray', 'cat', 'order']))
    if kind in ('binary', 'gray'):
        k = draw(st.sampled_from([2, 2, 2, 3, 3, 4, 5, 6, 8, 10]))
        b = -(-72 // k)
        g = [[draw(st.integers(-5, 5)) - 5, 2 ** b, 1] for _ in range(k)]
    elif kind == 'cat':
        w = draw(st.integers(10, 40))
        g = [{'r': [0, w - 1, 1]} if draw(st.booleans()) else {'l': list(range(w))} for _ in range(22)]
    else:
        g = [1, draw(st.integers(25, 40)), 25]
    return {'prob': {'kind': kind, 'gens': g}, 'n': draw(st.integers(100, 400)), 'seed': draw(seeds)}


@st.composite
def spaces(draw, kinds=('binary', 'gray', 'cat', 'order'), wide=False, **k):
    kind = draw(st.sampled_from(kinds))
    if wide and draw(st.integers(0, 2)) == 2:
        return {'kind': kind, 'gens': draw(gens_of(kind, wide=True))}
    if kind in ('binary', 'gray'):
        g = draw(bin_gens(**k))
    else:
        g = draw(cat_gens()) if kind == 'cat' else draw(order_gens())
    return {'kind': kind, 'gens': g}


@st.composite
def filled(draw, kinds=('binary', 'gray', 'cat', 'order'), always=False, **k):
    p = draw(spaces(kinds, **k))
    n = draw(st.one_of(st.integers(1, 25), st.integers(1, 25), st.integers(26, 160)))
    c = {'prob': p, 'n': n, 'seed': draw(seeds)}
    if always or draw(st.booleans()):
        c['inp'] = draw(input_pop(p['kind'], p['gens'], n))
    return c


@st.composite
def small(draw):
    kind = draw(st.sampled_from(['binary', 'gray', 'cat', 'order']))
    if kind in ('binary', 'gray'):
        g = draw(bin_gens(max_genes=3, max_bits=6, max_total_bits=8))
    elif kind == 'cat':
        g = draw(cat_gens(max_genes=3))
    else:
        g = draw(order_gens(max_k=4))
        g = [g[0], min(g[1], g[0] + max(5, g[2] - 1)), g[2]]
    c = {'prob': {'kind': kind, 'gens': g}, 'seed': draw(seeds)}
    if draw(st.integers(0, 3)) == 0:
        c['inp'] = draw(input_pop(kind, g, 5))
    return c


SUBS = [
    Sub('supplied', filled(wide=True, max_genes=6, max_bits=14), run_supplied, 3000),
    Sub('grid', filled(kinds=('binary', 'gray'), max_genes=5, max_bits=14), run_grid, 800),
    Sub('uniform', small(), run_uniform, 480),
    Sub('marginal', st.fixed_dictionaries({'prob': spaces(wide=True, max_genes=4, max_bits=10), 'seed': seeds}), run_marginal,
        480),
    Sub('apart', st.builds(lambda c, n: dict(c, n=n), small(), st.integers(2, 7)), run_apart, 160, 1200, cpu_s=60),
    Sub('distinct', huge_space(), run_distinct, 240),
    Sub('frontends', front_cfg(collector=True, n_hi=20, ngen_hi=3), run_front, 500),
    Sub('reject', st.builds(lambda c, h, i, j: dict(c, how=h, i=i, j=j), filled(always=True, max_genes=4),
                            st.sampled_from(['toomany', 'long', 'short', 'below', 'above']), st.integers(0, 20),
                            st.integers(0, 20)), run_reject, 500),
]
