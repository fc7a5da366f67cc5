"""Generators (Hypothesis strategies) of problems and run configurations. Everything random about a case is drawn
here, including the seed of the library's own random numbers, so a case replays exactly."""
from hypothesis import strategies as st

from .sut import ref_bits

seeds = st.integers(0, 2 ** 31)
salts = st.integers(0, 10 ** 6)


@st.composite
def bin_gene(draw, max_bits=14):
    """(lo, hi, step): integers, or decimals whose quotients are inexact in floating point."""
    p = draw(st.sampled_from([0, 0, 1, 1, 2, 3, 3, 6, 9, 12] if max_bits <= 14 else [0]))
    d = 10 ** p
    lo = draw(st.integers(-40 * d, 40 * d)) if p <= 3 else draw(st.integers(-400, 400))
    if p == 0 and draw(st.integers(0, 5)) == 0:      # far from the origin
        lo = draw(st.integers(-10 ** 6, 10 ** 6))
    form = draw(st.integers(0, 3))
    top = 2 ** draw(st.integers(1, max_bits)) - 1
    if form == 0:            # step divides the range
        n = draw(st.integers(1, top))
        s = draw(st.integers(1, 5))
        hi = lo + n * s
    elif form == 1:          # around powers of two
        n = max(1, 2 ** draw(st.integers(0, max_bits - 1)) + draw(st.integers(-1, 1)))
        s = draw(st.integers(1, 3))
        hi = lo + n * s
    else:                    # arbitrary width, not a multiple
        w = draw(st.integers(1, min(top, 400)))
        s = draw(st.integers(1, w))
        hi = lo + w
    g = [lo, hi, s] if p == 0 else [lo / d, hi / d, s / d]
    return g


@st.composite
def bin_gens(draw, max_genes=5, max_bits=10, min_total_bits=1, max_total_bits=None):
    k = draw(st.integers(1, max_genes))
    if draw(st.integers(0, 3)) == 0:
        gens = [draw(bin_gene(max_bits))] * k
    else:
        gens = [draw(bin_gene(max_bits)) for _ in range(k)]
    if max_total_bits is not None:
        while len(gens) > 1 and sum(ref_bits(g)[0] for g in gens) > max_total_bits:
            gens.pop()
        while sum(ref_bits(g)[0] for g in gens) > max_total_bits:
            lo, hi, s = gens[0]
            gens = [[0, 3, 1]]
    if sum(ref_bits(g)[0] for g in gens) < min_total_bits:
        gens = gens + [[0, 7, 1]] * min_total_bits
    return gens


@st.composite
def cat_gene(draw):
    form = draw(st.integers(0, 3))
    if form == 0:
        a = draw(st.integers(-10, 10))
        step = draw(st.integers(1, 4))
        n = draw(st.integers(0, 12))
        extra = draw(st.integers(0, step - 1))
        return {'r': [a, a + n * step + extra, step]}
    if form == 1:
        vals = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=6, unique=True))
        return {'l': vals}
    if form == 2:
        vals = draw(st.lists(st.sampled_from('abcdefghijklmnop'), min_size=1, max_size=8, unique=True))
        return {'l': vals}
    vals = draw(st.lists(st.sampled_from(['x', 'y', 1, 2, 2.5, None, 'zz', '0', '1']), min_size=1, max_size=6,
                         unique_by=repr))
    return {'l': vals}


@st.composite
def wide_cat_gene(draw):
    """Many values; strings and large integers, equal to but not the same objects as other copies of them."""
    form = draw(st.integers(0, 4))
    n = draw(st.integers(9, 40))
    if form == 4:
        form, n = 0, draw(st.integers(100, 600))
    a = draw(st.integers(-30, 30))
    if form == 0:
        step = draw(st.integers(1, 9))
        return {'r': [a, a + (n - 1) * step + draw(st.integers(0, step - 1)), step]}
    if form == 1:
        return {'l': [1000003 * (a + i) + 17 for i in range(n)]}
    if form == 2:
        return {'l': [f'item {a} {i}' for i in range(n)]}
    return {'l': [(a + i) / 8 for i in range(n)]}


@st.composite
def cat_gens(draw, max_genes=7, wide=False):
    if wide:
        n = draw(st.one_of(st.integers(1, 24), st.integers(1, 24), st.integers(25, 70)))
        return draw(st.lists(st.one_of(cat_gene(), wide_cat_gene()), min_size=n, max_size=n))
    return draw(st.lists(cat_gene(), min_size=1, max_size=max_genes))


@st.composite
def order_gens(draw, min_k=2, max_k=14):
    k = draw(st.integers(min_k, max_k))
    lo = draw(st.integers(-5, 20))
    extra = draw(st.sampled_from([0, 0, 0, 1, 2, 5, 20]))
    return [lo, lo + k - 1 + extra, k]


def gens_of(kind, wide=False, **k):
    if wide and 'max_total_bits' not in k:
        if kind in ('binary', 'gray'):
            return st.one_of(bin_gens(max_genes=24, max_bits=8), bin_gens(max_genes=4, max_bits=24))
        return cat_gens(wide=True) if kind == 'cat' else order_gens(15, 45)
    if kind in ('binary', 'gray'):
        return bin_gens(**{a: b for a, b in k.items() if a in ('max_genes', 'max_bits', 'max_total_bits')})
    return cat_gens() if kind == 'cat' else order_gens()


objective = st.fixed_dictionaries({'f': st.sampled_from(['hash', 'hash', 'ties', 'add', 'sq', 'sq', 'const', 'huge',
                                                         'plateau', 'inf', 'tiny']), 'salt': salts})
condition = st.fixed_dictionaries({'k': st.sampled_from(['<=', '<=', '!=']),
                                   'g': st.sampled_from(['int', 'int', 'cont', 'add']),
                                   'salt': salts, 'off': st.sampled_from([0, 0, -1, 1, -3])})


@st.composite
def penalty(draw, conds):
    kinds = [c['k'] for c in conds if c != 'optimize']
    p = draw(st.sampled_from(['dynamic', 'dynamic', 'adaptive', 'static']))
    if p == 'dynamic':
        args = draw(st.fixed_dictionaries({}, optional={
            'delta': st.sampled_from([0.5, 2.0, 10.0]), 'c': st.sampled_from([0.25, 1.0, 2.0]),
            'alpha': st.sampled_from([0.5, 1, 1.5, 3]), 'betta': st.sampled_from([0.5, 1, 1.5, 2, 3])}))
        return {'p': 'dynamic', 'args': args}
    if p == 'adaptive':
        args = draw(st.fixed_dictionaries({}, optional={
            'delta': st.sampled_from([0.5, 2.0, 10.0]), 'betta_1': st.sampled_from([1.05, 1.5, 3.0]),
            'betta_2': st.sampled_from([1.3, 2.0, 5.0]), 'betta': st.sampled_from([0.5, 1, 1.5, 2, 3])}))
        return {'p': 'adaptive', 'args': args}
    out = {'p': 'static', 'eq_iv': {}, 'eq_r': {}, 'in_iv': {}, 'in_r': {}}
    for i, k in enumerate(kinds):
        cuts = sorted(draw(st.lists(st.sampled_from([0.25, 0.3, 0.5, 0.75, 1, 1.5, 2, 2.5, 4.5, 10.5]), max_size=3, unique=True)))
        iv = [[a, b] for a, b in zip([0] + cuts, cuts + [None])]
        if draw(st.integers(0, 3)) == 0:     # the table need not be sorted
            iv.reverse()
        r = [draw(st.one_of(st.integers(1, 600), st.sampled_from([0.5, 0.001, 1e6]))) for _ in iv]
        a, b = ('eq_iv', 'eq_r') if k == '!=' else ('in_iv', 'in_r')
        out[a][str(i)] = iv
        out[b][str(i)] = r
    return out


@st.composite
def problem(draw, kinds=('binary', 'gray', 'cat', 'order'), constrained=None, multi=False, max_objs=4, flavour=None,
            **k):
    kind = draw(st.sampled_from(kinds))
    gens = draw(gens_of(kind, wide=flavour == 'wide', **k))
    m = max(1, draw(st.integers(2, max_objs)) - draw(st.sampled_from([0] * 9 + [3]))) if multi else 1
    if multi and flavour == 'objs':
        m = draw(st.sampled_from([1, 5, 6, 7]))
    objs = [draw(objective) for _ in range(m)]
    p = {'kind': kind, 'gens': gens, 'objs': objs}
    if multi:
        p['multi'] = True
    con = constrained if constrained is not None else draw(st.integers(0, 2)) == 0
    if con:
        conds = draw(st.lists(condition, min_size=1, max_size=7 if flavour == 'objs' else 3))
        for _ in range(m):
            conds.insert(draw(st.integers(0, len(conds))), 'optimize')
        p['conds'] = conds
        p['penalty'] = draw(penalty(conds))
    return p


def mlvl():
    return st.one_of(st.sampled_from(['weak', 'normal', 'strong', 0.0, 1.0, 0.5, 0.02, 0.004]),
                     st.floats(0, 1, allow_nan=False).map(lambda x: round(x, 3)))


@st.composite
def pop_size(draw, lo=3, hi=40):
    lo = max(lo, 3)
    hi = max(lo, hi)
    if lo > 20 or draw(st.integers(0, 9)) == 0:
        return draw(st.integers(lo, hi))
    return draw(st.integers(lo, min(hi, max(14, lo + 5))))


@st.composite
def children_percent(draw, n, m=1):
    """Fractions giving at least one child (per objective)."""
    c = draw(st.sampled_from([0.95, 0.95, 1.0, 0.5, 0.8, 0.3, None, 'few']))
    if c is None:
        c = round(draw(st.floats(0.05, 1.0)), 2)
    elif c == 'few':         # one or two besides the best survive
        c = (n - 0.5 - draw(st.integers(0, 1))) / n
    if int(c * n / m) < 1:
        c = min(1.0, (m + 0.01) / n) if m < n else 1.0
    return c


def _fix_cp(cp, n, m):
    return cp if int(cp * n / m) >= 1 else 1.0


def no_inf(cfg):
    """There is no proportional law for infinite scores."""
    if cfg['sel'] in ('balanced', 'vbalanced') and cfg['fit'] != 'ffga':
        p = cfg['prob']
        p['objs'] = [dict(o, f='hash') if o['f'] == 'inf' else o for o in p['objs']]
    return cfg


@st.composite
def run_cfg(draw, kinds=('binary', 'gray', 'cat', 'order'), constrained=None, multi=False, n_hi=40, ngen_hi=12,
            ngen_lo=1, n_lo=3, flavours=True, **k):
    """A full run configuration: problem, operators, parameters. multi: False, 'vega' or 'ffga'.
    One case in six has an unusual size: wide genotypes, many individuals, many generations, many objectives."""
    fl = None
    if flavours and n_hi < 50 and draw(st.integers(0, 5)) == 5:
        fl = draw(st.sampled_from(['wide', 'wide', 'many', 'long', 'objs']))
    p = draw(problem(kinds=kinds, constrained=constrained, multi=bool(multi), flavour=fl, **k))
    kind = p['kind']
    m = len(p['objs'])
    early = [10, 0, 1, 2, 3, 5, 1000]
    if fl == 'many':
        n_lo, n_hi = {'ffga': (15, 40), 'vega': (26, 60), False: (41, 130)}[multi]
        ngen_hi = min(ngen_hi, 4)
    elif fl == 'long':
        n_hi = max(n_lo, 6 if not multi else m + 3)
        ngen_lo, ngen_hi = {'ffga': (8, 14), 'vega': (16, 60), False: (30, 130)}[multi]
        early = [1000, 1000, 50, 100]
    elif multi == 'ffga':      # the front, and with it the population, grows every generation
        n_hi, ngen_hi = min(n_hi, 14), min(ngen_hi, 8)
    elif multi:
        n_hi, ngen_hi = min(n_hi, 25), min(ngen_hi, 15)
    ngen_lo = min(ngen_lo, ngen_hi)
    n_lo = min(n_lo, n_hi)
    n = draw(pop_size(max(n_lo, m if multi == 'vega' else 3), n_hi))
    cp = draw(children_percent(n, m if multi == 'vega' else 1))
    cp = _fix_cp(cp, n, m if multi == 'vega' else 1)
    cfg = {'prob': p, 'n': n, 'cp': cp, 'ngen': draw(st.integers(ngen_lo, ngen_hi)),
           'early': draw(st.sampled_from(early)),
           'mlvl': draw(mlvl()), 'transfer': draw(st.sampled_from(['best', 'best', 'random'])),
           'tsize': draw(st.integers(2, max(2, min(n - 1, draw(st.sampled_from([3, 3, 8, n - 1])))))),
           'seed': draw(seeds)}
    if multi == 'vega':
        cfg['fit'] = 'vega'
        cfg['sel'] = draw(st.sampled_from(['vtournament', 'vbalanced', 'vranked']))
        cfg['target'] = draw(st.one_of(st.none(), st.lists(st.integers(-10, 10), min_size=m, max_size=m)))
    elif multi == 'ffga':
        cfg['fit'] = 'ffga'
        cfg['sel'] = draw(st.sampled_from(['tournament', 'balanced', 'ranked']))
        cfg['newgen'] = 'multi'
        cfg['target'] = draw(st.sampled_from([None, None, None, 3, [0] * m]))      # without effect
    else:
        cfg['fit'] = 'hyper'
        cfg['sel'] = draw(st.sampled_from(['tournament', 'tournament', 'balanced', 'ranked']))
        cfg['target'] = draw(st.one_of(st.none(), st.sampled_from([0, 1, -2.5, 100])))
    no_inf(cfg)
    if kind in ('binary', 'gray'):
        cfg['cross'] = draw(st.sampled_from(['one', 'two', 'uniform']))
        cfg['mut'] = 'bin'
    elif kind == 'cat':
        cfg['cross'] = draw(st.sampled_from(['one', 'two', 'uniform']))
        cfg['mut'] = 'cat'
    else:
        cfg['cross'] = 'order'
        cfg['mut'] = draw(st.sampled_from(['swap', 'inversion', 'movement', 'shift']))
    if draw(st.integers(0, 3)) == 0:
        cfg['inp'] = draw(input_pop(kind, p['gens'], n))
    return cfg


@st.composite
def front_cfg(draw, fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA'), collector=False, **k):
    """A configuration run through a front-end class; with collector=True also through CollectorGA."""
    f = draw(st.sampled_from(list(fronts) + (['CollectorGA'] if collector else [])))
    if f in ('CollectorGA', 'Collector1'):   # Collector1: single-objective only
        multi = draw(st.sampled_from([False, False, 'vega', 'ffga'])) if f == 'CollectorGA' else False
        kk = dict(k)
        if multi:
            kk['kinds'] = ('binary', 'gray')
        cfg = draw(run_cfg(multi=multi, **kk))
        cfg['front'] = f
        return cfg
    from .sut import FRONT_PARTS
    kinds = {'BinaryGA': ('binary', 'gray'), 'CategoricalGA': ('cat',), 'CombinatoryGA': ('order',),
             'VEGA': ('binary', 'gray'), 'FFGA': ('binary', 'gray')}[f]
    multi = {'VEGA': 'vega', 'FFGA': 'ffga'}.get(f, False)
    k = {a: b for a, b in k.items() if a != 'kinds'}
    cfg = draw(run_cfg(kinds=kinds, multi=multi, **k))
    cfg.update(FRONT_PARTS[f])
    cfg['front'] = f
    return cfg


@st.composite
def point(draw, kind, gens):
    """A user-supplied individual."""
    if kind in ('binary', 'gray'):
        out = []
        for lo, hi, s in gens:
            form = draw(st.integers(0, 4))
            if form == 0:
                out.append(lo)
            elif form == 1:
                out.append(hi)
            else:
                t = draw(st.integers(0, 1000))
                out.append(min(hi, max(lo, lo + (hi - lo) * (t / 1000.0))))
        return out
    if kind == 'cat':
        return [draw(st.sampled_from(list(range(g['r'][0], g['r'][1] + 1, g['r'][2])) if 'r' in g else g['l']))
                for g in gens]
    lo, hi, k = gens
    return draw(st.permutations(list(range(lo, hi + 1))))[:k]


@st.composite
def input_pop(draw, kind, gens, n):
    size = draw(st.sampled_from([1, 2, n // 2, n]))
    size = max(1, min(n, size))
    base = [draw(point(kind, gens)) for _ in range(min(size, 4))]
    return [base[i % len(base)] for i in range(size)]
