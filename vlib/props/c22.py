"""C22: every valid configuration runs to completion and leaves a complete result."""
import numpy as np
from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import (front_cfg, no_inf, bin_gens, cat_gens, children_percent, input_pop, mlvl, objective, order_gens, penalty, condition,
                   seeds)
from ..sut import (FRONT_PARTS, Recorder, Run, call, check_point, collector, cond_list, frontend, is_num, mk_penalty,
                   point_of, py_gens, require, seeded, silent)

PROPERTY = 'C22'
RULE = ('A case is a valid configuration at the edges of what is allowed: 2 or 3 individuals, one child per generation or '
        'no surviving parents, largest and smallest tournaments, spaces smaller than the population, one-bit genes, '
        'permutations of 2, everything infeasible, constant, huge, infinite or numpy-typed objective values, up to 60 '
        'generations, every pairing of components. Oracle: no exception, termination within a line budget, a complete '
        'result. Non-trivial: at least 2 generations.')
ASSUMPTIONS = ['no NaN objective values; infinite values not with proportional (balanced) selection on objective scores',
               'FFGA runs are limited to 12 generations (its population grows with the front)']


def shape(v, form):
    if form == 'numpy':
        return np.array(v, dtype=float) if isinstance(v, (tuple, list)) else np.float64(v)
    if form == 'npint':
        return v
    if form == 'list' and isinstance(v, tuple):
        return list(v)
    return v


class EdgeRecorder(Recorder):
    """Adds infinite values at some points, and the type of what is returned."""

    def __init__(self, cfg):
        super().__init__(cfg['prob'])
        self.edge = cfg

    def compute(self, point):
        from ..sut import crc, norm
        v = super().compute(point)
        if self.edge.get('inf') and crc(norm(point), 'inf') % 3 == 0:
            inf = float('inf')
            p = self.edge['prob']
            if not p.get('conds'):
                v = tuple(inf for _ in v) if p.get('multi') else inf
        if self.edge.get('huge') and not self.edge['prob'].get('conds'):
            def big(x):
                y = x * self.edge['huge']
                return y if abs(x) == float('inf') else max(-1e300, min(1e300, y))
            v = tuple(map(big, v)) if isinstance(v, tuple) else big(v)
        return shape(v, self.edge.get('ret'))


def complete(cfg, data, what):
    h = len(data.historical_best)
    require(1 <= h <= cfg['ngen'], lambda: f'{what}: {h} generations recorded, {cfg["ngen"]} asked for')
    require(data.best_solution is not None, f'{what}: no best solution')
    multi = cfg['prob'].get('multi')
    inds = list(data.population) + (data.best_solution['pareto_set'] if multi else [data.best_solution])
    require(len(data.population) > 0 and (not multi or data.best_solution['pareto_set']), f'{what}: empty result')
    for i in inds:
        require(i.get('score') is not None and i.get('obj_score') is not None and i.get('feasible') is not None,
                lambda: f'{what}: unevaluated individual in the result: {i}')
        check_point(cfg['prob']['kind'], cfg['prob']['gens'], point_of(cfg['prob']['kind'], i), what)


def run_any(cfg):
    rec = EdgeRecorder(cfg)
    p = cfg['prob']
    gens = py_gens(p['kind'], p['gens'])
    if cfg.get('gl') and p['kind'] != 'order':
        gens = [list(g) for g in gens] if p['kind'] in ('binary', 'gray') else list(gens)
    seeded(cfg['seed'])
    with silent():
        if cfg['front'] in FRONT_PARTS:
            ga = call('constructing ' + cfg['front'], frontend, cfg, rec, gens=gens, is_print=bool(cfg.get('print')))
            data = call(cfg['front'] + '.optimize', ga.optimize)
        else:
            c = call('CollectorGA', collector, cfg, rec)
            call('CollectorGA.optimize', c.optimize)
            data = c.ga_data
    complete(cfg, data, cfg['front'])
    small = 'n<=3' if cfg['n'] <= 3 else 'n>3'
    return Info(len(data.historical_best) >= 2,
                [cfg['front'], cfg['sel'], cfg['fit'], small, 'inf' if cfg.get('inf') else 'finite',
                 'tmax' if cfg['tsize'] >= cfg['n'] - 1 else 'tmid'])


def tiny_bin():
    return st.lists(st.sampled_from([[0, 1, 1], [0, 3, 1], [-1, 1, 1], [0, 1, 0.5], [5, 6, 2], [0.0, 0.5, 0.25]]),
                    min_size=1, max_size=3)


def tiny_cat():
    return st.lists(st.sampled_from([{'l': ['a']}, {'l': ['a', 'b']}, {'r': [0, 0, 1]}, {'r': [0, 1, 1]}, {'l': [1, '1']}]),
                    min_size=1, max_size=3)


def tiny_order():
    return st.sampled_from([[0, 1, 2], [0, 2, 2], [3, 5, 3], [0, 2, 3], [0, 9, 2], [0, 3, 4]])


@st.composite
def edge_cfg(draw, fronts, max_gen=40):
    front = draw(st.sampled_from(fronts))
    if front in FRONT_PARTS:
        fit = FRONT_PARTS[front]['fit']
    else:
        fit = draw(st.sampled_from(['hyper', 'hyper', 'vega', 'ffga']))
    kind = {'CategoricalGA': 'cat', 'CombinatoryGA': 'order'}.get(front)
    if kind is None:
        kind = draw(st.sampled_from(['binary', 'gray'] if front != 'CollectorGA' or fit != 'hyper'
                                    else ['binary', 'gray', 'cat', 'order']))
    tiny = draw(st.booleans())
    gens = draw({'binary': tiny_bin, 'gray': tiny_bin, 'cat': tiny_cat, 'order': tiny_order}[kind]() if tiny else
                {'binary': bin_gens, 'gray': bin_gens, 'cat': cat_gens, 'order': order_gens}[kind]())
    m = draw(st.integers(2, 4)) if fit != 'hyper' else 1
    objs = [draw(objective) for _ in range(m)]
    p = {'kind': kind, 'gens': gens, 'objs': objs}
    if m > 1:
        p['multi'] = True
    if draw(st.integers(0, 2)) == 0:
        conds = draw(st.lists(condition, min_size=1, max_size=3))
        if draw(st.booleans()):      # nothing is feasible
            for c in conds:
                c['off'] = 10
        for _ in range(m):
            conds.insert(draw(st.integers(0, len(conds))), 'optimize')
        p['conds'] = conds
        p['penalty'] = draw(penalty(conds))
    if front in FRONT_PARTS:
        parts = dict(FRONT_PARTS[front])
    else:
        parts = {'fit': fit}
        parts['sel'] = draw(st.sampled_from(['vtournament', 'vbalanced', 'vranked'] if fit == 'vega' else
                                            ['tournament', 'balanced', 'ranked']))
        parts['cross'] = 'order' if kind == 'order' else draw(st.sampled_from(['one', 'two', 'uniform']))
        parts['mut'] = {'binary': 'bin', 'gray': 'bin', 'cat': 'cat'}.get(kind) or \
            draw(st.sampled_from(['swap', 'inversion', 'movement', 'shift']))
        if fit == 'ffga':
            parts['newgen'] = 'multi'
    tour = 'tournament' in parts['sel']
    lo = max(3 if tour else 2, m if fit == 'vega' else 2)
    n = draw(st.sampled_from([lo, lo, lo + 1, 5, 8, 12, 25]))
    n = max(n, lo)
    if fit != 'hyper':
        n = min(n, 12)
    mm = m if fit == 'vega' else 1
    cp = draw(st.one_of(st.just(1.0), st.just(min(1.0, (mm + 0.01) / n)), children_percent(n, mm)))
    if int(cp * n / mm) < 1:
        cp = 1.0
    ngen = draw(st.integers(1, max_gen))
    if fit != 'hyper':
        ngen = min(ngen, 12)
    cfg = dict(parts, prob=p, n=n, cp=cp, ngen=ngen, early=draw(st.sampled_from([0, 1, 10, 1000])),
               mlvl=draw(mlvl()), transfer=draw(st.sampled_from(['best', 'random'])),
               huge=draw(st.sampled_from([None, None, None, None, 1e100, 1e200, 1e290, 1e-200, 1e-300])),
               tsize=draw(st.sampled_from([2, max(2, n - 1), max(2, min(3, n - 1))])), front=front,
               ret=draw(st.sampled_from([None, None, 'numpy', 'list'])), inf=(tour or fit == 'ffga' or 'ranked' in parts['sel']) and draw(st.integers(0, 3)) == 0,
               gl=draw(st.booleans()), print=draw(st.integers(0, 4)) == 0, seed=draw(seeds))
    if fit == 'hyper':
        cfg['target'] = draw(st.sampled_from([None, 0, 5, -3.5]))
    elif fit == 'vega':
        cfg['target'] = draw(st.one_of(st.none(), st.lists(st.integers(-5, 5), min_size=m, max_size=m)))
    else:
        cfg['target'] = None
    if draw(st.integers(0, 3)) == 0:
        cfg['inp'] = draw(input_pop(kind, gens, n))
    if front in FRONT_PARTS and draw(st.integers(0, 5)) == 0:
        cfg['early'] = None
    return no_inf(cfg)


FR = ['BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA']
SUBS = [
    Sub('frontends', edge_cfg(FR), run_any, 1600, cpu_s=10),
    Sub('single', edge_cfg(FR[:3], max_gen=60), run_any, 800, cpu_s=10),
    Sub('large', st.one_of(front_cfg(fronts=FR[:3], n_lo=50, n_hi=150, ngen_lo=15, ngen_hi=40),
                           front_cfg(fronts=FR[3:], n_lo=12, n_hi=25, ngen_lo=6, ngen_hi=12)), run_any, 40, 400,
        cpu_s=60),
    Sub('collector', edge_cfg(['CollectorGA']), run_any, 1600, cpu_s=10),
]
