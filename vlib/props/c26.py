"""C26: relabelling or rescaling a problem relabels or rescales the run, and changes nothing else."""
import copy

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg
from ..sut import Recorder, Violation, cond_list, require, run_any, seeded

PROPERTY = 'C26'
RULE = ('A case is a configuration and an equivalent one (labels of categories replaced, ranges shifted or scaled, units of '
        'the objective changed, conditions at other positions), both run with one seed. Oracle: the second run is the image '
        'of the first, evaluation by evaluation and in everything it leaves behind. Non-trivial: at least 2 generations.')
ASSUMPTIONS = ['factors are powers of two and shifted values are multiples of 1/8 below 2^40, so that the images are exact in '
               'floating point']


class Quantized(Recorder):
    """Values are multiples of 1/8 (exact under integer shifts)."""

    def compute(self, point):
        v = super().compute(point)
        conds = self.p.get('conds') or (['optimize'] * len(v) if isinstance(v, tuple) else None)
        if conds is None:
            return quant(v)
        return tuple(quant(x) if c == 'optimize' else x for c, x in zip(conds, v))


def quant(v):
    if v in (float('inf'), float('-inf')):
        return v
    return round((v if abs(v) < 2 ** 36 else v % 2 ** 36) * 8) / 8


class Image:
    """The equivalent problem: its declarations, and maps of points and values."""

    def __init__(self, case):
        cfg, t = case['cfg'], case['tr']
        p = cfg['prob']
        self.kind, self.gens, self.t = p['kind'], p['gens'], t
        self.cfg = copy.deepcopy(cfg)
        q = self.cfg['prob']
        if self.kind in ('binary', 'gray'):
            self.k = [t['pow'][i % len(t['pow'])] for i in range(len(self.gens))]
            q['gens'] = [[scale(v, k) for v in g] for g, k in zip(self.gens, self.k)]
        elif self.kind == 'cat':
            self.fwd, self.bwd, q['gens'] = [], [], []
            for i, g in enumerate(self.gens):
                if 'r' in g:
                    d, f = t['shift'] + i, t['factor']
                    old = list(range(g['r'][0], g['r'][1] + 1, g['r'][2]))
                    new = [v * f + d for v in old]
                    q['gens'].append({'r': [g['r'][0] * f + d, g['r'][1] * f + d, g['r'][2] * f]})
                else:
                    old = g['l']
                    new = labels(len(old), t['labels'], t['shift'] + i)
                    q['gens'].append({'l': new})
                self.fwd.append(dict(zip(old, new)))
                self.bwd.append(dict(zip(new, old)))
        else:
            q['gens'] = [self.gens[0] + t['shift'], self.gens[1] + t['shift'], self.gens[2]]
        if cfg.get('inp'):
            self.cfg['inp'] = [self.forward(x) for x in cfg['inp']]
        self.e, self.d = t['vpow'], 0
        if cfg['fit'] != 'ffga' and cfg.get('target') is not None:
            self.e, self.d = 0, t['vshift']
            x = cfg['target']
            self.cfg['target'] = [a + self.d for a in x] if isinstance(x, list) else x + self.d
        if p.get('conds') and self.e:
            pen = q['penalty']
            if pen['p'] == 'static':
                self.e = 0
            elif cfg['fit'] != 'ffga':
                pen['args'] = dict(pen.get('args', {}), delta=scale(pen.get('args', {}).get('delta', 1), self.e))
        if p.get('conds'):
            rest = [c for c in p['conds'] if c != 'optimize']
            m = len(p['conds']) - len(rest)
            for _ in range(m):
                rest.insert(t['place'] % (len(rest) + 1), 'optimize')
                t = dict(t, place=t['place'] // 7)
            q['conds'] = rest

    def forward(self, point):
        if self.kind in ('binary', 'gray'):
            return [scale(v, k) for v, k in zip(point, self.k)]
        if self.kind == 'cat':
            return [f[v] for f, v in zip(self.fwd, point)]
        return [v + self.t['shift'] for v in point]

    def back(self, point):
        try:
            if self.kind in ('binary', 'gray'):
                return [v / 2.0 ** k for v, k in zip(point, self.k)]
            if self.kind == 'cat':
                return [f[v] for f, v in zip(self.bwd, point)]
            return [v - self.t['shift'] for v in point]
        except (KeyError, TypeError):
            raise Violation(f'a point outside the declared values: {point!r}')

    def value(self, v):
        return scale(v, self.e) + self.d

    def values(self, base, prob):
        """The returned values, as the equivalent problem declares them."""
        if not prob.get('conds'):
            return tuple(self.value(v) for v in base) if prob.get('multi') else self.value(base)
        objs = [self.value(v) for c, v in zip(prob['conds'], base) if c == 'optimize']
        rest = [v for c, v in zip(prob['conds'], base) if c != 'optimize']
        return tuple(objs.pop(0) if c == 'optimize' else rest.pop(0) for c in self.cfg['prob']['conds'])


def scale(v, k):
    if k >= 0 and isinstance(v, int):
        return v * 2 ** k
    return v * 2.0 ** k


def labels(n, mode, salt):
    if mode == 'text':
        return [f'label {salt} {i}' for i in range(n)]
    if mode == 'down':
        return [salt - 7 * i for i in range(n)]
    if mode == 'pairs':
        return [(i // 3, str(i % 3 + salt)) for i in range(n)]
    odd = [0, '', None, 'a', 1.5, -1, '0', (), 'None', 1, 2.25, (0,)]
    out = odd[salt % len(odd):] + odd[:salt % len(odd)]
    return (out + [f'more {i}' for i in range(n)])[:n]


class Mapped:
    """Objective of the equivalent problem; keeps the points it was given, mapped back."""

    def __init__(self, image, prob, cls):
        self.image, self.rec, self.prob = image, cls(prob), prob
        self.with_data, self.expect_data, self.calls = False, None, []

    def __call__(self, point):
        require(isinstance(point, list), lambda: f'objective argument is {type(point).__name__}, not a list')
        b = self.image.back(point)
        self.calls.append(b)
        return self.image.values(self.rec(b), self.prob)


def leftovers(data, image=None):
    """What a run leaves behind; of the equivalent run: mapped back."""
    def score(s):
        if image is None or s is None:
            return s
        if isinstance(s, list):
            return [score(x) for x in s]
        return s / 2.0 ** image.e if image.cfg['fit'] != 'ffga' else s

    def obj(o):
        if image is None or o is None:
            return o
        if isinstance(o, list):
            return [obj(x) for x in o]
        return (o - image.d) / 2.0 ** image.e

    def geno(i):
        if image is None or image.kind in ('binary', 'gray'):
            return i['genotype']
        return image.back(i['genotype'])

    def pheno(i):
        x = i.get('phenotype')
        return image.back(x) if image is not None and x is not None else x

    def ind(i):
        return [geno(i), pheno(i), score(i['score']), obj(i['obj_score']), i['feasible'], i.get('rank')]
    b = data.best_solution
    return {'points evaluated': None,
            'last generation': [ind(i) for i in data.population],
            'best solution': [ind(i) for i in b['pareto_set']] if 'pareto_set' in b else ind(b),
            'generation of the best solution': b['idx_generation'],
            'history': [[ind(i) for i in e] if isinstance(e, list) and e and isinstance(e[0], dict) else score(e)
                        for e in data.historical_best],
            'middle': [score(s) for s in data.historical_mediocre], 'worst': [score(s) for s in data.historical_worst],
            'number of generations': data.idx_generation, 'generations without improvement': data.num_generation_no_improve}


def run(case):
    cfg = case['cfg']
    p = cfg['prob']
    image = Image(case)
    cls = Quantized if image.d else Recorder
    rec = cls(p)
    seeded(cfg['seed'], 1)
    a = leftovers(run_any(cfg, rec))
    rec2 = Mapped(image, p, cls)
    seeded(cfg['seed'], 2)
    b = leftovers(run_any(image.cfg, rec2), image)
    a['points evaluated'], b['points evaluated'] = rec.calls, rec2.calls
    for key in a:
        require(a[key] == b[key], lambda: f'{cfg.get("front")}: the equivalent problem gives another run: {key}: '
                                          f'{differ(a[key], b[key])} (declared {image.cfg["prob"]["gens"]}, '
                                          f'{cond_list(image.cfg["prob"])})')
    return Info(cfg['ngen'] >= 2, [cfg.get('front', '?'), p['kind'], cfg['sel'], 'target' if image.d else f'factor 2^{image.e}',
                                   'constrained' if p.get('conds') else 'free'])


def differ(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{len(a)} and {len(b)}'
        i = next(i for i in range(len(a)) if a[i] != b[i])
        return f'number {i}: {str(a[i])[:150]} and {str(b[i])[:150]}'
    return f'{a} and {b}'


transform = st.fixed_dictionaries({
    'pow': st.lists(st.integers(-8, 8), min_size=1, max_size=4), 'shift': st.integers(-60, 60), 'factor': st.integers(1, 5),
    'labels': st.sampled_from(['text', 'down', 'pairs', 'odd']), 'vpow': st.sampled_from([0, 1, 3, 10, 40, 200, -1, -3, -10, -40, -200]),
    'vshift': st.sampled_from([1, 2, 7, 1000, 123456, -1, -2, -50, -99999]), 'place': st.integers(0, 7 ** 7)})


@st.composite
def case(draw, **k):
    return {'cfg': draw(front_cfg(collector=True, **k)), 'tr': draw(transform)}


SUBS = [Sub('runs', case(n_hi=24, ngen_hi=10, ngen_lo=2), run, 700, 12000),
        Sub('plain', case(n_hi=14, ngen_hi=6, ngen_lo=2, constrained=False, flavours=False), run, 300, 5000),
        Sub('constrained', case(n_hi=14, ngen_hi=6, ngen_lo=2, constrained=True), run, 300, 5000)]
