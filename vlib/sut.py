"""The code under test, imported from /repo's working tree, and the helpers every oracle uses to drive it.

Only the documented surface is used: front-end classes, component classes and their execute(), set_params()/fill(),
GaData/MultiGaData attributes and the keys of individuals.
"""
import contextlib
import copy
import functools
import io
import os
import random
import sys
import warnings
import zlib

REPO = os.environ.get('VP_REPO', '/repo')   # another tree only when the machinery itself is being tested
sys.path.insert(0, REPO)


class Violation(BaseException):
    """Not an Exception, so that no handler in the library swallows it."""

    def __init__(self, message):
        super().__init__(message)
        self.message = message


class HarnessError(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


IMPORT_ERROR = None
try:
    import baumeva
    import baumeva.ga as bga
    if not os.path.realpath(baumeva.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f'baumeva imported from {baumeva.__file__}, not from {REPO}')
except Exception as e:   # the tree does not import: no verdict
    print(f'cannot import baumeva: {e!r}', file=sys.stderr)
    raise


def require(cond, message):
    if not cond:
        raise Violation(message() if callable(message) else message)


def begin_case(case):
    seed = case.get('seed', 12345) if isinstance(case, dict) else 12345
    baumeva.generator.rnd_seed = seed
    random.seed(seed)


def end_case():
    baumeva.generator.rnd_seed = None


def call(what, fn, *a, **k):
    """Call the library on an input of its domain: any exception is a violation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn(*a, **k)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.relpath(f.filename, REPO)}:{f.lineno}' for f in reversed(tb)
                      if f.filename.startswith(REPO)), 'the call itself')
        raise Violation(f'{what}: unexpected {type(e).__name__}: {e} (at {where})') from None


@contextlib.contextmanager
def silent():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


# ---------------------------------------------------------------- problems
def crc(*parts):
    return zlib.crc32(repr(parts).encode())


def py_gens(kind, gens):
    """JSON -> the argument the library takes."""
    if kind in ('binary', 'gray'):
        return tuple(tuple(g) for g in gens)
    if kind == 'cat':
        return tuple(tuple(g['r']) if 'r' in g else list(g['l']) for g in gens)
    return tuple(gens)


POPS = {'binary': bga.BinaryPopulation, 'gray': bga.BinaryGrayPopulation, 'cat': bga.CatPopulation,
        'order': bga.OrderCatPopulation}


def allowed(kind, gens):
    """Per-position set of allowed values (cat)."""
    return [set(range(g['r'][0], g['r'][1] + 1, g['r'][2])) if 'r' in g else set(g['l']) for g in gens]


def is_num(v):
    import numbers
    return isinstance(v, numbers.Real) and not isinstance(v, bool)


def check_point(kind, gens, point, what):
    """`point` is what the objective function is given: decoded values (binary) or the genotype."""
    require(isinstance(point, list), lambda: f'{what}: objective argument is {type(point).__name__}, not a list')
    if kind in ('binary', 'gray'):
        require(len(point) == len(gens), lambda: f'{what}: {len(point)} values for {len(gens)} genes: {point}')
        for v, (lo, hi, _s) in zip(point, gens):
            require(is_num(v) and lo <= v <= hi, lambda: f'{what}: value {v!r} outside [{lo}, {hi}] in {point}')
    elif kind == 'cat':
        ok = allowed(kind, gens)
        require(len(point) == len(gens), lambda: f'{what}: {len(point)} values for {len(gens)} genes: {point}')
        for i, v in enumerate(point):
            require(v in ok[i], lambda: f'{what}: gene {i} = {v!r} not among {sorted(map(repr, ok[i]))}')
    else:
        lo, hi, k = gens
        require(len(point) == k, lambda: f'{what}: {len(point)} values instead of {k}: {point}')
        require(len(set(point)) == k, lambda: f'{what}: repeated value in {point}')
        for v in point:
            require(type(v) is int and lo <= v <= hi, lambda: f'{what}: value {v!r} outside [{lo}, {hi}]')


def feat(v, i, salt):
    return float(v) if is_num(v) else float(crc(v, i, salt) % 10)


def norm(point):
    return [float(v) if is_num(v) else v for v in point]


def fval(spec, point):
    """Value of one generated objective at a point."""
    k, salt = spec['f'], spec.get('salt', 0)
    if k == 'const':
        return 3
    if k == 'hash':
        return (crc(norm(point), salt) % 10007) / 500.0 - 10.0
    if k == 'ties':
        return crc(norm(point), salt) % 4
    if k == 'add':
        return sum((crc(i, salt) % 7 - 3) * feat(v, i, salt) for i, v in enumerate(point))
    if k == 'sq':
        return sum((feat(v, i, salt) - (crc(i, salt) % 9 - 4)) ** 2 for i, v in enumerate(point))
    if k == 'huge':
        return 1e9 * sum((feat(v, i, salt) - (crc(i, salt) % 9 - 4)) ** 2 for i, v in enumerate(point))
    if k == 'plateau':
        return float(int(sum(abs(feat(v, i, salt)) for i, v in enumerate(point)) / 5))
    if k in ('up', 'down'):      # a pair of these: nothing dominates anything
        v = sum(feat(v, i, 0) for i, v in enumerate(point))
        return v if k == 'up' else -v
    if k == 'inf':
        h = crc(norm(point), salt)
        return float('inf') if h % 3 == 0 else (h % 10007) / 500.0 - 10.0
    if k == 'tiny':      # differences far below 1e-3, down to 1e-12
        return 1.0 + (crc(norm(point), salt) % 10007) * 10.0 ** -(6 + salt % 7)
    raise HarnessError(f'objective {k}')


def gval(spec, point):
    """Value of one generated condition: integers -3..3 (so equality is satisfiable), or continuous."""
    if spec['g'] == 'int':
        return crc(norm(point), spec['salt'], 'g') % 7 - 3 + spec.get('off', 0)
    if spec['g'] == 'cont':
        return (crc(norm(point), spec['salt'], 'c') % 2001) / 1000.0 - 1.0 + spec.get('off', 0)
    if spec['g'] == 'add':
        return sum((crc(i, spec['salt'], 'a') % 5 - 2) * feat(v, i, spec['salt']) for i, v in enumerate(point)) \
            + spec.get('off', 0)
    raise HarnessError('condition')


class Recorder:
    """Objective function built from a generated problem. Records every call; validates every argument."""

    def __init__(self, prob, validate=True, with_data=False, expect_data=None):
        self.p = prob
        self.validate = validate
        self.with_data = with_data
        self.expect_data = expect_data
        self.calls = []      # points, as given
        self.values = []
        self.cache = {}

    def compute(self, point):
        p = self.p
        objs = [fval(s, point) for s in p['objs']]
        conds = p.get('conds') or []
        if not conds:
            if p.get('multi'):
                return tuple(objs)
            return objs[0]
        out, oi = [], 0
        for c in conds:
            if c == 'optimize':
                out.append(objs[oi])
                oi += 1
            else:
                out.append(gval(c, point))
        return tuple(out)

    def __call__(self, *args):
        if self.with_data:
            require(len(args) == 2, lambda: f'objective called with {len(args)} arguments, input_data not passed')
            require(args[0] is self.expect_data, lambda: f'objective got input_data {args[0]!r}')
            point = args[1]
        else:
            require(len(args) == 1, lambda: f'objective called with {len(args)} arguments')
            point = args[0]
        if self.validate:
            check_point(self.p['kind'], self.p['gens'], point, 'objective call')
        self.calls.append(list(point))
        try:
            key = tuple(point)
            if key not in self.cache:
                self.cache[key] = self.compute(point)
            v = self.cache[key]
        except Exception as e:
            if self.validate:
                raise HarnessError(f'generated objective failed at {point!r}: {e!r}')
            raise Violation(f'objective called with a malformed point {point!r}')
        self.values.append(v)
        return v


def cond_list(prob):
    """The conditions argument for a generated problem (None when unconstrained)."""
    if not prob.get('conds'):
        return None
    return [c if c == 'optimize' else c['k'] for c in prob['conds']]


def mk_penalty(spec):
    if spec is None:
        return None
    k = spec['p']
    if k == 'dynamic':
        return bga.DynamicPenalty(**spec.get('args', {}))
    if k == 'adaptive':
        return bga.AdaptivePenalty(**spec.get('args', {}))
    return bga.StaticPenalty(*static_tables(spec))


def static_tables(spec):
    inf = float('inf')

    def iv(d):
        return {int(i): [(a, inf if b is None else b) for a, b in v] for i, v in d.items()}

    def co(d):
        return {int(i): list(v) for i, v in d.items()}
    return iv(spec['eq_iv']), co(spec['eq_r']), iv(spec['in_iv']), co(spec['in_r'])


def ref_violation(kind, v):
    return abs(v) if kind == '!=' else max(0, v)


def ref_penalty(spec, kinds, vals, t, best_feasible):
    """Documented penalty of condition values `vals` (kinds '<='/'!=') in generation t."""
    viol = [ref_violation(k, v) for k, v in zip(kinds, vals)]
    if spec['p'] == 'dynamic':
        a = dict(delta=1, c=0.5, alpha=2, betta=2)
        a.update(spec.get('args', {}))
        return a['delta'] * (a['c'] * t) ** a['alpha'] * sum(x ** a['betta'] for x in viol)
    if spec['p'] == 'adaptive':
        a = dict(delta=1, betta_1=1.1, betta_2=1.2, betta=2)
        a.update(spec.get('args', {}))
        lam = 0 if t == 0 else (10 / a['betta_1'] if best_feasible else 10 * a['betta_2'])
        return a['delta'] * lam * sum(x ** a['betta'] for x in viol)
    tot = 0
    for i, (k, x) in enumerate(zip(kinds, viol)):
        if x == 0:
            continue
        iv, r = (spec['eq_iv'], spec['eq_r']) if k == '!=' else (spec['in_iv'], spec['in_r'])
        for j, (a, b) in enumerate(iv[str(i)]):
            if a < x <= (float('inf') if b is None else b):
                tot += (r[str(i)][j] * x) ** 2
                break
        else:
            raise HarnessError('violation outside the generated intervals')
    return tot


def ref_feasible(kinds, vals):
    return all((v <= 0) if k == '<=' else (v == 0) for k, v in zip(kinds, vals))


def split_values(prob, values):
    """(objectives, condition kinds, condition values) of a returned tuple."""
    if not prob.get('conds'):
        return (list(values) if prob.get('multi') else [values]), [], []
    objs, kinds, cv = [], [], []
    for c, v in zip(prob['conds'], values):
        if c == 'optimize':
            objs.append(v)
        else:
            kinds.append(c['k'])
            cv.append(v)
    return objs, kinds, cv


def ref_score(target, obj, pen):
    return 1.0 / (1 + abs(target - obj) + pen) if target is not None else -(obj + pen)


def score_ok(got, target, obj, pen):
    """The score of the formula, up to rounding: the order of operations is free, nothing else is."""
    want = ref_score(target, obj, pen)
    if got == want:
        return True
    if abs(want) == float('inf') or abs(got) == float('inf'):
        return False
    if target is None:
        return abs(got - want) <= 1e-13 * (abs(obj) + abs(pen))
    return abs(got - want) <= 1e-13 * (1 + abs(target) + abs(obj) + abs(pen)) * want * want


def close(a, b, rel=1e-9, ab=1e-12):
    return a == b or float('inf') > max(rel * max(abs(a), abs(b)), ab) >= abs(a - b)


# ---------------------------------------------------------------- building runs
def point_of(kind, ind):
    return ind['phenotype'] if kind in ('binary', 'gray') else ind['genotype']


SELECTIONS = {
    'tournament': lambda c: bga.TournamentSelection(c.get('tsize', 3)),
    'balanced': lambda c: bga.BalancedSelection(),
    'ranked': lambda c: bga.RankedSelection(),
    'vtournament': lambda c: bga.VEGATournamentSelection(c['nobj'], c.get('tsize', 3)),
    'vbalanced': lambda c: bga.VEGABalancedSelection(c['nobj']),
    'vranked': lambda c: bga.VEGARankedSelection(c['nobj']),
}
CROSSOVERS = {'one': bga.OnePointCrossover, 'two': bga.TwoPointCrossover, 'uniform': bga.UniformCrossover,
              'order': bga.OrderCrossover}
MUTATIONS = {'bin': bga.BinStringMutation, 'cat': bga.CategoricalMutation, 'swap': bga.SwapMutation,
             'inversion': bga.InversionMutation, 'movement': bga.MovementMutation, 'shift': bga.ShiftMutation}
FITNESS = {'hyper': bga.HyperbolaFitness, 'vega': bga.VEGAHyperbolaFitness, 'ffga': bga.FFGAFitness}


class Parts:
    """Fresh components for a generated run configuration."""

    def __init__(self, cfg, rec, penalty=None):
        p = cfg['prob']
        self.fitness = FITNESS[cfg['fit']](obj_function=rec, obj_value=cfg.get('target'),
                                           input_data=rec.expect_data if rec.with_data else None,
                                           penalty=penalty or mk_penalty(p.get('penalty')), conditions=cond_list(p))
        self.selection = SELECTIONS[cfg['sel']](dict(cfg, nobj=len(p['objs'])))
        self.crossover = CROSSOVERS[cfg['cross']]()
        self.mutation = MUTATIONS[cfg['mut']](cfg['mlvl'])
        ng = bga.MultiNewGeneration if cfg.get('newgen') == 'multi' else bga.NewGeneration
        self.new_generation = ng(cfg['transfer'])


def new_data(cfg):
    cls = bga.MultiGaData if cfg['prob'].get('multi') else bga.GaData
    return cls(num_generations=cfg['ngen'], children_percent=cfg['cp'], early_stop=cfg.get('early', 10))


def new_population(cfg, inp=None):
    p = cfg['prob']
    pop = POPS[p['kind']]()
    pop.set_params(num_individ=cfg['n'], gens=py_gens(p['kind'], p['gens']),
                   input_population=inp if inp is not None else cfg.get('inp'))
    pop.fill()
    return pop


class Run:
    """A hand-driven run (the documented 'advanced mode'), one public operation at a time."""

    def __init__(self, cfg, rec=None, parts=None):
        self.cfg = cfg
        self.kind = cfg['prob']['kind']
        self.gens = cfg['prob']['gens']
        self.rec = rec or Recorder(cfg['prob'])
        self.parts = parts or call('constructing components', Parts, cfg, self.rec)
        self.data = call('creating GaData', new_data, cfg)
        self.data.population = call('creating the first generation', new_population, cfg)

    def start(self):
        self.evaluate()
        self.update()

    def evaluate(self):
        call('fitness', self.parts.fitness.execute, self.data)

    def update(self):
        call('update', self.data.update)

    def select(self):
        call('selection', self.parts.selection.execute, self.data)

    def cross(self):
        call('crossover', self.parts.crossover.execute, self.data)

    def mutate(self):
        call('mutation', self.parts.mutation.execute, self.data)

    def renew(self):
        call('new generation', self.parts.new_generation.execute, self.data)

    def breed(self):
        self.select()
        self.cross()
        self.mutate()
        self.renew()

    def step(self):
        self.breed()
        self.evaluate()
        self.update()

    def snapshot(self):
        return [copy.deepcopy(dict(i)) for i in self.data.population]


def frontend(cfg, rec, is_print=False, **over):
    """The front-end object for a configuration (cfg['front'])."""
    p = cfg['prob']
    k = dict(num_generations=cfg['ngen'], num_individ=cfg['n'], gens=py_gens(p['kind'], p['gens']), obj_function=rec,
             obj_value=cfg.get('target'), input_data=rec.expect_data if rec.with_data else None,
             penalty=mk_penalty(p.get('penalty')), conditions=cond_list(p), children_percent=cfg['cp'],
             early_stop=cfg.get('early', 10), input_population=cfg.get('inp'), tournament_size=cfg.get('tsize', 3),
             mutation_lvl=cfg['mlvl'], transfer_parents=cfg['transfer'], is_print=is_print)
    cls = {'BinaryGA': baumeva.BinaryGA, 'CategoricalGA': baumeva.CategoricalGA,
           'CombinatoryGA': baumeva.CombinatoryGA, 'VEGA': baumeva.VEGA, 'FFGA': baumeva.FFGA}[cfg['front']]
    if cfg['front'] in ('BinaryGA', 'VEGA', 'FFGA'):
        k['is_gray'] = p['kind'] == 'gray'
    k.update(over)
    return cls(**k)


# what the documentation says each front-end is made of
FRONT_PARTS = {
    'BinaryGA': dict(fit='hyper', sel='tournament', cross='one', mut='bin'),
    'CategoricalGA': dict(fit='hyper', sel='tournament', cross='uniform', mut='cat'),
    'CombinatoryGA': dict(fit='hyper', sel='tournament', cross='order', mut='movement'),
    'VEGA': dict(fit='vega', sel='vtournament', cross='one', mut='bin'),
    'FFGA': dict(fit='ffga', sel='balanced', cross='one', mut='bin', newgen='multi'),
}


def collector(cfg, rec):
    parts = Parts(cfg, rec)
    storage = bga.MultiGaData if cfg['prob'].get('multi') else bga.GaData
    c = baumeva.CollectorGA(fitness=parts.fitness, selection=parts.selection, crossover=parts.crossover,
                            mutation=parts.mutation, new_generation=parts.new_generation, storage=storage)
    p = cfg['prob']
    c.set_population(population=POPS[p['kind']], num_individ=cfg['n'], num_generations=cfg['ngen'],
                     gens=py_gens(p['kind'], p['gens']), input_population=cfg.get('inp'), children_percent=cfg['cp'],
                     early_stop=cfg.get('early', 10))
    return c


def run_any(cfg, rec):
    """Run cfg through its front-end (or CollectorGA) and return the ga_data."""
    if cfg.get('front') in FRONT_PARTS:
        ga = call('constructing ' + cfg['front'], frontend, cfg, rec)
        return call(cfg['front'] + '.optimize', ga.optimize)
    with silent():
        c = call('constructing CollectorGA', collector, cfg, rec)
        call('CollectorGA.optimize', c.optimize)
    return c.ga_data


# ---------------------------------------------------------------- reference coding of binary genes
def ref_bits(gene):
    """(bits, number of steps) of a gene given as decimals: fewest bits whose 2**n - 1 steps are no wider than the
    requested step."""
    from fractions import Fraction
    lo, hi, st = (Fraction(repr(v)) if isinstance(v, float) else Fraction(v) for v in gene)
    q = (hi - lo) / st
    n_steps = -(-q.numerator // q.denominator)
    bits = max(1, n_steps.bit_length())
    return bits, 2 ** bits - 1


def ref_index(bits, gray):
    v = int(''.join(bits), 2)
    if gray:
        r = 0
        while v:
            r ^= v
            v >>= 1
        return r
    return v


def ref_decode(gens, genotype, gray):
    out, pos = [], 0
    for g in gens:
        b, steps = ref_bits(g)
        out.append(g[0] + ref_index(genotype[pos:pos + b], gray) * (g[1] - g[0]) / steps)
        pos += b
    return out, pos


def tol(gene):
    """Rounding allowed in a decoded value: never a neighbouring grid point, unless those are as close as the rounding."""
    return _tol(*gene)


@functools.lru_cache(maxsize=4096, typed=True)
def _tol(lo, hi, step):
    return min(1e-9, 0.25 / ref_bits((lo, hi, step))[1]) * abs(hi - lo) + 2e-15 * max(abs(lo), abs(hi))


# ---------------------------------------------------------------- dominance
def dominates(a, b):
    """a dominates b (minimization)."""
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


# ---------------------------------------------------------------- observing a run generation by generation
class Snap:
    """State right after a generation was recorded."""

    def __init__(self, data, calls):
        self.pop = [copy.deepcopy(dict(i)) for i in data.population]
        self.best = copy.deepcopy(data.best_solution)
        self.hist_best = copy.deepcopy(data.historical_best)
        self.hist_mid = list(data.historical_mediocre)
        self.hist_worst = list(data.historical_worst)
        self.no_improve = data.num_generation_no_improve
        self.idx_generation = data.idx_generation
        self.calls = calls
        self.parents = [copy.deepcopy(dict(i)) for i in (data.parents or [])]


@contextlib.contextmanager
def watch_updates(rec):
    """Snapshots taken after every GaData.update() of whatever runs inside."""
    snaps, depth, saved = [], [0], []
    classes = {c for c in vars(bga).values() if isinstance(c, type) and issubclass(c, bga.GaData)}

    def wrap(orig):
        def update(self, *a, **k):
            depth[0] += 1
            try:
                r = orig(self, *a, **k)
            finally:
                depth[0] -= 1
            if depth[0] == 0:
                snaps.append(Snap(self, len(rec.calls)))
            return r
        return update
    for c in classes:
        if 'update' in vars(c):
            saved.append((c, vars(c)['update']))
            setattr(c, 'update', wrap(vars(c)['update']))
    try:
        yield snaps
    finally:
        for c, f in saved:
            setattr(c, 'update', f)


def observe(cfg, rec):
    """(ga_data, snapshots) of a run through its front-end or CollectorGA."""
    with watch_updates(rec) as snaps:
        data = run_any(cfg, rec)
    require(len(snaps) == len(data.historical_best),
            lambda: f'{len(data.historical_best)} history entries for {len(snaps)} recorded generations')
    return data, snaps


CONTENT = ('genotype', 'phenotype', 'score', 'obj_score', 'feasible')


def content(ind, keys=CONTENT):
    """Hashable content of an individual, without its transient index."""
    return repr([ind.get(k) for k in keys])


def same_multiset(a, b):
    from collections import Counter
    return Counter(a) == Counter(b)


def pick_state(kind):
    """'single', 'vega' or 'ffga'."""
    return {'hyper': 'single', 'vega': 'vega', 'ffga': 'ffga'}[kind]


def late(data, key, start=0):
    """Put hand-made data somewhere in the course of a run (determined by `key`): generations recorded, some of them
    without improvement, a best solution known. What an operator does must not depend on it."""
    rng = random.Random(repr(key))
    g = max(start, rng.choice([0, 0, 1, 2, 4, 9, 15, 30, 60, 120, 250]))
    data.num_generations = g + rng.choice([1, 2, 10, 100, 1000])
    data.early_stop = rng.choice([0, 3, 10, 50, 2000])
    data.idx_generation = g
    data.num_generation_no_improve = rng.choice([0, 0, g // 2, max(0, g - 1)])
    if rng.random() < 0.3:               # at the last generation before stopping early
        data.early_stop = data.num_generation_no_improve
    if g:
        inds = [i for i in data.population if i['score'] is not None]
        if inds:
            best = max(inds, key=lambda i: i['score'])
            if isinstance(best['score'], list):
                data.best_solution = {'pareto_set': [copy.deepcopy(dict(best))], 'feasible': best['feasible']}
                data.historical_best = [[copy.deepcopy(dict(best))] for _ in range(min(g, 3))]
            else:
                data.best_solution = copy.deepcopy(dict(best))
                low = min(i['score'] for i in inds)
                data.historical_best = [best['score']] * g
                data.historical_mediocre = [best['score']] * g
                data.historical_worst = [low] * g
            data.best_solution['idx_generation'] = g - 1 - data.num_generation_no_improve
    return g


def synth(genotypes, scores=None, **extra):
    """A categorical population of n given genotypes and scores, built through the public interface."""
    pop = bga.CatPopulation()
    k = len(genotypes[0])
    vals = [sorted({g[i] for g in genotypes}, key=repr) for i in range(k)]
    gens = tuple(list(v) for v in vals)

    def build():
        pop.set_params(num_individ=len(genotypes), gens=gens, input_population=[list(g) for g in genotypes])
        pop.fill()
    call('building a population', build)
    require(len(pop) == len(genotypes) and [i['genotype'] for i in pop] == [list(g) for g in genotypes],
            'a supplied population is not taken over as given')
    if scores is not None:
        for i, s in zip(pop, scores):
            i['score'] = s
            i['obj_score'] = s
    for key, vs in extra.items():
        for i, v in zip(pop, vs):
            i[key] = v
    return pop


def tournament_floor(scores, score, t):
    """A tournament of t different members can be won with this score."""
    t = min(t, len(scores) - 1)
    return sum(x <= score for x in scores) >= t


def assign_pairs(options, m, k):
    """Can every pair (with its set of admissible objectives) be given an objective, k pairs each?"""
    slots = {}

    def place(i, seen):
        for o in options[i]:
            for s in range(k):
                if (o, s) in seen:
                    continue
                seen.add((o, s))
                if (o, s) not in slots or place(slots[(o, s)], seen):
                    slots[(o, s)] = i
                    return True
        return False
    return len(options) == m * k and all(place(i, set()) for i in range(len(options)))


# ---------------------------------------------------------------- whole results
def fingerprint(data):
    """Everything a run leaves behind that the user can look at, as text."""
    keys = ('genotype', 'phenotype', 'score', 'obj_score', 'feasible', 'rank')
    return repr({
        'population': [[i.get(k) for k in keys] for i in data.population],
        'best': sorted((k, [[i.get(x) for x in keys] for i in v] if k == 'pareto_set' else v)
                       for k, v in data.best_solution.items() if k != 'idx_individ'),
        'hist': [[[i.get(x) for x in keys] for i in e] if isinstance(e, list) else e for e in data.historical_best],
        'mid': data.historical_mediocre, 'worst': data.historical_worst,
        'idx': data.idx_generation, 'no_improve': data.num_generation_no_improve})


def first_diff(a, b):
    i = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'...{a[max(0, i - 60):i + 60]}... vs ...{b[max(0, i - 60):i + 60]}...'


def seeded(seed, junk=0):
    """The user's way to seed; everything else that could influence a run is put in a different state."""
    baumeva.generator.rnd_seed = seed
    random.seed(junk)
    for _ in range(junk % 7):
        random.random()
