"""C25: the search searches: on problems with structure every algorithm makes far more progress than chance."""
from math import cos, hypot, pi, sin

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import seeds
from ..sut import POPS, baumeva, call, crc, point_of, py_gens, require, seeded

PROPERTY = 'C25'
RULE = ('A case is a smooth or separable problem with a hidden optimum (sphere, sum of distances, matching a hidden word, '
        'shortest closed tour) and an algorithm with its default operators, run with 5 seeds. Oracle: random sampling '
        'of the same search space with the same number of evaluations (single-objective), or the first generation '
        '(multi-objective); thresholds are several standard deviations away from the measured behaviour. Non-trivial: '
        'every case.')
RUNS = 5
# measured over 800 cases: at most 0.20, 0.10, 0.03, 0.28 (single), 0.32 (multi)
LIMIT = {'binary': 0.5, 'gray': 0.35, 'cat': 0.3, 'order': 0.6, 'multi': 0.5}


def gens_for(case):
    k, size = case['kind'], case['size']
    if k in ('binary', 'gray'):
        return [[-8, 8, 0.02]] * size
    if k == 'cat':
        return [{'l': list('abcdef')} if i % 2 else {'r': [0, 10, 2]} for i in range(size)]
    return [0, size - 1, size]


def gap(case, x, salt):
    """Distance to the hidden optimum, 0 at the optimum."""
    k, size = case['kind'], case['size']
    if k in ('binary', 'gray'):
        c = [(crc(i, salt) % 9 - 4) * 1.5 for i in range(size)]
        if case['form'] == 'abs':
            return sum(abs(v - ci) for v, ci in zip(x, c))
        return sum((v - ci) ** 2 for v, ci in zip(x, c))
    if k == 'cat':
        g = gens_for(case)
        vals = [list(range(0, 11, 2)) if 'r' in gi else gi['l'] for gi in g]
        return float(sum(v != vs[crc(i, salt) % 6] for i, (v, vs) in enumerate(zip(x, vals))))
    order = sorted(range(size), key=lambda i: crc(i, salt))
    ang = {v: 2 * pi * i / size for i, v in enumerate(order)}
    return sum(hypot(cos(ang[a]) - cos(ang[b]), sin(ang[a]) - sin(ang[b])) for a, b in zip(x, x[1:] + x[:1])) \
        - size * 2 * sin(pi / size)


FRONT = {'binary': 'BinaryGA', 'gray': 'BinaryGA', 'cat': 'CategoricalGA', 'order': 'CombinatoryGA'}


def single_ratio(case):
    kind = case['kind']
    gens = gens_for(case)
    ga_sum = rs_sum = 0.0
    for r in range(RUNS):
        salt = case['salt'] + r
        count = [0]

        def obj(x):
            count[0] += 1
            return case['base'] + gap(case, x, salt)
        kw = dict(num_generations=40, num_individ=40, gens=py_gens(kind, gens), obj_function=obj, early_stop=None,
                  is_print=False)
        if case['target']:
            kw['obj_value'] = case['base']
        if kind == 'gray':
            kw['is_gray'] = True
        seeded(case['seed'] + r)
        data = call(FRONT[kind], getattr(baumeva, FRONT[kind])(**kw).optimize)
        ga_sum += data.best_solution['obj_score'] - case['base']
        pop = POPS[kind]()
        pop.set_params(num_individ=count[0], gens=py_gens(kind, gens))
        pop.fill()
        rs_sum += min(gap(case, point_of(kind, i), salt) for i in pop)
    return ga_sum / rs_sum


def run_single(case):
    q = single_ratio(case)
    require(q <= LIMIT[case['kind']], lambda: f'{FRONT[case["kind"]]}: over {RUNS} runs the distance to the optimum is {q:.2f} of what '
                              f'random sampling reaches with as many evaluations')
    return Info(True, [case['kind'], 'target' if case['target'] else 'min'])


def multi_ratio(case):
    kind, m = case['kind'], case['m']
    gens = gens_for(case)
    first = last = 0.0
    for r in range(RUNS):
        salt = case['salt'] + r

        def obj(x):
            g = gap(case, x, salt)
            return tuple(g + 0.5 * sum((v - j) ** 2 for v in x[:1]) / 10 for j in range(m))
        kw = dict(num_generations=12, num_individ=20, gens=py_gens(kind, gens), obj_function=obj, early_stop=None,
                  is_print=False, is_gray=kind == 'gray')
        if case['target'] and case['front'] == 'VEGA':
            kw['obj_value'] = [0] * m
        seeded(case['seed'] + r)
        data = call(case['front'], getattr(baumeva, case['front'])(**kw).optimize)
        pop = POPS[kind]()
        pop.set_params(num_individ=200, gens=py_gens(kind, gens))
        pop.fill()
        first += sum(sum(obj(i['phenotype'])) for i in pop) / 200
        last += sum(sum(i['obj_score']) for i in data.population) / len(data.population)
    return last / first


def run_multi(case):
    q = multi_ratio(case)
    require(q <= LIMIT['multi'], lambda: f'{case["front"]}: over {RUNS} runs the average objective of the last generation is '
                              f'{q:.2f} of that of random points')
    return Info(True, [case['front'], case['kind']])


@st.composite
def single(draw):
    kind = draw(st.sampled_from(['binary', 'gray', 'cat', 'order']))
    size = draw({'binary': st.integers(4, 8), 'gray': st.integers(4, 8), 'cat': st.integers(10, 18),
                 'order': st.integers(11, 15)}[kind])
    return {'kind': kind, 'size': size, 'form': draw(st.sampled_from(['sq', 'abs'])), 'salt': draw(st.integers(0, 10 ** 6)),
            'base': draw(st.sampled_from([0, 0, 50, -20])), 'target': draw(st.booleans()), 'seed': draw(seeds)}


@st.composite
def multi(draw):
    return {'kind': draw(st.sampled_from(['binary', 'gray'])), 'size': draw(st.integers(3, 6)),
            'form': draw(st.sampled_from(['sq', 'abs'])), 'salt': draw(st.integers(0, 10 ** 6)),
            'm': draw(st.integers(2, 3)), 'front': draw(st.sampled_from(['VEGA', 'FFGA'])),
            'target': draw(st.booleans()), 'seed': draw(seeds)}


SUBS = [Sub('single', single(), run_single, 40, 600, cpu_s=120), Sub('multi', multi(), run_multi, 40, 400, cpu_s=120)]
