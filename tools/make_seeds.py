"""Writes /verif/seeded/<id>/ from the list below (id, property, [(file, old, new)], needs, breaks, demo).
Development tool; no check uses it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import contextlib, copy, io, os, random, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import baumeva
from baumeva import *
from baumeva.ga import *
from baumeva.global_generator import generator


def need(ok, what):
    if not ok:
        print('BROKEN:', what)
        sys.exit(1)


def data(pop, percent=0.95, cls=GaData, **kw):
    d = cls(num_generations=10, children_percent=percent, **kw)
    d.population = pop
    return d


def popul(cls, n, gens, given=None):
    p = cls()
    p.set_params(num_individ=n, gens=gens, input_population=given)
    p.fill()
    return p


'''
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits if isinstance(edits, list) else [edits], needs, breaks, demo))


G = 'baumeva/ga/'

seed('c01-cat-mutation-step', 'C01', (G + 'mutations/categorical_mutation.py',
     "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])",
     "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+gen_pool[i_gen][2], gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])"),
     'an integer categorical gene whose step does not divide its range, and a mutation of that gene',
     'a mutated categorical gene can take a value above its declared maximum', '''
for s in range(40):
    generator.rnd_seed = s
    seen = []
    r = CategoricalGA(num_generations=6, num_individ=8, gens=((0, 7, 3), (0, 4, 4)), mutation_lvl=0.9, is_print=False,
                      obj_function=lambda x: seen.append(list(x)) or sum(x)).optimize()
    for x in seen:
        need(x[0] in (0, 3, 6) and x[1] in (0, 4), f'{x} is outside the search space')
''')

seed('c02-gray-wide', 'C02', (G + 'populations/binary_gray_population.py',
     '''        real_value = 0
        while gray_value > 0:
            real_value = real_value ^ gray_value
            gray_value = gray_value >> 1
        return real_value
''', '''        real_value = gray_value
        for shift in (1, 2, 4, 8):
            real_value = real_value ^ (real_value >> shift)
        return real_value
'''), 'a Gray-coded gene of more than 16 bits',
     'Gray codes of more than 16 bits decode to the wrong grid points', '''
p = popul(BinaryGrayPopulation, 50, ((0, 2 ** 20 - 1, 1),), given=[[i * 21000] for i in range(49)])
for ind, i in zip(p, range(49)):
    need(abs(ind['phenotype'][0] - i * 21000) < 1e-6, f'{i * 21000} became {ind["phenotype"]}')
''')

seed('c03-dedupe-supplied', 'C03', (G + 'populations/cat_population.py',
     '''            num_empty_individ = self.num_individ - len(self.input_population)
        else:
''', '''            num_empty_individ = self.num_individ - len(set(map(tuple, self.input_population)))
        else:
'''), 'an initial population that contains the same individual twice',
     'the first generation has more individuals than requested', '''
p = popul(OrderCatPopulation, 10, (0, 6, 5), given=[[0, 1, 2, 3, 4], [5, 4, 3, 2, 1], [0, 1, 2, 3, 4]])
need(len(p) == 10, f'{len(p)} individuals')
p = popul(CatPopulation, 4, ((0, 3, 1), ['a', 'b']), given=[[0, 'a'], [0, 'a'], [1, 'b']])
need(len(p) == 4, f'{len(p)} individuals')
''')

seed('c03-top-never-drawn', 'C03', (G + 'populations/binary_population.py',
     'value=randint(0, self.real_num_points[i])', 'value=randint(0, max(1, self.real_num_points[i] - 1))'),
     'many random individuals: the topmost code of a gene of two or more bits is never drawn',
     'random individuals are not uniform: the upper bound never appears', '''
generator.rnd_seed = 5
p = popul(BinaryPopulation, 3000, ((0, 7, 1), (-2, 1, 1)))
need({i['phenotype'][0] for i in p} == set(map(float, range(8))), 'gene 0 does not cover its range')
need({i['phenotype'][1] for i in p} == {-2., -1., 0., 1.}, 'gene 1 does not cover its range')
''')

seed('c04-improvement-threshold', 'C04', (G + 'ga_data.py',
     "elif self.best_solution['score'] < self.population[-1]['score']:",
     "elif self.population[-1]['score'] - self.best_solution['score'] > 1e-9:"),
     'an improvement of the best score by less than 1e-9',
     'the reported best solution is not the best individual recorded', '''
p = popul(CatPopulation, 3, ((0, 9, 1),))
d = data(p)
for s in (0.5, 0.5 + 1e-11, 0.5 + 2e-11):
    for k, i in enumerate(p):
        i['score'] = i['obj_score'] = s - 0.1 * k
    p.is_sorted = False
    d.update()
    need(d.best_solution['score'] == s, f"best {d.best_solution['score']!r}, recorded {s!r}")
''')

seed('c05-duplicate-elite', 'C05', (G + 'new_generation.py',
     'del elites[-i - j]', 'del elites[-i]'),
     'two of the survivors have the same genotype (and different scores, as with a noisy objective or a dynamic penalty)',
     'the best individual is dropped in favour of its worse duplicate', '''
for s in range(30):
    random.seed(s)
    p = popul(CatPopulation, 8, ((0, 9, 1), (0, 9, 1)))
    for k, i in enumerate(p):
        i['score'] = i['obj_score'] = float(k)
    p[6]['genotype'] = list(p[7]['genotype'])
    d = data(p, 0.5)
    best = p[7]
    TournamentSelection(3).execute(d)
    UniformCrossover().execute(d)
    NewGeneration('best').execute(d)
    need(any(i is best for i in d.population), 'the best individual is lost')
''')

seed('c05-random-from-all', 'C05', (G + 'new_generation.py',
     '''            elites = sample(ga_data.population[:-1], num_elites)
            loop_counter = 0
''', '''            elites = sample(ga_data.population, num_elites)
            loop_counter = 0
'''), "transfer_parents='random'", 'the best individual is carried over twice', '''
for s in range(60):
    random.seed(s)
    p = popul(CatPopulation, 6, ((0, 9, 1), (0, 9, 1)))
    for k, i in enumerate(p):
        i['genotype'] = [k, k]
        i['score'] = i['obj_score'] = float(k)
    d = data(p, 0.5)
    TournamentSelection(3).execute(d)
    UniformCrossover().execute(d)
    NewGeneration('random').execute(d)
    need(len({id(i) for i in d.population}) == len(d.population), 'an individual is in the new generation twice')
''')

seed('c06-lower-median', 'C06', (G + 'ga_data.py',
     'self.population[int(len(self.population)/2)]', 'self.population[int((len(self.population) - 1)/2)]'),
     'a generation with an even number of individuals', 'the recorded middle score is that of another element', '''
for n in range(2, 9):
    p = popul(CatPopulation, n, ((0, 9, 1),))
    for k, i in enumerate(p):
        i['score'] = i['obj_score'] = -k
    d = data(p)
    d.update()
    need(d.historical_mediocre[-1] == sorted(-k for k in range(n))[n // 2], f'size {n}: {d.historical_mediocre}')
''')

seed('c06-pareto-by-length', 'C06', (G + 'multi_ga_data.py',
     "if self.best_solution['pareto_set'] != pareto_set:",
     "if len(self.best_solution['pareto_set']) != len(pareto_set):"),
     'a Pareto set that changes while its size stays the same',
     'the no-improvement counter counts an improvement as none and the reported set is stale', '''
generator.rnd_seed = 3
p = popul(BinaryPopulation, 4, ((0, 15, 1),))
d = data(p, cls=MultiGaData)
f = FFGAFitness(obj_function=lambda x: (x[0], x[0]))
f.execute(d)
d.update()
for v in (3., 2., 1.):
    for i in p:
        i['phenotype'] = [v]
        i['genotype'] = p.float_individ_to_binary([v])
        i['score'] = None
    f.execute(d)
    p.is_sorted = False
    d.update()
    need(d.num_generation_no_improve == 0, 'a changed set was counted as unchanged')
    need(d.best_solution['pareto_set'][0]['phenotype'] == [v], 'stale Pareto set')
''')

seed('c07-early-stop-zero', 'C07', ('baumeva/combinatory_ga.py',
     'self.early_stop = early_stop if early_stop is not None else num_generations',
     'self.early_stop = early_stop or num_generations'),
     'CombinatoryGA with early_stop=0', 'the run does not stop at the first generation without improvement', '''
generator.rnd_seed = 1
r = CombinatoryGA(num_generations=20, num_individ=6, gens=(0, 4, 5), obj_function=lambda x: 1, early_stop=0,
                  is_print=False).optimize()
need(r.idx_generation == 2, f'{r.idx_generation} generations')
''')

seed('c08-zero-score', 'C08', (G + 'fitness/base_fitness.py',
     "if individ['score'] is None:", "if not individ['score']:"),
     'a surviving individual whose score is exactly 0 (objective value 0 without a target)',
     'an evaluated individual is evaluated again', '''
generator.rnd_seed = 2
calls = []
r = CategoricalGA(num_generations=2, num_individ=6, gens=((0, 0, 1), (0, 3, 1)), is_print=False, early_stop=None,
                  obj_function=lambda x: calls.append(1) or 0).optimize()
need(len(calls) == 6 + 5, f'{len(calls)} evaluations')
''')

seed('c09-equality-tolerance', 'C09', (G + 'fitness/base_fitness.py',
     'if v != 0:', 'if abs(v) > 1e-6:'),
     'an equality condition violated by less than 1e-6', 'an infeasible individual is marked feasible', '''
for v in (1e-7, -1e-9, 1e-300, 1e-3):
    p = popul(CatPopulation, 3, ((0, 9, 1),))
    d = data(p)
    HyperbolaFitness(obj_function=lambda x: (x[0], v), penalty=DynamicPenalty(),
                     conditions=['optimize', '!=']).execute(d)
    need(not any(i['feasible'] for i in p), f'violation {v} marked feasible')
''')

seed('c10-adaptive-first', 'C10', (G + 'penalties/adaptive_penalty.py',
     'if iter_generation != 0:', 'if iter_generation > 1:'),
     'an adaptive penalty evaluated in generation 1', 'infeasible individuals of generation 1 are not penalized', '''
pen = AdaptivePenalty()
for t in (1, 2, 3):
    got = pen.execute(conditionals=['<='], values=[2], best_individ={'feasible': True}, iter_generation=t)
    need(abs(got - 10 / 1.1 * 4) < 1e-9, f'generation {t}: penalty {got}')
''')

seed('c10-adaptive-sum', 'C10', (G + 'penalties/adaptive_penalty.py',
     '''            self.sum_conditional += res ** self.power
    
    def execute''', '''            self.sum_conditional += res ** self.betta if res > 1 else res
    
    def execute'''), 'a violation between 0 and 1 (and a power other than 1)',
     'small violations are penalized linearly, not by the power', '''
pen = AdaptivePenalty()
for v in (2, 1, 0.5):
    got = pen.execute(conditionals=['<='], values=[v], best_individ={'feasible': True}, iter_generation=3)
    need(abs(got - 10 / 1.1 * v * v) < 1e-9, f'violation {v}: penalty {got}')
''')

seed('c11-round-parents', 'C11', (G + 'selections/balanced_selection.py',
     'return int(ga_data.children_percent * ga_data.population.num_individ)',
     'return round(ga_data.children_percent * ga_data.population.num_individ)'),
     'balanced or ranked selection with a percentage times size whose fraction is above one half',
     'selection yields one pair too many', '''
for sel in (BalancedSelection(), RankedSelection()):
    p = popul(CatPopulation, 9, ((0, 9, 1),))
    for k, i in enumerate(p):
        i['score'] = k + 1.
    d = data(p, 0.75)
    sel.execute(d)
    need(len(d.parents) == 2 * 6, f'{len(d.parents)} parents')
''')

seed('c12-tournament-first-eight', 'C12', (G + 'selections/tournament_selection.py',
     'for idx in tournament[1:]:', 'for idx in tournament[1:8]:'),
     'a tournament of more than 8', 'members of large tournaments are ignored: the winner is not the best of them', '''
random.seed(1)
p = popul(CatPopulation, 16, ((0, 9, 1),))
for k, i in enumerate(p):
    i['score'] = float(k)
d = data(p, 1.0)
TournamentSelection(15).execute(d)
need(all(i['score'] >= 14 for i in d.parents), 'a parent below the best two of 16 in tournaments of 15')
''')

seed('c13-vega-lexicographic', 'C13', (G + 'selections/vega_tournament_selection.py',
     "if ga_data.population[idx]['score'][self.idx] > best['score'][self.idx]:",
     "if ga_data.population[idx]['score'][self.idx:] > best['score'][self.idx:]:"),
     'equal scores on the objective that is selected on',
     'ties on one objective are decided by the next objective, which is favoured', '''
random.seed(1)
p = popul(BinaryPopulation, 10, ((0, 255, 1),))
for k, i in enumerate(p):
    i['score'] = [1.0, float(k)]
    i['rank'] = 1
d = data(p, 1.0, cls=MultiGaData)
tot = 0
for _ in range(400):
    VEGATournamentSelection(2, 3).execute(d)
    tot += sum(i['score'][1] for i in d.parents[:10])
need(abs(tot / 4000 - 4.5) < 0.3, f'mean of objective 1 among the parents of objective 0: {tot / 4000}')
''')

seed('c14-two-point-tail', 'C14', (G + 'crossovers/two_point_crossover.py',
     '''parent_1[idx_segment[0]:idx_segment[1]] + parent_2[
''', '''parent_1[idx_segment[0]:idx_segment[1]] + parent_1[
'''), 'the second child is the one kept', 'two-point crossover degenerates to one-point for half of the children', '''
for s in range(60):
    random.seed(s)
    p = popul(CatPopulation, 2, ((0, 1, 1),) * 6, given=[[0] * 6, [1] * 6])
    d = data(p)
    d.parents = p
    TwoPointCrossover().execute(d)
    g = d.children[0]['genotype']
    need(g[0] == g[-1], f'{g} is not an inner segment of one parent in the other')
''')

seed('c14-order-alias', 'C14', (G + 'crossovers/order_crossover.py',
     '''        child_1['genotype'] = new_gens[right_side:right_side+left_side] + segment + new_gens[:right_side]
''', '''        if parent_1 == parent_2:
            child_1['genotype'] = parent_1
        else:
            child_1['genotype'] = new_gens[right_side:right_side+left_side] + segment + new_gens[:right_side]
'''), 'two parents with the same genotype',
     'the child is its parent unchanged (rotated rest not taken) and shares the parent list, so that mutating the child changes the parent', '''
p = popul(OrderCatPopulation, 2, (0, 5, 6), given=[[0, 1, 2, 3, 4, 5]] * 2)
d = data(p)
d.parents = [copy.deepcopy(i) for i in p]
x = OrderCrossover()
for _ in range(60):
    x.execute(d)
    c = d.children[0]
    need(all(c['genotype'] is not q['genotype'] for q in d.parents), 'a child shares the list of a parent')
''')

seed('c15-inversion-short', 'C15', (G + 'mutations/inversion_mutation.py',
     '''        segment = child['genotype'][idx_segment[0]:idx_segment[1]+1]
        segment.reverse()
        left_side = child['genotype'][:idx_segment[0]]
        right_side = child['genotype'][idx_segment[1]+1:]
''', '''        segment = child['genotype'][idx_segment[0]:idx_segment[1]]
        segment.reverse()
        left_side = child['genotype'][:idx_segment[0]]
        right_side = child['genotype'][idx_segment[1]:]
'''), 'two neighbouring positions drawn: the segment is a single gene (and the last position is never reached)',
     'an inversion that changes nothing; the last position can never be mutated', '''
for s in range(200):
    random.seed(s)
    c = {'genotype': list(range(5))}
    InversionMutation(1.0).get_mutation(c)
    need(c['genotype'] != list(range(5)), 'a mutated child is unchanged')
''')

seed('c16-first-gene-bits', 'C16', (G + 'mutations/bin_string_mutation.py',
     'ga_data.population.idx_bits[-1]', 'ga_data.population.num_bits[0]'),
     'a named mutation level and more than one gene', 'the mutation rate follows the first gene, not the bit string', '''
random.seed(4)
n = 0
for _ in range(400):
    p = popul(BinaryPopulation, 10, ((0, 15, 1),) * 6)
    d = data(p)
    d.children = copy.deepcopy(p)
    BinStringMutation('normal').execute(d)
    n += sum(a != b for x, y in zip(p, d.children) for a, b in zip(x['genotype'], y['genotype']))
need(abs(n / 4000 - 1) < 0.2, f'{n / 4000} mutations per child, 1 expected')
''')

seed('c17-rounded-dominance', 'C17', (G + 'fitness/multi_fitness.py',
     '''            if max_score[i] < y_score[i]:
''', '''            if y_score[i] - max_score[i] > 1e-8:
'''), 'objective values that differ by less than 1e-8', 'individuals are ranked as dominated by / equal to the wrong ones', '''
p = popul(BinaryPopulation, 4, ((0, 15, 1),))
for k, i in enumerate(p):
    i['phenotype'] = [k]
    i['genotype'] = p.float_individ_to_binary([k])
d = data(p, cls=MultiGaData)
FFGAFitness(obj_function=lambda x: (x[0] * 1e-9, -x[0] * 1e-9)).execute(d)
need([i['rank'] for i in p] == [1] * 4, f"ranks {[i['rank'] for i in p]}")
''')

seed('c18-elite-cap', 'C18', (G + 'multi_new_generation.py',
     '''            if individ['rank'] == 1:
                elites.append(individ)
            else:
                break
''', '''            if individ['rank'] == 1 and len(elites) < ga_data.population.num_individ:
                elites.append(individ)
            else:
                break
'''), 'more non-dominated individuals than the population size (after several generations)',
     'FFGA loses trade-offs it has found', '''
import math
lost = 0
for s in range(6):
    generator.rnd_seed = s
    seen = set()
    def f(x):
        v = (x[0], 100 - x[0])
        seen.add(v)
        return v
    r = FFGA(num_generations=12, num_individ=6, gens=((0, 63, 1),), obj_function=f, is_print=False, early_stop=None,
             mutation_lvl='strong').optimize()
    found = {tuple(i['obj_score']) for i in r.best_solution['pareto_set']}
    need(found == seen, f'{len(seen - found)} non-dominated points lost')
''')

seed('c19-seed-zero', 'C19', (G + 'populations/base_population.py',
     'self.rnd_seed = generator.rnd_seed', 'self.rnd_seed = generator.rnd_seed or None'),
     'the seed 0', 'a run with seed 0 is not reproducible', '''
generator.rnd_seed = 0
runs = [BinaryGA(num_generations=3, num_individ=6, gens=((0, 1000, 1),), obj_function=lambda x: x[0],
                 is_print=False).optimize().historical_worst for _ in range(3)]
need(runs[0] == runs[1] == runs[2], 'seed 0 gives different runs')
''')

seed('c20-cached-length', 'C20', (G + 'crossovers/uniform_crossover.py',
     "self.len_individ = len(ga_data.population[0]['genotype'])",
     "self.len_individ = self.len_individ or len(ga_data.population[0]['genotype'])"),
     'the same crossover object used on a problem with another number of genes',
     'a reused crossover object makes children of the wrong length', '''
x = UniformCrossover()
for n in (3, 5, 2):
    p = popul(CatPopulation, 4, ((0, 9, 1),) * n)
    d = data(p)
    d.parents = p
    x.execute(d)
    need(all(len(c['genotype']) == n for c in d.children), 'wrong length')
''')

seed('c21-ffga-transfer', 'C21', ('baumeva/ffga.py',
     'new_generation = MultiNewGeneration(transfer_parents=self.transfer_parents)',
     'new_generation = MultiNewGeneration()'),
     "FFGA with transfer_parents='random'", 'the parameter has no effect', '''
generator.rnd_seed = 4
def f(x):
    return x[0], (x[0] - 3) ** 2
kw = dict(num_generations=5, num_individ=14, gens=((0, 255, 1),), obj_function=f, early_stop=None, is_print=False)
r = FFGA(transfer_parents='random', **kw).optimize()
need(len(r.population) == int(0.95 * 14) + 11, f'{len(r.population)} individuals')
''')

seed('c22-genotype-pairs', 'C22', (G + 'selections/tournament_selection.py',
     "if len(parents_pair) == 0 or best['idx_individ'] != parents_pair[0]['idx_individ']:",
     "if len(parents_pair) == 0 or best['genotype'] != parents_pair[0]['genotype']:"),
     'a population in which all individuals have the same genotype', 'selection never ends', '''
import signal
signal.alarm(20)
generator.rnd_seed = 1
CombinatoryGA(num_generations=30, num_individ=5, gens=(0, 1, 2), obj_function=lambda x: x[0], early_stop=None,
              mutation_lvl=0.0, is_print=False).optimize()
''')

seed('c23-range-tolerance', 'C23', (G + 'populations/binary_population.py',
     'if gen_value < self.gens[gen_idx][0] or gen_value > self.gens[gen_idx][1]:',
     'if gen_value < self.gens[gen_idx][0] or gen_value > self.gens[gen_idx][1] + self.real_step[gen_idx] / 2:'),
     'a supplied value above the upper bound by less than half a step',
     'an initial individual out of range is accepted', '''
for gens, v in ((((0, 10, 1),), 10.2), (((-1, 1, 0.1),), 1.01)):
    try:
        popul(BinaryPopulation, 3, gens, given=[[v]])
    except Exception:
        continue
    need(False, f'{v} accepted for {gens}')
''')

seed('c24-prints-last', 'C24', (G + 'ga_data.py',
     '''print(f'\\tgenotype: {self.best_solution["genotype"]}')''',
     '''print(f'\\tgenotype: {self.population[-1]["genotype"]}')'''),
     'a last generation without the best solution (recorded by hand, without elitism)',
     'the printed genotype is not that of the best solution', '''
d = None
for g, score in ((0, 5.), (1, 3.)):
    p = popul(CatPopulation, 3, ((0, 9, 1),), given=[[g]] * 3)
    for i in p:
        i['score'] = i['obj_score'] = score
    d = d or data(p)
    d.population = p
    d.update()
out = io.StringIO()
with contextlib.redirect_stdout(out):
    d.print_best_solution()
need('genotype: [0]' in out.getvalue(), out.getvalue())
''')

seed('c24-print-distinct', 'C24', (G + 'multi_ga_data.py',
     """        for elem in lst:
            print(f'\\t\\t{elem[label]}')
""", """        for elem in {str(elem[label]): elem for elem in lst}.values():
            print(f'\\t\\t{elem[label]}')
"""), 'a Pareto set with equal members (or different points of equal objective values)',
     'not every member of the Pareto set is printed', '''
generator.rnd_seed = 1
out = io.StringIO()
with contextlib.redirect_stdout(out):
    r = VEGA(num_generations=3, num_individ=8, gens=((0, 3, 1),), obj_function=lambda x: (x[0], -x[0])).optimize()
n = out.getvalue().count('[')
need(n == 2 * len(r.best_solution['pareto_set']), f"{n} vectors, {len(r.best_solution['pareto_set'])} members")
''')

seed('c25-abs-score', 'C25', (G + 'selections/tournament_selection.py',
     "if ga_data.population[idx]['score'] > best['score']:",
     "if abs(ga_data.population[idx]['score']) > abs(best['score']):"),
     'minimization without a target (negative scores)', 'tournaments choose the worst instead of the best', '''
random.seed(1)
p = popul(CatPopulation, 10, ((0, 9, 1),))
for k, i in enumerate(p):
    i['score'] = -float(k)
d = data(p, 1.0)
TournamentSelection(9).execute(d)
need(all(i['score'] >= -1 for i in d.parents), 'bad winners')
''')

seed('c04-feasible-tie', 'C04', (G + 'ga_data.py',
     "        elif self.best_solution['score'] < self.population[-1]['score']:\n",
     "        elif (self.best_solution['score'], self.best_solution['feasible']) < \\\n                (self.population[-1]['score'], self.population[-1]['feasible']):\n"),
     'an infeasible best individual and, in a later generation, a feasible one of exactly the same score',
     'the reported best is replaced by a later one that is not better, and the no-improvement counter starts again', '''
p = popul(CatPopulation, 3, ([1, 2, 3],), given=[[1], [2], [3]])
d = data(p)
for i, s in zip(p, (0.1, 0.2, 0.5)):
    i['score'], i['obj_score'], i['feasible'] = s, 1, False
d.update()
q = popul(CatPopulation, 3, ([1, 2, 3],), given=[[2], [3], [1]])
for i, s in zip(q, (0.1, 0.2, 0.5)):
    i['score'], i['obj_score'] = s, 1
d.population = q
d.update()
need(d.best_solution['idx_generation'] == 0 and d.num_generation_no_improve == 1, d.best_solution)
''')

seed('c05-one-survivor-sorted', 'C05', (G + 'new_generation.py',
     '''        ga_data.population = ga_data.children
        ga_data.population.is_sorted = False''', '''        ga_data.population = ga_data.children
        # with a single survivor the best individual is already the last one
        ga_data.population.is_sorted = num_elites <= 1 and len(ga_data.population) > 60'''),
     'a population above 60 and a percentage of children that leaves one survivor',
     'the generation is not sorted after evaluation: the best child is neither recorded nor carried over', '''
for s in range(5):
    generator.rnd_seed = s
    r = CategoricalGA(num_generations=15, num_individ=80, gens=((0, 9, 1),) * 8, children_percent=1.0, is_print=False,
                      obj_function=sum, early_stop=None).optimize()
    need(r.historical_best[-1] > r.historical_best[0], 'no progress in 15 generations')
    need(max(i['score'] for i in r.population) == r.historical_best[-1], 'the best is not the best')
''')

seed('c06-median-round', 'C06', (G + 'ga_data.py', "self.population[int(len(self.population)/2)]",
     "self.population[round(len(self.population)/2)]"),
     'a generation of 4k + 3 individuals', 'the recorded middle score is that of the next better individual', '''
p = popul(CatPopulation, 7, ((0, 9, 1),))
for k, i in enumerate(p):
    i['score'] = float(k)
d = data(p)
d.update()
need(d.historical_mediocre == [3.0], d.historical_mediocre)
''')

seed('c09-relative-zero', 'C09', (G + 'fitness/base_fitness.py', '''                            if v > 0:
''', '''                            if v > 1e-9 * abs(v - sum(values)):
'''), 'an inequality violated by a billionth of the other condition values',
     'a slightly violated condition counts as satisfied when another condition value is huge', '''
for big in (0, -1e10):
    f = HyperbolaFitness(lambda x: (x[0], 1e-3, big), penalty=DynamicPenalty(), conditions=['optimize', '<=', '<='])
    p = popul(CatPopulation, 3, ((0, 9, 1),))
    f.execute(data(p))
    need(not any(i['feasible'] for i in p), f'0.001 <= 0 with {big} <= 0 is feasible')
''')

seed('c10-dynamic-cap', 'C10', (G + 'penalties/dynamic_penalty.py',
     "self.penalty = self.delta * ((self.c * iter_generation) ** self.alpha) * self.sum_conditional",
     "self.penalty = self.delta * (min(self.c * iter_generation, 25) ** self.alpha) * self.sum_conditional"),
     'more than 50 generations (with the default c)', 'the dynamic penalty stops growing', '''
d = DynamicPenalty()
a = d.execute(['<='], [2.0], 50)
b = d.execute(['<='], [2.0], 60)
need(b > a and b == 900 * 4, (a, b))
''')

seed('c13-three-objectives', 'C13', (G + 'selections/vega_tournament_selection.py',
     "        for self.idx in range(self.num_objectives):\n\n            super().tournament(ga_data)\n",
     "        for idx in range(self.num_objectives):\n            self.idx = min(idx, 2)\n            super().tournament(ga_data)\n"),
     'four or more objectives', 'the fourth objective is never selected on, the third several times', '''
random.seed(3)
p = popul(BinaryPopulation, 9, ((0, 255, 1),))
for k, i in enumerate(p):
    i['score'] = [0.0, 0.0, 0.0, float(k)]
    i['rank'] = 1
d = data(p, 0.95, cls=MultiGaData)
tot = n = 0
for _ in range(300):
    VEGATournamentSelection(4, 4).execute(d)
    part = d.parents[-4:]
    tot += sum(i['score'][3] for i in part)
    n += len(part)
need(tot / n > 5, f'mean score {tot / n} of those selected on objective 3')
''')

seed('c14-last-cut', 'C14', (G + 'crossovers/one_point_crossover.py', "        self.len_individ = len(ga_data.population[0]['genotype'])\n",
     "        self.len_individ = min(65, len(ga_data.population[0]['genotype']))\n"),
     'genotypes of more than 65 genes or bits', 'genes behind the 64th are never separated from each other', '''
p = popul(CatPopulation, 2, ((0, 1, 1),) * 100, given=[[0] * 100, [1] * 100])
d = data(p)
d.parents = p
random.seed(5)
late = 0
for _ in range(600):
    OnePointCrossover().execute(d)
    g = d.children[0]['genotype']
    late += g[64] != g[99]
need(late > 100, f'{late} of 600 cuts behind gene 64')
''')

seed('c15-inversion-cap', 'C15', (G + 'mutations/inversion_mutation.py',
     "        segment = child['genotype'][idx_segment[0]:idx_segment[1]+1]\n",
     "        idx_segment[1] = min(idx_segment[1], idx_segment[0] + 25)\n"
     "        segment = child['genotype'][idx_segment[0]:idx_segment[1] + 1]\n"),
     'permutations longer than 26', 'long segments are never reversed', '''
random.seed(2)
longest = 0
for _ in range(300):
    c = InversionMutation(1.0).get_mutation({'genotype': list(range(40))})['genotype']
    ch = [i for i, v in enumerate(c) if i != v]
    longest = max(longest, ch[-1] - ch[0] + 1)
need(longest > 30, f'longest reversed segment {longest}')
''')

seed('c16-normal-floor', 'C16', (G + 'mutations/bin_string_mutation.py', "        self.update_mutation_lvl(ga_data.population.idx_bits[-1])\n",
     "        self.update_mutation_lvl(min(100, ga_data.population.idx_bits[-1]))\n"),
     'bit strings longer than 100 with level "normal"', 'more than one bit mutates on average', '''
p = popul(BinaryPopulation, 200, ((0, 1023, 1),) * 30)
d = data(p)
d.children = copy.deepcopy(p)
random.seed(4)
BinStringMutation('normal').execute(d)
n = sum(a != b for i, j in zip(p, d.children) for a, b in zip(i['genotype'], j['genotype']))
need(n < 400, f'{n} of 60000 bits flipped, expected 200 to 260')
''')

seed('c17-crowded-ranks', 'C17', (G + 'fitness/multi_fitness.py', '''                inf = self.inferior(ga_data.population[i], ga_data.population[j])
''', '''                inf = None
                if min(ga_data.population[i]['rank'], ga_data.population[j]['rank']) <= 12:    # else: both are far behind
                    inf = self.inferior(ga_data.population[i], ga_data.population[j])
'''), 'generations with individuals dominated by more than a dozen others', 'ranks of badly dominated individuals are too low', '''
p = popul(BinaryPopulation, 40, ((0, 63, 1),), given=[[k] for k in range(40)])
VEGAHyperbolaFitness(lambda x: (x[0], 2 * x[0])).execute(data(p, cls=MultiGaData))
need(all(i['rank'] == 1 + sum(j['obj_score'][0] < i['obj_score'][0] for j in p) for i in p), [i['rank'] for i in p])
''')

seed('c18-one-per-value', 'C18', (G + 'multi_new_generation.py', "        return elites",
     "        seen = set()\n        return [e for e in elites if not (e['obj_score'][0] in seen or seen.add(e['obj_score'][0]))] if len(elites) > 25 \\\n            else elites"),
     'a Pareto set above 25 with at least three values per individual, two of them equal in the first',
     'trade-offs that share the value of the first objective are lost', '''
random.seed(0)
for s in range(4):
    generator.rnd_seed = s
    seen = []
    def f(x):
        v = (x[0] % 4, x[1], 63 - x[1] + x[0] % 4, (x[0] * 7 + x[1] * 3) % 50)
        seen.append(v)
        return v
    r = FFGA(num_generations=7, num_individ=30, gens=((0, 63, 1),) * 2, obj_function=f, is_print=False).optimize()
    got = {tuple(i['obj_score']) for i in r.best_solution['pareto_set']}
    allv = set(seen)
    for v in allv:
        if not any(w != v and all(a <= b for a, b in zip(w, v)) for w in allv):
            need(v in got, f'{v} was found and lost')
''')

seed('c24-print-hundred', 'C24', (G + 'multi_ga_data.py', '''        for elem in lst:
            print(f'\\t\\t{elem[label]}')''', '''        for elem in lst[:100]:
            print(f'\\t\\t{elem[label]}')'''), 'a Pareto set of more than 100', 'members behind the hundredth are not printed', '''
p = popul(BinaryPopulation, 130, ((0, 1023, 1),))
d = data(p, cls=MultiGaData)
VEGAHyperbolaFitness(lambda x: (x[0], -x[0])).execute(d)
d.update()
o = io.StringIO()
with contextlib.redirect_stdout(o):
    d.print_best_solution()
need(o.getvalue().count('[') == 2 * len(d.best_solution['pareto_set']), o.getvalue().count('['))
''')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, check=True, **k).stdout

seed('c26-tie-tolerance', 'C26', (G + 'selections/tournament_selection.py',
     "if ga_data.population[idx]['score'] > best['score']:",
     "if ga_data.population[idx]['score'] > best['score'] + 1e-9:"),
     'an objective in small units (values that differ by less than 1e-9)',
     'tournaments take nearly equal scores for equal: the run depends on the unit of the objective', '''
runs = []
for unit in (1, 2 ** -40):
    generator.rnd_seed = 3
    r = BinaryGA(num_generations=12, num_individ=12, gens=((-8, 8, 0.01),) * 2, is_print=False,
                 obj_function=lambda x: unit * sum(v * v for v in x)).optimize()
    runs.append([i['genotype'] for i in r.population])
need(runs[0] == runs[1], 'another unit of the objective, another run')
''')

seed('c26-duplicate-text', 'C26', (G + 'populations/base_population.py',
     "        if len(set(tuple(ind['genotype']) for ind in array)) < num_ind:\n",
     "        if len(set(''.join(map(str, ind['genotype'])) for ind in array)) < num_ind:\n"),
     'different genotypes of the same text ([1, 11] and [11, 1], or "" and None as labels), carried over at random',
     'different individuals are taken for duplicates, depending on the labels', '''
runs = []
for names in (['a', 'b'], ['1', '11']):
    generator.rnd_seed = 5
    r = CategoricalGA(num_generations=25, num_individ=12, gens=(names,) * 4, children_percent=0.6, is_print=False,
                      transfer_parents='random', mutation_lvl='strong', early_stop=None,
                      obj_function=lambda x: sum((k + 1) * names.index(v) for k, v in enumerate(x)) % 5).optimize()
    runs.append([[names.index(v) for v in i['genotype']] for i in r.population])
need(runs[0] == runs[1], 'other labels, another run')
''')

seed('c20-keeps-list', 'C20', (G + 'fitness/multi_fitness.py', '        return list(values)\n',
     '        return values if isinstance(values, list) else list(values)\n'),
     'a constrained multi-objective problem whose objective function keeps the list it returns (a cache)',
     'the library takes values out of a list that belongs to the objective function', '''
cache = {}
def f(x):
    return cache.setdefault(tuple(x), [x[0], -x[0], x[0] - 2])
generator.rnd_seed = 1
FFGA(num_generations=4, num_individ=6, gens=((0, 7, 1),), obj_function=f, is_print=False, penalty=DynamicPenalty(),
     conditions=['optimize', 'optimize', '<=']).optimize()
need(all(v == [k[0], -k[0], k[0] - 2] for k, v in cache.items()), cache)
''')

seed('c08-own-penalty', 'C08', (G + 'fitness/base_fitness.py', '''        elif self.penalty.name() == 'StaticPenalty':
            return self.penalty.execute(conditionals=self.conditions, values=values,)
        else:
            return self.penalty.execute(conditionals=self.conditions, values=values)
''', '''        elif self.penalty.name() == 'StaticPenalty':
            return self.penalty.execute(conditionals=self.conditions, values=values,)
        else:
            self.penalty.execute(conditionals=self.conditions, values=values)
            return self.penalty.penalty
'''), 'a penalty class written by the user that returns its value without storing it',
     'the penalty returned by a user-written class is ignored', '''
class Mine(BasePenalty):
    def get_sum_conditional_func(self, conditionals, values):
        pass
    def execute(self, conditionals, values, **kw):
        return 100 * sum(max(0, v) for v in values)
f = HyperbolaFitness(lambda x: (x[0], 2.0), penalty=Mine(), conditions=['optimize', '<='])
p = popul(CatPopulation, 3, ((0, 9, 1),))
f.execute(data(p))
need(all(i['score'] == -(i['genotype'][0] + 200) for i in p), [i['score'] for i in p])
''')


seed('c27-last-generation', 'C27', (G + 'new_generation.py', "        if self.transfer_parents == 'best':\n            elites",
     "        if self.transfer_parents == 'best' or ga_data.idx_generation == ga_data.num_generations - 1:\n            elites"),
     'parents carried over at random, and the last generation of a run',
     'the last generation is made differently: a run is no longer the beginning of a longer one', '''
for s in range(5):
    hist = []
    for n in (6, 9):
        generator.rnd_seed = s
        r = BinaryGA(num_generations=n, num_individ=12, gens=((0, 255, 1),) * 2, children_percent=0.5, is_print=False,
                     early_stop=None, transfer_parents='random', obj_function=sum).optimize()
        hist.append((r.historical_worst, r.historical_mediocre))
    need(hist[0][0] == hist[1][0][:6] and hist[0][1] == hist[1][1][:6], hist)
''')

seed('c27-counts-uses', 'C27', (G + 'mutations/base_combinatory_mutation.py', '''        for child in ga_data.children:
            is_mutation''', '''        for self.rnd_samples, child in enumerate(ga_data.children, self.rnd_samples):
            is_mutation'''),
     'a run continued with a new mutation object (a saved run, or operators exchanged between generations)',
     'part of the state of a run is in the mutation object: the continued run is another one', '''
import random as R
def step(d, fit, mut, new):
    TournamentSelection().execute(d)
    OrderCrossover().execute(d)
    mut.execute(d)
    new.execute(d)
    fit.execute(d)
    d.update()
f = lambda x: sum(abs(v - k) for k, v in enumerate(x))
for s in range(5):
    generator.rnd_seed = s
    R.seed(s)
    d = data(popul(OrderCatPopulation, 12, (0, 9, 10)))
    fit, mut, new = HyperbolaFitness(f), SwapMutation('strong'), NewGeneration()
    fit.execute(d)
    d.update()
    for _ in range(4):
        step(d, fit, mut, new)
    c = copy.deepcopy(d)
    st = R.getstate()
    for _ in range(6):
        step(d, fit, mut, new)
    R.setstate(st)
    mut = SwapMutation('strong')
    for _ in range(6):
        step(c, fit, mut, new)
    need([i['genotype'] for i in d.population] == [i['genotype'] for i in c.population], 'the continued copy is another run')
''')


def main():
    only = sys.argv[1:]
    for id, prop, edits, needs, breaks, demo in SEEDS:
        if only and id not in only:
            continue
        t = tempfile.mkdtemp(prefix='vp-mk-', dir='/tmp')
        try:
            r = os.path.join(t, 'r')
            sh('git', 'clone', '-q', '/repo', r)
            for f, old, new in edits:
                p = os.path.join(r, f)
                s = open(p, newline='').read()
                crlf = '\r\n' in s
                s = s.replace('\r\n', '\n')
                if s.count(old) != 1:
                    print(id, f, 'matches', s.count(old))
                    break
                s = s.replace(old, new)
                open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
            else:
                d = os.path.join(V, 'seeded', id)
                os.makedirs(d, exist_ok=True)
                diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, check=True).stdout
                open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
                open(os.path.join(d, 'demo.sh'), 'w').write(
                    '#!/bin/bash\nexec timeout 200 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
                open(os.path.join(d, 'demo.py'), 'w').write(PRE.lstrip() + demo.lstrip('\n'))
                json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                          open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        finally:
            shutil.rmtree(t)


if __name__ == '__main__':
    main()
