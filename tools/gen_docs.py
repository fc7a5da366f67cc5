"""Writes properties.jsonl and MANIFEST.json (run once per change; the outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'baumeva/ga/'
POP = [G + 'populations/binary_population.py', G + 'populations/binary_gray_population.py',
       G + 'populations/cat_population.py', G + 'populations/order_cat_population.py']
FRONT = ['baumeva/binary_ga.py', 'baumeva/categorical_ga.py', 'baumeva/combinatory_ga.py', 'baumeva/vega.py',
         'baumeva/ffga.py', 'baumeva/collector_ga.py']
CROSS = [G + f'crossovers/{n}_crossover.py' for n in ('base', 'one_point', 'two_point', 'uniform', 'order')]
MUT = [G + f'mutations/{n}_mutation.py' for n in ('bin_string', 'categorical', 'base_combinatory', 'swap', 'inversion',
                                                 'movement', 'shift')]
FIT = [G + f'fitness/{n}.py' for n in ('base_fitness', 'hyperbola_fitness', 'vega_hyperbola_fitness', 'ffga_fitness',
                                       'multi_fitness')]
PEN = [G + f'penalties/{n}_penalty.py' for n in ('base', 'dynamic', 'adaptive', 'static')]
SEL = [G + f'selections/{n}_selection.py' for n in ('base', 'tournament', 'balanced', 'ranked')]
VSEL = [G + f'selections/vega_{n}_selection.py' for n in ('tournament', 'balanced', 'ranked')]
NEW = [G + 'new_generation.py', G + 'multi_new_generation.py']
DATA = [G + 'ga_data.py', G + 'multi_ga_data.py']

TESTS = 'The 6 repository tests are scripts that fail only on an exception; '

P = []


def prop(pid, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, (pid, len(title))
    P.append((dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                            'observe_at': ['objective function calls', 'the returned run data'], 'hook_needed': None}),
              note))


prop('C01', 'Every candidate stays inside the declared search space',
     'Every point passed to the objective function, and every individual in a population, a parent set, a set of children '
     'or the reported result, lies in the declared search space: each decoded value of a binary or Gray-coded problem lies '
     'within its gene\'s [min, max] (bounds included, exactly), each categorical value is one of its own gene\'s allowed '
     'values, and each combinatory individual has the requested length, no repeated value, and only values of the '
     'requested range. This holds in every generation, for every operator and for user-supplied initial individuals.',
     ['inputs', 'configurations', 'histories'],
     'All gene declarations, operator combinations, parameters, seeds and generation counts.',
     TESTS + 'nothing looks at the candidates, and a handful of gene declarations is used.',
     POP + CROSS + MUT, [('decoding', POP[0]), ('random individuals', POP[2]), ('order crossover', CROSS[-1]),
                         ('categorical mutation', MUT[1])],
     'membership of every objective argument and every individual after every operation')
prop('C02', 'Binary and Gray codes cover each gene\'s range evenly and finely enough',
     'Each gene (min, max, step) of a binary or Gray-coded problem uses the smallest number of bits n with 2^n - 1 intervals '
     'no wider than the step, and its 2^n codes decode one-to-one onto the evenly spaced grid from exactly min to max '
     '(all-zero code to min, genes decoded independently and in declared order). The Gray variant differs only in that '
     'neighbouring grid points have codes that differ in exactly one bit; the decoded values stored with an individual '
     'always belong to its own current code.',
     ['inputs'], 'All gene lists (integers and decimals) and all bit strings.',
     TESTS + 'decoding is never compared with anything.',
     POP[:2], [('number of bits and step', POP[0]), ('Gray decoding', POP[1])],
     'exact rational arithmetic over all codes of small genes and sampled codes of larger ones')
prop('C03', 'The first generation: requested size, supplied individuals kept, rest uniform',
     'The first generation has exactly the requested number of individuals: the supplied ones first, in the given order '
     '(unchanged for categorical and combinatory problems, at the nearest grid point for binary ones), completed by random '
     'ones. Random individuals are uniform over the whole search space and independent of each other, every gene included; '
     'an individual of the wrong length or out of range, or too many individuals, is refused for binary problems (too many: '
     'for all problems).',
     ['inputs', 'configurations'], 'All search spaces, population sizes and supplied individuals.',
     TESTS + 'one supplied population is used and never compared with what the run starts from.',
     POP, [('filling a population', POP[0]), ('filling a population', POP[2]), ('nearest grid point', POP[0])],
     'reference construction; chi-square test of uniformity at p < 1e-10')
prop('C04', 'The reported best solution is the best individual ever recorded',
     'In single-objective runs, after every recorded generation the reported best solution is an individual with the '
     'highest score among all individuals of all generations recorded so far, the first such generation being reported as '
     'its generation index. Its genotype, decoded values, score, objective value and feasibility are exactly those that '
     'individual had when it was recorded, belong together, and are not changed by anything that happens afterwards.',
     ['histories', 'inputs'], 'All runs and all sequences of recorded generations, improving or not.',
     TESTS + 'the best solution is printed, never compared with the history.',
     DATA[:1] + [FIT[0]] + FRONT, [('recording a generation', DATA[0])],
     'running maximum over per-generation snapshots and over all objective calls')
prop('C05', 'A new generation is the children plus unchanged survivors, best included',
     'Single-objective and VEGA runs: each new generation consists of all children bred (the requested percentage of the '
     'population size, rounded down; VEGA: of an equal share per objective) plus unchanged individuals of the previous '
     'generation, its size is the requested number plus one, no individual is carried over twice, and the previous '
     'generation\'s best individual is always carried over. With "best" the survivors are the best of the previous '
     'generation (VEGA: by the list of scores, the first objective deciding first; a worse one survives only in place '
     'of one whose genotype duplicates another survivor), with "random" they are drawn '
     'uniformly from the others; FFGA with "best" carries over exactly the non-dominated individuals.',
     ['histories', 'configurations'], 'All populations (duplicates and ties included), child counts and transfer modes.',
     TESTS + 'population make-up is not looked at.',
     NEW, [('transfer of parents', NEW[0]), ('Pareto elitism', NEW[1])],
     'multiset relations between consecutive generations, runs and synthetic generations')
prop('C06', 'History and counters describe every generation and are never rewritten',
     'After each recorded generation the history has one more entry: the best, the middle (element size/2, counted from 0 '
     'in ascending order) and the worst score of that generation, or, in multi-objective runs, its set of non-dominated '
     'individuals. The generation index equals the number of recorded generations and the no-improvement counter the number '
     'of generations since the best score last rose (multi-objective: the set last changed, counted upwards only while it '
     'stays the same). The average score reported (one score per individual, so not for VEGA) is the mean of the current '
     'generation. Entries already recorded never change afterwards.',
     ['histories'], 'All runs and all sequences of recorded generations.',
     TESTS + 'histories are used for plots only.',
     DATA, [('recording a generation', DATA[0]), ('recording a Pareto set', DATA[1])],
     'statistics recomputed from snapshots; past entries compared with their original value')
prop('C07', 'A run stops exactly at the generation limit or the early-stop rule',
     'A run records at least one and at most the requested number of generations. It ends early only when, and as soon as, '
     'the no-improvement counter exceeds the early-stop value (default 10; 0 stops at the first generation without '
     'improvement), and never early when early stopping is None in a ready-made algorithm.',
     ['configurations', 'histories'], 'All generation limits, early-stop values and objective landscapes.',
     TESTS + 'no test checks how many generations ran.',
     FRONT + DATA, [('main loops', FRONT[0]), ('main loop', FRONT[5]), ('no-improvement counter', DATA[0])],
     'the stopping rule replayed over observed generations')
prop('C08', 'Each individual is evaluated at its own point and scored by the formula',
     'Every individual is evaluated by calling the objective with its own decoded values (binary) or genotype, with the '
     'user\'s input data as first argument whenever it is not None; in single-objective runs exactly once per new '
     'individual and never again for a surviving one, whose stored values stay. The stored objective value is what the '
     'objective returned there and the score is 1/(1 + |target - value| + penalty) with a target and -(value + penalty) '
     'without, per objective in VEGA, where penalty is what the given penalty object (a ready-made or a user-written one) '
     'returns for the condition values and 0 in unconstrained problems.',
     ['inputs', 'configurations', 'histories'], 'All objectives, targets, input data (falsy values included) and runs.',
     TESTS + 'scores are never recomputed.',
     FIT + [FRONT[3]], [('evaluation', FIT[0]), ('score formula', FIT[1]), ('score formula', FIT[2])],
     'objective recomputed at every stored point; call multiset against new individuals')
prop('C09', 'The feasible flag is set exactly when all conditions hold',
     'In constrained problems an individual is marked feasible exactly when every condition value the objective returns for '
     'it satisfies its sign: "<=" means at most 0 and "!=" means exactly 0. Conditions may appear in any number and order '
     'around the optimized value(s), which are taken from the positions marked "optimize" in declared order; unconstrained '
     'individuals are feasible.',
     ['inputs', 'configurations', 'histories'], 'All condition lists and values, zeros and values next to zero included.',
     TESTS + 'feasibility is not asserted.',
     FIT, [('condition evaluation', FIT[0]), ('positions of objectives', FIT[4])],
     'definition applied to the values at every stored point')
prop('C10', 'Penalties follow their formulas and are zero for feasible individuals',
     'With violation max(0, v) for "<=" and |v| for "!=": the dynamic penalty is delta*(c*t)^alpha*sum(violation^betta) in '
     'generation t; the adaptive penalty is 0 in generation 0 and then delta*L*sum(violation^betta) with L = 10/betta_1 if '
     'the best solution so far is feasible (multi-objective: if any member of the Pareto set is) and 10*betta_2 if not; the static penalty is the sum of (coefficient*violation)^2 '
     'with the coefficient of the interval (a, b] containing the violation. A feasible individual gets penalty 0; the '
     'penalty of one individual never depends on others evaluated before it in the generation.',
     ['inputs', 'configurations', 'histories'], 'All penalty parameters, condition lists, condition values and generations.',
     TESTS + 'one penalty setting, result printed only.',
     PEN + FIT[:1], [('formulas', PEN[1]), ('formulas', PEN[2]), ('formulas', PEN[3]), ('use in fitness', FIT[0])],
     'penalty recovered from scores, compared with the formula')
prop('C11', 'Selection hands over the right number of pairs of distinct members',
     'Selection yields exactly floor(children percentage * population size) pairs (VEGA: floor of that share per objective, '
     'for every objective); the two members of a pair are different individuals of the current generation (different '
     'positions, equal genotypes allowed). Parents are faithful independent copies: changing them does not change the '
     'population, selection changes no individual\'s genotype, decoded values, score, objective value, feasibility or '
     'Pareto rank, and a tournament parent scores at least as high as (tournament size - 1) other members.',
     ['inputs', 'configurations'], 'All score distributions, population sizes and selection methods.',
     TESTS + 'parents are never looked at.',
     SEL + VSEL, [('pair selection', SEL[1]), ('pair selection', SEL[2])],
     'pair count, membership, distinctness, copy independence')
prop('C12', 'Selection probabilities follow the stated law of each method',
     'Tournament: each parent wins a tournament of the given number of different members drawn uniformly, the highest score '
     'winning (redrawn while equal to the first parent of the pair). Balanced: the first parent is drawn with probability '
     'proportional to its score when all scores are positive (otherwise never less likely than a lower-scoring member), '
     'the second likewise among the rest; ranked: the same with the score\'s rank (1 = lowest, ties share the mean rank) as '
     'weight. The order in which members happen to be stored has no influence.',
     ['inputs', 'configurations'], 'All score distributions and population sizes.',
     TESTS + 'a probability law cannot be seen in one run.',
     SEL, [('tournament', SEL[1]), ('roulette', SEL[2]), ('ranks', SEL[3])],
     'frequencies of 3000 pairs per case against the exact law, p < 1e-10')
prop('C13', 'VEGA selects an equal share of the parents on each objective alone',
     'VEGA selection chooses the same number of pairs for every objective, floor(children percentage * population size / '
     'number of objectives), and each share is selected on that objective\'s score alone by the method\'s single-objective '
     'law (tournament with the requested size, balanced or ranked). No objective is skipped, overwritten or favoured, for '
     'any number of objectives, with or without constraints, in every generation.',
     ['inputs', 'configurations', 'histories'], 'All numbers of objectives, score vectors and VEGA runs.',
     TESTS + 'which objective a parent was selected on is invisible in a result.',
     VSEL + [FRONT[3]], [('per-objective selection', VSEL[0]), ('per-objective selection', VSEL[1]),
                         ('number of objectives', FRONT[3])],
     'assignment of pairs to objectives, mixture law')
prop('C14', 'A child is made of its own two parents by its crossover\'s rule',
     'Crossover makes one child per parent pair, in pair order, unevaluated, without changing the parents: one-point takes '
     'a prefix of one parent and the rest of the other, two-point an inner segment of one and the outside of the other, '
     'uniform each gene from either parent with equal probability, order a segment of one parent in place and the other '
     'parent\'s remaining values in their order starting behind the segment. Every gene keeps its position (order '
     'crossover: the child is valid and without repetition), cut points are uniform over the inside of the genotype, and '
     'both parents are equally likely in each role.',
     ['inputs', 'configurations'], 'All parent pairs, genotype lengths and crossover operators.',
     TESTS + 'children are never compared with their parents.',
     CROSS, [('crossover', c) for c in CROSS[1:]],
     'labelled genes, set of possible children, frequency law')
prop('C15', 'A mutation changes a child only as its operator says, every change possible',
     'Applied to a child, swap exchanges two different positions, inversion reverses a segment of at least two, movement '
     'moves one gene to another position, shift moves a chain elsewhere; a mutated bit is flipped and a mutated categorical '
     'gene gets a different allowed value of its own gene, uniformly (a gene with a single value stays). Only children '
     'are mutated: parents, the population and survivors are never changed, positions are chosen uniformly, and the result '
     'is the genotype that is then evaluated.',
     ['inputs', 'configurations'], 'All genotypes, gene declarations and mutation operators.',
     TESTS + 'mutated children are never compared with the originals.',
     MUT, [('mutation', m) for m in MUT],
     'set of possible results, frequency law, aliasing')
prop('C16', 'The mutation level sets the mutation probability',
     'With a numeric level p each bit (binary), gene (categorical) or child (combinatory) mutates independently with '
     'probability p (to within 0.001; 0.0 never, 1.0 always). "weak", "normal" and "strong" mean 0.3/L, 1/L and 3/L for '
     'binary and categorical problems, L being the length of the current problem\'s bit string or number of genes, and '
     '0.03, 0.1 and 0.3 per child for combinatory ones; the level holds in every generation and for each problem an '
     'operator is used on.',
     ['inputs', 'configurations'], 'All levels, lengths, operators and re-uses.',
     TESTS + 'a rate cannot be seen in one run.',
     MUT, [('probability', MUT[0]), ('probability', MUT[1]), ('probability', MUT[2])],
     'binomial law at p < 1e-10')
prop('C17', 'Pareto ranks and the reported Pareto set are exact in every generation',
     'In multi-objective runs every individual of every generation has rank 1 + the number of individuals of that '
     'generation dominating it (no value worse, at least one better, all values the objective returns minimized), survivors '
     'included. The reported Pareto set is exactly the rank-1 individuals of the current generation, with their own '
     'objective values in declared order; FFGA\'s score is 1/(1 + rank) of the current rank.',
     ['inputs', 'histories'], 'All sets of objective vectors (ties, duplicates) with 2 or more objectives and all runs.',
     TESTS + 'ranks are not asserted.',
     [FIT[4], FIT[3], DATA[1]], [('ranks', FIT[4]), ('Pareto set', DATA[1]), ('FFGA score', FIT[3])],
     'brute-force dominance')
prop('C18', 'FFGA never loses a trade-off it has found',
     'In an FFGA run that carries over the best parents, after every generation no point evaluated in the run so far '
     'dominates a member of the reported Pareto set, and every value vector that is non-dominated among all points '
     'evaluated so far appears in it. This holds for any number of objectives, constraints, selection method and number of '
     'generations.',
     ['histories', 'configurations'], 'All FFGA runs with transfer of the best.',
     TESTS + 'the front is printed, not compared with what was evaluated.',
     [NEW[1], FIT[4], DATA[1], FRONT[4]], [('Pareto elitism', NEW[1]), ('ranks', FIT[4])],
     'brute force over every evaluated point')
prop('C19', 'A seed makes a run reproducible; otherwise, and within a run, it is random',
     'With the global seed set to an integer (0 included) a run gives the same result every time: whatever random numbers '
     'were drawn or runs made before, and in other processes. Different seeds, and runs without a seed, give different '
     'first generations, and with or without a seed successive generations and repeated applications of an operator use '
     'fresh random choices.',
     ['configurations', 'histories'], 'All seeds and configurations, in one or several processes.',
     TESTS + 'no test sets a seed and compares.',
     ['baumeva/global_generator.py', G + 'populations/base_population.py'] + FRONT,
     [('seeding', G + 'populations/base_population.py')],
     'equality/inequality of repeated runs, subprocesses with different string hashing')
prop('C20', 'Runs do not interfere and leave the caller\'s arguments alone',
     'A run never modifies the gene declarations, conditions, initial population, target, input data or penalty tables it '
     'was given, nor lists that the objective function returns, and a returned result is not changed by later runs. '
     'Optimizing again with the same object, reusing '
     'component objects on other problems, or interleaving and nesting runs gives the same results as fresh objects run '
     'alone with the same random numbers; an exception raised by the objective function reaches the caller and does not '
     'affect later runs.',
     ['histories', 'schedules', 'configurations'], 'All orders of runs, reuse patterns and interleavings.',
     TESTS + 'every test runs once with fresh objects.',
     FRONT + FIT[:1] + MUT[:2] + POP[:1], [('per-run state', FRONT[0]), ('conditions', FIT[0])],
     'deep comparison before/after, differential against solo runs')
prop('C21', 'Ready-made algorithms equal their documented component combination',
     'With the same seed, BinaryGA, CategoricalGA, CombinatoryGA, VEGA, FFGA and CollectorGA give exactly the result of the '
     'documented loop (evaluate and record; then select, cross, mutate, build the new generation, evaluate, record) driven '
     'by hand with: tournament selection and one-point crossover with bit mutation, uniform crossover with categorical '
     'mutation, order crossover with movement mutation, per-objective tournament with one-point crossover and bit mutation, '
     'balanced selection with one-point crossover, bit mutation and Pareto elitism, or the given components, respectively. '
     'Every constructor parameter takes effect and the defaults are children 0.95, early stop 10, tournament 3, mutation '
     '"normal", transfer "best", no Gray code, no target.',
     ['configurations', 'inputs'], 'All constructor arguments and seeds.',
     TESTS + 'front-ends are never compared with components.',
     FRONT, [('wiring', f) for f in FRONT],
     'differential run against the hand-driven composition')
prop('C22', 'Every valid configuration runs to completion with a complete result',
     'For every valid configuration - populations from 3 individuals, one child per generation up to all, every tournament '
     'size below the population size, search spaces smaller than the population, one-bit genes, single-value categories, '
     'permutations of two, nothing feasible, constant, huge or (without proportional selection) infinite objective values, numpy '
     'results, any combination of compatible components and any number of generations - the run terminates without an exception. The result then has '
     'a best solution and only evaluated individuals.',
     ['configurations', 'inputs', 'histories'], 'All valid configurations, edges included.',
     TESTS + 'a few comfortable configurations are run.',
     FRONT + SEL + NEW + CROSS, [('pair selection', SEL[1]), ('roulette', SEL[2]), ('elite de-duplication', NEW[0])],
     'no exception, line budget, completeness')
prop('C23', 'Invalid parameters are rejected, valid ones accepted',
     'An exception is raised, at construction or when run, for: a mutation level that is an unknown name, a float outside '
     '[0, 1] or not a name or number; a transfer mode other than "best"/"random"; a tournament smaller than 2 or larger '
     'than the population; adaptive coefficients not above 1 or equal to each other; static tables of different size; a '
     'penalty that is not a penalty object; an unknown condition sign; an initial population that is too large, or for '
     'binary problems has individuals of wrong length or out of range; an objective that returns the wrong number of '
     'values. The nearest valid values (such as 0.0, 1.0, the bounds themselves, tournament 2) are accepted.',
     ['inputs', 'configurations'], 'All invalid values of the listed kinds, for components and ready-made algorithms.',
     TESTS + 'no test passes an invalid value.',
     MUT[:3] + [NEW[0], SEL[1]] + PEN + FIT[:1] + POP[:3], [('validation', MUT[0]), ('validation', SEL[1]),
                                                           ('validation', PEN[2]), ('validation', POP[0])],
     'valid half must run, invalid half must raise')
prop('C24', 'What is printed is what was found, and only when asked',
     'With printing off a run writes nothing to the output. With printing on (the default, and always for CollectorGA) it '
     'prints the stored best solution: last generation index, generation index, genotype, decoded values if any, score, '
     'objective value and feasibility, or in multi-objective runs the decoded values and objective values of every member '
     'of the Pareto set. Printing changes nothing.',
     ['configurations', 'histories'], 'All runs and printing modes.',
     TESTS + 'output is not captured.',
     DATA + FRONT, [('printing', DATA[0]), ('printing', DATA[1])],
     'captured text against stored values')
prop('C25', 'The search makes far more progress than chance',
     'On problems with structure (distance to a hidden point, matching a hidden word, a closed tour) and default operators, '
     'each single-objective algorithm ends much closer to the optimum than random sampling of the same space with the same '
     'number of evaluations, minimizing without a target and approaching the target with one. VEGA and FFGA end with '
     'populations whose objective values are on average far better than random points.',
     ['inputs', 'histories'], 'Hidden optima, sizes, seeds; averaged over 5 runs each.',
     TESTS + 'solution quality is never asserted.',
     FRONT + SEL + CROSS + MUT + NEW, [('the whole loop', FRONT[0])],
     'ratio to random sampling, thresholds far from measured behaviour')

prop('C26', 'Relabelling or rescaling a problem relabels or rescales the run, nothing else',
     'With the same seed, a problem and an equivalent one give corresponding runs: the same sequence of evaluations, the same '
     'population, best solution, histories and counters, up to the renaming. Equivalent are: other labels for the values of a '
     'categorical gene (texts, numbers, tuples, 0, the empty text or None included); integer ranges of categorical or combinatory '
     'problems shifted, or with minimum, maximum and step multiplied; minimum, maximum and step of a binary gene multiplied by a '
     'power of two; objective values (and the penalty factor) multiplied by a power of two when there is no target, or objective '
     'values and target shifted by the same amount when there is one; conditions declared and returned at other positions around '
     'the optimized values. (Up to floating-point rounding of the transformed numbers.)',
     ['inputs', 'configurations', 'histories'], 'All problems, configurations, seeds and the stated transformations.',
     TESTS + 'no two runs are ever compared.',
     POP + SEL + CROSS + MUT + FIT, [('comparison of scores', SEL[1]), ('score formula', FIT[1]), ('values of genes', MUT[1])],
     'metamorphic: the run of the equivalent problem, mapped back, equals the run of the problem')

prop('C27', 'A run can be copied, continued and re-equipped at any generation',
     'The state of a run is its data (GaData): a deep copy taken between any two operations and continued with new operator '
     'objects of the same kind and the same random numbers gives the same run as the original, and neither continuation affects '
     'the other. The limit of generations and early stopping only end a run: a run of N generations is the beginning of any '
     'longer run with the same seed, and a finished run of a ready-made algorithm continued by hand with the documented '
     'components equals the longer run. Operators may be replaced by others of the problem\'s kind between generations: objects '
     'used earlier in the run behave like new ones, the points stay valid and the best solution never gets worse.',
     ['histories', 'configurations', 'inputs'], 'All problems, configurations, seeds, moments of copying and sequences of operators.',
     TESTS + 'no run is copied, continued or driven with changing operators.',
     POP + SEL + CROSS + MUT + FIT, [('data of a run', POP[1]), ('parameters fixed at the first use', MUT[1])],
     'differential: continued copy, longer run and run with new objects against the uninterrupted run')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _ in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p, note in P:
        i = p['id']
        checks.append({
            'property': i, 'quick_cmd': f'bash run.sh {i} quick', 'thorough_cmd': f'bash run.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': f'property-based testing (Hypothesis generators, shrinking): {note}', 'level': 'exploration',
            'level_note': 'Holds on every generated case of the run (counts, classes and samples in the evidence file); '
                          'no claim beyond the generated domain. Trusts the reference oracle in /verif, Hypothesis and '
                          'CPython. Statistical oracles reject at p < 1e-10 only.'})
    m = {'version': 1,
         'setup_cmd': 'python3-vt -c "import hypothesis, numpy, scipy"',
         'checks': checks, 'not_applicable': [],
         'notes': 'Pure Python, nothing to build: every check imports /repo\'s current source (bytecode caches are '
                  'ignored). No hooks in /repo. Replays: python3-vt check.py replay <file>.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)


if __name__ == '__main__':
    main()
