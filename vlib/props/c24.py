"""C24: what is printed is what was found, and only when asked for."""
import contextlib
import io
import re
import sys
import warnings

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, penalty, run_cfg
from ..sut import Recorder, Violation, bga, call, collector, frontend, random, require, seeded

PROPERTY = 'C24'
RULE = ('A case is a run with printing on, off or left at its default, or an explicit print of the best solution in the '
        'middle of a run. Oracle: the printed text contains exactly the values stored in the returned result (only '
        'values are looked for, not wording); with printing off nothing is written. Non-trivial: something is printed '
        'or at least 2 generations ran silently.')


def capture(fn):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        r = fn()
    return r, out.getvalue(), err.getvalue()


def has_number(text, v):
    return re.search(r'(?<![\d.])' + re.escape(str(v)) + r'(?![\d.])', text) is not None


def order_of(text, items, what):
    """Every item appears, in this order."""
    pos = 0
    for it in items:
        i = text.find(it, pos)
        require(i >= 0, lambda: f'{what}: {it} is missing (or out of order) in the printed text:\n{text}')
        pos = i + len(it)


WORDS = (('genotype', 'genotype'), ('phenotype', 'phenotype'), ('fitness', 'score'), ('objective', 'obj_score'),
         ('feasible', 'feasible'))


def check_text(text, data, multi, what):
    best = data.best_solution
    require(text.strip() != '', f'{what}: nothing was printed')
    require(has_number(text, best['idx_generation']), lambda: f'{what}: generation {best["idx_generation"]} of the best '
                                                              f'solution not printed:\n{text}')
    require(has_number(text, data.idx_generation - 1), lambda: f'{what}: last generation {data.idx_generation - 1} not '
                                                               f'printed:\n{text}')
    if multi:
        order_of(text, [str(i['phenotype']) for i in best['pareto_set']], f'{what}: decoded values of the Pareto set')
        order_of(text, [str(i['obj_score']) for i in best['pareto_set']], f'{what}: objective values of the Pareto set')
        for i in best['pareto_set']:
            k = sum(j['phenotype'] == i['phenotype'] for j in best['pareto_set'])
            require(text.count(str(i['phenotype'])) >= k, f'{what}: {i["phenotype"]} printed too few times')
        vectors = len(re.findall(r'\[[^\[\]]*\]', text))
        require(vectors == 2 * len(best['pareto_set']), lambda: f'{what}: {vectors} vectors printed for a Pareto set of '
                                                                f'{len(best["pareto_set"])}:\n{text}')
    else:
        for key in ('genotype', 'phenotype', 'score', 'obj_score', 'feasible'):
            if key in best:
                require(str(best[key]) in text, lambda: f'{what}: {key} {best[key]!r} of the best solution not printed:'
                                                        f'\n{text}')
        lines = text.split('\n')
        for word, key in WORDS:
            hits = [ln for ln in lines if word in ln.lower()]
            if key in best and len(hits) == 1:      # a labelled value is that value
                require(hits[0].rstrip().endswith(str(best[key])),
                        lambda: f'{what}: printed {hits[0]!r}, the best solution has {key} {best[key]!r}')
        other = str(not best['feasible'])
        require(other not in text.replace(str(best['genotype']), ''),
                lambda: f'{what}: feasible printed as {other}:\n{text}')


def run_front(case):
    cfg, mode = case['cfg'], case['mode']
    rec = Recorder(cfg['prob'])
    seeded(cfg['seed'])
    ga = call('constructing', frontend, cfg, rec, is_print=(mode == 'on')) if mode != 'default' else None
    if mode == 'default':
        from ..sut import baumeva, cond_list, mk_penalty, py_gens
        p = cfg['prob']
        ga = call('constructing', getattr(baumeva, cfg['front']), num_generations=cfg['ngen'], num_individ=cfg['n'],
                  gens=py_gens(p['kind'], p['gens']), obj_function=rec, conditions=cond_list(p),
                  penalty=mk_penalty(p.get('penalty')), tournament_size=cfg['tsize'], children_percent=cfg['cp'])
    data, out, err = capture(lambda: call('optimize', ga.optimize))
    what = f'{cfg["front"]} with printing {mode}'
    if mode == 'off':
        require(out == '' and err == '', lambda: f'{what} wrote {(out + err)[:200]!r}')
    else:
        require(err == '', lambda: f'{what} wrote to stderr: {err[:200]!r}')
        check_text(out, data, bool(cfg['prob'].get('multi')), what)
    if mode == 'on':
        seeded(cfg['seed'])
        other, _o, _e = capture(lambda: call('optimize', call('constructing', frontend, cfg, Recorder(cfg['prob']),
                                                              is_print=False).optimize))
        require(state(other) == state(data), lambda: f'{what}: the result differs from that of the silent run')
    return Info(mode != 'off' or len(data.historical_best) >= 2, [cfg['front'], mode])


def run_needless(case):
    """A penalty without conditions is of no use (a warning, not output): silence stays silence."""
    cfg = case['cfg']
    from ..sut import baumeva, cond_list, mk_penalty, py_gens
    p = cfg['prob']
    seeded(cfg['seed'])

    def go():
        ga = getattr(baumeva, cfg['front'])(
            num_generations=cfg['ngen'], num_individ=cfg['n'], gens=py_gens(p['kind'], p['gens']), obj_function=Recorder(p),
            penalty=mk_penalty(case['penalty']), conditions=['optimize'] if case['listed'] and not p.get('multi') else None,
            tournament_size=cfg['tsize'], children_percent=cfg['cp'], is_print=False)
        return call('optimize', ga.optimize)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        data, out, _err = capture(go)
    require(out == '', lambda: f'{cfg["front"]} with printing off and a penalty without conditions wrote {out[:200]!r}')
    return Info(True, [cfg['front']])


def run_collector(cfg):
    seeded(cfg['seed'])
    c = call('CollectorGA', collector, cfg, Recorder(cfg['prob']))
    _r, out, err = capture(lambda: call('optimize', c.optimize))
    check_text(out, c.ga_data, bool(cfg['prob'].get('multi')), 'CollectorGA')
    before = repr(c.ga_data.best_solution)
    _r, out2, _e = capture(c.ga_data.print_best_solution)
    require(out2 == out, 'printing again prints something else')
    require(repr(c.ga_data.best_solution) == before, 'printing changed the best solution')
    return Info(True, [cfg['fit']])


def run_midway(cfg):
    """Hand-driven run, the best solution printed after every generation; nothing else prints."""
    from ..sut import Run
    seeded(cfg['seed'])
    r, out, err = capture(lambda: Run(cfg))
    require(out + err == '', f'creating a run wrote {out + err!r}')
    for g in range(cfg['ngen']):
        _x, out, err = capture(r.start if g == 0 else r.step)
        require(out + err == '', lambda: f'generation {g} wrote {(out + err)[:200]!r}')
        before = state(r.data)
        _x, out, _e = capture(lambda: call('print_best_solution', r.data.print_best_solution))
        check_text(out, r.data, bool(cfg['prob'].get('multi')), f'generation {g}')
        require(state(r.data) == before, 'printing changed the run')
    return Info(True, [cfg['fit']])


def state(data):
    return repr([data.best_solution, data.historical_best, data.historical_worst, data.historical_mediocre, list(data.population),
                 list(data.parents or []), list(data.children or []), data.idx_generation, data.num_generation_no_improve])


def run_pareto(case):
    """A recorded Pareto set of any size is printed whole, in its order, and left alone."""
    from ..sut import synth
    rng = random.Random(case['seed'])
    data = bga.MultiGaData(num_generations=3)
    n = case['n']
    pop = synth([[i] for i in range(n)], phenotype=[[i + 0.5, rng.randint(0, 9)] for i in range(n)])
    for i, ind in enumerate(pop):
        ind.update(score=[0.5] * case['m'], rank=1 if i < case['front'] else 2 + rng.randint(0, 3),
                   obj_score=[rng.randint(-20, 20) for _ in range(case['m'])])
    data.population = pop
    call('update', data.update)
    require(len(data.best_solution['pareto_set']) == min(n, case['front']), 'recorded Pareto set of another size')
    before = state(data)
    _x, out, _e = capture(lambda: call('print_best_solution', data.print_best_solution))
    check_text(out, data, True, f'Pareto set of {len(data.best_solution["pareto_set"])}')
    require(state(data) == before, 'printing changed the result')
    return Info(True, ['large' if case['front'] > 60 else 'small'])


def run_synthetic(case):
    """Generations recorded by hand, the best not always carried over: the stored best solution is what is printed."""
    from ..sut import synth
    data = bga.GaData(num_generations=case['total'])   # an announced number is not a limit when driven by hand
    lost = False
    for g, scores in enumerate(case['gens']):
        pop = synth([[g, i, 7 * i] for i in range(len(scores))], phenotype=[[g + 0.5, i + 0.25] for i in range(len(scores))])
        for ind, s in zip(pop, scores):
            ind.update(score=s / 8, obj_score=-s / 4, feasible=bool(s % 2))
        data.population = pop
        call('update', data.update)
        lost |= max(scores) / 8 < data.best_solution['score']
        _x, out, _e = capture(lambda: call('print_best_solution', data.print_best_solution))
        check_text(out, data, False, f'generation {g}')
    return Info(lost, ['best-lost' if lost else 'best-kept'])


def any_run(**k):
    return st.one_of(run_cfg(**k), run_cfg(**k), run_cfg(kinds=('binary', 'gray'), multi='vega', **k),
                     run_cfg(kinds=('binary', 'gray'), multi='ffga', **k))


@st.composite
def quiet_case(draw):
    """Long runs and large populations with printing off (and some with it on)."""
    cfg = draw(front_cfg(n_hi=10, ngen_hi=6, ngen_lo=2, flavours=False))
    ff = cfg['front'] == 'FFGA'
    cfg['early'] = 1000
    if draw(st.booleans()):
        cfg['ngen'] = draw(st.integers(51, 130)) if not ff else draw(st.integers(9, 14))
    else:
        cfg['n'] = draw(st.integers(60, 130)) if not ff else draw(st.integers(20, 40))
    return {'cfg': cfg, 'mode': draw(st.sampled_from(['off', 'off', 'off', 'on']))}


SUBS = [
    Sub('needless', st.fixed_dictionaries({'cfg': front_cfg(n_hi=10, ngen_hi=4, constrained=False), 'penalty': penalty([]),
                                           'listed': st.booleans()}), run_needless, 100),
    Sub('frontends', st.fixed_dictionaries({'cfg': front_cfg(n_hi=14, ngen_hi=8, ngen_lo=2),
                                            'mode': st.sampled_from(['on', 'off', 'default'])}), run_front, 900),
    Sub('collector', any_run(n_hi=10, ngen_hi=6), run_collector, 300),
    Sub('silent', quiet_case(), run_front, 60),
    Sub('synthetic', st.fixed_dictionaries({'total': st.integers(1, 8), 'gens': st.lists(st.lists(st.integers(-9, 9), min_size=1, max_size=5),
                                                             min_size=1, max_size=5)}), run_synthetic, 300),
    Sub('pareto', st.fixed_dictionaries({'n': st.sampled_from([1, 2, 5, 12, 40, 90, 130, 260]), 'front': st.sampled_from([1, 2, 5, 20, 70, 101, 128, 260]),
                                         'm': st.integers(1, 4), 'seed': st.integers(0, 10 ** 6)}), run_pareto, 100),
    Sub('midway', any_run(n_hi=8, ngen_hi=6), run_midway, 300),
]
