"""C21: every ready-made algorithm is exactly its documented combination of components, with all its parameters."""
from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg
from ..sut import (Parts, Recorder, Run, baumeva, bga, call, collector, fingerprint, first_diff, frontend,
                   py_gens, require, seeded, silent)

PROPERTY = 'C21'
RULE = ('A case is a configuration run twice with one seed: through the ready-made class (or CollectorGA) and by hand, '
        'component by component as the advanced-usage documentation shows. Oracle: equality of the whole result and of '
        'the points at which the objective was evaluated. Non-trivial: at least 2 generations.')
ASSUMPTIONS = ['documented composition: tournament selection with BinaryGA (one-point crossover, bit mutation), '
               'CategoricalGA (uniform crossover, categorical mutation), CombinatoryGA (order crossover, movement '
               'mutation), VEGA (per-objective tournament, one-point crossover, bit mutation), FFGA (balanced selection, '
               'one-point crossover, bit mutation, Pareto elitism)']


def by_hand(cfg, rec):
    """The documented loop."""
    r = Run(cfg, rec)
    r.start()
    for _ in range(1, r.data.num_generations):
        r.step()
        if r.data.num_generation_no_improve > r.data.early_stop:
            break
    return r.data


def compare(cfg, data, hand, rec, rec2, what):
    a, b = fingerprint(data), fingerprint(hand)
    require(a == b, lambda: f'{what} and the same components driven by hand differ: {first_diff(a, b)}')
    extra = len(rec.calls) - len(rec2.calls) if what == 'VEGA' else 0   # VEGA may look how many objectives there are
    require(0 <= extra <= 1 and rec.calls[extra:] == rec2.calls,
            lambda: f'{what} evaluates other points than the same components driven by hand')
    require((data.num_generations, data.children_percent) == (hand.num_generations, hand.children_percent),
            lambda: f'{what}: parameters of the result')


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    seeded(cfg['seed'], 1)
    ga = call('constructing ' + cfg['front'], frontend, cfg, rec)
    data = call(cfg['front'] + '.optimize', ga.optimize)
    hc = dict(cfg)
    if cfg['early'] is None:
        hc['early'] = cfg['ngen']
    rec2 = Recorder(cfg['prob'])
    seeded(cfg['seed'], 2)
    hand = by_hand(hc, rec2)
    compare(cfg, data, hand, rec, rec2, cfg['front'])
    return Info(cfg['ngen'] >= 2, [cfg['front'], f't{cfg["tsize"]}', cfg['transfer'],
                                   'constrained' if cfg['prob'].get('conds') else 'free'])


def run_collector(cfg):
    rec = Recorder(cfg['prob'])
    with silent():
        seeded(cfg['seed'], 1)
        c = call('CollectorGA', collector, cfg, rec)
        call('CollectorGA.optimize', c.optimize)
    rec2 = Recorder(cfg['prob'])
    seeded(cfg['seed'], 2)
    hand = by_hand(cfg, rec2)
    compare(cfg, c.ga_data, hand, rec, rec2, 'CollectorGA')
    return Info(cfg['ngen'] >= 2, [cfg['fit'], cfg['sel'], cfg['cross'], cfg['mut']])


DEFAULTS = dict(cp=0.95, early=10, tsize=3, mlvl='normal', transfer='best', target=None, inp=None)


def run_defaults(case):
    """Only the required arguments given, against a hand-driven run with the documented defaults."""
    cfg = dict(case['cfg'], **DEFAULTS)
    p = cfg['prob']
    rec = Recorder(p)
    cls = getattr(baumeva, cfg['front'])
    k = dict(num_generations=cfg['ngen'], num_individ=cfg['n'], gens=py_gens(p['kind'], p['gens']), obj_function=rec)
    if case['positional']:
        ga = call('constructing', cls, *k.values())
    else:
        ga = call('constructing', cls, **k)
    seeded(case['seed'], 1)
    with silent():
        data = call('optimize', ga.optimize)
    rec2 = Recorder(p)
    seeded(case['seed'], 2)
    hand = by_hand(cfg, rec2)
    compare(cfg, data, hand, rec, rec2, cfg['front'])
    require(data.early_stop == 10, lambda: f'default early_stop is {data.early_stop}')
    return Info(True, [cfg['front']])


def run_component_defaults(case):
    """Components built without arguments against the documented defaults."""
    cfg = dict(case['cfg'], **DEFAULTS)
    cfg['sel'] = 'tournament' if not cfg['prob'].get('multi') else ('vtournament' if cfg['fit'] == 'vega' else 'balanced')
    p = cfg['prob']
    fps = []
    for explicit in (True, False):
        rec = Recorder(p)
        seeded(case['seed'], 1)
        parts = Parts(cfg, rec)
        if not explicit:
            parts.mutation = call('mutation', {'bin': bga.BinStringMutation, 'cat': bga.CategoricalMutation,
                                               'swap': bga.SwapMutation, 'inversion': bga.InversionMutation,
                                               'movement': bga.MovementMutation, 'shift': bga.ShiftMutation}[cfg['mut']])
            parts.selection = call('selection', {
                'tournament': bga.TournamentSelection, 'balanced': bga.BalancedSelection,
                'vtournament': lambda: bga.VEGATournamentSelection(len(p['objs']))}[cfg['sel']])
            parts.new_generation = call('new generation', bga.MultiNewGeneration if cfg.get('newgen') == 'multi'
                                        else bga.NewGeneration)
        if explicit:
            r = Run(cfg, rec, parts)
            r.start()
            for _ in range(1, r.data.num_generations):
                r.step()
                if r.data.num_generation_no_improve > r.data.early_stop:
                    break
            fps.append(fingerprint(r.data))
        else:
            with silent():
                c = baumeva.CollectorGA(parts.fitness, parts.selection, parts.crossover, parts.mutation,
                                        parts.new_generation,
                                        **({'storage': bga.MultiGaData} if p.get('multi') else {}))
                from ..sut import POPS
                call('set_population', c.set_population, POPS[p['kind']], cfg['n'], cfg['ngen'],
                     py_gens(p['kind'], p['gens']))
                call('optimize', c.optimize)
            fps.append(fingerprint(c.ga_data))
    require(fps[0] == fps[1], lambda: f'components with default arguments differ from the documented defaults: '
                                      f'{first_diff(fps[0], fps[1])}')
    return Info(True, [cfg['fit'], cfg['mut']])


@st.composite
def full_cfg(draw):
    cfg = draw(front_cfg(n_hi=24, ngen_hi=10, ngen_lo=2, n_lo=5))
    if draw(st.integers(0, 4)) == 0:
        cfg['early'] = None
    return cfg


@st.composite
def tournament_cfg(draw):
    """Large tournaments, including the largest allowed."""
    cfg = draw(front_cfg(fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA'), n_hi=14, ngen_hi=4, ngen_lo=2,
                         flavours=False))
    n = cfg['n'] = draw(st.integers(23, 90))
    cfg['tsize'] = draw(st.one_of(st.integers(max(2, n // 2), n - 1), st.integers(9, n - 1)))
    cfg['cp'] = draw(st.sampled_from([0.95, 0.5, 1.0]))
    return cfg


@st.composite
def default_case(draw):
    cfg = draw(front_cfg(n_hi=30, ngen_hi=25, ngen_lo=3, n_lo=8, constrained=False))
    if cfg['front'] in ('BinaryGA', 'VEGA', 'FFGA'):
        cfg['prob']['kind'] = 'binary'
    return {'cfg': cfg, 'seed': cfg['seed'], 'positional': draw(st.booleans())}


@st.composite
def comp_default_case(draw):
    multi = draw(st.sampled_from([False, False, 'vega', 'ffga']))
    cfg = draw(run_cfg(n_hi=25, ngen_hi=20, ngen_lo=3, n_lo=8, constrained=False, multi=multi,
                       **({'kinds': ('binary', 'gray')} if multi else {})))
    return {'cfg': cfg, 'seed': cfg['seed']}


def any_run(**k):
    return st.one_of(run_cfg(**k), run_cfg(**k), run_cfg(kinds=('binary', 'gray'), multi='vega', **k),
                     run_cfg(kinds=('binary', 'gray'), multi='ffga', **k))


SUBS = [
    Sub('frontends', full_cfg(), run_front, 800),
    Sub('tournaments', tournament_cfg(), run_front, 160),
    Sub('collector', any_run(n_hi=16, ngen_hi=8, ngen_lo=2), run_collector, 400),
    Sub('defaults', default_case(), run_defaults, 300),
    Sub('component_defaults', comp_default_case(), run_component_defaults, 200),
]
