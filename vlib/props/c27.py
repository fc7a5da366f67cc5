"""C27: the state of a run is its data: it can be copied, continued and driven with changing operators."""
import copy
import random

from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg, seeds
from ..sut import (CROSSOVERS, MUTATIONS, SELECTIONS, Parts, Recorder, Run, bga, call, check_point, content,
                   fingerprint, first_diff, observe, point_of, require, seeded)

PROPERTY = 'C27'
RULE = ('A case is a run that is copied between two of its operations and continued twice, a run compared with the same run '
        'given more generations or a later stop, or a run whose operators change from generation to generation. Oracle: '
        'equality of everything recorded with the uninterrupted run, the shorter run, or the run driven with new objects in '
        'every generation. Non-trivial: at least one generation is bred after the copy, the limit or the change.')
ASSUMPTIONS = ['single thread; the objective function itself keeps no state']
OPS = ('select', 'cross', 'mutate', 'renew', 'evaluate', 'update')


def ops_of(run, ngen):
    out = [run.evaluate, run.update]
    for _ in range(1, ngen):
        out += [getattr(run, o) for o in OPS]
    return out


def whole(data):
    """Everything, parents and children of the moment included."""
    keys = ('genotype', 'phenotype', 'score', 'obj_score', 'feasible', 'rank')
    return repr([[[i.get(k) for k in keys] for i in (x or [])] for x in (data.population, data.parents, data.children)] +
                [data.best_solution, data.historical_best, data.historical_mediocre, data.historical_worst,
                 data.idx_generation, data.num_generation_no_improve])


def run_copy(case):
    cfg = case['cfg']
    seeded(cfg['seed'])
    run = Run(cfg)
    seq = ops_of(run, cfg['ngen'])
    at = case['at'] % len(seq)
    for op in seq[:at]:
        op()
    twin = Run.__new__(Run)
    twin.cfg, twin.kind, twin.gens = cfg, run.kind, run.gens
    twin.rec = Recorder(cfg['prob'])
    twin.parts = call('constructing components', Parts, cfg, twin.rec)
    twin.data = call('copying the data of a run', copy.deepcopy, run.data)
    require(whole(twin.data) == whole(run.data), 'a deep copy of the data of a run differs from the original')
    state = random.getstate()
    held = whole(twin.data)
    n0 = len(run.rec.calls)
    for op in seq[at:]:
        op()
    require(whole(twin.data) == held, 'continuing a run changed a copy of it')
    done = whole(run.data)
    random.setstate(state)
    for op in ops_of(twin, cfg['ngen'])[at:]:
        op()
    where = OPS[(at - 2) % 6] if at >= 2 else ('evaluate', 'update')[at]
    require(whole(run.data) == done, 'continuing the copy of a run changed the original')
    a, b = fingerprint(run.data), fingerprint(twin.data)
    require(a == b, lambda: f'copied before operation {at} ({where}) and continued with new operators of the same kind: '
                            f'{first_diff(a, b)}')
    require(run.rec.calls[n0:] == twin.rec.calls, 'the copy was evaluated at other points')
    return Info(at < len(seq) - 6, [cfg['fit'], where])


def gens_text(snaps):
    return [repr([[content(i) for i in s.pop], s.idx_generation, s.no_improve]) for s in snaps]


def run_longer(case):
    """A limit or a stopping rule only ends a run: up to there it is the same as without."""
    cfg = case['cfg']
    short, long = dict(cfg, early=10 ** 6), dict(cfg, early=10 ** 6, ngen=cfg['ngen'] + case['more'])
    seeded(cfg['seed'])
    d1, s1 = observe(short, Recorder(cfg['prob']))
    require(len(s1) == cfg['ngen'], lambda: f'{len(s1)} generations of {cfg["ngen"]} without early stopping')
    fp1 = fingerprint(d1)
    state = random.getstate()
    seeded(cfg['seed'], 23)
    d2, s2 = observe(long, Recorder(cfg['prob']))
    a, b = gens_text(s1), gens_text(s2)
    require(a == b[:len(a)], lambda: f'{cfg["front"]}: generation {next(g for g in range(len(a)) if a[g] != b[g])} of '
                                     f'{short["ngen"]} differs from that of a run of {long["ngen"]}')
    # continued by hand with the documented components
    rec = Recorder(cfg['prob'])
    r = Run.__new__(Run)
    r.cfg, r.kind, r.gens, r.rec, r.data = cfg, cfg['prob']['kind'], cfg['prob']['gens'], rec, d1
    r.parts = call('constructing components', Parts, cfg, rec)
    random.setstate(state)
    for _ in range(case['more']):
        r.step()
    x, y = fingerprint(d1), fingerprint(d2)
    require(x == y, lambda: f'{cfg["front"]}: {short["ngen"]} generations continued by {case["more"]} differ from '
                            f'{long["ngen"]} at once: {first_diff(x, y)}')
    # the stopping rule
    seeded(cfg['seed'], 2)
    d3, s3 = observe(dict(long, early=case['early']), Recorder(cfg['prob']))
    c = gens_text(s3)
    require(c == b[:len(c)], lambda: f'{cfg["front"]}: with early_stop={case["early"]} generation '
                                     f'{next(g for g in range(len(c)) if c[g] != b[g])} differs from that without')
    return Info(cfg['ngen'] >= 2, [cfg['front'], 'stopped' if len(s3) < len(s2) else 'limit'])


class Kit:
    """Operators by name; kept for later generations (`keep`) or made anew for every one."""

    def __init__(self, cfg, keep):
        self.cfg, self.keep, self.pool = cfg, keep, {}

    def get(self, kind, *what):
        key = (kind,) + what
        if key in self.pool:
            return self.pool[key]
        c = self.cfg
        if kind == 'sel':
            o = call('selection', SELECTIONS[what[0]], dict(c, nobj=len(c['prob']['objs']), tsize=what[1]))
        elif kind == 'cross':
            o = call('crossover', CROSSOVERS[what[0]])
        elif kind == 'mut':
            o = call('mutation', MUTATIONS[what[0]], what[1])
        else:
            o = call('new generation', bga.MultiNewGeneration if c.get('newgen') == 'multi' else bga.NewGeneration, what[0])
        if self.keep:
            self.pool[key] = o
        return o


def run_switch(case):
    cfg = case['cfg']
    prob = cfg['prob']
    out = []
    for keep, junk in ((True, 0), (False, 13)):
        seeded(cfg['seed'], junk)
        rec = Recorder(prob)
        r = Run(cfg, rec)
        kit = Kit(cfg, keep)
        r.start()
        for g, (sel, ts, cr, mu, lv, tr) in enumerate(case['plan']):
            r.parts.selection, r.parts.crossover = kit.get('sel', sel, ts), kit.get('cross', cr)
            r.parts.mutation, r.parts.new_generation = kit.get('mut', mu, lv), kit.get('new', tr)
            best = None if prob.get('multi') else r.data.best_solution['score']
            r.step()
            for i in r.data.population:
                check_point(prob['kind'], prob['gens'], point_of(prob['kind'], i), f'generation {g + 1}')
                require(i['score'] is not None, 'an individual without a score')
            if best is not None:
                top = max(i['score'] for i in r.data.population)
                require(r.data.best_solution['score'] == max(best, top) and top >= best,
                        lambda: f'generation {g + 1} ({case["plan"][g]}): best solution {r.data.best_solution["score"]!r}, '
                                f'best of the generation {top!r}, best before {best!r}')
        out.append((fingerprint(r.data), rec.calls))
    require(out[0][0] == out[1][0], lambda: f'operators used before in the run behave differently from new ones: '
                                            f'{first_diff(out[0][0], out[1][0])}')
    require(out[0][1] == out[1][1], 'the objective was called at other points')
    return Info(len(set(map(repr, case['plan']))) > 1, [cfg['fit'], prob['kind']])


@st.composite
def switches(draw):
    multi = draw(st.sampled_from([False, False, 'vega', 'ffga']))
    k = {'kinds': ('binary', 'gray')} if multi else {}
    cfg = draw(run_cfg(multi=multi, n_hi=14, ngen_hi=4, flavours=False, **k))
    kind = cfg['prob']['kind']
    prop = multi != 'ffga' and any(o['f'] == 'inf' for o in cfg['prob']['objs'])
    sels = ['vtournament', 'vbalanced', 'vranked'] if multi == 'vega' else ['tournament', 'balanced', 'ranked']
    sels = [s for s in sels if not (prop and 'balanced' in s)]
    cr = ['order'] if kind == 'order' else ['one', 'two', 'uniform']
    mu = {'binary': ['bin'], 'gray': ['bin'], 'cat': ['cat']}.get(kind, ['swap', 'inversion', 'movement', 'shift'])
    plan = draw(st.lists(st.tuples(st.sampled_from(sels), st.integers(2, cfg['n'] - 1), st.sampled_from(cr), st.sampled_from(mu),
                                   st.sampled_from(['weak', 'normal', 'strong', 0.0, 0.5, 1.0]),
                                   st.sampled_from(['best', 'random'])), min_size=2, max_size=7 if multi != 'ffga' else 4))
    return {'cfg': cfg, 'plan': plan, 'seed': cfg['seed']}


def any_run(**k):
    return st.one_of(run_cfg(**k), run_cfg(**k), run_cfg(kinds=('binary', 'gray'), multi='vega', **k),
                     run_cfg(kinds=('binary', 'gray'), multi='ffga', **k))


SUBS = [
    Sub('copy', st.builds(lambda c, a: {'cfg': c, 'at': a, 'seed': c['seed']}, any_run(n_hi=16, ngen_hi=6, ngen_lo=2),
                          st.integers(0, 600)), run_copy, 500),
    Sub('longer', st.builds(lambda c, m, e: {'cfg': c, 'more': m, 'early': e, 'seed': c['seed']},
                            front_cfg(collector=True, n_hi=14, ngen_hi=7), st.integers(1, 5), st.sampled_from([0, 0, 1, 2, 3, 6])),
        run_longer, 400),
    Sub('switch', switches(), run_switch, 400),
]
