"""C07: a run stops exactly when it should."""
from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg
from ..sut import Recorder, call, content, frontend, observe, require, run_any

PROPERTY = 'C07'
RULE = ('A case is a run of a front-end or CollectorGA with generated num_generations and early_stop (including 0, None '
        'and larger than the run), on objectives that stagnate, improve late or never. Oracle: the stopping rule '
        'replayed over the observed generations. Non-trivial: more than one generation requested.')
ASSUMPTIONS = ['early_stop=None only where the front-end documents it']
KEYS = ('genotype', 'phenotype', 'obj_score', 'feasible')
ALL = KEYS + ('rank', 'score', 'idx_individ')


def stalls(cfg, snaps):
    """After each generation: (least, most) number of consecutive generations without a new best."""
    out = []
    if not cfg['prob'].get('multi'):
        best, n = None, 0
        for s in snaps:
            top = max(i['score'] for i in s.pop)
            if best is None:
                best = top
            elif top > best:
                best, n = top, 0
            else:
                n += 1
            out.append((n, n))
        return out
    lo = hi = 0
    prev = None
    for s in snaps:
        front = [i for i in s.pop if i['rank'] == 1]
        loose = sorted(content(i, KEYS) for i in front)
        strict = [content(i, ALL) for i in front]
        if prev is not None:
            if loose != prev[0]:
                lo = hi = 0
            elif strict == prev[1]:
                lo, hi = lo + 1, hi + 1
            else:            # same points, other order or bookkeeping: either reading of "changed"
                lo, hi = 0, hi + 1
        prev = (loose, strict)
        out.append((lo, hi))
    return out


def check(cfg, data, snaps, early):
    G, N = len(snaps), cfg['ngen']
    w = f'{cfg["front"]} num_generations={N} early_stop={early}'
    require(1 <= G <= N, lambda: f'{w}: {G} generations were run')
    st_ = stalls(cfg, snaps)
    for g in range(1, G - 1):
        require(st_[g][0] <= early,
                lambda: f'{w}: no improvement for {st_[g][0]} generations after generation {g}, but the run went on to '
                        f'{G} generations')
    if G < N:
        require(G >= 2 and st_[G - 1][1] > early,
                lambda: f'{w}: stopped after {G} generations although the best was last updated only '
                        f'{st_[G - 1][1]} generations before')
    require(len(data.historical_best) == G, lambda: f'{w}: {len(data.historical_best)} history entries for {G} generations')


def run(cfg):
    rec = Recorder(cfg['prob'])
    none = cfg.get('none') and cfg['front'] not in ('CollectorGA', 'Collector1')
    if none:
        from ..sut import watch_updates
        with watch_updates(rec) as snaps:
            ga = call('constructing', frontend, cfg, rec, early_stop=None)
            data = call('optimize', ga.optimize)
        require(len(snaps) == cfg['ngen'],
                lambda: f'{cfg["front"]} early_stop=None: {len(snaps)} of {cfg["ngen"]} generations were run')
        check(cfg, data, snaps, cfg['ngen'])
        early = None
    else:
        data, snaps = observe(cfg, rec)
        check(cfg, data, snaps, cfg['early'])
        early = cfg['early']
    if not cfg['prob'].get('multi'):
        want = cfg['n'] + (len(snaps) - 1) * int(cfg['cp'] * cfg['n'])
        require(len(rec.calls) == want,
                lambda: f'{cfg["front"]}: {len(rec.calls)} evaluations in {len(snaps)} generations, expected {want}')
    stop = 'full' if len(snaps) == cfg['ngen'] else 'early'
    return Info(cfg['ngen'] >= 2, [cfg['front'], stop, f'early={early}'])


def run_default(cfg):
    """early_stop left out: the documented default of 10."""
    rec = Recorder(cfg['prob'])
    from ..sut import watch_updates
    k = {}
    with watch_updates(rec) as snaps:
        import baumeva
        if cfg['front'] in ('CollectorGA', 'Collector1'):
            return Info(False)
        from ..sut import cond_list, mk_penalty, py_gens
        p = cfg['prob']
        cls = getattr(baumeva, cfg['front'])
        if cfg['front'] in ('BinaryGA', 'VEGA', 'FFGA'):
            k['is_gray'] = p['kind'] == 'gray'
        ga = call('constructing', cls, num_generations=cfg['ngen'], num_individ=cfg['n'],
                  gens=py_gens(p['kind'], p['gens']), obj_function=rec, obj_value=cfg.get('target'),
                  penalty=mk_penalty(p.get('penalty')), conditions=cond_list(p), mutation_lvl=cfg['mlvl'],
                  is_print=False, **k)
        data = call('optimize', ga.optimize)
    check(cfg, data, snaps, 10)
    return Info(True, ['early' if len(snaps) < cfg['ngen'] else 'full'])


@st.composite
def cases(draw, ngen_hi, none=False, **k):
    c = draw(front_cfg(collector=True, ngen_hi=ngen_hi, **k))
    flavour = draw(st.integers(0, 3))
    if flavour == 0:       # frozen: nothing new can appear once the population converged
        c['mlvl'] = 0.0
    elif flavour == 1:
        c['prob']['objs'] = [dict(o, f=draw(st.sampled_from(['const', 'ties', 'plateau']))) for o in c['prob']['objs']]
    c['early'] = draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4, 7, c['ngen'] - 1, c['ngen'], 1000]))
    if draw(st.integers(0, 4)) == 0:
        c['none'] = True
    return c


@st.composite
def defaults(draw):
    c = draw(front_cfg(n_hi=12, ngen_hi=30, ngen_lo=15))
    c['n'] = max(c['n'], 4 * max(1, len(c['prob']['objs'])))
    c.pop('inp', None)
    c['mlvl'] = draw(st.sampled_from([0.0, 'weak', 'normal']))
    if draw(st.booleans()):
        c['prob']['objs'] = [dict(o, f=draw(st.sampled_from(['const', 'ties', 'plateau']))) for o in c['prob']['objs']]
    return c


@st.composite
def stagnant(draw):
    """Nothing ever improves (or only what the first generations find), for far more generations than usual."""
    c = draw(front_cfg(fronts=('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'Collector1', 'VEGA'), n_hi=6, flavours=False,
                       constrained=False))
    c['ngen'] = draw(st.one_of(st.integers(40, 140), st.integers(140, 420)))
    c['early'] = draw(st.one_of(st.integers(30, 130), st.sampled_from([48, 49, 50, 51, 98, 99, 100, 101, 1000, 1000])))
    if c['ngen'] > 140:
        c['n'] = max(4, len(c['prob']['objs']) + 1)
        c['cp'] = 1.0
        c['tsize'] = 2
        c.pop('inp', None)
    if draw(st.integers(0, 2)) == 0:
        c['none'] = True
    f = draw(st.sampled_from(['const', 'const', 'ties']))
    c['prob']['objs'] = [dict(o, f=f) for o in c['prob']['objs']]
    if c['prob'].get('multi'):           # a Pareto set only stays the same when nothing new can come up
        c['mlvl'] = 0.0
        c['prob']['gens'] = [[0, 1, 1]]
        c['inp'] = [[draw(st.integers(0, 1))]] * c['n']
    return c


@st.composite
def crowd(draw):
    """Early stopping of large populations."""
    f = draw(st.sampled_from(['BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'Collector1', 'VEGA', 'FFGA']))
    c = draw(front_cfg(fronts=(f,), n_hi=8, n_lo=5, flavours=False, constrained=False))
    c['n'] = draw(st.integers(41, {'FFGA': 66, 'VEGA': 80}.get(f, 200)))
    c['cp'] = 0.95 if f != 'FFGA' else 0.5
    c.pop('inp', None)
    c['ngen'] = draw(st.integers(2, 6 if f in ('VEGA', 'FFGA') else 15))
    c['early'] = draw(st.sampled_from([0, 0, 1, 2, 3, 10] if f not in ('VEGA', 'FFGA') else [0, 0, 1, 2, 5]))
    f = draw(st.sampled_from(['const', 'const', 'ties', 'hash']))
    c['prob']['objs'] = [dict(o, f=f) for o in c['prob']['objs'][:3]]
    if c.get('target') is not None and isinstance(c['target'], list):
        c['target'] = c['target'][:3]
    return c


SUBS = [
    Sub('crowd', crowd(), run, 120),
    Sub('stagnant', stagnant(), run, 160),
    Sub('runs', cases(ngen_hi=12, n_hi=20), run, 2000),
    Sub('long', cases(ngen_hi=40, n_hi=10), run, 700),
    Sub('defaults', defaults(), run_default, 300),
]
