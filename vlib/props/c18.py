"""C18: FFGA never loses a trade-off: its front is non-dominated against everything it ever evaluated, and covers it."""
from hypothesis import strategies as st

from ..core import Info, Sub
from ..gen import front_cfg, run_cfg
from ..sut import Recorder, Run, dominates, observe, require

PROPERTY = 'C18'
RULE = ('A case is an FFGA run (front-end, CollectorGA or hand-driven with every selection) with transfer_parents="best". '
        'Oracle: after every generation, brute-force comparison of the reported Pareto set with the values of every '
        'point evaluated so far. Non-trivial: some evaluated point is dominated and at least two generations ran.')
ASSUMPTIONS = ['transfer_parents="best" (the default); a deterministic objective; dominance over all returned values']


def covers(front, vecs, what):
    """front, vecs: lists of value vectors."""
    uniq = {tuple(v) for v in vecs}
    fs = {tuple(v) for v in front}
    require(fs, f'{what}: empty Pareto set')
    require(fs <= uniq, lambda: f'{what}: the Pareto set contains values that were never evaluated: {fs - uniq}')
    nd = {v for v in uniq if not any(dominates(w, v) for w in uniq)}
    for f in fs:
        require(f in nd, lambda: f'{what}: {f} is in the Pareto set but '
                                 f'{[w for w in uniq if dominates(w, f)][:3]} were evaluated')
    lost = nd - fs
    require(not lost, lambda: f'{what}: non-dominated values {sorted(lost)[:5]} were evaluated and are not in the set')
    return len(uniq) > len(nd)


def full(cfg, rec, best):
    out = []
    for i in best['pareto_set']:
        out.append(list(rec.compute(i['phenotype'])))
    return out


def run_front(cfg):
    rec = Recorder(cfg['prob'])
    data, snaps = observe(cfg, rec)
    nt = False
    for g, s in enumerate(snaps):
        nt |= covers(full(cfg, rec, s.best), rec.values[:s.calls], f'{cfg["front"]} generation {g}')
    covers(full(cfg, rec, data.best_solution), rec.values, f'{cfg["front"]} returned')
    return Info(nt and len(snaps) >= 2, [cfg['front'], 'constrained' if cfg['prob'].get('conds') else 'free'])


def run_steps(cfg):
    r = Run(cfg)
    r.start()
    nt = covers(full(cfg, r.rec, r.data.best_solution), r.rec.values, 'generation 0')
    for g in range(1, cfg['ngen']):
        r.step()
        nt |= covers(full(cfg, r.rec, r.data.best_solution), r.rec.values, f'generation {g}')
    return Info(nt and cfg['ngen'] >= 2, [cfg['sel'], cfg['cross']])


def best(c):
    return dict(c, transfer='best')


B = ('binary', 'gray')


@st.composite
def coll(draw):
    c = draw(run_cfg(kinds=B, multi='ffga', ngen_hi=8, ngen_lo=2))
    c['front'] = 'CollectorGA'
    return c


@st.composite
def longer(draw):
    """Many generations on small spaces, few individuals."""
    c = draw(front_cfg(fronts=('FFGA',), max_genes=2, max_bits=4))
    c['n'] = min(c['n'], 8)
    c['cp'] = 0.95
    c['tsize'] = 2
    c.pop('inp', None)
    c['ngen'] = draw(st.integers(10, 20))
    c['early'] = 1000
    return c


@st.composite
def crowd(draw):
    """Fronts of far more than a hundred members."""
    c = draw(front_cfg(fronts=('FFGA',), flavours=False, constrained=False, max_genes=3, max_bits=10))
    c['prob']['objs'] = [{'f': 'up'}, {'f': 'down'}] + draw(st.sampled_from([[], [{'f': 'hash', 'salt': 1}]]))
    c.pop('inp', None)
    c.update(n=draw(st.integers(20, 45)), cp=draw(st.sampled_from([0.95, 1.0])), ngen=draw(st.integers(3, 6)), early=1000)
    return c


SUBS = [
    Sub('crowd', crowd().map(best), run_front, 32, 200),
    Sub('frontend', front_cfg(fronts=('FFGA',), ngen_hi=8, ngen_lo=2).map(best), run_front, 800),
    Sub('collector', coll().map(best), run_front, 500),
    Sub('stepwise', run_cfg(kinds=B, multi='ffga', ngen_hi=8, ngen_lo=2).map(best), run_steps, 700),
    Sub('longer', longer().map(best), run_front, 120),
]
