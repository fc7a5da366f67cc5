"""seeds.py validate [ids]: every change in seeded/ against the rules and against its own property's check (and, with
--all, every check), in scratch copies. Development tool; no check uses it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
BASE = 'cc08d23'


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def tree(patch=None):
    d = tempfile.mkdtemp(prefix='vp-seed-', dir='/tmp')
    r = os.path.join(d, 'repo')
    sh(['git', 'clone', '-q', '/repo', r])
    if patch:
        p = sh(['git', '-C', r, 'apply', patch])
        if p.returncode:
            raise SystemExit(f'{patch}: {p.stderr}')
    return d, r


def tests(r):
    env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
    bad = []
    names = json.load(open('/opt/vp/BASELINE.json'))
    ids = ['tests/binary_advance_mode_test.py', 'tests/binary_ga_test.py', 'tests/categorical_ga_test.py',
           'tests/collector_ga_test.py', 'tests/combinator_advance_mode_test.py',
           'tests/multiple_objective/multi_binary_ga_test.py']

    def one(t):
        try:
            p = sh(['/opt/venv/bin/python', t], cwd=r, env=env, timeout=300)
            return None if p.returncode == 0 else t
        except subprocess.TimeoutExpired:
            return t
    with ThreadPoolExecutor(6) as ex:
        bad = [x for x in ex.map(one, ids) if x]
    return bad


def demo(d, r):
    tmp = tempfile.mkdtemp(prefix='vp-demo-', dir='/tmp')
    dd = os.path.join(tmp, 'x')
    shutil.copytree(d, dd)
    for f in os.listdir(dd):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            os.unlink(os.path.join(dd, f))
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    try:
        p = sh(['bash', os.path.join(dd, 'demo.sh')], cwd=r, timeout=300, env=env)
        return p.returncode, (p.stdout + p.stderr)[-300:]
    finally:
        shutil.rmtree(tmp)


def check(prop, r, seed='1'):
    # replay/evidence go to a copy of /verif so that parallel runs do not collide
    tmp = tempfile.mkdtemp(prefix='vp-v-', dir='/tmp')
    for n in ('vlib', 'check.py', 'run.sh'):
        s = os.path.join(V, n)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(tmp, n))
    p = sh(['bash', 'run.sh', prop, 'quick'], cwd=tmp, env=dict(os.environ, VP_REPO=r, VERIF_SEED=seed), timeout=900)
    shutil.rmtree(tmp)
    return p.returncode, p.stdout + p.stderr[-500:]


def main():
    args = [a for a in sys.argv[2:] if not a.startswith('--')]
    ids = sorted(args or os.listdir(S))
    full = '--no-tests' not in sys.argv
    props = [f'C{i:02}' for i in range(1, 28)]
    def one(i):
        d = os.path.join(S, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        patch = os.path.join(d, 'patch.diff')
        files = [ln[6:] for ln in open(patch).read().splitlines() if ln.startswith('+++ b/')]
        removed = [ln[1:] for ln in open(patch).read().splitlines() if ln.startswith('-') and not ln.startswith('---')]
        base = ''.join(sh(['git', '-C', '/repo', 'show', f'{BASE}:{f}']).stdout for f in files).splitlines()
        orig = all(ln in base for ln in removed) and removed
        t, r = tree(patch)
        c, rc = tree()
        try:
            out = [i, meta['property'], 'orig' if orig else 'NOT-ORIGINAL-LINES']
            a = demo(d, rc)
            b = demo(d, r)
            out.append(f'demo {a[0]}/{b[0]}' + ('' if a[0] == 0 and b[0] != 0 else ' BAD-DEMO ' + a[1] + b[1]))
            if full:
                bad = tests(r)
                out.append('tests ok' if not bad else f'TESTS FAIL {bad}')
            todo = props if '--all' in sys.argv else [meta['property']]
            caught = []
            for p in todo:
                rcode, text = check(p, r)
                if rcode == 1:
                    caught.append(p)
                elif rcode != 0:
                    caught.append(p + ':ERR')
                    if p == meta['property']:
                        out.append(text[-600:])
            out.append('caught by ' + ','.join(caught) if caught else 'MISSED')
            print(' | '.join(map(str, out)), flush=True)
        finally:
            shutil.rmtree(t)
            shutil.rmtree(c)


    with ThreadPoolExecutor(5) as ex:
        list(ex.map(one, ids))


if __name__ == '__main__':
    main()
