"""mutants.py OUT.jsonl [workers]: small syntactic changes of every library file, each run against the checks (most
related first, until one reports it); what no check reports is then run against the repository's tests and listed.
Development tool; no check uses it."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f'C{i:02}' for i in range(1, 28)]
FIRST = {'populations': 'C03 C02 C01 C20 C19', 'crossovers': 'C14 C20 C21', 'mutations': 'C15 C16 C23 C20',
         'fitness': 'C08 C09 C17 C10 C23', 'penalties': 'C10 C23 C20', 'selections': 'C11 C12 C13 C21 C23 C22',
         'new_generation': 'C05 C18 C23 C22', 'ga_data': 'C06 C04 C07 C24 C17', '_ga.py': 'C21 C07 C20 C24',
         'vega': 'C21 C07 C24', 'ffga': 'C21 C07 C24'}


class M(ast.NodeTransformer):
    def __init__(self, k):
        self.k, self.n, self.what = k, -1, None

    def hit(self, node, text):
        self.n += 1
        if self.n == self.k:
            self.what = f'{getattr(node, "lineno", "?")}: {text}'
            return True
        return False

    def visit_Compare(self, node):
        self.generic_visit(node)
        alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
               ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for a in alt.get(type(node.ops[0]), []):
            if self.hit(node, f'{type(node.ops[0]).__name__}->{a.__name__} in {ast.unparse(node)}'):
                node = copy.deepcopy(node)
                node.ops[0] = a()
        if isinstance(node.ops[0], (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant):
            if self.hit(node, f'None test by truth: {ast.unparse(node)}'):
                return ast.UnaryOp(ast.Not(), node.left) if isinstance(node.ops[0], ast.Is) else node.left
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            if self.hit(node, f'{node.value} flipped'):
                return ast.Constant(not node.value)
        elif isinstance(node.value, (int, float)):
            for d in (1, -1):
                if self.hit(node, f'{node.value} -> {node.value + d}'):
                    return ast.Constant(node.value + d)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult,
               ast.BitXor: ast.BitOr, ast.RShift: ast.LShift}
        if type(node.op) in alt and not isinstance(node.left, (ast.JoinedStr,)):
            if self.hit(node, f'{type(node.op).__name__} swapped in {ast.unparse(node)}'):
                return ast.BinOp(node.left, alt[type(node.op)](), node.right)
            if self.hit(node, f'left only of {ast.unparse(node)}'):
                return node.left
            if self.hit(node, f'right only of {ast.unparse(node)}'):
                return node.right
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit(node, f'and/or swapped in {ast.unparse(node)}'):
            return ast.BoolOp(ast.And() if isinstance(node.op, ast.Or) else ast.Or(), node.values)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.hit(node, f'unary dropped in {ast.unparse(node)}'):
            return node.operand
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        name = ast.unparse(node.func)
        if name in ('deepcopy', 'list', 'abs', 'int', 'ceil', 'reversed') and len(node.args) == 1:
            if self.hit(node, f'{name}() dropped in {ast.unparse(node)}'):
                return node.args[0]
        if name in ('max', 'min') and len(node.args) == 2:
            for i in (0, 1):
                if self.hit(node, f'{ast.unparse(node)} -> argument {i}'):
                    return node.args[i]
        if node.keywords and not name.endswith('add_dict'):
            for i, k in enumerate(node.keywords):
                if k.arg and self.hit(node, f'keyword {k.arg} dropped in {name}(...)'):
                    node = copy.deepcopy(node)
                    del node.keywords[i]
                    return node
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        for i, x in enumerate((node.body, node.orelse)):
            if self.hit(node, f'always branch {i} of {ast.unparse(node)}'):
                return x
        return node

    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (
                    isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                if self.hit(s, f'deleted: {ast.unparse(s)[:90]}'):
                    out.append(ast.Pass())
                    continue
            if isinstance(s, ast.Break) and self.hit(s, 'break -> continue'):
                out.append(ast.Continue())
                continue
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.stmts(b))
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                continue
            if f in ('annotation', 'returns'):
                continue
            if isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node


def mutants(repo):
    out = []
    for f in subprocess.run(['git', '-C', repo, 'ls-files', 'baumeva'], capture_output=True, text=True).stdout.split():
        if f.endswith('__init__.py'):
            continue
        src = open(os.path.join(repo, f)).read()
        k = 0
        while True:
            m = M(k)
            t = m.visit(ast.parse(src))
            if m.what is None:
                break
            out.append((f, k, m.what, ast.unparse(ast.fix_missing_locations(t))))
            k += 1
    return out


def main():
    from seeds import tests
    outp = sys.argv[1]
    nw = int(sys.argv[2]) if len(sys.argv) > 2 else 2
    done = set()
    if os.path.exists(outp):
        done = {(r['file'], r['what']) for r in map(json.loads, open(outp))}
    ms = mutants('/repo')
    random.Random(7).shuffle(ms)
    filt = sys.argv[3] if len(sys.argv) > 3 else ''
    ms = [m for m in ms if filt in m[0] and (m[0], m[2]) not in done]
    print(len(ms), 'mutants', flush=True)
    pool = Queue()
    for _ in range(nw):
        d = tempfile.mkdtemp(prefix='vp-mut-', dir='/tmp')
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
        os.mkdir(d + '/v')
        for n in ('vlib', 'check.py', 'run.sh'):
            s = os.path.join(V, n)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, 'v', n))
        pool.put(d)

    def one(m):
        f, k, what, text = m
        d = pool.get()
        try:
            p = os.path.join(d, 'repo', f)
            orig = open(p).read()
            open(p, 'w').write(text)
            order = next((v.split() for key, v in FIRST.items() if key in f), [])
            order = order + [c for c in ('C21', 'C22', 'C20') if c not in order]
            env = dict(os.environ, VP_REPO=d + '/repo', VP_WORKERS=str(max(1, 8 // nw)), VP_SHRINK='0', VERIF_SEED='1')
            caught, errs = None, []
            for c in order:
                try:
                    r = subprocess.run(['bash', 'run.sh', c, 'quick'], cwd=d + '/v', env=env, capture_output=True, text=True,
                                       timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 1:
                    caught = c
                    break
                if rc != 0:
                    errs.append(f'{c}:{rc}')
            rec = {'file': f, 'what': what, 'caught': caught, 'errs': errs, 'first': order[0]}
            if caught is None:
                rec['tests_failed'] = tests(d + '/repo')
            open(p, 'w').write(orig)
            with open(outp, 'a') as fh:
                fh.write(json.dumps(rec) + '\n')
        finally:
            pool.put(d)
    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(one, ms))
    while not pool.empty():
        shutil.rmtree(pool.get())


if __name__ == '__main__':
    main()
