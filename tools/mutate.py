"""Mutation run: python3 tools/mutate.py FILE CHECK[,CHECK..] [first [count [step]]]
Applies syntactic mutants of one source file of the repository in a scratch copy and reports which checks
answer with a violation (1), are quiet (0) or undecided (2).  Development aid; no check uses it."""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    for k, n in enumerate(nodes):
        def at(fn):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[k]
            fn(m, t)
            return ast.unparse(t)
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for r in CMP.get(type(o), []):
                    yield ln, 'cmp %s' % r.__name__, at(lambda m, t, i=i, r=r: m.ops.__setitem__(i, r()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for r in BIN.get(type(n.op), []):
                yield ln, 'op %s' % r.__name__, at(lambda m, t, r=r: setattr(m, 'op', r()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield ln, 'drop minus', at(lambda m, t: setattr(m, 'op', ast.UAdd()))
        elif isinstance(n, ast.BoolOp):
            yield ln, 'and/or', at(lambda m, t: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            yield ln, 'const %r+1' % n.value, at(lambda m, t: setattr(m, 'value', m.value + 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield ln, 'bool', at(lambda m, t: setattr(m, 'value', not m.value))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield ln, 'negate', at(lambda m, t: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
        elif isinstance(n, ast.Call) and len(n.args) == 2:
            yield ln, 'swap args', at(lambda m, t: setattr(m, 'args', m.args[::-1]))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Break, ast.Continue)) and \
                not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            def drop(m, t):
                for p in ast.walk(t):
                    for f in ('body', 'orelse'):
                        b = getattr(p, f, None)
                        if isinstance(b, list) and m in b:
                            b[b.index(m)] = ast.Pass()
            yield ln, 'drop ' + ast.unparse(n)[:40].replace('\n', ' '), at(drop)


def main():
    f, checks = sys.argv[1], sys.argv[2].split(',')
    first = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    count = int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 6
    step = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    src = open(os.path.join(REPO, f)).read()
    d = tempfile.mkdtemp(prefix='mut')
    r = os.path.join(d, 'repo')
    shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git', '*.pyc'))
    try:
        for i, (ln, what, new) in enumerate(mutants(src)):
            if i < first or i >= first + count or (i - first) % step:
                continue
            with open(os.path.join(r, f), 'w') as o:
                o.write(new)
            env = dict(os.environ, VERIF_REPO=r)
            res = []
            for c in checks:
                try:
                    p = subprocess.run([sys.executable, os.path.join(VERIF, 'bin/check.py'), c], env=env, capture_output=True, text=True, timeout=600)
                    msg = [x for x in p.stdout.splitlines() if x.startswith('UNDECIDED')]
                    res.append('%s=%d%s' % (c, p.returncode, (' [' + msg[0][:160] + ']') if p.returncode == 2 and msg else ''))
                except subprocess.TimeoutExpired:
                    res.append('%s=T' % c)
                if p.returncode == 1 and '-a' not in sys.argv:
                    break
            print(i, ln, what, '|', ' '.join(res), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
