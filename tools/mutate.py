"""Mutation campaign: small edits of the code under test that the repository's
tests do not notice, each put to the checks.

mutate.py gen OUTDIR [N] [SEED]   write mutants (OUTDIR/mK/pyorb) that pass the tests
mutate.py run OUTDIR              run reduced checks against each; list the missed
mutate.py one DIR                 (internal) all checks, reduced, on one mutant
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['pyorb/kepler.py', 'pyorb/orbit.py', 'pyorb/unit.py', 'pyorb/const.py']
SWAP_CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
            ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
SWAP_BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
            ast.Pow: [ast.Mult]}
SWAP_NP = {'sin': 'cos', 'cos': 'sin', 'sinh': 'tanh', 'cosh': 'exp', 'tan': 'sin', 'arctan': 'arcsinh', 'logical_and': 'logical_or',
           'logical_or': 'logical_and', 'any': 'all', 'all': 'any', 'empty': 'zeros', 'zeros': 'ones',
           'radians': 'asarray', 'degrees': 'asarray', 'empty_like': 'zeros_like'}
STRIP_NP = {'abs', 'mod', 'sqrt', 'array', 'atleast_1d', 'logical_not', 'asarray', 'sign', 'cbrt'}


def sites(tree):
    """(description, function mutating a deep copy of the tree) pairs"""
    out = []
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        line = getattr(n, 'lineno', 0)

        def add(what, f, i=i, line=line):
            out.append((f'{line}: {what}', i, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in SWAP_CMP.get(type(n.ops[0]), []):
                add(f'{type(n.ops[0]).__name__}->{new.__name__}', lambda m, new=new: m.ops.__setitem__(0, new()))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and not isinstance(getattr(n, 'left', None), ast.Constant) | isinstance(getattr(getattr(n, 'left', None), 'value', None), str):
            for new in SWAP_BIN.get(type(n.op), []):
                add(f'{type(n.op).__name__}->{new.__name__}', lambda m, new=new: setattr(m, 'op', new()))
        if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
            for new in SWAP_BIN.get(type(n.op), []):
                add(f'{type(n.op).__name__}->{new.__name__}', lambda m, new=new: setattr(m, 'op', new()))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(f'{n.value}->{not n.value}', lambda m: setattr(m, 'value', not m.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            for g, d in ((lambda x: x + 1, '+1'), (lambda x: x*(1 + 1e-7), '*(1+1e-7)'), (lambda x: x/2 if isinstance(x, float) else x - 1, 'smaller')):
                if d[0] == '*' and (isinstance(n.value, int) or n.value == 0):
                    continue
                add(f'{n.value}{d}', lambda m, g=g: setattr(m, 'value', g(m.value)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add('drop minus', lambda m: setattr(m, 'op', ast.UAdd()))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add('drop not', lambda m: m.__class__ and (setattr(m, 'op', ast.Not()), setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand))))
        if isinstance(n, ast.If):
            add('if True', lambda m: setattr(m, 'test', ast.Constant(True)))
            add('if False', lambda m: setattr(m, 'test', ast.Constant(False)))
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                add(f'drop operand {k}', lambda m, k=k: setattr(m, 'values', [v for j, v in enumerate(m.values) if j != k] + [m.values[1 - k]][:1] if len(m.values) == 2 else [v for j, v in enumerate(m.values) if j != k]))
            add('and<->or', lambda m: setattr(m, 'op', ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                add(f'drop keyword {n.keywords[k].arg}', lambda m, k=k: m.keywords.pop(k))
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr in SWAP_NP and isinstance(f.value, ast.Name):
                    add(f'{f.attr}->{SWAP_NP[f.attr]}', lambda m: setattr(m.func, 'attr', SWAP_NP[m.func.attr]))
                if f.attr == 'copy' and not n.args:
                    add('drop copy', lambda m: 'self')
                if f.attr in STRIP_NP and isinstance(f.value, ast.Name) and n.args:
                    add(f'drop {f.attr}', lambda m: 'arg')
            if len(n.args) == 2:
                add('swap args', lambda m: m.args.reverse())
        if hasattr(n, 'body') and isinstance(n.body, list):
            for field in ('body', 'orelse'):
                for k, st in enumerate(getattr(n, field, []) or []):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Delete)) or \
                            isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                        out.append((f'{st.lineno}: delete {ast.unparse(st)[:60]!r}', i,
                                    lambda m, field=field, k=k: getattr(m, field).__setitem__(k, ast.Pass())))
    return out


def apply(tree, i, f):
    t = copy.deepcopy(tree)
    n = list(ast.walk(t))[i]
    r = f(n)
    if r in ('self', 'arg'):
        new = n.func.value if r == 'self' else n.args[0]

        class Sub(ast.NodeTransformer):
            def visit_Call(self, m):
                if m is n:
                    return new
                return self.generic_visit(m)
        t = Sub().visit(t)
    return ast.unparse(ast.fix_missing_locations(t))


def gen(outdir, count, seed):
    rnd = random.Random(seed)
    os.makedirs(outdir, exist_ok=True)
    todo = []
    for path in FILES:
        tree = ast.parse(open(f'/repo/{path}').read())
        SITES[path] = tree, ast.unparse(tree), sites(tree)
        kinds = os.environ.get('KINDS', '').split(',')
        todo += [(path, j) for j in range(len(SITES[path][2])) if any(k in SITES[path][2][j][0].split(': ', 1)[1] for k in kinds)]
    print(len(todo), 'mutants', flush=True)
    rnd.shuffle(todo)
    todo = todo[:count]
    import multiprocessing
    with multiprocessing.get_context('fork').Pool(8) as pool:
        ok = pool.map(judge, [(outdir, k, *t) for k, t in enumerate(todo)], chunksize=4)
    print(sum(ok), 'of', len(ok), 'pass the tests')


SITES = {}


def judge(job):
    if True:
        outdir, k, path, j = job
        tree, plain, ss = SITES[path]
        what, i, f = ss[j]
        try:
            new = apply(tree, i, f)
            compile(new, path, 'exec')
        except Exception as e:
            print('skip', what, e)
            return False
        if new == plain:
            return False
        d = f'{outdir}/m{k}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for x in ('pyorb', 'tests'):
            shutil.copytree(f'/repo/{x}', f'{d}/{x}', ignore=shutil.ignore_patterns('__pycache__'))
        for x in ('conftest.py', 'pytest.ini', 'setup.cfg', 'pyproject.toml'):
            shutil.copy(f'/repo/{x}', d)
        open(f'{d}/{path}', 'w').write(new)
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--no-cov', 'tests'], cwd=d, timeout=120,
                               capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1'))
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if ok:
            json.dump(dict(path=path, what=what), open(f'{d}/what.json', 'w'))
            shutil.rmtree(f'{d}/tests')
        else:
            shutil.rmtree(d)
        return ok


KEP = [1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 19, 23, 24, 25, 10, 16, 17, 26]
ORB = [10, 11, 12, 13, 14, 15, 16, 17, 26, 6, 8, 25, 20]
ALL = {'pyorb/kepler.py': KEP, 'pyorb/orbit.py': ORB, 'pyorb/unit.py': [20, 21], 'pyorb/const.py': [22, 20]}


def one(d):
    import importlib
    import warnings
    sys.path.insert(0, V)
    os.environ['PYORB_VERIF_REPO'] = d
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    from harness import core
    from harness.run import load_target
    load_target()
    what = json.load(open(f'{d}/what.json'))
    mods = [importlib.import_module(f'harness.props.c{k:02d}') for k in ALL[what['path']]]
    for frac in [float(x) for x in os.environ.get("FRACS", "0.01 0.1 0.3").split()]:
        for mod in mods:
            for task in core.tasks_for(mod, 'quick', 1 + int(100*frac)):
                kind, i, n, seed = task
                if kind == 'hyp' and frac < 0.05:
                    continue
                n = max(1, int(n*frac)) if kind != 'corpus' else n
                r = core.run_task(mod, (kind, i, n, seed))
                if r['found'] or r['err']:
                    print(json.dumps(dict(by=mod.ID, frac=frac, text=str(r['found'] or r['err'])[-300:])))
                    return
    print(json.dumps(dict(by=None)))


def run(outdir):
    ds = sorted((x for x in os.listdir(outdir) if os.path.exists(f'{outdir}/{x}/what.json') and not os.path.exists(f'{outdir}/{x}/res.json')), key=lambda x: int(x[1:]))

    def go(x):
        d = f'{outdir}/{x}'
        try:
            r = subprocess.run(['python3-vt', '-W', 'ignore', __file__, 'one', d], capture_output=True, text=True, timeout=1500,
                               env=dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=V))
            res = json.loads(r.stdout.strip().splitlines()[-1]) if r.stdout.strip() else dict(by='crash', text=r.stderr[-300:])
        except subprocess.TimeoutExpired:
            res = dict(by='timeout')
        json.dump(res, open(f'{d}/res.json', 'w'))
        w = json.load(open(f'{d}/what.json'))
        if res['by'] in (None, 'crash', 'timeout'):
            print('MISSED' if res['by'] is None else res['by'], x, w['path'], w['what'], flush=True)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        list(ex.map(go, ds))
    print('done', len(ds))


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 10**9, int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    elif sys.argv[1] == 'run':
        run(sys.argv[2])
    else:
        one(sys.argv[2])
