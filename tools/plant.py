"""Build and judge planted bugs.  plant.py FILE.py [ID...]: FILE.py defines BUGS,
a list of dict(id, prop, edits=[(path, old, new)...], demo, needs, breaks).
For each: applies it to a scratch copy of /repo, runs the repository's stable
tests and the demonstration with and without it, writes seeded/<id>/ when it
qualifies, and runs the property's quick check against it."""
import importlib.util
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'bc5dd56'
spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
only = sys.argv[2:]
JOBS = 4
DEMO = '''#!/bin/bash
# run with cwd at the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python
exec "$py" -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **env))


def original_lines(path):
    return set(x.strip() for x in sh(f'git show {BASE}:{path}', '/repo').stdout.splitlines())


def main():
    from concurrent.futures import ThreadPoolExecutor
    todo = [b for b in mod.BUGS if not only or b['id'] in only]
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, todo))


def one(b):
    W = f'/tmp/plant-{os.getpid()}-{b["id"]}'
    try:
        judge(b, W)
    finally:
        sh(f'rm -rf {W}', '/')


def judge(b, W):
    if True:
        sh(f'rm -rf {W}; cp -a /repo {W}', '/')
        ok = True
        for path, old, new in b['edits']:
            s = open(f'{W}/{path}').read()
            if s.count(old) != 1:
                print(b['id'], 'OLD TEXT OCCURS', s.count(old), 'TIMES')
                ok = False
                break
            open(f'{W}/{path}', 'w').write(s.replace(old, new))
        if not ok:
            return
        diff = sh('git diff', W).stdout
        gone = [x[1:].strip() for x in diff.splitlines() if x.startswith('-') and not x.startswith('---')]
        orig = set().union(*[original_lines(p) for p, _, _ in b['edits']])
        foreign = [x for x in gone if x and x not in orig]
        d = f'{V}/seeded/{b["id"]}'
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.sh', 'w').write(DEMO)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.py', 'w').write(b['demo'].strip() + '\n')
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
        t = sh('PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3', W)
        passed = ' passed' in t.stdout and 'failed' not in t.stdout and 'error' not in t.stdout
        a = sh(f'bash {d}/demo.sh', '/repo').returncode
        c = sh(f'bash {d}/demo.sh', W).returncode
        good = passed and a == 0 and c != 0 and gone and not foreign
        caught = {}
        for p in [b['prop']] + list(b.get('also', [])):
            o = sh(f'./check.sh {p} --tier quick', V, PYORB_VERIF_REPO=W, VERIF_SEED='1')
            caught[p] = f'VIOLATION property={p}' in o.stdout or f'exit {o.returncode}: ' + (o.stdout + o.stderr)[-200:] * (o.returncode != 0)
        if not good:
            sh(f'rm -rf {d}', '/')
            print(b['id'], 'DOES NOT QUALIFY: tests', passed, t.stdout[-200:] if not passed else '', 'demo', a, c, 'foreign', foreign)
        print(f'{b["id"]:28} {b["prop"]} qualifies={bool(good)} caught={caught}', flush=True)


main()
