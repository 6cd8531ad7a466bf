"""python3-vt -m harness.run <ID> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import re
import sys
import time
import warnings
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp

import numpy as np

from . import core


def load_target():
    sys.path.insert(0, core.REPO)
    import pyorb
    if not os.path.realpath(pyorb.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
        raise core.HarnessError(f'pyorb imported from {pyorb.__file__}')


def known_findings(pid):
    """Lines 'finding: property=<id> sub=<sub> case=<crc> <what fails>'."""
    out = {}
    path = os.path.join(core.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) sub=(\S+) case=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out[(m.group(2), m.group(3))] = m.group(4)
    return out


_MOD = None


def _job(task):
    return core.run_task(_MOD, task)


def main():
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--verbose', action='store_true')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    load_target()
    mod = importlib.import_module('harness.props.' + args.id.lower())
    _MOD = mod
    subs = {s.name: s for s in mod.SUBS}

    if args.replay:
        entry = json.load(open(args.replay))
        v = core.fails(subs[entry['sub']], entry['case'])
        if v is None:
            print(f'replay: property {mod.ID} held on {args.replay}')
            return 0
        print(f'{v}')
        print(f'VIOLATION property={mod.ID} replay={args.replay}')
        return 1

    t0 = time.time()
    tasks = core.tasks_for(mod, args.tier, seed)
    results = [None]*len(tasks)
    ctxm = mp.get_context('fork')
    with ProcessPoolExecutor(max_workers=args.jobs, mp_context=ctxm) as ex:
        futs = {ex.submit(_job, t): k for k, t in enumerate(tasks)}
        for f in as_completed(futs):
            results[futs[f]] = f.result()

    keys = np.unique(np.concatenate([r['keys'] for r in results] or [np.zeros(0, np.int64)]))
    labels = {}
    samples = []
    per_sub = {}
    for r in results:
        for k, n in r['labels'].items():
            labels[k] = labels.get(k, 0) + n
        samples += r['samples'][:2]
        key = f'{r["sub"] or "corpus"}:{r["kind"]}'
        per_sub[key] = per_sub.get(key, 0) + r['evaluations']
        if args.verbose:
            print(f'  {r["kind"]:7} {r["sub"]} {r["evaluations"]} in {r["wall"]:.1f}s', file=sys.stderr)

    errs = [r['err'] for r in results if r['err']]
    known = known_findings(mod.ID)
    fresh, seen_known = [], []
    for r in results:
        if r['found']:
            sub, case, msg = r['found']
            if (sub, core.case_id(sub, case)) in known:
                seen_known.append(known[(sub, core.case_id(sub, case))])
            else:
                fresh.append((sub, case, msg))

    ev = dict(
        property=mod.ID, tier=args.tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=int(sum(r['evaluations'] for r in results)),
            distinct_nontrivial=int(keys.size),
            rule=mod.RULE,
            samples=samples[:12],
            labels=dict(sorted(labels.items())),
            evaluations_per_subcheck=per_sub,
            out_of_domain=int(sum(r['ood'] for r in results)),
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(fresh),
    )
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for w in sorted(set(seen_known)):
        print(f'KNOWN-FINDING: property={mod.ID} {w}')
    if fresh:
        sub, case, msg = fresh[0]
        rd = os.path.join(core.VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{mod.ID}-{core.case_id(sub, case)}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=mod.ID, sub=sub, case=case, message=msg, seed=seed), f, indent=1)
        for s, c, m in fresh[:5]:
            print(f'{mod.ID} {s}: {m}')
            print('  case: ' + json.dumps(c)[:1500])
        print(f'VIOLATION property={mod.ID} replay={path}')
        return 1
    if errs:
        print('HARNESS ERROR\n' + errs[0], file=sys.stderr)
        return 2
    print(f'{mod.ID} held: {ev["coverage"]["evaluations"]} evaluations, '
          f'{ev["coverage"]["distinct_nontrivial"]} distinct non-trivial, {ev["wall_s"]} s')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
