"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Holds for every generated case; cases are random, so a defect confined to a region the generators '
        'hit with small probability can be missed. Trusts numpy, the extended-precision reference in harness/ref.py '
        'and the tolerances derived in harness/tol.py.')
TECH = {
 'C01': 'property-based testing: generated elements against an extended-precision reference model (rotations of the perifocal state)',
 'C02': 'property-based testing: generated states against a vector-geometry reference and canonical-form invariants',
 'C03': 'property-based testing: round trip with folding oracle',
 'C04': 'property-based testing: reference definitions, round trips and compositions',
 'C05': 'property-based testing: residual and iteration-bound invariants over generated solver inputs, long-double root as reference',
 'C06': 'property-based testing: definition reference, round trips, and orbit write-back',
 'C07': 'metamorphic property-based testing: batch against members, permutations, layouts, broadcasting, integer storage',
 'C08': 'metamorphic property-based testing: degree run against radian run, for functions and operation histories',
 'C09': 'property-based testing: argument snapshots, repeatability, read-only arrays, shared-memory checks, malformed inputs',
 'C10': 'stateful property-based testing: generated operation histories, invariant after every step',
 'C11': 'stateful differential property-based testing: deferred orbit against an immediate twin',
 'C12': 'stateful model-based property-based testing: two-array model',
 'C13': 'stateful model-based property-based testing: list-of-single-orbits model with live aliases',
 'C14': 'stateful property-based testing: histories with injected rejected writes against the same history without',
 'C15': 'stateful metamorphic property-based testing: histories with injected representation switches',
 'C16': 'property-based testing: two-body reference propagation, additivity, reversal, conservation',
 'C17': 'property-based testing: derived quantities and setters against reference formulas',
 'C18': 'property-based testing: orthogonality, sense, composition, reference products',
 'C19': 'property-based testing: defining series in multi-precision arithmetic, recurrences',
 'C20': 'metamorphic property-based testing: the same physical orbit in generated unit systems',
 'C21': 'property-based testing: generated signatures and calls against a reference wrapper',
 'C22': 'stateful property-based testing: assignment/deletion histories and a table of identities',
 'C23': 'property-based testing: near-miss pairs, symmetry, reflexivity, state oracle',
 'C24': 'property-based testing: mutual consistency of closed forms and reference geometry',
 'C25': 'metamorphic property-based testing: rotation, reflection, scaling, time reversal',
 'C27': 'metamorphic property-based testing: the same generated values given by generated routes, against plain assignment',
 'C28': 'metamorphic property-based testing: generated call forms against the positional call with every argument written out',
 'C26': 'stateful property-based testing: differential histories in which the caller overwrites every array given or received; precision invariants; single-precision results against the reference',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} --tier quick',
                           thorough_cmd=f'./check.sh {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=TECH[i],
                           level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='the check for this property is not built yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='Pure Python target: checks import pyorb from /repo (fresh bytecode cache per run); nothing is built.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
