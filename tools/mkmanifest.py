"""Writes MANIFEST.json from specs.py, properties.jsonl and the reasons below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import specs
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = getattr(specs, 'NOT_APPLICABLE', {})
TECH = 'symbolic execution of the LLVM IR compiled from the current source + SMT (z3), models replayed on the native code'
NOTE = ('Bounded: holds for every input within the bounds listed in the evidence (real-number semantics of float operations, exact integers and branches); rounding of '
        'individual float operations, inputs outside the bounds and obligations the solver leaves undecided (counted in the evidence) are not covered. '
        'A violation is reported only after the solver model is reproduced by the natively compiled code.')
checks = []
for p in props:
    if p['id'] in specs.SPECS:
        s = specs.SPECS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py ' + p['id'], thorough_cmd='python3-vt check.py %s --tier=thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='model_checking', level_note=NOTE + ' ' + s.get('note', '')))
m = dict(version=1, setup_cmd='python3-vt tools/prebuild.py',
         hooks=dict(guard='--cfg pt_verif', enable='RUSTFLAGS="--cfg pt_verif" in engine/build.py (the harness crate depends on /repo by path)',
                    source_commits=specs.HOOK_COMMITS),
         checks=checks,
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'not built yet')) for p in props if p['id'] not in specs.SPECS])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in m['not_applicable']])
