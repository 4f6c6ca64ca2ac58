"""writes MANIFEST.json from the check modules that exist"""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': './symx.sh check %s --tier quick' % i,
                       'thorough_cmd': './symx.sh check %s --tier thorough' % i,
                       'technique': 'symbolic execution of the current Python/Cython source with proxy values; z3 decides every branch and assertion for all values within bounds; counterexamples and every explored path are replayed on the real code',
                       'level': 'model_checking',
                       'level_note': 'exhaustive over the stated bounds unless the evidence file says exhaustive_within_bounds=false; floats are modelled as exact reals'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': './symx.sh selftest', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
