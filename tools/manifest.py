"""Writes MANIFEST.json and checks it."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import suites
NOTE = ('TLC decides every clause of the property on the TLA+ specification (spec/) for every event of executions of the real code '
        '(generated scenarios, replayed model behaviours); exhaustive only within the constants of the MC models, '
        'otherwise as far as the scenarios reach. Trusted: TLC, the encoding in harness/ (fixed point, three digits).')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    if p['id'] in suites.PROPS:
        checks.append(dict(property=p['id'], quick_cmd=f"./check.py {p['id']} --tier quick", thorough_cmd=f"./check.py {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique=suites.PROPS[p['id']].get('technique', 'TLA+ specification; TLC trace validation of recorded executions'),
                           level='model_checking', level_note=NOTE))
NA = {}
na = [dict(property=k, reason=v) for k, v in NA.items()]
assert {c['property'] for c in checks} | set(NA) == {p['id'] for p in props}
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: everything is observed through the public interface.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
