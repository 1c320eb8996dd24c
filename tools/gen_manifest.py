"""Write MANIFEST.json from the contract inventory and tools/notes.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
ledger = json.load(open(os.path.join(ROOT, 'ledger.json')))
notes = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
inv = check.inventory()
TECH = {'proof': 'contract-based deductive verification: contracts on the real Python functions, verification conditions generated from their current source, discharged by z3/cvc5; the same contracts run on concrete inputs supply replays',
        'other': 'contract-based deductive verification of the obligations within reach (z3/cvc5 on conditions generated from the current source); the remaining contracts of the property are bounded stand-ins (small sizes or concrete inputs), labelled so',
        'exploration': 'bounded stand-in: the contracts of the property evaluated on the real code over generated inputs; the functions are outside the verifier\'s reach'}
checks, na = [], []
for p in props:
    i = p['id']
    cons = [c for c in inv if c['property'] == i]
    n = notes.get(i, {})
    if not cons or n.get('not_applicable'):
        na.append({'property': i, 'reason': n.get('not_applicable', 'no contract for this property is in place yet')})
        continue
    led = ledger.get(i, {})
    done = [c['id'] for c in cons if led.get(c['id'], {}).get('complete')]
    rest = [c['id'] for c in cons if c['id'] not in done]
    part = [r for r in rest if led.get(r, {}).get('proved')]
    level = n.get('level', 'proof' if not rest else 'other' if done or part else 'exploration')
    auto = ''
    if done:
        auto += 'discharged for inputs of any size, real arithmetic: ' + ', '.join(d.split('.')[1] for d in done) + '. '
    if part:
        auto += 'discharged in part: ' + ', '.join('%s (%d of %d)' % (r.split('.')[1], len(led[r]['proved']), len(led[r]['proved']) + len(led[r]['open'])) for r in part) + '. '
    if [r for r in rest if r not in part]:
        auto += 'bounded, not proved: ' + ', '.join(r.split('.')[1] for r in rest if r not in part) + '. '
    checks.append({'property': i, 'quick_cmd': f'/opt/venv/bin/python /verif/check.py {i} --tier quick',
                   'thorough_cmd': f'/opt/venv/bin/python /verif/check.py {i} --tier thorough',
                   'technique': n.get('technique', TECH[level]),
                   'level': level,
                   'level_note': (auto + n.get('note', '')).strip()})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python /verif/tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Contract-based deductive verification of the Python source of /repo; see DESIGN.md.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
