"""Rewrite the generated tables at the end of DESIGN.md (from ledger.json, the inventory and seeded/)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
MARK = '<!-- tables below are written by tools/gen_design.py -->\n'
p = os.path.join(ROOT, 'DESIGN.md')
head = open(p).read().split(MARK)[0]
led = json.load(open(os.path.join(ROOT, 'ledger.json')))
out = ['\n## Contracts\n', '| contract | reading that decides it | obligations proved (open) | seconds | note |', '|---|---|---|---|---|']
for c in sorted(check.inventory(), key=lambda c: (c['property'], c['id'])):
    e = led.get(c['property'], {}).get(c['id'])
    if 'U' not in c['modes'] or e is None:
        out.append(f"| {c['id']} | {'bounded: small sizes + concrete' if 'B' in c['modes'] else 'bounded: concrete inputs'} | – | – | |")
    elif e['complete']:
        out.append(f"| {c['id']} | **discharged** | {len(e['proved'])} (0) | {e['seconds']} | |")
    else:
        why = ('open: ' + '; '.join(e['open'])) if e['status'] == 'ok' else f"{e['status']}: {e['reason']}"
        out.append(f"| {c['id']} | {'partly discharged, rest ' if e['proved'] else ''}bounded | {len(e['proved'])} ({len(e['open'])}) | {e['seconds']} | {why[:160].replace('|', '/')} |")
res = {}
rp = os.path.join(ROOT, 'tools', 'seeded_results.json')
if os.path.exists(rp):
    res = json.load(open(rp))
out += ['\n## Seeded changes and the checks that catch them\n', '| id | property | what it breaks | caught by |', '|---|---|---|---|']
sd = os.path.join(ROOT, 'seeded')
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {res.get(i, 'not yet run')} |")
open(p, 'w').write(head + MARK + '\n'.join(out) + '\n')
