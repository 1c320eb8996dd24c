"""Run the deductive reading of contracts and write ledger.json (obligations proved on the current tree).
usage: baseline.py [--budget S] [--only PATTERN ...] : updates the ledger entries of the contracts run."""
import json, os, sys, tempfile, time, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
args = sys.argv[1:]
budget = 500
if '--budget' in args:
    i = args.index('--budget'); budget = float(args[i + 1]); del args[i:i + 2]
pats = [a for a in args if a != '--only']
tmp = tempfile.mkdtemp(prefix='pydvbase')
pool = check.Pool(7, tmp)
jobs = []
for c in sorted(check.inventory(), key=lambda c: -c['weight']):
    if 'U' in c['modes'] and (not pats or any(p == c['id'] if '.' in p else p in c['id'] for p in pats)):
        jobs.append((c, pool.submit('U', {'contracts': [c['id']], 'budget': budget}, budget * 1.5 + 60)))
pool.wait([j for _, j in jobs])
path = os.path.join(ROOT, 'ledger.json')
led = json.load(open(path)) if os.path.exists(path) else {}
for c, j in jobs:
    u = j['res'][0] if j['res'] else None
    e = led.setdefault(c['property'], {})
    if u is None:
        print(c['id'], 'CRASHED', j['log'][-300:].replace('\n', ' | '))
        e.pop(c['id'], None)
        continue
    proved = [k for k, o in u['obligations'].items() if o['status'] == 'proved']
    rest = [k for k, o in u['obligations'].items() if o['status'] != 'proved']
    complete = u['status'] == 'ok' and bool(proved) and not rest
    e[c['id']] = {'complete': complete, 'seconds': round(u.get('wall', 0), 1), 'proved': proved if u['status'] == 'ok' else [],
                  'open': rest, 'status': u['status'], 'reason': (u.get('reason') or '')[:200]}
    print(c['id'], 'COMPLETE' if complete else 'partial', e[c['id']]['seconds'], u['status'], (u.get('reason') or '')[:150], 'proved', len(proved), 'open', [r[:60] for r in rest][:4], u.get('where', [])[-1:], flush=True)
json.dump(led, open(path, 'w'), indent=1, sort_keys=True)
shutil.rmtree(tmp, ignore_errors=True)
