"""Concrete reading of every contract over many seeds (a false alarm of a contract shows up here first).
usage: soak.py [--seeds A B] [--budget S] [PATTERN ...]"""
import os, sys, tempfile, shutil, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
args = sys.argv[1:]
a, b, budget = 900, 903, 40.0
if '--seeds' in args:
    i = args.index('--seeds'); a, b = int(args[i + 1]), int(args[i + 2]); del args[i:i + 3]
if '--budget' in args:
    i = args.index('--budget'); budget = float(args[i + 1]); del args[i:i + 2]
tmp = tempfile.mkdtemp(prefix='pydvsoak')
pool = check.Pool(7, tmp)
jobs = []
for s in range(a, b):
    for c in check.inventory():
        if 'C' in c['modes'] and (not args or any(c['id'] == p if '.' in p else p in c['id'] for p in args)):
            jobs.append((c['id'], s, pool.submit('C', {'contracts': [c['id']], 'seed': s, 'budget': budget, 'scale': 8}, budget * 3 + 60)))
pool.wait([j for _, _, j in jobs])
for cid, s, j in jobs:
    if not j['res']:
        print(cid, s, 'NO RESULT', j['log'][-200:])
    for r in j['res']:
        if r.get('failure'):
            print(cid, s, 'FAIL', r['failure']['obligation'], 'trial', r['failure'].get('trial'))
            json.dump(r['failure'], open(f'/tmp/soak_{cid}_{s}.json', 'w'), default=str)
print('done', len(jobs), 'jobs')
shutil.rmtree(tmp, ignore_errors=True)
