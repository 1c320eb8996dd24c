#!/opt/venv/bin/python
"""Decide one property:  check.py C01 [--tier quick|thorough] [--replay FILE]

exit 0  the property held on everything established
exit 1  with a line  VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import argparse
import ast
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0')
    return e


def inventory():
    """(contract id, property, modes, functions) read from the contract files."""
    out = []
    d = os.path.join(ROOT, 'contracts')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py') or f in ('common.py', '__init__.py'):
            continue
        tree = ast.parse(open(os.path.join(d, f)).read())
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                for dec in n.decorator_list:
                    if isinstance(dec, ast.Call) and getattr(dec.func, 'id', '') == 'contract':
                        kw = {k.arg: k.value for k in dec.keywords}
                        modes = ast.literal_eval(kw['modes']) if 'modes' in kw else 'UBC'
                        out.append({'id': f'{ast.literal_eval(dec.args[0])}.{n.name}', 'property': ast.literal_eval(dec.args[0]),
                                    'modes': modes, 'file': f,
                                    'weight': ast.literal_eval(kw['weight']) if 'weight' in kw else 1})
    return out


class Pool:
    def __init__(self, n, tmp):
        self.n, self.tmp, self.running, self.k = n, tmp, [], 0

    def submit(self, mode, job, timeout):
        while len([r for r in self.running if r['p'].poll() is None]) >= self.n:
            self.reap()
            time.sleep(0.05)
        self.k += 1
        jf, of = os.path.join(self.tmp, f'job{self.k}.json'), os.path.join(self.tmp, f'out{self.k}.json')
        json.dump(job, open(jf, 'w'))
        err = open(os.path.join(self.tmp, f'err{self.k}'), 'w')
        p = subprocess.Popen([PY, os.path.join(ROOT, 'pydv', 'worker.py'), mode, jf, of], env=env(), stdout=err, stderr=err,
                             cwd=self.tmp, start_new_session=True)
        r = {'p': p, 'out': of, 'job': job, 'mode': mode, 'end': time.time() + timeout, 'err': err.name}
        self.running.append(r)
        return r

    def reap(self):
        for r in self.running:
            if r['p'].poll() is None and time.time() > r['end']:
                kill(r['p'])

    def wait(self, rs):
        while any(r['p'].poll() is None for r in rs):
            self.reap()
            time.sleep(0.05)
        for r in rs:
            r['res'] = json.load(open(r['out'])) if os.path.exists(r['out']) else []
            r['log'] = open(r['err']).read()[-3000:]


def kill(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='pydvcheck')
    try:
        if a.replay:
            return replay(a, tmp)
        return run(a.property, tier, seed, t0, tmp)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def replay(a, tmp):
    d = json.load(open(a.replay))
    if 'inputs' not in d:
        print('the replay file holds no input, only the failed obligation:')
        print(json.dumps(d, indent=1)[:4000])
        return 0
    pool = Pool(1, tmp)
    r = pool.submit('C', {'contracts': [d['contract']], 'given': {d['contract']: [d['inputs']]}, 'seed': d.get('seed', 1), 'budget': 300}, 400)
    pool.wait([r])
    f = r['res'] and r['res'][0].get('failure')
    print(json.dumps(r['res'], indent=1)[:4000])
    if f:
        print(f'VIOLATION property={a.property} replay={a.replay}')
        return 1
    return 0


def run(prop, tier, seed, t0, tmp):
    ledger = json.load(open(os.path.join(ROOT, 'ledger.json'))) if os.path.exists(os.path.join(ROOT, 'ledger.json')) else {}
    cons = [c for c in inventory() if c['property'] == prop]
    if not cons:
        print(f'no contracts for {prop}')
        return 2
    led = ledger.get(prop, {})

    def ubudget(c):
        known = led.get(c['id'], {})
        if tier != 'quick':
            return 400
        if not known.get('proved'):
            return 0                      # nothing was ever discharged here within reach: left to the thorough tier
        return min(300, 30 + 2 * known.get('seconds', 60))
    pool = Pool(7, tmp)
    # concrete search, split over processes
    cjobs = []
    ids = [c['id'] for c in cons if 'C' in c['modes']]
    nproc = 3 if tier == 'quick' else 6
    for w in range(nproc):
        if ids:
            cjobs.append(pool.submit('C', {'contracts': ids, 'seed': seed * 100 + w, 'budget': (60 if tier == 'quick' else 200) / max(1, len(ids)) + 5,
                                           'scale': 1 if tier == 'quick' else 8}, 300 if tier == 'quick' else 600))
    ujobs = []
    for c in sorted(cons, key=lambda c: -c['weight']):
        b = ubudget(c) if 'U' in c['modes'] else 0
        if b:
            ujobs.append(pool.submit('U', {'contracts': [c['id']], 'budget': b}, b * 1.3 + 40))
    pool.wait(cjobs)
    if any(x.get('failure') for r in cjobs for x in r['res']):
        for r in ujobs:                   # a failing input is already in hand
            kill(r['p'])
    pool.wait(ujobs)
    rep = {}
    for r in ujobs:
        cid = r['job']['contracts'][0]
        rep[cid] = r['res'][0] if r['res'] else {'contract': cid, 'status': 'crashed', 'reason': r['log'][-500:], 'obligations': {}, 'paths': 0}
    failures = [x['failure'] for r in cjobs for x in r['res'] if x.get('failure')]
    conc = {}
    for r in cjobs:
        for x in r['res']:
            d = conc.setdefault(x['contract'], {'trials': 0, 'nontrivial': 0, 'checks': 0, 'digests': set(), 'samples': []})
            for k in ('trials', 'nontrivial', 'checks'):
                d[k] += x.get(k, 0)
            d['digests'].update(x.get('digests', []))
            d['samples'] = (d['samples'] + x.get('samples', []))[:1]
        if len(r['res']) < len(r['job']['contracts']):
            if r['log'].strip():
                sys.stderr.write('concrete worker: ' + r['log'][-1500:] + '\n')
    # counter-models replayed on the real code
    given = {}
    for cid, u in rep.items():
        ms = [m['inputs'] for m in u.get('models', []) if m.get('inputs')]
        if ms:
            given[cid] = ms
    if given and not failures:
        r = pool.submit('C', {'contracts': list(given), 'given': given, 'seed': seed, 'budget': 60}, 200)
        pool.wait([r])
        failures += [x['failure'] for x in r['res'] if x.get('failure')]
    # bounded stand-ins
    bjobs = []
    for c in cons:
        u = rep.get(c['id'])
        done = u is not None and u.get('status') == 'ok' and u['obligations'] and all(o['status'] == 'proved' for o in u['obligations'].values())
        if not done and 'B' in c['modes'] and not failures:
            bjobs.append(pool.submit('B', {'contracts': [c['id']], 'budget': 40 if tier == 'quick' else 200}, 80 if tier == 'quick' else 300))
    pool.wait(bjobs)
    brep = {}
    given = {}
    for r in bjobs:
        for x in r['res']:
            brep[x['contract']] = x
            ms = [m['inputs'] for m in x.get('models', []) if m.get('inputs')]
            if ms:
                given[x['contract']] = ms
    if given and not failures:
        r = pool.submit('C', {'contracts': list(given), 'given': given, 'seed': seed, 'budget': 60}, 200)
        pool.wait([r])
        failures += [x['failure'] for x in r['res'] if x.get('failure')]
    # verdict
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    viol = []
    if failures:
        f = failures[0]
        path = os.path.join(ROOT, 'replays', f'{prop}.json')
        json.dump(f, open(path, 'w'), indent=1, default=str)
        viol.append((path, ''))
        print(f'{f["contract"]}: {f["obligation"]}')
    else:
        for cid, u in rep.items():
            for name, o in u.get('obligations', {}).items():
                if o['status'] == 'sat' and name in led.get(cid, {}).get('proved', []):
                    path = os.path.join(ROOT, 'replays', f'{prop}.json')
                    json.dump({'contract': cid, 'obligation': name, 'verifier': o,
                               'models': [m for m in u['models'] if m['obligation'] == name]}, open(path, 'w'), indent=1, default=str)
                    print(f'obligation {cid}: {name} is not discharged (counter-model found)')
                    viol.append((path, ' no-failing-input-found'))
                    break
            if viol:
                break
    evidence(prop, tier, seed, t0, cons, rep, brep, conc, failures, viol)
    kf = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(kf):
        for e in json.load(open(kf)).get('findings', []):
            if e['property'] == prop:
                print(f'KNOWN-FINDING: property={prop} {e["what"]}')
    if viol:
        print(f'VIOLATION property={prop} replay={viol[0][0]}{viol[0][1]}')
        return 1
    if not any(d['checks'] for d in conc.values()) and not any(u.get('obligations') for u in rep.values()):
        sys.stderr.write('nothing was checked\n')
        return 2
    return 0


def evidence(prop, tier, seed, t0, cons, rep, brep, conc, failures, viol):
    nob = ndis = 0
    per = []
    backends, solver = {}, {}
    assumed = {}
    funcs = {}
    allproved = True
    for c in cons:
        u = rep.get(c['id'])
        e = {'contract': c['id'], 'file': 'contracts/' + c['file']}
        if u is None:
            e['deductive'] = 'not attempted (' + ('in the thorough tier only)' if 'U' in c['modes'] else 'outside the reach of the verifier: concrete evaluation only)')
            allproved = False
        else:
            e['deductive'] = {'status': u.get('status'), 'reason': u.get('reason'), 'paths': u.get('paths'),
                              'obligations': {k: {'status': o['status'], 'instances': o['instances'], 'backends': o['backends'],
                                                  'seconds': round(o['seconds'], 3)} for k, o in u.get('obligations', {}).items()}}
            for fn in u.get('functions', []):
                funcs[fn] = 1
            complete = u.get('status') == 'ok'
            for k, o in u.get('obligations', {}).items():
                nob += 1
                if o['status'] == 'proved' and complete:
                    ndis += 1
                else:
                    allproved = False
                for b, m in o['backends'].items():
                    backends[b] = backends.get(b, 0) + m
            if not complete or not u.get('obligations'):
                allproved = False
                nob += 0 if u.get('obligations') else 1
            for b, s in u.get('solver', {}).items():
                solver[b] = round(solver.get(b, 0) + s, 3)
            for k, m in u.get('assumptions', {}).items():
                assumed[k] = assumed.get(k, 0) + m
        if c['id'] in brep:
            b = brep[c['id']]
            e['bounded'] = {'status': b.get('status'), 'reason': b.get('reason'), 'paths': b.get('paths'),
                            'bound': 'array sizes from the contract\'s small sizes, arbitrary contents',
                            'obligations': {k: o['status'] for k, o in b.get('obligations', {}).items()}}
        if c['id'] in conc:
            e['concrete'] = {'inputs_tried': conc[c['id']]['trials'], 'checks_evaluated': conc[c['id']]['checks'],
                             'distinct_nontrivial': len(conc[c['id']]['digests'])}
        per.append(e)

    def complete(p):
        d = p['deductive']
        return isinstance(d, dict) and d['status'] == 'ok' and d['obligations'] and all(o['status'] == 'proved' for o in d['obligations'].values())
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    level = next((k['level'] for k in man['checks'] if k['property'] == prop), 'proof')
    trusted = ['pydv: instrumentation, models of Python/numpy operations, loop summaries, VC generation (this framework)',
               'z3 and cvc5', 'CPython executing the instrumented source']
    asm = ['floating point arithmetic treated as real arithmetic (rounding, overflow and signed zeros ignored)',
           'numpy/scipy operations follow their models in pydv/npproxy.py and pydv/nd.py'] + \
          [f'assumed contract on dependency: {k}' for k in sorted(assumed)]
    cov = {'obligations': nob, 'discharged': ndis, 'checker_cmd': f'{PY} {ROOT}/check.py {prop} --tier {tier}',
           'trusted_base': trusted, 'functions_under_contract': sorted(funcs), 'backends': backends, 'solver_seconds': solver,
           'contracts': per,
           'evaluations': sum(d['trials'] for d in conc.values()), 'distinct_nontrivial': sum(len(d['digests']) for d in conc.values()),
           'rule': 'inputs drawn at random, at boundaries and from numeric literals of the source, run through the untouched real code; non-trivial: at least one check of the contract was reached; distinct by the recorded inputs',
           'samples': [{'contract': k, 'inputs': s} for k, d in conc.items() for s in d['samples']],
           'explanation': (f'{sum(1 for p in per if complete(p))} of {len(per)} contracts were discharged deductively on this run for inputs of '
                           'every size (see contracts[].deductive); the remaining ones are bounded: arbitrary contents at small sizes where '
                           'contracts[].bounded says so, and otherwise concrete inputs only; none of those is counted as proved'),
           'bounded_standins': sorted(brep)}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': asm,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
