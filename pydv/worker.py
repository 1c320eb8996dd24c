"""Run contracts in one reading.  usage: worker.py MODE JOBFILE OUTFILE"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get('PYDV_REPO', '/repo')
MODULES = [f[:-3] for f in sorted(os.listdir(os.path.join(ROOT, 'contracts'))) if f.endswith('.py') and f not in ('__init__.py', 'common.py')]


def load(mode):
    sys.path.insert(0, REPO)
    if mode in 'UB':
        from pydv import instrument
        import sysconfig
        sp = None
        for p in sys.path:
            if os.path.isdir(os.path.join(p, 'sigpropy')):
                sp = os.path.join(p, 'sigpropy')
                break
        instrument.install({'swprocess': os.path.join(REPO, 'swprocess'), 'sigpropy': sp})
    from pydv import harness
    for m in MODULES:
        importlib.import_module('contracts.' + m)
    return harness


def mined(functions):
    """Numeric literals of the functions under contract (and their modules)."""
    import ast
    out = set()
    mods = set()
    for f in functions:
        parts = f.split('.')
        if parts[0] == 'swprocess' and len(parts) > 1:
            mods.add(parts[1])
    for m in mods:
        p = os.path.join(REPO, 'swprocess', m + '.py')
        try:
            tree = ast.parse(open(p).read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                if abs(n.value) < 1e6:
                    out.add(n.value)
    return sorted(out)


def main():
    import resource
    import tempfile
    import time
    mode, jobfile, outfile = sys.argv[1:4]
    job = json.load(open(jobfile))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    h = load(mode)
    res = []
    by = {c.id: c for c in h.CONTRACTS}
    scratch = tempfile.mkdtemp(prefix='pydv')
    os.chdir(scratch)

    def emit():
        tmp = outfile + '.tmp'
        json.dump(res, open(tmp, 'w'), default=str)
        os.replace(tmp, outfile)
    try:
        for cid in job['contracts']:
            con = by.get(cid)
            if con is None:
                res.append({'contract': cid, 'status': 'missing'})
                continue
            if mode in 'UB':
                res.append(h.run_symbolic(con, mode, budget=job['budget']))
            else:
                given = job.get('given', {}).get(cid)
                trials = int(con.trials * job.get('scale', 1))
                r = h.run_concrete(con, trials, job['seed'], given=given,
                                   pool=mined(con.functions), deadline=time.time() + job['budget'])
                res.append(r)
            emit()
        emit()
    finally:
        os.chdir('/')
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
