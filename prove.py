"""prove.py PROP [--deadline SECONDS] [--only CONTRACT] [--list]: generates the obligations of a property from the
current source in the repository and discharges them with z3; prints one JSON document."""
import sys, os
REPO = os.environ.get('JSONS_REPO', '/repo')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, REPO]
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import json, time, glob, importlib, traceback, argparse
sys.setrecursionlimit(20000)
ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('--deadline', type=float, default=300); ap.add_argument('--only'); ap.add_argument('--exact'); ap.add_argument('--list', action='store_true')
ap.add_argument('--verbose', action='store_true')
a = ap.parse_args()
t0 = time.time()
res = {'property': a.prop, 'obligations': [], 'functions': {}, 'error': None}
try:
    import pyvc.spec as spec
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', 'c_*.py'))):
        with open(f) as h:
            if "'%s'" % a.prop not in h.read(): continue
        try: importlib.import_module('contracts.' + os.path.basename(f)[:-3])
        except Exception:
            res['obligations'].append({'name': 'the contracts in %s do not apply to this source' % os.path.basename(f), 'status': 'undecided', 'ms': 0, 'detail': traceback.format_exc()[-2000:], 'contract': os.path.basename(f)})
    if a.list:
        print(json.dumps([n for n, _ in spec.CONTRACTS.get(a.prop, ())])); sys.exit(0)
    if a.exact is not None:
        spec.CONTRACTS[a.prop] = [(n, f) for n, f in spec.CONTRACTS.get(a.prop, ()) if n == a.exact]
    c = spec.run_contracts(a.prop, time.time() + a.deadline, a.verbose, a.only)
    res['obligations'] += [{'name': o.name, 'status': o.status, 'ms': o.ms, 'detail': o.detail[:6000], 'contract': o.fn} for o in c.obs]
    res['functions'] = dict(c.executed)
    res['assumed'] = sorted(map(str, c.assumed)); res['notes'] = sorted(map(str, c.notes))
    res['queries'], res['solver_s'], res['paths'] = c.queries, round(c.solver_s, 2), c.paths_n
except SystemExit: raise
except BaseException:
    res['error'] = traceback.format_exc()[-3000:]
res['wall_s'] = round(time.time() - t0, 2)
print(json.dumps(res))
