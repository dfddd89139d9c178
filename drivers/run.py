#!/opt/venv/bin/python
"""run.py PROP [--seed S] [--budget SECONDS] [--shard K/N] [--only NAME [--index I]] [--upto I]
Runs the runtime-contract drivers of a property on the real library in /repo.  Prints JSON; exit 1 on a failure."""
import sys, os
sys.path[:0] = [os.environ.get('JSONS_REPO', '/repo'), os.path.dirname(os.path.abspath(__file__))]
sys.dont_write_bytecode = True
import argparse, json, time, hashlib, tempfile, shutil, atexit
ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('--seed', default='1'); ap.add_argument('--budget', type=float, default=20)
ap.add_argument('--shard', default='0/1'); ap.add_argument('--only'); ap.add_argument('--index', type=int); ap.add_argument('--upto', type=int)
ap.add_argument('--maxcases', type=int, default=10**9)
a = ap.parse_args()
scratch = tempfile.mkdtemp(prefix='jsonsdrv'); os.chdir(scratch)
pid = os.getpid()
atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
import lib
t0 = time.time()
checks = lib.load_props(a.prop)
if a.only: checks = [c for c in checks if c.name == a.only]
k, n = map(int, a.shard.split('/'))
res = {'property': a.prop, 'seed': a.seed, 'evaluations': 0, 'distinct': 0, 'failures': [], 'per_check': {}, 'samples': []}
def fail(c, i, msg):
    res['failures'].append({'check': c.name, 'index': i, 'seed': a.seed, 'message': msg[:4000]})
if a.index is not None or a.upto is not None:
    for c in checks:
        for i in ([a.index] if a.index is not None else range(a.upto + 1)):
            bad, key = lib.run_case(c, a.seed, i)
            res['evaluations'] += 1
            if bad: fail(c, i, bad[1]); break
else:
    total = sum(c.weight for c in checks) or 1
    seen = set()
    for c in checks:
        lim = time.time() + a.budget * c.weight / total
        i, cnt, keys = k, 0, set()
        while (c.cases is None or i < len(c.cases)) and cnt < a.maxcases and (c.n is None or i < c.n):
            if time.time() > lim and cnt >= (3 if c.cases is None else 10**9 if time.time() < lim + 60 else 0): break
            bad, key = lib.run_case(c, a.seed, i)
            cnt += 1
            if key is not None:
                h = hashlib.md5(repr(key).encode('utf8', 'replace')).hexdigest()
                if h not in keys:
                    keys.add(h)
                    if len(keys) <= 1: res['samples'].append({'check': c.name, 'index': i, 'case': lib.short(key, 200)})
            if bad:
                fail(c, i, bad[1]); break
            i += n
        res['evaluations'] += cnt; res['distinct'] += len(keys)
        res['per_check'][c.name] = [cnt, len(keys)]
res['wall_s'] = round(time.time() - t0, 2)
print(json.dumps(res))
sys.stdout.flush()
sys.exit(1 if res['failures'] else 0)
