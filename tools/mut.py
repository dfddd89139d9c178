#!/usr/bin/env python3
"""dev: self-test of the deductive part.  Applies each mutant of tools/mutants.py to a scratch copy of /repo and runs prove.py on
it: 'bug' mutants must be refuted, 'same' mutants (behaviour-preserving edits) must raise no refutation.
usage: mut.py [PROP or mutant id ...]"""
import sys, os, shutil, subprocess, json, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import MUTANTS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(m):
    mid, props, kind, edits = m
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        shutil.copytree(os.environ.get('MUT_BASE','/repo')+'/jsons', d + '/jsons', ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = d + '/jsons/' + f
            s = open(p).read()
            if s.count(old) < 1: return mid, kind, 'DOES NOT APPLY', ''
            open(p, 'w').write(s.replace(old, new, 1))
        out = []
        for prop in props:
            r = subprocess.run(['timeout', '700', 'python3-vt', HERE + '/prove.py', prop, '--deadline', '600'], capture_output=True, text=True, env=dict(os.environ, JSONS_REPO=d))
            try: j = json.loads(r.stdout.splitlines()[-1])
            except Exception: out.append('%s: CRASH %s' % (prop, r.stderr[-300:])); continue
            o = j['obligations']
            c = {k: len([x for x in o if x['status'] == k]) for k in ('discharged', 'refuted', 'undecided')}
            bad = [x for x in o if x['status'] != 'discharged']
            out.append('%s: %s %.0fs' % (prop, c, j['wall_s']) + ''.join('\n        %s %s: %s | %s' % (x['status'], x['contract'][:40], x['name'][-90:], ' '.join(x['detail'].split())[:int(os.environ.get('DET', '100'))]) for x in bad[:int(os.environ.get('N', '3'))]))
        txt = '\n      '.join(out)
        ref = any("'refuted': 0" not in x and 'CRASH' not in x for x in out)
        ok = ref if kind == 'bug' else not ref
        return mid, kind, ('ok ' if ok else 'BAD') , txt
    finally: shutil.rmtree(d, ignore_errors=True)
sel = sys.argv[1:]
ms = [m for m in MUTANTS if not sel or m[0] in sel or any(p in sel for p in m[1])]
with cf.ThreadPoolExecutor(4) as ex:
    for mid, kind, ok, txt in ex.map(run, ms): print(ok, kind, mid, '\n     ', txt, flush=True)
