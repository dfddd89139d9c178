"""Dev tool: makes /verif/seeded/<id> from a description and confirms it.

usage: plant.py FILE.py [ID...]   where FILE.py defines BUGS = {id: dict(property, edits, demo, needs, breaks)}
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['tests']) if isinstance(
    json.load(open('/opt/vp/BASELINE.json')), dict) and 'tests' in json.load(open('/opt/vp/BASELINE.json')) else None
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for id_ in sys.argv[2:] or bugs:
        b = bugs[id_]
        wt = tempfile.mkdtemp(prefix='plant_')
        sh('cp -a /repo/. %s' % wt, '/')
        bad = []
        for file, old, new in b['edits']:
            p = os.path.join(wt, 'jsons', file)
            s = open(p).read()
            if s.count(old) != 1:
                bad.append('%s: %r occurs %d times' % (file, old, s.count(old)))
                continue
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', wt).stdout
        d = os.path.join(HERE, 'seeded', id_)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(b['demo'])
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        # confirm
        r0 = sh('bash %s/demo.sh' % d, '/repo')
        r1 = sh('bash %s/demo.sh' % d, wt)
        if r0.returncode:
            bad.append('demo fails on the clean tree: ' + r0.stdout[-300:] + r0.stderr[-600:])
        if not r1.returncode:
            bad.append('demo passes with the patch')
        t = sh('PYTHONDONTWRITEBYTECODE=1 TZ=UTC timeout 200 /opt/venv/bin/python -m pytest -q -x --deselect README.md -p no:cacheprovider '
               '--ignore=tests/test_performance.py tests', wt)
        if t.returncode:
            bad.append('tests: ' + t.stdout[-700:])
        # lines of the original repository
        for line in sh("git diff -U0", wt).stdout.splitlines():
            pass
        shutil.rmtree(wt)
        print(id_, b['property'], 'BAD ' + '\n   '.join(bad) if bad else 'ok', '|', (r1.stdout + r1.stderr).strip()[-90:].replace('\n', ' '))
        if bad:
            shutil.rmtree(d)


main()
