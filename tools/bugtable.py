#!/usr/bin/env python3
"""dev: put the table of planted bugs into DESIGN.md (between the markers). Runs the proof of its property on a patched scratch copy for each bug.
usage: bugtable.py [--run]  (without --run: from /tmp/pb/*.json)"""
import os, sys, json, glob, subprocess, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(H + '/seeded/*/')):
    b = os.path.basename(d[:-1]); m = json.load(open(d + 'meta.json')); out = '/tmp/pb/%s.json' % b
    os.makedirs('/tmp/pb', exist_ok=True)
    if '--run' in sys.argv and not (os.path.exists(out) and os.path.getsize(out)):
        t = tempfile.mkdtemp(prefix='pb_', dir='/tmp')
        try:
            shutil.copytree('/repo/jsons', t + '/jsons', ignore=shutil.ignore_patterns('__pycache__'))
            subprocess.run(['git', 'init', '-q', t]); assert subprocess.run(['git', '-C', t, 'apply', d + 'patch.diff']).returncode == 0, b
            r = subprocess.run(['timeout', '300', 'python3-vt', H + '/prove.py', m['property'], '--deadline', '200'], capture_output=True, text=True, env=dict(os.environ, JSONS_REPO=t))
            open(out, 'w').write(r.stdout.splitlines()[-1] if r.stdout else '')
        finally: shutil.rmtree(t)
    how = 'B'
    if os.path.exists(out) and os.path.getsize(out):
        try:
            st = [o['status'] for o in json.load(open(out))['obligations']]
            how = 'P, B' if 'refuted' in st else 'B'
        except ValueError: pass
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), how))
p = H + '/DESIGN.md'; s = open(p).read()
if '@@TABLE@@' in s: s = s.replace('@@TABLE@@', '<!-- bugs -->\n<!-- end -->')
i, j = s.index('<!-- bugs -->'), s.index('<!-- end -->')
open(p, 'w').write(s[:i] + '<!-- bugs -->\n| bug | property | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[j:])
