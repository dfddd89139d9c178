#!/usr/bin/env python3
"""check.py PROP: decides one property on the code in /repo.

1. proof: prove.py generates obligations from the current source (pyvc, contracts/) and z3 discharges them;
2. bounded: the same contracts, in executable form, are evaluated on generated cases (drivers/) by the
   interpreter the library runs under; labelled bounded, never counted as proved.
A refuted obligation starts a longer search for an input that fails; the VIOLATION line names the replay file.
Exit 0: held (or undecided where the proof could not be redone, see the evidence); exit 1: VIOLATION."""
import sys, os, json, subprocess, time, threading, hashlib, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('JSONS_REPO', '/repo')
PY, VT = '/opt/venv/bin/python', 'python3-vt'
TITLES = {}
t0 = time.time()

def tier():
    return 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
def seed():
    try: return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: return 1

# deadline: seconds per contract; proof: seconds for all of them; grace: seconds left to name a failed obligation once a failing input is known
CFG = {'quick':    {'deadline': 400, 'proof': 560, 'grace': 45, 'budget': 14, 'shards': 4, 'extended': 60, 'jobs': 6},
       'thorough': {'deadline': 900, 'proof': 3600, 'grace': 300, 'budget': 240, 'shards': 6, 'extended': 240, 'jobs': 8}}

def start(cmd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE, text=True, errors='replace', start_new_session=True, **kw)

def finish(p, timeout):
    try: out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return None, 'timed out'
    line = (out.strip().splitlines() or [''])[-1]
    try: return json.loads(line), err[-2000:]
    except ValueError: return None, 'no answer: ' + (out[-500:] + err[-1500:])

def drivers(prop, sd, budget, shards, extra=()):
    ps = [start([PY, 'drivers/run.py', prop, '--seed', str(sd), '--budget', str(budget), '--shard', '%d/%d' % (k, shards)] + list(extra)) for k in range(shards)]
    return ps

def collect(ps, budget):
    tot = {'evaluations': 0, 'distinct': 0, 'failures': [], 'per_check': {}, 'samples': [], 'errors': []}
    for p in ps:
        d, err = finish(p, max(60.0, budget * 3 + 200))
        if d is None: tot['errors'].append(err); continue
        for k in ('evaluations', 'distinct'): tot[k] += d[k]
        tot['failures'] += d['failures']
        for n, (c, u) in d['per_check'].items():
            q = tot['per_check'].setdefault(n, [0, 0]); q[0] += c; q[1] += u
        for s in d['samples']:
            if s['check'] not in [x['check'] for x in tot['samples']]: tot['samples'].append(s)
    return tot

def confirm(prop, f):
    """replay a failure in a fresh process: (command, message) or None"""
    for extra in (['--index', str(f['index'])], ['--upto', str(f['index'])]):
        cmd = [PY, 'drivers/run.py', prop, '--seed', str(f['seed']), '--only', f['check']] + extra
        d, err = finish(start(cmd), 240)
        if d is not None and d['failures']: return cmd, d['failures'][0]
    return None

def known():
    """open findings: (property, text that identifies the failing input or call site)"""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as h:
            for l in h:
                m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l.strip())
                if m: out.append(m.groups())
    except OSError: pass
    return out

class Proof(threading.Thread):
    """runs the contracts of the property in the background, one process per contract"""
    def __init__(self, prop, cfg, any_contracts):
        super().__init__(daemon=True)
        self.prop, self.cfg, self.end, self.stopped, self.any = prop, cfg, time.time() + cfg['proof'], '', any_contracts
        self.lock, self.running = threading.Lock(), set()
        self.res = {'obligations': [], 'functions': {}, 'error': None, 'queries': 0, 'solver_s': 0.0, 'paths': 0, 'notes': set(), 'assumed': set(), 'contracts': []}
        self.refuted = threading.Event()
    def none(self, n, why, detail):
        self.res['obligations'].append({'name': n + ': ' + why, 'status': 'undecided', 'ms': 0, 'detail': str(detail), 'contract': n})
    def stop(self, why):
        """no contract is started any more, the running ones are ended"""
        with self.lock:
            self.stopped = why
            for p in self.running:
                try: os.killpg(p.pid, 9)
                except OSError: pass
    def run(self):
        if not self.any: return
        d, err = finish(start([VT, 'prove.py', self.prop, '--list']), 120)
        names = d if isinstance(d, list) else []
        self.res['contracts'] = list(names)
        if not names: self.none('', 'no contract could be loaded', err); return
        todo = list(names)
        def work():
            while True:
                with self.lock:
                    if not todo: return
                    n = todo.pop(0)
                    left = self.end - time.time()
                    if self.stopped or left < 5:
                        self.none(n, 'not attempted', self.stopped or 'the time for the proof ran out'); continue
                    dl = min(self.cfg['deadline'], left)
                    p = start([VT, 'prove.py', self.prop, '--exact', n, '--deadline', str(dl)])
                    self.running.add(p)
                d, err = finish(p, dl + 40)
                with self.lock:
                    self.running.discard(p)
                    res = self.res
                    if d is None: self.none(n, 'the verifier gave no answer', self.stopped or err); continue
                    if d['error']: self.none(n, 'the verifier failed', d['error'])
                    elif not d['obligations']: self.none(n, 'generated no obligation', '')
                    res['obligations'] += d['obligations']; res['functions'].update(d['functions'])
                    for k in ('queries', 'solver_s', 'paths'): res[k] += d.get(k, 0)
                    res['notes'].update(d.get('notes', ())); res['assumed'].update(d.get('assumed', ()))
                    if any(o['status'] == 'refuted' for o in d['obligations']): self.refuted.set()
        ts = [threading.Thread(target=work, daemon=True) for _ in range(self.cfg['jobs'])]
        for t in ts: t.start()
        for t in ts: t.join()
    def result(self):
        self.join()
        r = dict(self.res)
        r['notes'], r['assumed'] = sorted(r['notes']), sorted(r['assumed'])
        return r

def meta(prop):
    """per property: the assumptions and the bounds, from contracts/registry.json"""
    try:
        with open(os.path.join(HERE, 'contracts', 'registry.json')) as h: r = json.load(h)
    except (OSError, ValueError): r = {}
    m = dict(r.get('*', {})); m.update(r.get(prop, {}))
    m['assumptions'] = list(r.get('*', {}).get('assumptions', [])) + list(r.get(prop, {}).get('assumptions', []))
    return m

def write_replay(prop, d):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    h = hashlib.md5(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, h))
    with open(path, 'w') as f: json.dump(d, f, indent=1, default=str)
    return path

def main():
    prop = [a for a in sys.argv[1:] if not a.startswith('-')][0]
    tr, sd = tier(), seed()
    cfg = CFG[tr]
    m = meta(prop)
    kf = [(p, k, t) for p, k, t in known() if p == prop]
    lines, viol, knownhits, unconfirmed = [], 0, set(), []
    seen, found = set(), []
    def examine(failures):
        """replay what failed in fresh processes"""
        for f in failures:
            if f['check'] in seen or len(found) >= 4: continue
            hit = [t for p, k, t in kf if re.search(k, f['check'] + ' ' + f['message'])]
            if hit: knownhits.update(hit); continue
            c = confirm(prop, f)
            if c is None: unconfirmed.append(f); continue
            seen.add(f['check']); found.append((f, c))
    ps = drivers(prop, sd, cfg['budget'], cfg['shards'])
    proof = Proof(prop, cfg, m.get('contracts', True)); proof.start()
    dr = collect(ps, cfg['budget'])
    examine(dr['failures'])
    if found:                                   # a failing input is known: only wait a little for the obligation it belongs to
        e = time.time() + cfg['grace']
        while proof.is_alive() and not proof.refuted.is_set() and time.time() < e: time.sleep(0.5)
        proof.stop('stopped: a failing input had been found')
    pr = proof.result()
    obs = pr['obligations']
    st = lambda s: [o for o in obs if o['status'] == s]
    refuted, undecided = st('refuted'), st('undecided')
    if (refuted or undecided or dr['errors']) and not found:
        ext = collect(drivers(prop, sd + 7919, cfg['extended'] if refuted else cfg['extended'] / 2, 7), cfg['extended'])
        for k in ('evaluations', 'distinct'): dr[k] += ext[k]
        dr['failures'] += ext['failures']; dr['errors'] += ext['errors'] if dr['errors'] else []
        examine(ext['failures'])
    for f, (cmd, g) in found:
        path = write_replay(prop, {'property': prop, 'command': 'cd /verif && ' + ' '.join(cmd), 'check': f['check'], 'index': f['index'], 'seed': f['seed'], 'message': g['message'],
                                   'failed_obligations': [{k: o[k] for k in ('name', 'detail')} for o in refuted[:5]]})
        lines.append('VIOLATION property=%s replay=%s' % (prop, path)); viol += 1
        print('contract %s/%s fails on the real code: %s' % (prop, f['check'], g['message'][:600].replace('\n', ' | ')))
    if refuted and not viol:
        o = [o for o in refuted if not any(re.search(k, o['name']) for p, k, t in kf)]
        if o:
            path = write_replay(prop, {'property': prop, 'command': 'cd /verif && %s prove.py %s --exact %r' % (VT, prop, o[0]['contract']), 'failed_obligation': o[0]['name'],
                                       'verifier_output': o[0]['detail'], 'all_failed': [x['name'] for x in o]})
            print('obligation refuted: %s' % o[0]['name'])
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)); viol += 1
    for p, k, t in kf: print('KNOWN-FINDING: property=%s %s' % (prop, t))
    n, ok = len(obs), len(st('discharged'))
    full = n > 0 and ok == n
    proved = full and m.get('level', 'proof') == 'proof'
    explanation = m.get('explanation') or ''
    if undecided: explanation = ('the proof could not be redone on this source (%d of %d obligations undecided, e.g. %s); the property was decided by the bounded stand-in only. ' % (len(undecided), n, undecided[0]['name'])) + explanation
    cov = {'obligations': n, 'discharged': ok, 'refuted': len(refuted), 'undecided': len(undecided),
           'checker_cmd': 'cd /verif && %s prove.py %s' % (VT, prop),
           'trusted_base': m.get('trusted_base', []),
           'back_end': 'z3 (python z3-solver in /opt/veriftools/pyvenv)', 'solver_queries': pr['queries'], 'solver_s': round(pr['solver_s'], 2), 'paths': pr['paths'],
           'contracts': [{'contract': c, 'obligations': len([o for o in obs if o['contract'] == c]), 'discharged': len([o for o in obs if o['contract'] == c and o['status'] == 'discharged'])} for c in pr['contracts']],
           'functions_under_contract': pr['functions'], 'abstractions_used': pr['notes'],
           'undischarged': [{'name': o['name'], 'status': o['status'], 'detail': o['detail'][:600]} for o in (refuted + undecided)[:12]],
           'proved_part': m.get('proved', ''), 'bounded_part': m.get('bounded', ''),
           'bounded': {'evaluations': dr['evaluations'], 'distinct_nontrivial': dr['distinct'], 'per_contract': {k: {'evaluations': v[0], 'distinct': v[1]} for k, v in sorted(dr['per_check'].items())},
                       'rule': 'pseudo-random (seed %d) or enumerated cases evaluated on the real library; two cases are distinct if their descriptions differ, trivial ones are not described' % sd, 'unconfirmed_failures': unconfirmed, 'errors': dr['errors'][:3]},
           'evaluations': dr['evaluations'], 'distinct_nontrivial': dr['distinct'],
           'rule': 'bounded stand-in: cases generated by drivers/ from the seed; distinct by their description',
           'samples': dr['samples'][:12] + [{'obligation': o['name'], 'status': o['status']} for o in obs[:3]],
           'explanation': explanation or 'all obligations discharged'}
    level = 'proof' if proved else m.get('level') if full and m.get('level') else 'other'
    ev = {'property': prop, 'tier': tr, 'seed': sd, 'level': level, 'coverage': cov, 'assumptions': m['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as h: json.dump(ev, h, indent=1, default=str)
    print('%s: %d/%d obligations discharged (%d refuted, %d undecided), solver %.1f s; bounded: %d evaluations (%d distinct) of %d contracts, %d failures; %.1f s' % (
        prop, ok, n, len(refuted), len(undecided), pr['solver_s'], dr['evaluations'], dr['distinct'], len(dr['per_check']), len(dr['failures']), time.time() - t0))
    if not n and not dr['evaluations']:
        print('nothing could be decided: %s' % (dr['errors'] or pr['error'])); return 2
    for l in lines: print(l)
    sys.stdout.flush()
    return 1 if viol else 0

if __name__ == '__main__': sys.exit(main())
