"""Obligations over the paths of a function under contract, and their bookkeeping."""
import time, traceback, os, sys
import z3
from .values import *
from .engine import *
from . import engine as _eng

class Obligation:
    __slots__ = ('name', 'status', 'ms', 'detail', 'fn')
    def __init__(self, name, status, ms, detail='', fn=''):
        self.name, self.status, self.ms, self.detail, self.fn = name, status, ms, detail, fn

class Ctx:
    def __init__(self, prop, deadline=None, timeout_ms=8000, verbose=False):
        self.prop, self.deadline, self.timeout_ms, self.verbose = prop, deadline, timeout_ms, verbose
        self.obs, self.executed, self.assumed, self.notes = [], {}, set(), set()
        self.queries, self.solver_s, self.paths_n = 0, 0.0, 0
        self.cur = ''
        self.late = 0          # obligations left undecided in this contract: after some, the others get less time

    # ---- exploring -------------------------------------------------------
    def paths(self, thunk, summaries=None, setup=None, **opts):
        eng = Engine(summaries or {}, deadline=self.deadline, **opts)
        if setup: setup(eng)
        try:
            ps = eng.explore(lambda: thunk(eng))
        finally:
            self.executed.update(eng.executed)
            self.solver_s += eng.solver_time; self.queries += eng.checks
        self.paths_n += len(ps)
        for p in ps: self.notes.update(p.notes)
        return ps

    def add(self, label, status, ms=0, detail=''):
        o = Obligation(self.cur + ': ' + label, status, ms, detail, self.cur)
        self.obs.append(o)
        if status != 'discharged': self.late += 1
        if self.verbose and ms > 3000: print('    slow %d ms' % ms, o.name)
        if self.verbose and status != 'discharged': print('   ', status, o.name, " ".join(detail.split())[:int(os.environ.get("DET", "300"))])
        return o

    # ---- deciding --------------------------------------------------------
    def query(self, hyps, goal, timeout=None):
        """'discharged' if hyps entail goal, 'refuted' (with model), 'undecided'"""
        if goal is True: return 'discharged', None
        if goal is False: goal = z3.BoolVal(False)
        ms = timeout or (self.timeout_ms if self.late < 6 else 1500)
        t0 = time.time(); r = z3.unknown; model = None
        goal = z3.simplify(goal)
        if z3.is_true(goal): return 'discharged', None
        hyps = list(hyps) + class_axioms(list(hyps) + [goal])
        ground = [h for h in hyps if not has_quantifier(h)]
        if len(ground) < len(hyps):         # usually enough, and fast
            s = z3.Solver(); s.set('timeout', 1500)
            s.add(*ground); s.add(z3.Not(goal))
            self.queries += 1
            if s.check() == z3.unsat:
                self.solver_s += time.time() - t0
                return 'discharged', None
        for cfg in ({}, {'smt.mbqi': False, 'smt.random_seed': 7}, {'smt.arith.solver': 2}):
            s = z3.Solver()
            s.set('timeout', ms)
            for k, v in cfg.items():
                try: s.set(k, v)
                except Exception: pass
            s.add(*hyps); s.add(z3.Not(goal))
            self.queries += 1
            r = s.check()
            if r == z3.sat and 'smt.string_solver' in cfg: r = z3.unknown      # strings uninterpreted: no counterexample
            if r == z3.sat and cfg.get('smt.mbqi') is False and self.quantified(hyps): r = z3.unknown
            if r == z3.sat: model = s.model()
            if r != z3.unknown or self.late >= 6: break
            if self.deadline and time.time() > self.deadline: break
        self.solver_s += time.time() - t0
        return 'discharged' if r == z3.unsat else 'refuted' if r == z3.sat else 'undecided', model

    def quantified(self, hyps): return any(has_quantifier(h) for h in hyps)

    def prove(self, label, path, goal, extra=()):
        """one obligation: on this path (its condition and the facts about it) goal holds"""
        t = time.time()
        if callable(goal) and not isinstance(goal, z3.ExprRef): goal = goal()
        st, model = self.query(list(path.pc) + list(path.facts) + list(extra), goal)
        det = ''
        if st != 'discharged':
            det = 'goal %s\npath %s\n' % (z3.simplify(zz(goal)) if not isinstance(goal, bool) else goal, path)
            det += '\n'.join('  ' + ' '.join(str(z3.simplify(c)).split()) for c in path.pc[:40])
            if model is not None: det += '\nmodel ' + ' '.join(str(model).split())[:3000]
        return self.add(label, st, int(1000 * (time.time() - t)), det)

    def lemma(self, label, hyps, goal):
        t = time.time()
        st, model = self.query(list(hyps), goal)
        return self.add(label, st, int(1000 * (time.time() - t)), '' if st == 'discharged' else '%s\n%s' % (goal, model))

    def check(self, label, path, ok, detail=''):
        """obligation decided structurally on a path: if it fails, the path must be infeasible"""
        if ok is True: return self.add(label, 'discharged')
        return self.prove(label, path, zz(ok) if not isinstance(ok, bool) else False)

    def cover(self, label, paths, pred):
        """vacuity guard: some feasible path satisfies pred"""
        for p in paths:
            try: c = pred(p)
            except Exception: c = False
            if c is False or c is None: continue
            s = z3.Solver(); s.set('timeout', 3000)
            s.add(*p.pc)
            if c is not True: s.add(c)
            self.queries += 1
            if s.check() != z3.unsat:
                s2 = z3.Solver(); s2.set('timeout', 2000); s2.add(*p.pc); s2.add(*p.facts)
                if c is not True: s2.add(c)
                if s2.check() == z3.unsat: continue
                return self.add('reachable: ' + label, 'discharged')
        return self.add('reachable: ' + label, 'undecided', detail='no feasible path: the contract would hold vacuously')

_atoms = {}        # term -> the isinstance atoms in it
def atoms_of(f):
    k = f.get_id()
    if k not in _atoms:
        seen, st, out = set(), [f], []
        while st:
            a = st.pop()
            i = a.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(a): st.append(a.body()); continue
            if z3.is_app(a):
                n = a.decl().name()
                if n.startswith('isinstance:') and n[11:] in INST_CLASSES and not has_var(a.arg(0)): out.append((n[11:], a))
                st += a.children()
        _atoms[k] = (f, out)
    return _atoms[k][1]

def class_axioms(fs):
    """subclass relations between the classes a value is tested against"""
    by = {}
    for f in fs:
        for n, a in atoms_of(f): by.setdefault(a.arg(0).get_id(), {})[INST_CLASSES[n]] = a
    out = []
    for d in by.values():
        ks = list(d)
        for i in range(len(ks)):
            for j in range(i):
                a, b = ks[i], ks[j]
                try:
                    if issubclass(a, b): out.append(z3.Implies(d[a], d[b]))
                    elif issubclass(b, a): out.append(z3.Implies(d[b], d[a]))
                    elif cannot_share_subclass(a, b): out.append(z3.Not(z3.And(d[a], d[b])))
                except TypeError: pass
    return out

_hv = {}
def has_var(t):
    k = t.get_id()
    if k not in _hv:
        _hv[k] = (t, z3.is_var(t) or z3.is_quantifier(t) or any(has_var(c) for c in t.children()))
    return _hv[k][1]

_hq = {}
def has_quantifier(t, seen=None):
    k = t.get_id()
    if k in _hq: return _hq[k][1]
    seen, st, r = set(), [t], False
    while st:
        a = st.pop()
        if z3.is_quantifier(a): r = True; break
        i = a.get_id()
        if i in seen: continue
        seen.add(i)
        st += a.children()
    _hq[k] = (t, r)
    return r

CONTRACTS = {}
def contract(prop, name):
    def d(f):
        CONTRACTS.setdefault(prop, []).append((name, f)); return f
    return d

def run_contracts(prop, deadline=None, verbose=False, only=None):
    import z3
    c = Ctx(prop, deadline, verbose=verbose)
    for name, f in CONTRACTS.get(prop, ()):
        if only and only not in name: continue
        c.cur, c.late = name, 0
        t = time.time()
        try:
            f(c)
        except (Unsupported, Budget) as e:
            c.add('outside the verifier\'s reach', 'undecided', detail='%s: %s' % (type(e).__name__, e))
            if verbose: traceback.print_exc()
        except RecursionError as e:
            c.add('outside the verifier\'s reach', 'undecided', detail='recursion')
        except Exception as e:
            c.add('the contract does not apply to this source', 'undecided', detail=traceback.format_exc()[-1500:])
            if verbose: traceback.print_exc()
        if verbose: print('  %-60s %3d obligations %6.1fs' % (name, len([o for o in c.obs if o.fn == name]), time.time() - t))
    return c
