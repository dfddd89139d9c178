"""Loops and comprehensions over sequences of any length.

The body is executed once for a generic index i, with everything the body
modifies replaced by an unknown earlier state.  What the body does to that state
on each of its paths is read off (append, store, overwrite, recurrence), which
gives the state after any number of iterations; a path on which the body leaves
the loop becomes a separate path "the first i iterations were normal, then this
one left".  Shapes that are not recognised are Unsupported.
"""
import ast
import z3
from .values import *

def _E():
    from . import engine
    return engine

def subst_t(t, pairs):
    return z3.substitute(t, *pairs)

def subst_sv(eng, v, pairs, heap, mark):
    E = _E()
    if isinstance(v, T): return T(subst_t(v.t, pairs))
    if isinstance(v, B): return B(subst_t(v.t, pairs))
    if isinstance(v, I): return I(subst_t(v.t, pairs))
    if isinstance(v, R): return R(subst_t(v.t, pairs))
    if isinstance(v, St): return St(subst_t(v.t, pairs))
    if isinstance(v, Rope): return Rope([s if isinstance(s, str) else ('d', s[1], subst_t(s[2], pairs)) for s in v.segs])
    if isinstance(v, tuple): return tuple(subst_sv(eng, x, pairs, heap, mark) for x in v)
    if isinstance(v, Bound): return Bound(subst_sv(eng, v.obj, pairs, heap, mark), v.name, v.fn)
    if isinstance(v, Clo):
        if v.id > mark and not E.is_identity(v.node):
            return Poison('closure created in a loop')
        return v
    if isinstance(v, Ref):
        if v.id <= mark: return v
        c = heap[v.id]
        return eng.alloc(subst_content(eng, c, pairs, heap, mark))
    if isinstance(v, Seq): return subst_seq(eng, v, pairs, heap, mark)
    return v

def subst_seq(eng, s, pairs, heap, mark):
    n = s.n if isinstance(s.n, int) else subst_t(s.n, pairs)
    return Seq(n, lambda i: subst_sv(eng, s.get(i), pairs, heap, mark),
               None if s.guard is None else (lambda i: subst_t(_E().zz(s.guard(i)), pairs)), s.what)

def subst_content(eng, c, pairs, heap, mark):
    f = lambda v: v if v is DELETED else subst_sv(eng, v, pairs, heap, mark)
    if isinstance(c, DictC):
        if isinstance(c.base, Opaque): raise _E().Unsupported('container under construction in a value')
        log = []
        for e in c.log:
            if isinstance(e, Writes): 
                raise _E().Unsupported('nested loop-built dict')
            log.append((f(e[0]), f(e[1])))
        return DictC(None if c.base is None else subst_t(c.base, pairs), log, c.fresh, c.kind)
    if isinstance(c, ListC):
        parts = []
        for p in c.parts:
            if p[0] == 'e': parts.append(('e', f(p[1])))
            elif p[0] == 'seq': parts.append(('seq', subst_seq(eng, p[1], pairs, heap, mark)))
            else: raise _E().Unsupported('container under construction in a value')
        return ListC(parts, c.kind, c.fresh)
    n = InstC(c.cls, {k: f(v) for k, v in c.attrs.items()}, c.parent, c.fresh,
              None if c.term is None else subst_t(c.term, pairs), c.lazy)
    return n

def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (T, B, I, R, St)): return a.t.eq(b.t)
    if isinstance(a, Ref): return a.id == b.id
    if isinstance(a, Rope):
        return len(a.segs) == len(b.segs) and all((x == y) if isinstance(x, str) or isinstance(y, str) else (x[1] == y[1] and x[2].eq(y[2])) for x, y in zip(a.segs, b.segs))
    if isinstance(a, Bound): return same(a.obj, b.obj) and a.name == b.name
    if isinstance(a, SYMBOLIC): return False
    try: return bool(a == b)
    except Exception: return False

class Snap:
    def __init__(self, eng):
        self.heap = dict(eng.heap)
        self.envs = []
        seen = set()
        def add(e):
            while e is not None and id(e) not in seen:
                seen.add(id(e)); self.envs.append((e, dict(e['vars'])))
                for v in list(e['vars'].values()):
                    if isinstance(v, Clo): add(v.env)
                e = e['up']
        for f in eng.frames: add(f.env)
        self.ev, self.pc, self.facts, self.notes = len(eng.events), len(eng.pc), len(eng.facts), len(eng.notes)
        self.decided = dict(eng.decided)
        self.handled, self.nframes, self.depth, self.nloops = list(eng.handled), len(eng.frames), eng.depth, len(eng.loops)
        self.niters = len(eng.iters)
    def restore(self, eng):
        eng.heap = dict(self.heap); eng.decided = dict(self.decided)
        for e, v in self.envs:
            e['vars'].clear(); e['vars'].update(v)
        del eng.events[self.ev:]; del eng.pc[self.pc:]; del eng.facts[self.facts:]; del eng.notes[self.notes:]
        eng.handled = list(self.handled); del eng.frames[self.nframes:]; eng.depth = self.depth; del eng.loops[self.nloops:]; del eng.iters[self.niters:]

class BodyPath: pass

def run_generic(eng, i, setup, step, pre):
    """explore step() for generic index i; setup() havocs; pre: conditions on i"""
    E = _E()
    snap = Snap(eng)
    saved = eng.oracle
    sub = E.Oracle()
    out = []
    count = 0
    while True:
        snap.restore(eng)
        synced = eng._sync_state
        eng.solver.push()
        eng.oracle = sub; sub.start()
        if i is not None: eng.loops.append(i); eng.iters.append(i)
        p = BodyPath()
        nreads = len(eng.data.setdefault('opaque_reads', []))
        try:
            for c in pre: eng.assume(c)
            m = len(eng.pc)
            p.mark = eng.nref
            setup()
            m2 = len(eng.pc)
            try:
                step(); p.kind = 'normal'
            except E.ContinueEx: p.kind = 'normal'
            except (E.BreakEx, E.ReturnEx, E.PyRaise): p.kind = 'exit'
            except E.Infeasible: p.kind = None
            p.pc = eng.pc[m2:]; p.facts = eng.facts[snap.facts:]
            p.heap = dict(eng.heap)
            p.vars = [(e, dict(e['vars'])) for e, _ in snap.envs]
            p.events = eng.events[snap.ev:]
            p.notes = eng.notes[snap.notes:]
            p.reads = eng.data['opaque_reads'][nreads:]
        except E.Infeasible: p.kind = None
        finally:
            eng.solver.pop(); eng._sync_state = synced
            eng.oracle = saved
        if p.kind: out.append(p)
        count += 1
        if count > 300: raise E.Unsupported('too many paths through a loop body')
        if not sub.advance(): break
    notes = [n for p in out for n in p.notes]
    snap.restore(eng)
    eng.notes.extend(n for n in dict.fromkeys(notes) if n not in eng.notes)
    return snap, out

def changed_in(snap, paths, known_refs):
    """vars (env index, name) and heap refs the normal paths modify"""
    vs, hs = [], []
    for p in paths:
        for k, (e, new) in enumerate(p.vars):
            old = snap.envs[k][1]
            for nm in set(old) | set(new):
                if nm in old and nm in new and same(old[nm], new[nm]): continue
                if (k, nm) not in vs: vs.append((k, nm))
        for rid, c in snap.heap.items():
            if p.heap.get(rid) is not c and rid not in hs: hs.append(rid)
    return sorted(vs, key=str), sorted(hs)

def opaque_content(E, c, rid):
    if isinstance(c, ListC): return ListC([('opaque', Opaque(rid))], c.kind, c.fresh)
    if isinstance(c, DictC): return DictC(Opaque(rid, c), (), c.fresh, c.kind)
    raise E.Unsupported('an object is modified in a loop')

def explore_body(eng, seq, step, i, pre):
    """the paths of the body for a generic iteration, once the state it modifies is known"""
    E = _E()
    vs, hs, sfun = [], [], {}
    for rnd in range(6):
        def setup():
            for rid in hs: eng.heap[rid] = opaque_content(E, eng.heap[rid], rid)
            for k, nm in vs:
                e = snap0.envs[k][0]
                old = snap0.envs[k][1].get(nm, E.MISSING)
                e['vars'][nm] = sfun_val(eng, sfun, (k, nm), old, i)
        snap0 = Snap(eng)
        snap, paths = run_generic(eng, i, setup, lambda: step(seq.get(i)), pre)
        normal = [p for p in paths if p.kind == 'normal']
        nvs, nhs = [], []
        # compare with the havocked start of the iteration
        for p in normal:
            for k, (e, new) in enumerate(p.vars):
                old = snap.envs[k][1]
                for nm in set(old) | set(new):
                    o = sfun_val(eng, sfun, (k, nm), old.get(nm, E.MISSING), i) if (k, nm) in vs else old.get(nm, E.MISSING)
                    nw = new.get(nm, E.MISSING)
                    if o is not E.MISSING and nw is not E.MISSING and same(o, nw): continue
                    if o is E.MISSING and nw is E.MISSING: continue
                    if isinstance(o, Poison) and nw is o: continue
                    if (k, nm) not in nvs: nvs.append((k, nm))
            for rid, c in snap.heap.items():
                if rid in hs: continue
                if p.heap.get(rid) is not c and rid not in nhs: nhs.append(rid)
        add_v = [x for x in nvs if x not in vs]
        add_h = list(nhs)
        for k, nm in add_v:
            o = snap.envs[k][1].get(nm)
            if isinstance(o, Ref) and o.id not in hs and o.id not in add_h and isinstance(snap.heap[o.id], (ListC, DictC)):
                add_h.append(o.id)
        if not add_v and not add_h: break
        # pick a sort for each newly changed scalar
        for k, nm in add_v:
            o = snap.envs[k][1].get(nm, E.MISSING)
            news = [p.vars[k][1].get(nm, E.MISSING) for p in normal]
            sfun[(k, nm)] = make_state(eng, nm, o, news)
        vs = vs + add_v; hs = hs + add_h
    else:
        raise E.Unsupported('loop state does not stabilise')
    for p in paths:
        for rid, kt in p.reads:
            if rid in hs: unwritten(eng, E, seq, i, pre, p, normal, rid, kt)
    return snap, paths, normal, vs, hs, sfun

def unwritten(eng, E, seq, i, pre, p, normal, rid, kt):
    """no iteration before i wrote the key kt read in iteration i"""
    j = z3.Int('j!before')
    for q in normal:
        for key, _ in delta(E, q.heap[rid], rid)[1]:
            s = z3.Solver(); s.set('timeout', 3000)
            for x in eng.pc + eng.facts + pre + p.pc + p.facts: s.add(x)
            for x in pre + q.pc + q.facts: s.add(z3.substitute(E.zz(x), (i, j)))
            h = dict(eng.heap); eng.heap = q.heap
            w = eng.tv(key); eng.heap = h
            s.add(j < i, z3.substitute(w, (i, j)) == kt)
            if s.check() != z3.unsat: raise E.Unsupported('read of a dict while it is being built')

def recalled(eng, seq, step, i, pre):
    """explore_body, done once per loop and path prefix: a replay of the prefix takes the same result"""
    E = _E()
    o = eng.oracle
    here = (len(eng.pc), eng.nref, len(eng.events), str(seq.n), len(eng.loops))
    if o.lpos < len(o.lps):
        m = o.lps[o.lpos]; o.lpos += 1
        if m[0] != here: raise E.Unsupported('replay of a path diverged')
        if m[1] is None: return explore_body(eng, seq, step, i, pre)
        _, (paths, normal, vs, hs, sfun), nref, nfresh, insts, typs, qs, touched, notes, data = m
        eng.nref = max(eng.nref, nref)
        for k, v in nfresh.items(): eng.nfresh[k] = max(eng.nfresh.get(k, 0), v)
        for k, v in insts.items(): eng.inst_terms.setdefault(k, v)
        for k, v in typs.items(): eng.type_terms.setdefault(k, v)
        for q in qs:
            if q not in eng.inst_q: eng.inst_q.append(q)
        for t in touched: TOUCHED.setdefault(t, True)
        eng.notes.extend(n for n in notes if n not in eng.notes)
        for k, v in data.items():
            if isinstance(v, dict): eng.data.setdefault(k, {}).update(v)
            elif isinstance(v, set): eng.data.setdefault(k, set()).update(v)
            else: eng.data.setdefault(k, []).extend(v)
        return Snap(eng), paths, normal, vs, hs, sfun
    at, pos = len(o.lps), o.lpos
    o.lps.append(None); o.lpos += 1
    insts0, typs0, qs0, tt, nt = dict(eng.inst_terms), dict(eng.type_terms), len(eng.inst_q), len(TOUCHED), len(eng.notes)
    data0 = {k: (len(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else set(v)) for k, v in eng.data.items() if isinstance(v, (list, dict, set))}
    r = explore_body(eng, seq, step, i, pre)
    snap, paths, normal, vs, hs, sfun = r
    data = {}
    for k, v in eng.data.items():
        if isinstance(v, list): d = v[data0.get(k, 0):]
        elif isinstance(v, dict): d = {a: b for a, b in v.items() if a not in data0.get(k, ())}
        elif isinstance(v, set): d = v - data0.get(k, set())
        else: continue
        if d: data[k] = d
    keep = (paths, normal, vs, hs, sfun)
    for p in normal:        # a function defined before the loop belongs to one replay only
        vals = [p.vars[k][1].get(nm) for k, nm in vs] + [x for r_, c in p.heap.items() if snap.heap.get(r_) is not c for x in parts_of(c)]
        if any(isinstance(x, (Clo, Bound)) for x in vals): keep = None
    o.lps[at] = (here, keep, eng.nref, dict(eng.nfresh), {k: v for k, v in eng.inst_terms.items() if k not in insts0},
                 {k: v for k, v in eng.type_terms.items() if k not in typs0}, eng.inst_q[qs0:], list(TOUCHED)[tt:], eng.notes[nt:], data)
    return r

def parts_of(c):
    if isinstance(c, ListC): return [p[1] for p in c.parts if p[0] == 'e']
    if isinstance(c, DictC): return [x for e in c.log if not isinstance(e, Writes) for x in e]
    return list(c.attrs.values())

_CONDS = {}     # per explored loop body (kept alive): path conditions, their disjunction, substitutions made in them

def loop_over(eng, seq, step):
    """step(elem) for each element; returns False if left by break"""
    E = _E()
    n = seq.n
    if isinstance(n, int) or z3.is_int_value(n):
        n = n if isinstance(n, int) else n.as_long()
        if n > 200: raise E.Unsupported('long concrete loop')
        for k in range(n):
            ix = z3.IntVal(k)
            if seq.guard is not None and not eng.branch(seq.guard(ix)): continue
            try: step(seq.get(ix) if not getattr(seq, 'conc', None) else seq.conc[k])
            except E.ContinueEx: continue
            except E.BreakEx: return False
        return True
    i = z3.Int('i!%d' % (len(eng.loops) * 1000 + eng.nfresh.get('i!', 0)))
    eng.nfresh['i!'] = eng.nfresh.get('i!', 0) + 1
    pre = [i >= 0, i < n] + ([seq.guard(i)] if seq.guard is not None else [])
    snap, paths, normal, vs, hs, sfun = recalled(eng, seq, step, i, pre)
    keep_alive = _CONDS.get(id(normal))
    if keep_alive is None or keep_alive[0] is not normal:
        cs = [zand_t(p.pc) for p in normal]
        keep_alive = _CONDS[id(normal)] = (normal, cs, z3.Or(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(False)), {})
    conds, sub = keep_alive[1], keep_alive[3]
    has_exit = any(p.kind == 'exit' for p in paths)
    for p in paths:
        if has_exit and not normal: pass
    mark = eng.nref
    normal_i = keep_alive[2]

    def at(t, j):
        k = (t.get_id(), i.get_id(), j.get_id())
        if k not in sub: sub[k] = (z3.substitute(t, (i, j)), t, i, j)
        return sub[k][0]
    def guard_at(j): return E.zz(seq.guard(j)) if seq.guard is not None else z3.BoolVal(True)

    def apply(cnt):
        j = z3.Int('j!%d' % eng.nfresh.get('j!', 0)); eng.nfresh['j!'] = eng.nfresh.get('j!', 0) + 1
        rng = z3.And(j >= 0, j < cnt, guard_at(j))
        g = at(normal_i, j)
        if ('true', g.get_id()) not in sub: sub['true', g.get_id()] = (z3.is_true(z3.simplify(g)), g)
        if not sub['true', g.get_id()][0]: eng.fact(z3.ForAll([j], z3.Implies(rng, g)))
        for p, c in zip(normal, conds):
            for f in p.facts:
                if mentions(f, i): eng.fact(z3.ForAll([j], z3.Implies(z3.And(rng, at(c, j)), at(f, j))))
                else: eng.fact(z3.Implies(z3.Exists([j], z3.And(rng, at(c, j))), f) if False else f)
        # events
        evs = [(c, p.events, p) for p, c in zip(normal, conds) if p.events]
        if evs: eng.events.append(('loop', i, cnt, seq.guard, evs, list(eng.loops)))
        for rid in hs:
            var_owner = [(k, nm) for k, nm in vs if isinstance(snap.envs[k][1].get(nm), Ref) and snap.envs[k][1][nm].id == rid]
            old = snap.heap[rid]
            per = []
            for p in normal:
                c = p.heap[rid]
                per.append(delta(E, c, rid))
            eng.heap[rid] = extend(eng, E, old, per, normal, conds, i, cnt, seq, at, mark0)
        for k, nm in vs:
            e = snap.envs[k][0]
            old = snap.envs[k][1].get(nm, E.MISSING)
            st = sfun.get((k, nm))
            if isinstance(old, Ref) and old.id in hs:
                # a container variable: rebuilt (x = x + [..]) or merely mutated
                news = [p.vars[k][1].get(nm, E.MISSING) for p in normal]
                if all(isinstance(x, Ref) and x.id == old.id for x in news): 
                    e['vars'][nm] = old; continue
                per = []
                for p, x in zip(normal, news):
                    if not isinstance(x, Ref): raise E.Unsupported('container variable reassigned in a loop')
                    per.append(delta(E, p.heap[x.id], old.id))
                c = extend(eng, E, snap.heap[old.id], per, normal, conds, i, cnt, seq, at, mark0)
                e['vars'][nm] = eng.alloc(c)
                continue
            if st is None or st.kind == 'poison':
                news = [p.vars[k][1].get(nm, E.MISSING) for p in normal]
                e['vars'][nm] = Poison('%s after a loop' % nm)
                continue
            news = [p.vars[k][1].get(nm, E.MISSING) for p in normal]
            try: terms = [st.enc(eng, x) for x in news]
            except (E.Unsupported, AttributeError, TypeError):
                e['vars'][nm] = Poison('%s after a loop' % nm); continue
            cur = st.f(i)
            z = z3.IntVal(0)
            eng.fact(st.f(z) == st.init)
            deps = any(mentions_app(t, cur) for t in terms)
            nxt = ite(conds, terms)
            if st.kind == 'I' and seq.guard is None and all(z3.is_int_value(z3.simplify(t - cur)) for t in terms) and len({z3.simplify(t - cur).as_long() for t in terms}) == 1:
                c = z3.simplify(terms[0] - cur)
                eng.fact(forall([j], z3.Implies(z3.And(j >= 0, j <= cnt), st.f(j) == st.init + c * j), [st.f(j)]))
                e['vars'][nm] = eng.mknum(st.init + c * cnt)
                continue
            if not deps and seq.guard is None:
                e['vars'][nm] = st.dec(z3.If(cnt > 0, at(nxt, cnt - 1), st.init))
                continue
            eng.fact(z3.ForAll([j], z3.Implies(rng, st.f(j + 1) == at(nxt, j))))
            if seq.guard is not None:
                eng.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cnt, z3.Not(guard_at(j))), st.f(j + 1) == st.f(j))))
            e['vars'][nm] = st.dec(st.f(cnt))
    mark0 = min([p.mark for p in paths], default=eng.nref)
    if not has_exit:
        apply(n); return True
    done = eng.fresh('loop_completes', Bool)
    if eng.choose([done, z3.Not(done)] if normal else [z3.And(done, n <= 0), z3.Not(done)]) == 0:
        apply(n); return True
    x = eng.fresh('exit_index', Int)
    eng.assume(z3.And(x >= 0, x < n, guard_at(x)))
    if not normal: eng.assume(x == 0) if seq.guard is None else None
    apply(x) if normal else None
    eng.iters.append(x)
    try:
        step(seq.get(x))
    except E.ContinueEx: raise E.Infeasible()
    except E.BreakEx: return False
    finally: eng.iters.pop()
    raise E.Infeasible()

class State:
    """a scalar carried through a loop: value before iteration j is f(j)"""

def make_state(eng, nm, old, news):
    E = _E()
    s = State()
    vals = [v for v in news if v is not E.MISSING]
    if old is E.MISSING or any(isinstance(v, (Poison, Clo, Model, Bound, Seq, Rope)) for v in [old] + vals):
        s.kind = 'poison'; return s
    if any(isinstance(v, Ref) for v in [old] + vals): s.kind = 'poison'; return s
    allv = [old] + vals
    isint = lambda v: isinstance(v, I) or (isinstance(v, int) and not isinstance(v, bool))
    isbool = lambda v: isinstance(v, (B, bool))
    if all(isint(v) for v in allv): s.kind, sort = 'I', Int
    elif all(isbool(v) for v in allv): s.kind, sort = 'B', Bool
    elif all(isinstance(v, (R, float, I, int)) and not isinstance(v, bool) for v in allv): s.kind, sort = 'R', Real
    elif all(isinstance(v, (St, str)) for v in allv): s.kind, sort = 'S', Str
    else: s.kind, sort = 'V', Val
    c = eng.nfresh.get('st:' + nm, 0); eng.nfresh['st:' + nm] = c + 1
    F = z3.Function('%s!st%d' % (nm, c), *([Int] * (len(eng.loops) + 1) + [sort]))
    loops = list(eng.loops)
    s.f = lambda j: F(*loops, j)
    def enc(eng, v):
        if v is E.MISSING: raise E.Unsupported('unbound')
        if s.kind == 'I': return z3.IntVal(v) if isinstance(v, int) else v.t
        if s.kind == 'B': return z3.BoolVal(v) if isinstance(v, bool) else v.t
        if s.kind == 'R':
            x = eng.num(v); return z3.RealVal(x) if isinstance(x, (int, float)) else (z3.ToReal(x) if x.sort() == Int else x)
        if s.kind == 'S': return z3.StringVal(v) if isinstance(v, str) else v.t
        return eng.tv(v)
    s.enc = enc
    s.dec = {'I': I, 'B': B, 'R': R, 'S': St, 'V': T}[s.kind]
    s.init = enc(eng, old)
    return s

def sfun_val(eng, sfun, key, old, i):
    st = sfun.get(key)
    if isinstance(old, Ref) and (st is None or st.kind == 'poison'): return old
    if st is None: return old
    if st.kind == 'poison':
        if not hasattr(st, 'p'): st.p = Poison('%s carried through a loop' % key[1])
        return st.p
    return st.dec(st.f(i))

def mentions(t, x):
    stack, seen = [t], set()
    while stack:
        a = stack.pop()
        if a.get_id() in seen: continue
        seen.add(a.get_id())
        if a.eq(x): return True
        if z3.is_quantifier(a): stack.append(a.body())
        else: stack += a.children()
    return False
mentions_app = mentions

def zand_t(cs):
    return z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True))

def ite(conds, terms):
    r = terms[-1]
    for c, t in reversed(list(zip(conds[:-1], terms[:-1]))):
        r = t if t.eq(r) else z3.If(c, t, r)
    return r

def delta(E, c, rid):
    """what was added to the container on top of its opaque earlier content"""
    if isinstance(c, ListC):
        if not c.parts or c.parts[0][0] != 'opaque' or c.parts[0][1].of != rid: raise E.Unsupported('list is rebuilt in a loop')
        if any(p[0] != 'e' for p in c.parts[1:]): raise E.Unsupported('list is extended by sequences in a loop')
        return ('l', [p[1] for p in c.parts[1:]])
    if isinstance(c, DictC):
        if not isinstance(c.base, Opaque) or c.base.of != rid: raise E.Unsupported('dict is rebuilt in a loop')
        if any(isinstance(e, Writes) for e in c.log): raise E.Unsupported('nested loop writes')
        return ('d', list(c.log))
    raise E.Unsupported('object modified in a loop')

def extend(eng, E, old, per, normal, conds, i, cnt, seq, at, mark):
    kind = per[0][0] if per else None
    if kind is None: return old
    if all(not d[1] for d in per): return old
    if kind == 'l':
        w = {len(d[1]) for d in per}
        if w == {1}: guard = seq.guard
        elif w <= {0, 1}:
            app = [c for c, d in zip(conds, per) if d[1]]
            g = z3.Or(*app) if len(app) > 1 else app[0]
            guard = (lambda j: z3.And(E.zz(seq.guard(j)), at(g, j))) if seq.guard is not None else (lambda j: at(g, j))
        else: raise E.Unsupported('several appends per iteration')
        hit = [(c, d[1][0], p) for c, d, p in zip(conds, per, normal) if d[1]]
        get = value_at(eng, E, hit, i, mark)
        return ListC(old.parts + (('seq', Seq(cnt, get, guard, 'loop', cases(eng, i, hit, mark))),), old.kind, old.fresh)
    w = {len(d[1]) for d in per}
    if not w <= {0, 1}: raise E.Unsupported('several dict writes per iteration')
    hit = [(c, d[1][0], p) for c, d, p in zip(conds, per, normal) if d[1]]
    if w == {1} and seq.guard is None: cond = None
    else:
        app = [c for c, _, _ in hit]
        g = z3.Or(*app) if len(app) > 1 else app[0]
        cond = (lambda j: z3.And(E.zz(seq.guard(j)), at(g, j))) if seq.guard is not None else (lambda j: at(g, j))
    key = value_at(eng, E, [(c, kv[0], p) for c, kv, p in hit], i, mark)
    dels = [kv[1] is DELETED for _, kv, _ in hit]
    if any(dels) and not all(dels): raise E.Unsupported('dict deletions in a loop')
    val = value_at(eng, E, [(c, kv[1], p) for c, kv, p in hit], i, mark)
    return DictC(old.base, old.log + (Writes(cnt, cond, key, val, None, cases(eng, i, hit, mark)),), old.fresh, old.kind)

def cases(eng, i, hit, mark):
    def at(v, p):
        if isinstance(v, tuple): return lambda: tuple(subst_sv(eng, x, [(i, i)], p.heap, mark) for x in v)
        return lambda: subst_sv(eng, v, [(i, i)], p.heap, mark)
    return i, [(c, list(p.facts), at(v, p)) for c, v, p in hit]

def value_at(eng, E, hit, i, mark):
    if len(hit) == 1 or all(same(hit[0][1], h[1]) for h in hit):
        c, v, p = hit[0]
        return lambda j: subst_sv(eng, v, [(i, j)], p.heap, mark)
    def get(j):
        vals = [subst_sv(eng, v, [(i, j)], p.heap, mark) for c, v, p in hit]
        terms = [eng.tv(v) for v in vals]
        return T(ite([z3.substitute(c, (i, j)) for c, _, _ in hit], terms))
    return get

def s_For(eng, s):
    seq = eng.iter_(eng.ev(s.iter))
    def step(x):
        eng.store(s.target, x)
        eng.exec_block(s.body)
    if loop_over(eng, seq, step): eng.exec_block(s.orelse)
s_AsyncFor = None

def s_While(eng, s):
    E = _E()
    for _ in range(300):
        c = eng.bool_(eng.ev(s.test))
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c): c = True
            elif z3.is_false(c): c = False
        if not isinstance(c, bool): break
        if not c:
            eng.exec_block(s.orelse); return
        try: eng.exec_block(s.body)
        except E.ContinueEx: pass
        except E.BreakEx: return
    else: raise E.Unsupported('long concrete while loop')
    # symbolic condition: any number of iterations
    i = z3.Int('w!%d' % eng.nfresh.get('w!', 0)); eng.nfresh['w!'] = eng.nfresh.get('w!', 0) + 1
    vs, sfun = [], {}
    for rnd in range(5):
        def setup():
            for k, nm in vs:
                e = snap0.envs[k][0]
                e['vars'][nm] = sfun_val(eng, sfun, (k, nm), snap0.envs[k][1].get(nm, E.MISSING), i)
        snap0 = Snap(eng)
        def step():
            if not eng.truth(eng.ev(s.test)): raise E.Infeasible()
            eng.exec_block(s.body)
        snap, paths = run_generic(eng, i, setup, step, [i >= 0])
        normal = [p for p in paths if p.kind == 'normal']
        nv = []
        for p in normal:
            for rid, c in snap.heap.items():
                if p.heap.get(rid) is not c: raise E.Unsupported('a container is modified in a while loop')
            if p.events: raise E.Unsupported('effects in a while loop')
            for k, (e, new) in enumerate(p.vars):
                old = snap.envs[k][1]
                for nm in set(old) | set(new):
                    o = sfun_val(eng, sfun, (k, nm), old.get(nm, E.MISSING), i) if (k, nm) in vs else old.get(nm, E.MISSING)
                    nw = new.get(nm, E.MISSING)
                    if o is nw or (o is not E.MISSING and nw is not E.MISSING and same(o, nw)): continue
                    if (k, nm) not in nv: nv.append((k, nm))
        add = [x for x in nv if x not in vs]
        if not add: break
        for k, nm in add:
            sfun[(k, nm)] = make_state(eng, nm, snap.envs[k][1].get(nm, E.MISSING), [p.vars[k][1].get(nm, E.MISSING) for p in normal])
        vs += add
    cnt = eng.fresh('iterations', Int)
    eng.assume(cnt >= 0)
    for k, nm in vs:
        st = sfun[(k, nm)]
        e = snap.envs[k][0]
        if st.kind == 'poison': e['vars'][nm] = Poison('%s after a while loop' % nm); continue
        v = st.f(cnt)
        e['vars'][nm] = st.dec(v)
        eng.assume(z3.Implies(cnt == 0, v == st.init))
        if st.kind == 'I':
            cur = st.f(i)
            ds = [z3.simplify(st.enc(eng, p.vars[k][1][nm]) - cur) for p in normal]
            if ds and all(z3.is_int_value(d) for d in ds):
                if all(d.as_long() >= 0 for d in ds): eng.assume(v >= st.init)
                if all(d.as_long() <= 0 for d in ds): eng.assume(v <= st.init)
                if len({d.as_long() for d in ds}) == 1: eng.assume(v == st.init + ds[0] * cnt)
    if not eng.truth(eng.ev(s.test)):
        eng.exec_block(s.orelse); return
    try: eng.exec_block(s.body)
    except E.BreakEx: return
    except E.ContinueEx: pass
    raise E.Infeasible()

def comp(eng, gens, elt, kind):
    E = _E()
    cur = eng.frames[-1]
    env = {'vars': {}, 'up': cur.env}
    seq0 = eng.iter_(eng.ev(gens[0].iter))
    eng.frames.append(E.Frame(env, cur.globs, None, cur.fn, cur.cls, cur.first))
    try:
        out = eng.mkdict() if kind == 'dict' else eng.alloc(ListC([], kind))
        def level(k):
            def step(x):
                eng.store(gens[k].target, x)
                for c in gens[k].ifs:
                    if not eng.truth(eng.ev(c)): return
                if k + 1 < len(gens):
                    loop_over(eng, eng.iter_(eng.ev(gens[k + 1].iter)), level(k + 1)); return
                if kind == 'dict':
                    key, v = elt()
                    c = eng.get(out)
                    eng.put(out, DictC(c.base, c.log + ((key, v),), c.fresh, c.kind))
                else:
                    v = elt()
                    c = eng.get(out)
                    eng.put(out, ListC(c.parts + (('e', v),), kind, c.fresh))
            return step
        loop_over(eng, seq0, level(0))
        return out
    finally:
        eng.frames.pop()

# ---- joining the paths of an effect-free callee ------------------------------
class NoJoin(Exception): pass
MAXJOIN = 60

def mergeable(a, b, ha, hb, depth=0):
    """can the two outcomes be represented by one value"""
    if same(a, b): return True
    if depth > 3: return False
    sc = (T, B, I, R, St, type(None), bool, int, str, float, type)
    if isinstance(a, sc) and isinstance(b, sc): return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(mergeable(x, y, ha, hb, depth + 1) for x, y in zip(a, b))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id in ha and b.id in hb:
        c, d = ha[a.id], hb[b.id]
        if isinstance(c, InstC) and isinstance(d, InstC) and c.cls is d.cls and c.cls is not None and issubclass(c.cls, BaseException):
            return set(c.attrs) == set(d.attrs) and c.parent is None and d.parent is None and all(mergeable(c.attrs[k], d.attrs[k], ha, hb, depth + 1) for k in c.attrs)
        if isinstance(c, ListC) and isinstance(d, ListC) and c.kind == d.kind == 'tuple' and c.concrete() and d.concrete() and len(c.parts) == len(d.parts):
            return all(mergeable(x, y, ha, hb, depth + 1) for x, y in zip(c.elems(), d.elems()))
    return False

def merge_val(eng, vals, conds, heaps):
    """one value for several (vals[k] under conds[k])"""
    a = vals[0]
    if all(same(a, v) for v in vals): return a
    E = _E()
    if all(isinstance(v, (B, bool)) for v in vals): return B(ite(conds, [E.zz(v if isinstance(v, bool) else v.t) for v in vals]))
    if all(isinstance(v, (St, str)) for v in vals): return St(ite(conds, [z3.StringVal(v) if isinstance(v, str) else v.t for v in vals]))
    if all(isinstance(v, (I, int)) and not isinstance(v, bool) for v in vals): return I(ite(conds, [z3.IntVal(v) if isinstance(v, int) else v.t for v in vals]))
    if isinstance(a, tuple): return tuple(merge_val(eng, [v[k] for v in vals], conds, heaps) for k in range(len(a)))
    if isinstance(a, Ref):
        cs = [h[v.id] for h, v in zip(heaps, vals)]
        if isinstance(cs[0], InstC):
            at = {k: merge_val(eng, [c.attrs[k] for c in cs], conds, heaps) for k in cs[0].attrs}
            return eng.alloc(InstC(cs[0].cls, at, None, cs[0].fresh, None, cs[0].lazy))
        els = [merge_val(eng, [c.parts[k][1] for c in cs], conds, heaps) for k in range(len(cs[0].parts))]
        return eng.alloc(ListC([('e', e) for e in els], 'tuple'))
    return T(ite(conds, [eng.tv(v) for v in vals]))

def join_paths(eng, fn, args, kw):
    """All paths of fn(*args, **kw), if it has no effects: outcomes [(cond, kind, value, heap delta, facts, notes)]"""
    E = _E()
    snap = Snap(eng)
    saved, mark = eng.oracle, eng.nref
    tt = len(TOUCHED)
    insts0, typs0, qs0 = dict(eng.inst_terms), dict(eng.type_terms), len(eng.inst_q)
    nfresh0 = dict(eng.nfresh)
    sub = E.Oracle()
    paths, ok = [], True
    while ok:
        snap.restore(eng)
        synced = eng._sync_state
        eng.solver.push(); eng.oracle = sub; sub.start()
        kind = None
        try:
            v = eng.call_function_(fn, args, kw); kind = 'ret'
        except E.PyRaise as e: v = e.exc; kind = 'raise'
        except E.Infeasible: pass
        except (E.Unsupported, RecursionError): ok = False
        finally:
            eng.solver.pop(); eng._sync_state = synced; eng.oracle = saved
        if kind:
            if len(eng.events) != snap.ev: ok = False
            if any(eng.heap.get(r) is not c for r, c in snap.heap.items()): ok = False
            for e, vars_ in snap.envs:
                if any(e['vars'].get(k, E.MISSING) is not x for k, x in vars_.items()): ok = False
            paths.append((eng.pc[snap.pc:], kind, v, {r: c for r, c in eng.heap.items() if r > mark},
                          eng.facts[snap.facts:], eng.notes[snap.notes:]))
        if len(paths) > MAXJOIN: ok = False
        if not ok or not sub.advance(): break
    snap.restore(eng)
    if not ok or not paths:
        eng.nomerge[id(fn)] = fn
        eng.nfresh, eng.nref, eng.inst_terms, eng.type_terms = nfresh0, mark, insts0, typs0; del eng.inst_q[qs0:]
        return None
    groups = []
    for p in paths:
        for g in groups:
            q = g[0]
            if q[1] == p[1] and mergeable(q[2], p[2], q[3], p[3]): g.append(p); break
        else: groups.append([p])
    outs = []
    for g in groups:
        conds = [zand_t([E.zz(c) for c in p[0]]) for p in g]
        heap = {}
        for p in g: heap.update(p[3])
        if len(g) == 1: val, facts = g[0][2], list(g[0][4])
        else:
            n0 = eng.nref
            val = merge_val(eng, [p[2] for p in g], conds, [p[3] for p in g])
            heap.update({r: c for r, c in eng.heap.items() if r > n0})
            facts = [f if z3.is_true(c) else z3.Implies(c, f) for p, c in zip(g, conds) for f in p[4]]
        cond = z3.simplify(z3.Or(*conds)) if len(conds) > 1 else conds[0]
        outs.append((cond, g[0][1], val, heap, facts, [n for p in g for n in p[5]]))
    if len(groups) == 1: outs[0] = (outs[0][0],) + outs[0][1:]
    return (outs, eng.nref, dict(eng.nfresh), {k: v for k, v in eng.inst_terms.items() if k not in insts0},
            {k: v for k, v in eng.type_terms.items() if k not in typs0}, eng.inst_q[qs0:], list(TOUCHED)[tt:])
