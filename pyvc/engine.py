"""Symbolic execution / VC generation for Python functions taken from live modules.

Direct style: a path is one run of the interpreter; every symbolic decision goes
through `branch`, and all decision sequences are enumerated depth first by
re-running (`explore`).  Python exceptions of the verified program are `PyRaise`.
Anything without a model raises `Unsupported`: the contract is then undecided,
never violated.
"""
import ast, re, builtins, enum, types, inspect, os, time, typing
import z3
from .values import *

class PyRaise(Exception):
    def __init__(self, exc): self.exc = exc
class Unsupported(Exception): pass
class Infeasible(Exception): pass
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class Budget(Exception): pass

MISSING = object()

class Frame:
    __slots__ = ('env', 'globs', 'parent', 'fn', 'cls', 'first')
    def __init__(self, env, globs, parent, fn, cls=None, first=None):
        self.env, self.globs, self.parent, self.fn = env, globs, parent, fn
        self.cls, self.first = cls, first

class Path:
    """One explored path of a function under contract."""
    __slots__ = ('kind', 'value', 'events', 'pc', 'facts', 'heap', 'notes', 'eng', 'data')
    def __repr__(self):
        return 'Path(%s %r | %s)' % (self.kind, self.value, [e[0] for e in self.events])

def same_question(a, b):
    """a replayed path asks what it asked the first time (up to the numbering of fresh names)"""
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, bool) or isinstance(y, bool):
            if x is not y: return False
        elif x.hash() != y.hash() and re.sub(r'![0-9]+', '!', x.sexpr()) != re.sub(r'![0-9]+', '!', y.sexpr()) and not same_value(x, y): return False
    return True

def same_value(x, y):
    s = z3.Solver(); s.set('timeout', 500); s.add(x != y)
    return s.check() == z3.unsat

OPTION_NAMES = {'attr_getters', 'cls', 'encoding', 'fork_inst', 'jdkwargs', 'key_transformer', 'strict', 'strip_attr', 'strip_class_variables', 'strip_microseconds',
                'strip_nulls', 'strip_privates', 'strip_properties', 'task_type', 'tasks', 'types', 'use_enum_name', 'verbose', 'warn_on_fail'}
class Oracle:
    def __init__(self): self.trail, self.pos, self.ent, self.epos, self.mrg, self.mpos, self.lps, self.lpos = [], 0, [], 0, [], 0, [], 0
    def start(self): self.pos = self.epos = self.mpos = self.lpos = 0
    def advance(self):
        while self.trail and not self.trail[-1][1]:
            self.trail.pop()
        if not self.trail: return False
        v, rest, ne, nm, h, nl = self.trail[-1]
        self.trail[-1] = (rest[0], rest[1:], ne, nm, h, nl)
        del self.ent[ne:]; del self.mrg[nm:]; del self.lps[nl:]
        return True

# ---------------------------------------------------------------- source index
_src_index = {}
def _index_file(fname):
    if fname not in _src_index:
        with open(fname) as f: tree = ast.parse(f.read(), fname)
        idx = {}
        class V(ast.NodeVisitor):
            cls = None
            def visit_ClassDef(self, n):
                old, self.cls = self.cls, n.name
                self.generic_visit(n); self.cls = old
            def fn(self, n):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx.setdefault((n.name, line), n)
                self.generic_visit(n)
            visit_FunctionDef = visit_AsyncFunctionDef = fn
            def visit_Lambda(self, n):
                idx.setdefault(('<lambda>', n.lineno), n)
                self.generic_visit(n)
        V().visit(tree)
        _src_index[fname] = idx
    return _src_index[fname]

def node_of(fn):
    code = fn.__code__
    idx = _index_file(code.co_filename)
    n = idx.get((fn.__name__, code.co_firstlineno)) or idx.get((code.co_name, code.co_firstlineno))
    if n is None:
        raise Unsupported('no source for %r' % fn)
    return n

REPO = os.environ.get('JSONS_REPO', '/repo')
def is_repo_fn(f):
    return isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(os.path.join(REPO, 'jsons'))

# ------------------------------------------------------------- global symbols
import uuid, decimal, datetime as _dt, pathlib
CONSTRUCTORS = (int, float, bool, str, complex, bytes, uuid.UUID, decimal.Decimal, _dt.timedelta, _dt.timezone, _dt.datetime, _dt.date, _dt.time)
CLASS_ATTRS = ('__name__', '__qualname__', '__module__', '__mro__', '__bases__', '__dict__', '__doc__')    # of every class
TYPE_U = z3.Function('type_of', Val, Val)
TRUTH_U = z3.Function('truthy', Val, Bool)
LEN_U = z3.Function('len', Val, Int)
ITER = z3.Function('item', Val, Int, Val)           # i-th element of iterating over a value
DGET = z3.Function('entries', Val, Arr)             # entries of a dict value
DIDX = z3.Function('index_of_key', Val, Val, Int)
MKDICT = z3.Function('dict', Arr, Val)
MKLIST = z3.Function('list', Int, z3.ArraySort(Int, Val), Val)
GARG = z3.Function('type_arg', Val, Int, Val)       # generic arguments of a type
NGARG = z3.Function('n_type_args', Val, Int)
STRV = z3.Function('str_of', Val, Str)
_uf = {}
def uf(name, *sorts):
    k = (name,) + tuple(s.sexpr() for s in sorts)
    if k not in _uf: _uf[k] = z3.Function(name, *sorts)
    return _uf[k]

INST_CLASSES = {}
def inst_uf(c):
    INST_CLASSES[tname(c)] = c
    return uf('isinstance:' + tname(c), Val, Bool)

_disj = {}
def cannot_share_subclass(a, b):
    """True if no class can derive from both a and b (layout conflict)."""
    if (a, b) not in _disj:
        if issubclass(a, b) or issubclass(b, a): r = False
        elif (issubclass(a, type) and type(b) is not type) or (issubclass(b, type) and type(a) is not type): r = False    # (such a class would upset the ABC)
        else:
            try:
                type('X', (a, b), {}); r = False
            except TypeError:
                try:
                    type('X', (b, a), {}); r = False
                except TypeError: r = True
            except Exception: r = False
            finals = (bool, type(None), range, slice)
            if not r and (a in finals or b in finals): r = True
        _disj[(a, b)] = _disj[(b, a)] = r
    return _disj[(a, b)]

def tname(c):
    return getattr(c, '__module__', '') + '.' + getattr(c, '__qualname__', repr(c))

_AX = {}          # ground axioms, built once

def _selects(t, arrs):
    out, seen, st = [], set(), [t]
    while st:
        a = st.pop()
        if a.get_id() in seen: continue
        seen.add(a.get_id())
        if z3.is_quantifier(a): continue
        if z3.is_select(a) and a.arg(0).get_id() in arrs: out.append((a, arrs[a.arg(0).get_id()]))
        st += a.children()
    return out

def canon_arr(a):
    """the same array; its writes to constant string keys once each, in a fixed order"""
    d, b = {}, a
    while z3.is_app_of(b, z3.Z3_OP_STORE):
        k = b.arg(1)
        if not (z3.is_app(k) and k.decl().name() == 'strv' and z3.is_string_value(k.arg(0))): break
        d.setdefault(k.arg(0).as_string(), (k, b.arg(2)))
        b = b.arg(0)
    if not d: return a
    if not (b.decl().kind() == z3.Z3_OP_UNINTERPRETED and b.num_args() == 0 or z3.is_const_array(b) or z3.is_app_of(b, z3.Z3_OP_STORE) or z3.is_app(b)): return a
    for s in sorted(d): b = z3.Store(b, *d[s])
    return b

class Engine:
    def __init__(self, summaries=None, inline=None, feas_ms=2000, max_paths=4000, deadline=None):
        self.summaries = summaries or {}       # id(function) -> handler(eng, args, kw)
        self.read_hooks = {}                   # id of a term -> what to do when its content is read
        self.method_models = {}                # (name) -> handler for methods on unknown values
        self.call_models, self.index_models = {}, {}      # name of a term -> handler for calling / subscripting it
        self.feas_ms, self.max_paths, self.deadline = feas_ms, max_paths, deadline
        self.merging, self.nomerge = True, {}
        self.member_of = {}       # what is known to be in a list or tuple: term -> element -> condition
        self.element_of = {}      # preconditions on every element of an argument: term -> (index, element) -> condition
        self.subscript_exc = None              # assumed: what subscripting an unknown object may raise
        self.executed = {}                     # function -> file:line, for the evidence
        self.solver_time = 0.0; self.checks = 0
        self.reset()

    # ------------------------------------------------------------------ state
    def reset(self):
        self.pc, self.facts, self.events, self.heap = [], [], [], {}
        self.frames, self.loops = [], []
        self.iters = []           # indices of the iterations being executed, generic or not
        self.decided, self._keep = {}, []
        self.nfresh, self.nref, self.notes = {}, 0, []
        self.inst_q = []          # queried types (concrete)
        self.inst_terms = {}      # sexpr -> term
        self.type_terms = {}
        self._sync_state = ([], [], [], [])
        TOUCHED.clear()
        self.solver = z3.Solver(); self.solver.set('timeout', self.feas_ms)
        # paths are pruned without the string theory: fewer prunings, never a wrong one
        self.solver.set('smt.string_solver', 'none')
        self.depth = 0
        self.data = {}
        self.handled = []

    def fresh(self, name, sort):
        c = self.nfresh.get(name, 0); self.nfresh[name] = c + 1
        nm = '%s!%d' % (name, c)
        if self.loops:
            f = z3.Function(nm, *([Int] * len(self.loops) + [sort]))
            return f(*self.loops)
        return z3.Const(nm, sort)

    def note(self, s): self.notes.append(s)

    def assume(self, c):
        if c is True: return
        if c is False: raise Infeasible()
        self.pc.append(c); self.solver.add(c)
        self._decide(c)

    def _decide(self, c, v=True):
        if v: self.decided[c.get_id()] = True
        if z3.is_not(c): self.decided[c.arg(0).get_id()] = not v; self._keep.append(c.arg(0)); 
        elif not v: self.decided[c.get_id()] = False
        if v and z3.is_and(c):
            for x in c.children(): self._keep.append(x); self._decide(x)

    def fact(self, c):
        """hypothesis used for obligations only (may be quantified)"""
        if c is True: return
        self.facts.append(c)

    def _check(self, *c):
        self.sync(self.solver.add)
        t = time.time()
        r = self.solver.check(*c)
        self.solver_time += time.time() - t; self.checks += 1
        if self.deadline and time.time() > self.deadline: raise Budget('time budget exhausted')
        return r

    def entails(self, c):
        if isinstance(c, bool): return c
        h0 = (c,)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        o = self.oracle
        if o.epos < len(o.ent):      # replay of a path prefix
            r, h = o.ent[o.epos]
            if not same_question(h, h0): raise Unsupported('replay of a path diverged')
        else:
            r = self._check(z3.Not(c)) == z3.unsat
            o.ent.append((r, h0))
        o.epos += 1
        return r

    def feasible(self, c):
        if isinstance(c, bool): return c
        return self._check(c) != z3.unsat

    def choose(self, alts, free=False):
        """alts: list of z3/bool conditions, exhaustive; returns index of the one taken"""
        o = self.oracle
        if o.pos < len(o.trail):
            v = o.trail[o.pos][0]
            if not same_question(o.trail[o.pos][4], alts): raise Unsupported('replay of a path diverged')
        else:
            if free: ok = [i for i, c in enumerate(alts) if c is not False]
            else:
                ok = []
                for i, c in enumerate(alts):
                    # the last alternative of an exhaustive list needs no check if the others are impossible
                    if (i == len(alts) - 1 and not ok and len(alts) == 2) or self.feasible(c): ok.append(i)
            if not ok: raise Infeasible()
            o.trail.append((ok[0], ok[1:], o.epos, o.mpos, alts, o.lpos)); v = ok[0]
        o.pos += 1
        c = alts[v]
        if c is not True: self.assume(c)
        return v

    def branch(self, c, free=False):
        """free: both outcomes are taken to be possible without asking the solver"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        d = self.decided.get(c.get_id())        # decided before on this path
        if d is not None: return d
        if z3.is_not(c):
            d = self.decided.get(c.arg(0).get_id())
            if d is not None: return not d
        return self.choose([c, z3.Not(c)], free) == 0

    def explore(self, thunk):
        """Run thunk() on every path; returns a list of Path."""
        out = []
        oracle = Oracle()
        n = 0
        while True:
            self.reset(); self.oracle = oracle; oracle.start()
            p = Path(); p.eng = self
            try:
                p.value = thunk(); p.kind = 'ret'
            except PyRaise as e:
                p.value = e.exc; p.kind = 'raise'
            except Infeasible:
                p.kind = None
            if p.kind:
                self.sync(self.solver.add)
                p.events, p.pc, p.facts = self.events, self.pc, self.facts
                p.heap, p.notes, p.data = self.heap, self.notes, self.data
                p.pc = p.pc + self._sync_list()
                out.append(p)
            n += 1
            if n > self.max_paths: raise Unsupported('more than %d paths' % self.max_paths)
            if not oracle.advance(): break
        return out

    # ---------------------------------------------------- types of values
    def inst(self, t, cls):
        """z3 Bool: isinstance(t, cls) for a concrete class cls"""
        if cls is object: return z3.BoolVal(True)
        if cls not in self.inst_q: self.inst_q.append(cls)
        t = z3.simplify(t)
        self.inst_terms.setdefault(t.get_id(), t)
        d = t.decl().name() if z3.is_app(t) else ''
        def sub(c):
            try: return z3.BoolVal(issubclass(c, cls))
            except TypeError: return z3.BoolVal(False)
        if d == 'none': return sub(type(None))
        if d == 'boolv': return sub(bool)
        if d == 'intv': return sub(int)
        if d == 'strv': return sub(str)
        if d == 'fltv': return sub(float)
        f = inst_uf(cls)
        return z3.If(Val.is_none(t), sub(type(None)), z3.If(Val.is_boolv(t), sub(bool),
               z3.If(Val.is_intv(t), sub(int), z3.If(Val.is_strv(t), sub(str),
               z3.If(Val.is_fltv(t), sub(float), f(t))))))

    def typeof(self, t):
        self.type_terms.setdefault(t.get_id(), t)
        self.inst_terms.setdefault(t.get_id(), t)
        return z3.If(Val.is_none(t), const_term(type(None)), z3.If(Val.is_boolv(t), const_term(bool),
               z3.If(Val.is_intv(t), const_term(int), z3.If(Val.is_strv(t), const_term(str),
               z3.If(Val.is_fltv(t), const_term(float), TYPE_U(t))))))

    def _sync_list(self):
        out = []
        self._sync_state, old = ([], [], [], []), self._sync_state
        self.sync(out.append)
        self._sync_state = old
        return out

    def sync(self, add):
        """ground axioms about isinstance/type/truth for the terms mentioned so far (new combinations only)"""
        from .values import _objs, TOUCHED
        st = self._sync_state
        qs, terms, tys, objs = list(self.inst_q), list(self.inst_terms.items()), list(self.type_terms.items()), list(TOUCHED)
        nq, nt, ny, no = len(st[0]), len(st[1]), len(st[2]), len(st[3])
        if (nq, nt, ny, no) == (len(qs), len(terms), len(tys), len(objs)): return
        def emit(k, mk):
            if k not in _AX: _AX[k] = mk()
            e = _AX[k]
            if e is not None: add(e)
        I_ = inst_uf
        def pair(tk, t, a, b):
            def mk():
                fa, fb = I_(a)(t), I_(b)(t)
                try:
                    if issubclass(a, b): return z3.Implies(fa, fb)
                    if issubclass(b, a): return z3.Implies(fb, fa)
                    if cannot_share_subclass(a, b): return z3.Not(z3.And(fa, fb))
                except TypeError: pass
            emit((tk, a, b), mk)
        for ti, (tk, t) in enumerate(terms):
            for i in range(len(qs)):
                for j in range(i):
                    if ti >= nt or i >= nq: pair(tk, t, qs[i], qs[j])
        for tk, t in tys[ny:]:
            emit((tk, 'base'), lambda: z3.And(Val.is_ref(TYPE_U(t)), TRUTH_U(TYPE_U(t)), *[TYPE_U(t) != const_term(c) for c in (int, str, bool, type(None))]))
        for oi, j in enumerate(objs):
            o = _objs[j]
            rt = lambda: Val.ref(z3.IntVal(j))
            if oi >= no:
                def mk():
                    try: return TRUTH_U(rt()) == z3.BoolVal(bool(o))
                    except Exception: return None
                emit(('truth', j), mk)
            for qi, a in enumerate(qs):
                if oi < no and qi < nq: continue
                def mk():
                    try: return I_(a)(rt()) == z3.BoolVal(isinstance(o, a))
                    except Exception: return None
                emit(('o', j, a), mk)
            if isinstance(o, type):
                for yi, (tk, t) in enumerate(tys):
                    for qi, a in enumerate(qs):
                        if oi < no and yi < ny and qi < nq: continue
                        def mk():
                            try: return z3.Implies(TYPE_U(t) == rt(), I_(a)(t) == z3.BoolVal(issubclass(o, a)))
                            except TypeError: return None
                        emit((tk, j, a, 'ty'), mk)
        self._sync_state = (qs, terms, tys, objs)

    # ---------------------------------------------------- heap
    def alloc(self, content):
        self.nref += 1
        r = Ref(self.nref)
        self.heap[r.id] = content
        return r
    def get(self, ref): return self.heap[ref.id]
    def put(self, ref, content): self.heap[ref.id] = content

    def mklist(self, elems, kind='list'):
        return self.alloc(ListC([('e', e) for e in elems], kind))
    def mkdict(self, items=(), base=None):
        return self.alloc(DictC(base, items))
    def mkseq(self, seq, kind='list'):
        return self.alloc(ListC([('seq', seq)], kind))

    # ---------------------------------------------------- embedding into Val
    def tv(self, v):
        if isinstance(v, T): return v.t
        if isinstance(v, B): return Val.boolv(v.t)
        if isinstance(v, I): return Val.intv(v.t)
        if isinstance(v, R): return Val.fltv(v.t)
        if isinstance(v, St): return Val.strv(v.t)
        if isinstance(v, Rope): return Val.strv(self.rope_str(v))
        if isinstance(v, Ref): return self.ref_term(v)
        if isinstance(v, Clo):
            if is_identity(v.node): return IDENT
            return Val.ref(z3.IntVal(-1000000 - v.id))
        if isinstance(v, Model):
            return Val.ref(z3.IntVal(intern_id(v)))
        if isinstance(v, Bound):
            return uf('bound:' + v.name, Val, Val)(self.tv(v.obj))
        if isinstance(v, Poison): raise Unsupported('value not tracked: ' + v.why)
        if isinstance(v, Seq): raise Unsupported('iterator as a value')
        if isinstance(v, tuple) and any(isinstance(x, SYMBOLIC) for x in v):
            return self.ref_term(self.mklist(list(v), 'tuple'))
        return const_term(v)

    def rope_str(self, v):
        key = 'rope:' + '|'.join(s if isinstance(s, str) else '%%d%d' % s[1] for s in v.segs)
        args = [s[2] for s in v.segs if not isinstance(s, str)]
        if not args:
            return z3.StringVal(''.join(v.segs))
        return uf(key, *([Int] * len(args) + [Str]))(*args)

    def arr_of(self, c):
        """z3 array of a dict content"""
        a = EMPTY if c.base is None else c.base
        if isinstance(a, Opaque): raise Unsupported('read of a container while it is being built')
        for e in c.log:
            if isinstance(e, Writes): raise Unsupported('dict built by a loop as a value')
            k, v = e
            a = z3.Store(a, self.tv(k), Val.absent if v is DELETED else self.tv(v))
        return canon_arr(a)

    def ref_term(self, r):
        c = self.get(r)
        if isinstance(c, DictC):
            if any(isinstance(e, Writes) for e in c.log) or isinstance(c.base, Opaque):
                return self.snapshot(r, c)
            return MKDICT(self.arr_of(c))
        if isinstance(c, ListC):
            if c.concrete() and c.kind != 'set':
                els = [self.tv(e) for e in c.elems()]
                return uf('%s%d' % (c.kind, len(els)), *([Val] * len(els) + [Val]))(*els) if els else const_term(()) if c.kind == 'tuple' else uf('list0', Int, Val)(z3.IntVal(0))
            return self.snapshot(r, c)
        if c.term is not None: return c.term
        return Val.ref(z3.IntVal(-r.id))

    def snapshot(self, r, c):
        t = None
        if isinstance(c, ListC) and c.kind == 'tuple':      # immutable: given by its elements
            try: ts = [('e', self.tv(p[1])) if p[0] == 'e' else ('s', p[1].what) if p[0] == 'seq' and isinstance(p[1].what, z3.ExprRef) and p[1].what.sort() == Val and p[1].guard is None else None for p in c.parts]
            except Unsupported: ts = [None]
            if all(ts): t = uf('tuple:' + ''.join(k for k, _ in ts), *([Val] * (len(ts) + 1)))(*[x for _, x in ts])
        if t is None: t = self.fresh('snapshot', Val)
        self.data.setdefault('snapshots', {})[t.sexpr()] = (t, c)
        return t

    def bool_(self, v):
        """Python truth value of v: bool or z3 Bool"""
        if isinstance(v, B): return v.t
        if isinstance(v, I): return v.t != 0
        if isinstance(v, R): return v.t != 0
        if isinstance(v, St): return v.t != z3.StringVal('')
        if isinstance(v, Rope): return bool(v.segs)
        if isinstance(v, (Clo, Bound, Model)): return True
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, ListC):
                n = self.len_(v)
                return n != 0 if isinstance(n, int) else n.t != 0
            if isinstance(c, DictC):
                n = self.dict_nonempty(c)
                return n
            h = self.method_models.get((c.cls, '__bool__'))
            return zz(self.bool_(h(self, v, [], DictC()))) if h is not None else True
        if isinstance(v, Seq): return True
        if isinstance(v, Poison): raise Unsupported('value not tracked: ' + v.why)
        if isinstance(v, T):
            t = v.t
            return z3.If(Val.is_none(t), False, z3.If(Val.is_boolv(t), Val.b(t), z3.If(Val.is_intv(t), Val.i(t) != 0,
                   z3.If(Val.is_strv(t), Val.s(t) != z3.StringVal(''), z3.If(Val.is_fltv(t), Val.r(t) != 0, TRUTH_U(t))))))
        if isinstance(v, tuple): return len(v) > 0
        return bool(v)

    def truth(self, v): return self.branch(self.bool_(v))

    def dict_nonempty(self, c):
        if isinstance(c.base, Opaque): raise Unsupported('size of a dict under construction')
        if c.base is None:
            if not c.log: return False
            if all(not isinstance(e, Writes) and e[1] is not DELETED for e in c.log): return True
            if len(c.log) == 1 and isinstance(c.log[0], Writes) and c.log[0].cond is None:
                n = c.log[0].n
                return n > 0 if not isinstance(n, int) else n > 0
        b = self.fresh('nonempty', Bool)
        if c.base is None and len(c.log) == 1 and isinstance(c.log[0], Writes) and c.log[0].cond is not None:
            w, cond, j = self.fresh('some', Int), c.log[0].cond, z3.Int('j!ne')
            g = lambda i: z3.And(0 <= i, i < c.log[0].n, zz(cond(i)))
            self.fact(z3.Implies(b, g(w))); self.fact(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Not(g(j)))))
            return b
        x = z3.Const('k!ne', Val)
        try:
            a = self.arr_of(c)
            self.fact(b == z3.Exists([x], a[x] != Val.absent))
        except Unsupported: pass
        return b

    # ---------------------------------------------------- equality / comparison
    def is_(self, a, b):
        if not isinstance(a, SYMBOLIC) and not isinstance(b, SYMBOLIC):
            return a is b or (type(a) in (int, str, float, tuple) and type(a) is type(b) and a == b)
        if isinstance(a, Ref) and isinstance(b, Ref): return a.id == b.id
        if isinstance(a, (Clo, Model)) or isinstance(b, (Clo, Model)): return a is b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and not isinstance(y, Ref):
                c = self.get(x)
                if isinstance(c, InstC) and c.term is not None: return c.term == self.tv(y)
                if isinstance(y, T) and (not isinstance(c, InstC)): return self.ref_term(x) == y.t
                return False
        return self.tv(a) == self.tv(b)

    def eq(self, a, b):
        if not isinstance(a, SYMBOLIC) and not isinstance(b, SYMBOLIC):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b): return False
                return zand([self.eq(x, y) for x, y in zip(a, b)])
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Rope) and isinstance(y, (str, Rope)): return self.rope_eq(x, y)
            if isinstance(x, Ref):
                c = self.get(x)
                if isinstance(y, Ref):
                    if x.id == y.id: return True
                    d = self.get(y)
                    if isinstance(c, ListC) and isinstance(d, ListC) and c.concrete() and d.concrete():
                        if c.kind != d.kind or len(c.parts) != len(d.parts): return False
                        return zand([self.eq(p, q) for p, q in zip(c.elems(), d.elems())])
                    if type(c) is not type(d): return False
                    if isinstance(c, InstC): return False
                    return self.ref_term(x) == self.ref_term(y)
                if isinstance(c, InstC): return self.is_(a, b)
                if isinstance(y, T): return self.ref_term(x) == y.t
                if isinstance(y, (tuple, list)) and isinstance(c, ListC) and c.concrete():
                    if len(y) != len(c.parts) or c.kind != type(y).__name__: return False
                    return zand([self.eq(p, q) for p, q in zip(c.elems(), y)])
                if isinstance(y, SYMBOLIC) or y is None or isinstance(y, (str, int, float, bool, type)): return False
                raise Unsupported('equality with a container')
        num = (I, R, B, bool, int, float)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and isinstance(x, enum.Enum) and isinstance(y, T):      # an IntEnum member equals itself and its number
                return z3.Or(y.t == const_term(x), z3.And(Val.is_intv(y.t), Val.i(y.t) == int(x)))
        if isinstance(a, num) and isinstance(b, num):
            x, y = self.num(a), self.num(b)
            return x == y
        if isinstance(a, T) and isinstance(b, num): a, b = b, a
        if isinstance(a, num) and isinstance(b, T):
            x = self.num(a); t = b.t
            return z3.Or(z3.And(Val.is_intv(t), Val.i(t) == x) if not self.isreal(x) else z3.And(Val.is_intv(t), z3.ToReal(Val.i(t)) == x),
                         z3.And(Val.is_fltv(t), Val.r(t) == x),
                         z3.And(Val.is_boolv(t), z3.If(Val.b(t), 1, 0) == x))
        return self.tv(a) == self.tv(b)

    def isreal(self, x):
        return isinstance(x, float) or (isinstance(x, z3.ExprRef) and x.sort() == Real)

    def num(self, v):
        """z3/py number of a numeric value"""
        if isinstance(v, bool): return int(v)
        if isinstance(v, (int, float)): return v
        if isinstance(v, (I, R)): return v.t
        if isinstance(v, B): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, T):
            t = v.t
            k = self.choose([Val.is_intv(t), Val.is_boolv(t), Val.is_fltv(t),
                             z3.Not(z3.Or(Val.is_intv(t), Val.is_boolv(t), Val.is_fltv(t)))])
            if k == 0: return Val.i(t)
            if k == 1: return z3.If(Val.b(t), z3.IntVal(1), z3.IntVal(0))
            if k == 2: return Val.r(t)
            self.raise_(TypeError, 'not a number')
        if v is None or isinstance(v, (str, St, type)): self.raise_(TypeError, 'not a number')
        raise Unsupported('number expected: %r' % (v,))

    def mknum(self, x):
        if isinstance(x, (int, float)) and not isinstance(x, bool): return x
        x = z3.simplify(x)
        if z3.is_int_value(x): return x.as_long()
        return R(x) if x.sort() == Real else I(x)

    # ---------------------------------------------------- raising
    def mkexc(self, cls, *args):
        return self.instantiate(cls, list(args), {})
    def raise_(self, cls, *args):
        raise PyRaise(self.mkexc(cls, *args))
    def unknown_exc(self, name, base=Exception):
        t = self.fresh(name, Val)
        self.assume(Val.is_ref(t)); self.assume(self.inst(t, base))
        return T(t)
    def exc_matches(self, exc, cls):
        """bool/z3: isinstance(exc, cls); cls a class or tuple of classes"""
        if isinstance(cls, tuple):
            return zor([self.exc_matches(exc, c) for c in cls])
        if isinstance(exc, Ref):
            return issubclass(self.get(exc).cls, cls)
        return self.inst(exc.t, cls)

    # ---------------------------------------------------- names
    def lookup(self, name):
        f = self.frames[-1]
        e = f.env
        while e is not None:
            if name in e['vars']:
                v = e['vars'][name]
                if v is MISSING: self.raise_(UnboundLocalError, name)
                return v
            if name in e.get('locals', ()) and e is f.env:
                self.raise_(UnboundLocalError, name)
            e = e['up']
        if name in f.globs: return f.globs[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        self.raise_(NameError, name)

    def assign_name(self, name, v):
        e = self.frames[-1].env
        if name in e.get('nonlocals', ()):
            u = e['up']
            while u is not None:
                if name in u['vars']:
                    u['vars'][name] = v; return
                u = u['up']
        if name in e.get('globals', ()): raise Unsupported('global assignment')
        e['vars'][name] = v

    # ---------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts: self.exec(s)

    def exec(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement %s (line %d)' % (type(s).__name__, s.lineno))
        return m(s)

    def s_Expr(self, s): self.ev(s.value)
    def s_Pass(self, s): pass
    def s_Return(self, s): raise ReturnEx(self.ev(s.value) if s.value else None)
    def s_Break(self, s): raise BreakEx()
    def s_Continue(self, s): raise ContinueEx()
    def s_Import(self, s):
        for a in s.names:
            m = __import__(a.name)
            self.assign_name(a.asname or a.name.split('.')[0], m)
    def s_ImportFrom(self, s):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names: self.assign_name(a.asname or a.name, getattr(m, a.name))
    def s_Nonlocal(self, s): self.frames[-1].env.setdefault('nonlocals', set()).update(s.names)
    def s_Global(self, s): self.frames[-1].env.setdefault('globals', set()).update(s.names)
    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)): self.raise_(AssertionError)
    def s_If(self, s):
        if self.truth(self.ev(s.test)): self.exec_block(s.body)
        else: self.exec_block(s.orelse)
    def s_FunctionDef(self, s):
        v = self.closure(s)
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.assign_name(s.name, v)
    s_AsyncFunctionDef = s_FunctionDef
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.store(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None: self.store(s.target, self.ev(s.value))
    def s_AugAssign(self, s):
        load = ast.copy_location(_as_load(s.target), s.target)
        if isinstance(s.target, ast.Name):
            old = self.lookup(s.target.id); tgt = None
        elif isinstance(s.target, ast.Attribute):
            obj = self.ev(s.target.value); old = self.getattr_(obj, s.target.attr); tgt = ('a', obj, s.target.attr)
        else:
            obj = self.ev(s.target.value); key = self.ev_index(s.target.slice)
            old = self.getitem(obj, key); tgt = ('i', obj, key)
        v = self.ev(s.value)
        if isinstance(s.op, ast.BitOr) and isinstance(old, T) and self.entails(self.inst(old.t, set)):      # the set itself is extended
            self.events.append(('mutate', old.t, 'update', (v,), list(self.loops))); new = old
        else: new = self.binop(type(s.op).__name__, old, v, inplace=True)
        if tgt is None: self.assign_name(s.target.id, new)
        elif tgt[0] == 'a': self.setattr_(tgt[1], tgt[2], new)
        else: self.setitem(tgt[1], tgt[2], new)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev_index(t.slice))
            elif isinstance(t, ast.Name):
                self.frames[-1].env['vars'].pop(t.id, None)
            else: raise Unsupported('del')

    def s_Raise(self, s):
        if s.exc is None:
            if not self.handled: self.raise_(RuntimeError, 'No active exception to reraise')
            raise PyRaise(self.handled[-1])
        e = self.ev(s.exc)
        if isinstance(e, type): e = self.instantiate(e, [], {})
        if s.cause is not None:
            c = self.ev(s.cause)
            if isinstance(e, Ref): self.put(e, self.get(e).with_attr('__cause__', c))
        elif isinstance(e, Ref) and self.handled:
            if '__context__' not in self.get(e).attrs:
                self.put(e, self.get(e).with_attr('__context__', self.handled[-1]))
        if not isinstance(e, (Ref, T)): raise Unsupported('raise of %r' % (e,))
        raise PyRaise(e)

    def s_Try(self, s):
        def body():
            try:
                self.exec_block(s.body)
            except PyRaise as e:
                for h in s.handlers:
                    cls = self.ev(h.type) if h.type is not None else BaseException
                    if isinstance(cls, Ref): cls = tuple(self.get(cls).elems())
                    if self.branch(self.exc_matches(e.exc, cls)):
                        if h.name: self.assign_name(h.name, e.exc)
                        self.handled.append(e.exc)
                        try: self.exec_block(h.body)
                        finally: self.handled.pop()
                        if h.name: self.frames[-1].env['vars'].pop(h.name, None)
                        return
                raise
            else:
                self.exec_block(s.orelse)
        if s.finalbody:
            try: body()
            except (PyRaise, ReturnEx, BreakEx, ContinueEx):
                self.exec_block(s.finalbody); raise
            else: self.exec_block(s.finalbody)
        else: body()

    def s_With(self, s):
        if len(s.items) != 1: raise Unsupported('with')
        it = s.items[0]
        cm = self.ev(it.context_expr)
        if isinstance(cm, Ref) and isinstance(self.get(cm), InstC) and self.get(cm).cls is _Suppress:
            try: self.exec_block(s.body)
            except PyRaise as e:
                if not self.branch(self.exc_matches(e.exc, self.get(cm).attrs['excs'])): raise
            return
        raise Unsupported('with')

    def store(self, t, v):
        if isinstance(t, ast.Name): self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, vs): self.store(a, b)
        elif isinstance(t, ast.Attribute): self.setattr_(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value), self.ev_index(t.slice), v)
        else: raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, (tuple, list)):
            if len(v) != n: self.raise_(ValueError, 'unpack')
            return list(v)
        if isinstance(v, Ref) and isinstance(self.get(v), ListC) and self.get(v).concrete():
            els = self.get(v).elems()
            if len(els) != n: self.raise_(ValueError, 'unpack')
            return els
        if isinstance(v, T):
            ln = self.len_(v)
            if not self.branch(ln.t == n): self.raise_(ValueError, 'unpack')
            return [T(ITER(v.t, z3.IntVal(i))) for i in range(n)]
        if isinstance(v, Ref) and isinstance(self.get(v), ListC):
            seq = self.iter_(v)
            if seq.guard is None:
                if not self.branch(seq.n == n): self.raise_(ValueError, 'unpack')
                return [seq.get(z3.IntVal(i)) for i in range(n)]
        raise Unsupported('unpack %r' % (v,))


    # ---------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s (line %s)' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e)

    def e_Constant(self, e): return e.value
    def e_Name(self, e): return self.lookup(e.id)
    def e_NamedExpr(self, e):
        v = self.ev(e.value); self.assign_name(e.target.id, v); return v
    def e_Await(self, e):
        v = self.ev(e.value)
        if isinstance(v, T): return T(uf('await', Val, Val)(v.t))
        return v
    def e_Lambda(self, e): return self.closure(e)
    def closure(self, e):
        f = self.frames[-1]
        a = e.args
        self.nref += 1
        cid = self.nref
        if self.loops: pass
        return Clo(e, f.env, f.globs, getattr(e, 'name', '<lambda>'),
                   [self.ev(d) for d in a.defaults],
                   [self.ev(d) if d is not None else MISSING for d in a.kw_defaults], cid)
    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if isand and not t: return v
            if not isand and t: return v
        return v
    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        k = type(e.op).__name__
        if k == 'Not':
            b = self.bool_(v)
            return (not b) if isinstance(b, bool) else B(z3.Not(b))
        if k == 'USub':
            return -v if isinstance(v, (int, float)) else self.mknum(-self.num(v))
        if k == 'UAdd': return v
        raise Unsupported('unary ' + k)
    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)
    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.ev(e.left), self.ev(e.right))
    def e_Tuple(self, e): return self.seq_display(e.elts, 'tuple')
    def e_List(self, e): return self.seq_display(e.elts, 'list')
    def e_Set(self, e): return self.seq_display(e.elts, 'set')
    def seq_display(self, elts, kind):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred): parts += self.parts_of(self.ev(x.value))
            else: parts.append(('e', self.ev(x)))
        if kind == 'tuple' and all(p[0] == 'e' for p in parts):
            vals = [p[1] for p in parts]
            if not any(isinstance(v, SYMBOLIC) for v in vals): return tuple(vals)
        return self.alloc(ListC(parts, kind))

    def parts_of(self, v):
        """list parts of an iterable value"""
        if isinstance(v, (tuple, list)): return [('e', x) for x in v]
        if isinstance(v, Ref) and isinstance(self.get(v), ListC): return list(self.get(v).parts)
        return [('seq', self.iter_(v))]

    def e_Dict(self, e):
        base, log = None, []
        first = True
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v)
                b, l = self.dict_parts(x)
                if b is None: log += l
                elif not log and base is None: base, log = b, list(l)
                elif isinstance(b, Opaque): raise Unsupported('merge of a dict under construction')
                else:
                    # {..., **b}: every entry of b overrides what was there
                    base = self.merge(self.arr_of(DictC(base, log)), self.arr_of(DictC(b, l))); log = []
            else:
                log.append((self.ev(k), self.ev(v)))
        return self.alloc(DictC(base, log))

    def sel(self, a, k):
        """a[k], seeing through merged arrays"""
        t = z3.simplify(a[k])
        ms = self.data.get('merged')
        if not ms: return t
        for _ in range(20):
            hit = _selects(t, {m.get_id(): (x, y) for m, x, y in ms})
            if not hit: return t
            t = z3.simplify(z3.substitute(t, *[(s, z3.If(y[s.arg(1)] != Val.absent, y[s.arg(1)], x[s.arg(1)])) for s, (x, y) in hit]))
        return t

    def merge(self, a, b):
        """array of {**a, **b}"""
        st = []
        x = b
        while z3.is_store(x): st.append((x.arg(1), x.arg(2))); x = x.arg(0)
        if z3.is_K(x) or x.eq(EMPTY):
            for k, v in reversed(st):
                a = z3.If(v == Val.absent, a, z3.Store(a, k, v)) if not _is_const_app(v) else (a if v.eq(Val.absent) else z3.Store(a, k, v))
            return a
        if a.eq(EMPTY): return b
        # a = EMPTY plus finitely many stores: result = b plus those of a that b lacks
        st = []; x = a
        while z3.is_store(x): st.append((x.arg(1), x.arg(2))); x = x.arg(0)
        if x.eq(EMPTY):
            r = b
            seen = []
            for k, v in st:      # newest first
                r = z3.Store(r, k, z3.If(z3.Or(b[k] != Val.absent, *[k == s for s in seen]), r[k], v))
                seen.append(k)
            return r
        m = self.fresh('merged', Arr)
        k = z3.Const('k!m', Val)
        self.fact(forall([k], m[k] == z3.If(b[k] != Val.absent, b[k], a[k]), [m[k]]))
        self.data.setdefault('merged', []).append((m, a, b))
        return m

    def dict_parts(self, x):
        """(base, log) of a mapping value"""
        if isinstance(x, dict): return None, [(k, v) for k, v in x.items()]
        if isinstance(x, Ref):
            c = self.get(x)
            if isinstance(c, DictC): return c.base, list(c.log)
            if isinstance(c, InstC): raise Unsupported('** of an instance')
            raise Unsupported('** of a list')
        if isinstance(x, T):
            if self.branch(self.inst(x.t, dict)): return self.dget(x.t), []
            if not self.branch(uf('is_mapping', Val, Bool)(x.t)): self.raise_(TypeError, 'not a mapping')
            return self.dget(x.t), []
        if x is None: self.raise_(TypeError, 'not a mapping')
        raise Unsupported('mapping expected: %r' % (x,))

    def dget(self, t):
        a = DGET(t)
        if z3.is_app(t) and t.decl().eq(MKDICT): return t.arg(0)
        return a

    def e_Compare(self, e):
        l = self.ev(e.left)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(r)
            v = self.compare(type(op).__name__, l, r)
            if i == len(e.ops) - 1: res = v
            else:
                if not self.branch(v): return False
            l = r
        return res if isinstance(res, bool) else B(res)

    def compare(self, op, a, b):
        """bool or z3 Bool"""
        if op == 'Is': return self.is_(a, b)
        if op == 'IsNot': return znot(self.is_(a, b))
        if op == 'Eq': return self.eq(a, b)
        if op == 'NotEq': return znot(self.eq(a, b))
        if op == 'In': return self.contains(b, a)
        if op == 'NotIn': return znot(self.contains(b, a))
        if not isinstance(a, SYMBOLIC) and not isinstance(b, SYMBOLIC):
            return self.native(lambda: {'Lt': a.__class__.__lt__, 'LtE': a.__class__.__le__, 'Gt': a.__class__.__gt__, 'GtE': a.__class__.__ge__}[op](a, b)
                               if type(a) is type(b) else {'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}[op](a, b))
        x, y = self.num(a), self.num(b)
        return {'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[op]()

    def contains(self, c, x):
        if isinstance(c, (Rope, str)) and isinstance(x, (Rope, str)) and (isinstance(c, Rope) or isinstance(x, Rope)):
            return self.rope_contains(c, x)
        if isinstance(c, St) or (isinstance(c, str) and isinstance(x, SYMBOLIC)):
            xs = self.sterm(x)
            if xs is None: self.raise_(TypeError, 'in <string>')
            return z3.Contains(self.sterm(c), xs)
        if isinstance(c, (tuple, list, set, frozenset, dict)):
            if not isinstance(x, SYMBOLIC) and not any(isinstance(y, SYMBOLIC) for y in c):
                return self.native(lambda: x in c)
            return zor([self.eq(x, y) for y in c])
        if isinstance(c, Ref):
            cc = self.get(c)
            if isinstance(cc, DictC): return self.dict_has(cc, x)
            if isinstance(cc, ListC):
                out = []
                for p in cc.parts:
                    if p[0] == 'e': out.append(self.eq(p[1], x))
                    elif p[0] == 'seq':
                        sq = p[1]
                        m = self.member_of.get(sq.what.sexpr()) if isinstance(sq.what, z3.ExprRef) and sq.guard is None else None
                        if m is not None: out.append(m(self.tv(x))); continue
                        j = z3.Int('j!in'); b = self.fresh('contained', Bool)
                        w = self.fresh('where', Int)
                        g = lambda i: z3.And(0 <= i, i < sq.n, zz(sq.guard(i)) if sq.guard else True, zz(self.eq(sq.get(i), x)))
                        self.fact(z3.Implies(b, g(w)))
                        self.assume(z3.Implies(b, g(w)))
                        self.fact(z3.ForAll([j], z3.Implies(g(j), b)))
                        out.append(b)
                    else: raise Unsupported('membership in a list under construction')
                return zor(out)
            return self.truth(self.call_method(c, '__contains__', [x], {}))
        if isinstance(c, T):
            t = c.t
            self.unaltered(t)
            m = self.member_of.get(t.sexpr())
            if m is not None: return m(self.tv(x))
            k = self.choose([self.inst(t, dict), z3.And(Val.is_strv(t)), z3.Not(z3.Or(self.inst(t, dict), Val.is_strv(t)))])
            if k == 0: return self.dget(t)[self.tv(x)] != Val.absent
            if k == 1:
                xs = self.sterm(x)
                if xs is None: self.raise_(TypeError, 'in <string>')
                return z3.Contains(Val.s(t), xs)
            if not self.branch(z3.Or(uf('is_container', Val, Bool)(t), self.inst(t, tuple), self.inst(t, list), self.inst(t, set))): self.raise_(TypeError, 'not a container')
            if self.entails(z3.Or(self.inst(t, tuple), self.inst(t, list))):
                # elements of a sequence, compared as terms
                b, w, j = self.fresh('contained', Bool), self.fresh('where', Int), z3.Int('j!in')
                xt = self.tv(x)
                self.assume(z3.Implies(b, z3.And(0 <= w, w < LEN_U(t), ITER(t, w) == xt)))
                self.fact(forall([j], z3.Implies(z3.And(0 <= j, j < LEN_U(t), ITER(t, j) == xt), b), [ITER(t, j)]))
                return b
            return uf('contains', Val, Val, Bool)(t, self.tv(x))
        if isinstance(c, Seq):
            return self.contains(self.mkseq(c), x)
        if isinstance(c, SYMBOLIC): raise Unsupported('in %r' % (c,))
        if isinstance(x, SYMBOLIC):     # e.g. Flag membership, mappingproxy
            return uf('contains', Val, Val, Bool)(self.tv(c), self.tv(x))
        return self.native(lambda: x in c)

    def sterm(self, x):
        """z3 String of a str value, None if it is not known to be one"""
        if isinstance(x, str): return z3.StringVal(x)
        if isinstance(x, St): return x.t
        if isinstance(x, Rope): return self.rope_str(x)
        if isinstance(x, T):
            if self.branch(Val.is_strv(x.t)): return Val.s(x.t)
        return None

    def native(self, f):
        try: return f()
        except Exception as ex:
            raise PyRaise(self.from_native(ex))
    def from_native(self, ex):
        return self.alloc(InstC(type(ex), {'args': tuple(ex.args)}))

    # ---- dicts -----------------------------------------------------------
    def dict_find(self, c, k):
        """value SV or None when absent; branches on key equality"""
        log = list(c.log)
        while log:
            e = log.pop()
            if isinstance(e, Writes):
                own = self.own_entry(e, k)
                if own is not None: return own
                j = self.fresh('at', Int)
                m = z3.Int('m!w')
                hit = self.fresh('written', Bool)
                kt = self.tv(k)
                keyt = lambda i: self.tv(e.key(i))
                cond = lambda i: zz(e.cond(i)) if e.cond else z3.BoolVal(True)
                if self.branch(hit):
                    self.assume(z3.And(0 <= j, j < e.n, cond(j), keyt(j) == kt))
                    self.fact(z3.ForAll([m], z3.Implies(z3.And(j < m, m < e.n, cond(m)), keyt(m) != kt)))
                    v = e.val(j)
                    return None if v is DELETED else v
                self.fact(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < e.n, cond(m)), keyt(m) != kt)))
                continue
            q = self.eq(e[0], k)
            if self.branch(q):
                return None if e[1] is DELETED else e[1]
        if c.base is None: return None
        if isinstance(c.base, Opaque):
            if c.base.before is None: raise Unsupported('read of a dict while it is being built')
            # taken to be as before the loop: explore_body proves that no earlier iteration wrote this key
            self.data.setdefault('opaque_reads', []).append((c.base.of, self.tv(k)))
            return self.dict_find(c.base.before, k)
        a = self.sel(c.base, self.tv(k))
        if self.branch(a == Val.absent): return None
        return T(a)

    def own_entry(self, w, k):
        """the value written under the key of the current iteration over that very dict, if its keys are distinct"""
        if id(w) not in self.data.get('distinct', {}): return None
        kt = self.tv(k)
        for j in reversed(self.iters):
            kj = self.tv(w.key(j))
            if not kj.eq(kt) and not z3.simplify(kj).eq(z3.simplify(kt)): continue
            if self.entails(z3.And(0 <= j, j < w.n, zz(w.cond(j)) if w.cond else z3.BoolVal(True))):
                v = w.val(j)
                return None if v is DELETED else v
        return None

    def dict_has(self, c, k):
        if isinstance(c.base, Opaque) or any(isinstance(e, Writes) for e in c.log):
            return self.dict_find(c, k) is not None
        return z3.simplify(self.arr_of_keys(c, k))

    def arr_of_keys(self, c, k):
        kt = self.tv(k)
        r = (self.sel(c.base, kt) != Val.absent) if c.base is not None else z3.BoolVal(False)
        for e in c.log:
            q = zz(self.eq(e[0], k))
            r = z3.If(q, z3.BoolVal(e[1] is not DELETED), r)
        return r

    def const_keys(self, c):
        """ordered list of (key, value) if the dict is fully known, else None"""
        if c.base is not None or any(isinstance(e, Writes) for e in c.log): return None
        out = []
        for k, v in c.log:
            if isinstance(k, SYMBOLIC): 
                if len(c.log) > 1 or v is DELETED: return None
                out.append([k, v]); continue
            hit = [x for x in out if x[0] == k and type(x[0]) == type(k)]
            if v is DELETED: out = [x for x in out if x not in hit]
            elif hit: hit[0][1] = v
            else: out.append([k, v])
        return [tuple(x) for x in out]

    # ---- subscripts --------------------------------------------------------
    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.ev(x) if x is not None else None
            return ('slice', f(s.lower), f(s.upper), f(s.step))
        return self.ev(s)
    def e_Slice(self, e): return self.ev_index(e)
    def e_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.ev_index(e.slice))

    def unaltered(self, t):
        """what is known of a value that is not local describes it as it was when the function was entered"""
        h = self.read_hooks.get(t.get_id()) if self.read_hooks else None
        if h is not None: h(); return
        for e in self.events:
            if e[0] == 'mutate' and not isinstance(e[1], Ref) and z3.eq(e[1], t): raise Unsupported('reading a value that is not local after altering it')

    def getitem(self, o, k):
        sl = isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice'
        if isinstance(o, Rope) or (isinstance(o, str) and isinstance(k, SYMBOLIC)):
            return self.rope_item(o, k)
        if isinstance(o, St): return self.str_item(o, k)
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, DictC):
                v = self.dict_find(c, k)
                if v is None: self.raise_(KeyError, k)
                return v
            if isinstance(c, ListC): return self.list_item(c, k)
            return self.call_method(o, '__getitem__', [k], {})
        if isinstance(o, T):
            t = o.t
            self.unaltered(t)
            if self.index_models and str(t) in self.index_models: return self.index_models[str(t)](self, o, k)
            if sl:
                if self.branch(Val.is_strv(t)): return self.str_item(St(Val.s(t)), k)
                return self.slice_t(o, k)
            ki = self.choose([self.inst(t, dict), z3.And(Val.is_strv(t)),
                              z3.Or(self.inst(t, list), self.inst(t, tuple)),
                              z3.Not(z3.Or(self.inst(t, dict), Val.is_strv(t), self.inst(t, list), self.inst(t, tuple)))])
            if ki == 0:
                a = z3.simplify(self.dget(t)[self.tv(k)])
                if self.branch(a == Val.absent): self.raise_(KeyError, k)
                return T(a)
            if ki == 1: return self.str_item(St(Val.s(t)), k)
            if ki == 2:
                ix = self.num(k) if isinstance(k, (int, I, B)) else None
                if ix is None:
                    if isinstance(k, T) and self.branch(Val.is_intv(k.t)): ix = Val.i(k.t)
                    else: self.raise_(TypeError, 'list indices must be integers')
                n = self.len_(o).t
                i = z3.If(ix < 0, n + ix, ix) if not isinstance(ix, int) else (n + ix if ix < 0 else z3.IntVal(ix))
                if not self.branch(z3.And(i >= 0, i < n)): self.raise_(IndexError, 'index out of range')
                return T(ITER(t, z3.simplify(i)))
            ok = uf('subscriptable', Val, Val, Bool)(t, self.tv(k))
            if not self.branch(ok):
                x = self.unknown_exc('subscript_error')
                if self.subscript_exc: self.assume(zor([self.inst(x.t, c) for c in self.subscript_exc]))
                raise PyRaise(x)
            return T(uf('subscript', Val, Val, Val)(t, self.tv(k)))
        if isinstance(o, SYMBOLIC): raise Unsupported('subscript of %r' % (o,))
        if sl:
            if any(isinstance(x, SYMBOLIC) for x in k[1:]): raise Unsupported('symbolic slice')
            return self.native(lambda: o[slice(*k[1:])])
        if isinstance(k, SYMBOLIC) or (isinstance(k, tuple) and any(isinstance(x, SYMBOLIC) for x in k)):
            if isinstance(o, (tuple, list)) and isinstance(k, (I, T)):
                ix = self.num(k)
                for i in range(-len(o), len(o)):
                    if self.branch(ix == i): return o[i]
                self.raise_(IndexError, 'index out of range')
            if isinstance(o, dict):
                for kk in o:
                    if self.branch(self.eq(kk, k)): return o[kk]
                self.raise_(KeyError, k)
            return self.generic_type(o, k)
        return self.native(lambda: o[k])

    def generic_type(self, o, k):
        """typing construct with symbolic arguments, e.g. Dict[key, value]"""
        kt = self.tv(k)
        t = uf('generic', Val, Val, Val)(const_term(o), kt)
        if isinstance(k, Ref) and isinstance(self.get(k), ListC) and self.get(k).concrete():
            els = [self.tv(x) for x in self.get(k).elems()]
            self.assume(NGARG(t) == len(els))
            for i, x in enumerate(els): self.assume(GARG(t, z3.IntVal(i)) == x)
        elif isinstance(k, Ref) and isinstance(self.get(k), ListC):
            sq = self.iter_(k)
            if sq.guard is None:
                j = z3.Int('j!g')
                self.assume(NGARG(t) == sq.n)
                self.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < sq.n), GARG(t, j) == self.tv(sq.get(j)))))
                self.data.setdefault('generic_seq', {})[t.sexpr()] = sq
        elif isinstance(k, T):
            if self.branch(uf('is_argtuple', Val, Bool)(k.t)):
                self.data.setdefault('generic_of', {})[t.sexpr()] = k
                self.assume(NGARG(t) == LEN_U(k.t))
                j = z3.Int('j!g')
                self.fact(forall([j], GARG(t, j) == ITER(k.t, j), [GARG(t, j)]))
                for j in range(3): self.assume(GARG(t, z3.IntVal(j)) == ITER(k.t, z3.IntVal(j)))
            else:
                self.assume(NGARG(t) == 1); self.assume(GARG(t, z3.IntVal(0)) == kt)
        self.assume(Val.is_ref(t)); self.assume(TRUTH_U(t))
        return T(t)

    def list_item(self, c, k):
        if isinstance(k, tuple) and k and k[0] == 'slice':
            lo, hi, st = k[1:]
            if c.concrete() and not any(isinstance(x, SYMBOLIC) for x in k[1:]):
                return self.mklist(c.elems()[slice(lo, hi, st)], c.kind)
            if len(c.parts) == 1 and c.parts[0][0] == 'seq' and c.parts[0][1].guard is None and st is None:
                return self.slice_seq(c.parts[0][1], lo, hi, c.kind)
            raise Unsupported('slice of a list')
        ix = self.num(k)
        if c.concrete():
            els = c.elems()
            if isinstance(ix, int):
                if -len(els) <= ix < len(els): return els[ix]
                self.raise_(IndexError, 'index out of range')
            for i in range(-len(els), len(els)):
                if self.branch(ix == i): return els[i]
            self.raise_(IndexError, 'index out of range')
        if len(c.parts) == 1 and c.parts[0][0] == 'seq' and c.parts[0][1].guard is None:
            sq = c.parts[0][1]
            i = (sq.n + ix if ix < 0 else z3.IntVal(ix)) if isinstance(ix, int) else z3.If(ix < 0, sq.n + ix, ix)
            if not self.branch(z3.And(i >= 0, i < sq.n)): self.raise_(IndexError, 'index out of range')
            return sq.get(z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i))
        if len(c.parts) == 1 and c.parts[0][0] == 'seq' and isinstance(ix, int) and ix in (0, -1):
            sq = c.parts[0][1]
            j, f = z3.Int('j!f'), self.fresh('first' if ix == 0 else 'last', Int)
            g = lambda i: z3.And(0 <= i, i < sq.n, zz(sq.guard(i)))
            if self.branch(self.fresh('has_element', Bool)):
                self.assume(g(f))
                self.fact(z3.ForAll([j], z3.Implies(j < f if ix == 0 else j > f, z3.Not(g(j)))))
                return sq.get(f)
            self.fact(z3.ForAll([j], z3.Not(g(j))))
            self.raise_(IndexError, 'index out of range')
        raise Unsupported('index into a list of this shape')

    def slice_seq(self, sq, lo, hi, kind):
        n = sq.n if not isinstance(sq.n, int) else z3.IntVal(sq.n)
        def norm(x, d):
            if x is None: return d
            x = self.num(x)
            x = z3.IntVal(x) if isinstance(x, int) else x
            x = z3.If(x < 0, z3.If(n + x < 0, 0, n + x), x)
            return z3.If(x > n, n, x)
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        m = z3.simplify(z3.If(b > a, b - a, 0))
        return self.mkseq(Seq(m, lambda i: sq.get(a + i)), kind)

    def slice_t(self, o, k):
        ok = uf('sliceable', Val, Bool)(o.t)
        if not self.branch(z3.Or(ok, self.inst(o.t, list), self.inst(o.t, tuple))): raise PyRaise(self.unknown_exc('slice_error'))
        if k[3] is not None: raise Unsupported('slice step')
        return self.slice_seq(self.iter_(o), k[1], k[2], 'list')

    def str_item(self, o, k):
        s = o.t
        n = z3.Length(s)
        if isinstance(k, tuple) and k[0] == 'slice':
            if k[3] is not None: raise Unsupported('string slice step')
            lo, hi = 0 if k[1] is None else k[1], k[2]
            if type(lo) is int and lo >= 0 and (hi is None or type(hi) is int and hi >= lo):
                return St(z3.SubString(s, lo, n if hi is None else hi - lo))     # outside of s: the empty string, as in Python
            def norm(x, d):
                if x is None: return d
                x = self.num(x); x = z3.IntVal(x) if isinstance(x, int) else x
                x = z3.If(x < 0, z3.If(n + x < 0, 0, n + x), x)
                return z3.If(x > n, n, x)
            a, b = norm(k[1], z3.IntVal(0)), norm(k[2], n)
            return St(z3.simplify(z3.If(b > a, z3.SubString(s, a, b - a), z3.StringVal(''))))
        ix = self.num(k)
        i = (n + ix if ix < 0 else z3.IntVal(ix)) if isinstance(ix, int) else z3.If(ix < 0, n + ix, ix)
        if not self.branch(z3.And(i >= 0, i < n)): self.raise_(IndexError, 'string index out of range')
        return St(z3.SubString(s, i, 1))

    def setitem(self, o, k, v):
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, DictC):
                self.mutation(o, c, 'setitem', (k, v))
                self.put(o, DictC(c.base, c.log + ((k, v),), c.fresh, c.kind)); return
            if isinstance(c, ListC):
                self.mutation(o, c, 'setitem', (k, v))
                if c.concrete() and isinstance(k, int):
                    els = c.elems()
                    if not -len(els) <= k < len(els): self.raise_(IndexError, 'assignment index out of range')
                    els[k] = v
                    self.put(o, ListC([('e', x) for x in els], c.kind, c.fresh)); return
                if len(c.parts) == 1 and c.parts[0][0] in ('seq', 'store'):
                    ix = self.num(k); ix = z3.IntVal(ix) if isinstance(ix, int) else ix
                    n = self.len_(o); n = n if isinstance(n, int) else n.t
                    if not self.branch(z3.And(ix >= -n, ix < n)): self.raise_(IndexError, 'assignment index out of range')
                    ix = z3.simplify(z3.If(ix < 0, n + ix, ix))
                    if c.parts[0][0] == 'seq':
                        sq = c.parts[0][1]
                        if sq.guard is not None: raise Unsupported('store into a filtered list')
                        self.put(o, ListC([('store', sq, ((ix, v),))], c.kind, c.fresh)); return
                    self.put(o, ListC([('store', c.parts[0][1], c.parts[0][2] + ((ix, v),))], c.kind, c.fresh)); return
                raise Unsupported('item assignment on a list')
            return self.call_method(o, '__setitem__', [k, v], {})
        if isinstance(o, T):
            self.events.append(('mutate', o.t, 'setitem', (k, v), list(self.loops)))
            self.note('mutation of a value that is not local')
            return
        if isinstance(o, Model) or isinstance(o, SYMBOLIC): raise Unsupported('item assignment on %r' % (o,))
        if isinstance(o, (list, dict)):
            self.events.append(('mutate', const_term(o), 'setitem', (k, v), list(self.loops))); self.note('mutation of a global'); return
        self.raise_(TypeError, 'item assignment')

    def delitem(self, o, k):
        if isinstance(o, Ref) and isinstance(self.get(o), DictC):
            c = self.get(o)
            self.mutation(o, c, 'delitem', (k,))
            if not self.branch(self.dict_has(c, k)): self.raise_(KeyError, k)
            self.put(o, DictC(c.base, c.log + ((k, DELETED),), c.fresh, c.kind)); return
        if isinstance(o, T):
            self.events.append(('mutate', o.t, 'delitem', (k,), list(self.loops))); self.note('mutation of a value that is not local'); return
        raise Unsupported('del item')

    def mutation(self, ref, c, what, args):
        if not c.fresh:
            self.events.append(('mutate', ref, what, args, list(self.loops)))

    # ---- attributes ----------------------------------------------------------
    def e_Attribute(self, e):
        return self.getattr_(self.ev(e.value), e.attr)

    def getattr_(self, o, name, default=MISSING):
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, InstC):
                v = self.inst_attr(o, c, name)
                if v is not MISSING: return v
                if default is not MISSING: return default
                self.raise_(AttributeError, name)
            kind = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set}.get(c.kind, list)
            if name == '__class__': return kind
            if hasattr(kind, name): return Bound(o, name)
            if default is not MISSING: return default
            self.raise_(AttributeError, name)
        if isinstance(o, T):
            if name == '__class__': return T(self.typeof(o.t))
            if name == '__dict__' and False: pass
            h = uf('hasattr:' + name, Val, Bool)(o.t)
            if name in ('microsecond',): pass
            for e in reversed(self.events):
                if e[0] == 'setattr' and isinstance(e[2], str) and e[2] == name:
                    if z3.eq(z3.simplify(e[1]), z3.simplify(o.t)): return e[3]
                    if self.entails(e[1] != o.t): continue
                    raise Unsupported('reading attribute %s, that was assigned to an object that may be the same' % name)
            if not self.branch(self.has_attr(o.t, name)):
                if default is not MISSING: return default
                self.raise_(AttributeError, name)
            return self.attr_value(o, name)
        if isinstance(o, (B, I, R, St, Rope)):
            kind = {B: bool, I: int, R: float, St: str, Rope: str}[type(o)]
            if name == '__class__': return kind
            if hasattr(kind, name): return Bound(o, name)
            if default is not MISSING: return default
            self.raise_(AttributeError, name)
        if isinstance(o, Clo):
            if name == '__name__': return o.name
            raise Unsupported('attribute %s of a closure' % name)
        if isinstance(o, Seq): return Bound(o, name)
        if isinstance(o, SYMBOLIC): raise Unsupported('attribute %s of %r' % (name, o))
        if isinstance(o, super): raise Unsupported('super object')
        if isinstance(o, (list, dict)) and name in ('append', 'update', 'pop', 'insert', 'extend', 'clear', 'setdefault', '__setitem__'):
            return Bound(o, name)
        try:
            v = getattr(o, name)
        except AttributeError as ex:
            if default is not MISSING: return default
            raise PyRaise(self.from_native(ex))
        return v

    STR_METHODS = set(dir(str)); DICT_METHODS = set(dir(dict)); LIST_METHODS = set(dir(list))
    def has_attr(self, t, name):
        """hasattr for a symbolic value; builtin JSON types are known exactly"""
        if name == 'args' and self.entails(self.inst(t, BaseException)): return z3.BoolVal(True)
        if name in CLASS_ATTRS and self.entails(self.inst(t, type)): return z3.BoolVal(True)
        f = uf('hasattr:' + name, Val, Bool)(t)
        c = lambda k: z3.BoolVal(hasattr(k, name))
        return z3.If(Val.is_none(t), c(None), z3.If(Val.is_boolv(t), c(True), z3.If(Val.is_intv(t), c(1),
               z3.If(Val.is_strv(t), c(''), z3.If(Val.is_fltv(t), c(1.0), f)))))
    def attr_value(self, o, name):
        r = uf('attr:' + name, Val, Val)(o.t)
        self.assume(r != Val.absent)
        if name in ('__name__', '__qualname__') and self.entails(self.inst(o.t, type)): self.assume(Val.is_strv(r))
        if name == 'args' and self.entails(self.inst(o.t, BaseException)):
            self.assume(self.inst(r, tuple)); self.assume(Val.is_ref(r))
            self.assume(TRUTH_U(r) == (LEN_U(r) > 0))
        return T(r)

    def inst_attr(self, o, c, name):
        if name in c.attrs: return c.attrs[name]
        if name == '__class__': return c.cls if c.cls is not None else T(self.typeof(self.ref_term(o)))
        if c.lazy is not None:
            v = c.lazy(self, o, name)
            if v is not MISSING: return v
        if c.parent is not None:
            v = self.inst_attr(c.parent, self.get(c.parent), name)
            if isinstance(v, Bound) and isinstance(v.obj, Ref) and v.obj.id == c.parent.id: return Bound(o, name, v.fn)
            return v
        if c.cls is not None:
            for k in c.cls.__mro__:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(v, property): return self.call(v.fget, [o], {})
                    if isinstance(v, staticmethod): return v.__func__
                    if isinstance(v, classmethod): return Bound(c.cls, name, v.__func__)
                    if isinstance(v, types.FunctionType): return Bound(o, name, v)
                    if callable(v) and not isinstance(v, type): return Bound(o, name)
                    return v
        return MISSING

    def setattr_(self, o, name, v):
        if isinstance(o, Ref) and isinstance(self.get(o), InstC):
            c = self.get(o)
            self.mutation(o, c, 'setattr', (name, v))
            if isinstance(name, SYMBOLIC): raise Unsupported('setattr with a symbolic name')
            self.put(o, c.with_attr(name, v)); return
        if isinstance(o, T):
            self.events.append(('setattr', o.t, name, v, list(self.loops)))
            return
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            self.events.append(('setattr', const_term(o), name, v, list(self.loops)))
            self.note('attribute assignment on a global'); return
        raise Unsupported('setattr on %r' % (o,))

    # ---- calls -----------------------------------------------------------
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = self.frames[-1]
            return Bound(('super', f.cls, f.first), '')
        args, kw = [], None
        fn_attr = None
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super' and not e.func.value.args:
                f = self.frames[-1]
                fn = self.super_method(f, e.func.attr)
            else:
                obj = self.ev(e.func.value)
                fn_attr = (obj, e.func.attr); fn = None
        else:
            fn = self.ev(e.func)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                args += [('*', p) if p[0] != 'e' else p[1] for p in self.parts_of(v)]
            else: args.append(self.ev(a))
        items, base = [], None
        for k in e.keywords:
            if k.arg is None:
                x = self.ev(k.value)
                b, l = self.dict_parts(x)
                if b is None and not any(isinstance(q, Writes) for q in l):
                    # later duplicates of explicit keywords are a TypeError
                    for kk, vv in (self.const_keys(DictC(None, l)) or self._sym_items(l)):
                        if any(kk == i[0] for i in items if not isinstance(i[0], SYMBOLIC)): self.raise_(TypeError, 'multiple values for keyword argument')
                        items.append((kk, vv))
                else:
                    if base is not None:
                        raise Unsupported('two ** arguments')
                    for i in items:
                        if self.private_param(fn, i[0]): self.assume(z3.Not(zz(self.dict_has(DictC(b, l), i[0])))); continue
                        if self.branch(self.dict_has(DictC(b, l), i[0])): self.raise_(TypeError, 'multiple values for keyword argument')
                    base = DictC(b, l)
            else:
                v = self.ev(k.value)
                if base is not None and self.private_param(fn, k.arg): self.assume(z3.Not(zz(self.dict_has(base, k.arg))))
                elif base is not None and self.branch(self.dict_has(base, k.arg)): self.raise_(TypeError, 'multiple values for keyword argument')
                if any(i[0] == k.arg for i in items if not isinstance(i[0], SYMBOLIC)): self.raise_(TypeError, 'multiple values for keyword argument')
                items.append((k.arg, v))
        kw = DictC(None, items) if base is None else DictC(base.base, tuple(base.log) + tuple(items))
        if fn_attr is not None:
            return self.call_method(fn_attr[0], fn_attr[1], args, kw)
        return self.call(fn, args, kw)

    def private_param(self, fn, name):
        """the name is that of a parameter of a private helper, and no documented option"""
        r = isinstance(fn, types.FunctionType) and fn.__name__.startswith('_') and isinstance(name, str) and name not in OPTION_NAMES
        if r: self.note('no option has the name of a parameter of a private function')
        return r

    def _sym_items(self, l):
        if any(isinstance(x, Writes) for x in l): raise Unsupported('** of a dict built in a loop')
        return [(k, v) for k, v in l if v is not DELETED]

    def super_method(self, f, name):
        cls, first = f.cls, f.first
        if cls is None: raise Unsupported('super() outside a known class')
        c = self.get(first).cls if isinstance(first, Ref) else None
        mro = (c or cls).__mro__
        for k in mro[mro.index(cls) + 1:]:
            if name in k.__dict__:
                v = k.__dict__[name]
                if isinstance(v, types.FunctionType): return Bound(first, name, v)
                return Model('super.' + name, lambda eng, a, kw: self.builtin_method(first, k, name, a, kw))
        self.raise_(AttributeError, name)

    def kwc(self, kw):
        return kw if isinstance(kw, DictC) else DictC(None, list(kw.items()))

    def call(self, fn, args, kw):
        kw = self.kwc(kw)
        if isinstance(fn, Poison): raise Unsupported('value not tracked: ' + fn.why)
        h = self.summaries.get(id(fn)) if not isinstance(fn, SYMBOLIC) else None
        if h is not None: return h(self, args, kw)
        if isinstance(fn, Model): return fn.fn(self, args, kw)
        if isinstance(fn, Bound):
            if fn.fn is not None: return self.call(fn.fn, [fn.obj] + args, kw)
            return self.call_method(fn.obj, fn.name, args, kw)
        if isinstance(fn, Clo): return self.call_node(fn.node, fn.env, fn.globs, fn.defaults, fn.kwdefaults, args, kw, fn.name, fn)
        if isinstance(fn, T):
            if self.call_models and str(fn.t) in self.call_models: return self.call_models[str(fn.t)](self, args, kw)
            return self.call_unknown(fn, args, kw)
        if isinstance(fn, Ref):
            c = self.get(fn)
            if isinstance(c, InstC):
                if c.cls is None or c.lazy is not None and c.lazy(self, fn, '__call__') is not MISSING:
                    pass
                if c.attrs.get('__class_like__'): return self.call_unknown(T(self.ref_term(fn)), args, kw)
                return self.call_method(fn, '__call__', args, kw)
            self.raise_(TypeError, 'not callable')
        if getattr(fn, '__name__', '') == '__init__' and isinstance(getattr(fn, '__objclass__', None), type) and issubclass(fn.__objclass__, BaseException) \
                and args and isinstance(args[0], Ref) and isinstance(self.get(args[0]), InstC):
            self.put(args[0], self.get(args[0]).with_attr('args', tuple(args[1:]))); return None
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + args, kw)
        from . import models
        m = models.lookup(fn)
        if m is not None: return m(self, args, kw)
        wrapped = unwrap_cached(fn)
        if wrapped is not None: return self.call(wrapped, args, kw)
        if isinstance(fn, types.FunctionType) and is_repo_fn(fn): return self.call_function(fn, args, kw, merge=self.merging)
        if isinstance(fn, type): return self.instantiate(fn, args, kw)
        if all(not self.symbolic_deep(a) for a in args) and kw.base is None and all(not isinstance(x, Writes) and not self.symbolic_deep(x[1]) for x in kw.log) and models.is_pure(fn):
            kws = dict(self.const_keys(kw))
            return self.native(lambda: fn(*args, **kws))
        if fn is None or not callable(fn): self.raise_(TypeError, 'not callable')
        return self.call_unknown(T(const_term(fn)), args, kw, name=getattr(fn, '__name__', None))

    def symbolic_deep(self, v):
        if isinstance(v, SYMBOLIC): return True
        if isinstance(v, tuple): return any(self.symbolic_deep(x) for x in v)
        return False

    def call_unknown(self, fn, args, kw, name=None):
        """any callable: may return anything or raise any Exception; recorded as an event"""
        at = []
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == '*':
                sq = a[1][1] if a[1][0] == 'seq' else None
                at.append(self.snapshot(None, ListC([a[1]])))
            else:
                self.escape(a)
                at.append(self.tv(a))
        for e in kw.log:
            if not isinstance(e, Writes): self.escape(e[1])
        try: ka = self.arr_of(kw)
        except Unsupported:
            ka = self.fresh('kwargs', Arr)
        sorts = [Val] + [Val] * len(at) + [Arr]
        ok = uf('returns%d' % len(at), *(sorts + [Bool]))(fn.t, *at, ka)
        self.events.append(('call', fn.t, args, kw, at, ka, list(self.loops)))
        if self.branch(ok, free=True):
            r = T(uf('result%d' % len(at), *(sorts + [Val]))(fn.t, *at, ka))
            self.assume(r.t != Val.absent)
            if z3.is_app(fn.t) and fn.t.decl().name() == 'ref' and z3.is_int_value(fn.t.arg(0)):
                # the constructor of a class of the standard library returns an instance of it
                cls = concrete_of(fn.t.arg(0).as_long())
                if cls is type and len(args) == 3:          # a class that did not exist before
                    self.assume(self.inst(r.t, type)); self.assume(Val.is_ref(r.t))
                    b = self.get(args[1]) if isinstance(args[1], Ref) else None
                    for x in (b.elems() if isinstance(b, ListC) and b.concrete() else ()):
                        if isinstance(x, T): self.assume(r.t != x.t)
                if isinstance(cls, type) and cls in CONSTRUCTORS: self.assume(self.inst(r.t, cls))
            self.events[-1] += (r,)
            self.mark_call()
            return r
        x = uf('error%d' % len(at), *(sorts + [Val]))(fn.t, *at, ka)
        self.assume(Val.is_ref(x)); self.assume(self.inst(x, Exception))
        self.events[-1] += (None,)
        self.mark_call()
        raise PyRaise(T(x))

    def mark_call(self):
        """what was known when the call returned: the beginning of the path condition and of the facts"""
        e = self.events[-1]
        self.data.setdefault('known_at', {})[id(e)] = (e, len(self.pc), len(self.facts))

    def escape(self, a):
        """a mutable local container handed to unknown code: its later content is unknown"""
        if isinstance(a, Ref):
            c = self.get(a)
            if isinstance(c, (DictC, ListC)) and c.kind != 'tuple':
                self.data.setdefault('escaped', set()).add(a.id)

    def call_function(self, fn, args, kw, merge=False):
        if merge:
            r = self.merged_call(fn, args, kw)
            if r is not None: return r[0]
        return self.call_function_(fn, args, kw)

    def merged_call(self, fn, args, kw):
        """A callee without effects: its paths are joined into few outcomes (an ITE over the path
        conditions per kind of outcome), so that the caller's paths do not multiply."""
        o = self.oracle
        if o.mpos < len(o.mrg):
            m = o.mrg[o.mpos]
        else:
            m = loops.join_paths(self, fn, args, kw) if id(fn) not in self.nomerge else None
            o.mrg.append(m)
        o.mpos += 1
        if m is None: return None
        outs, nref, nfresh, insts, typs, qs, touched = m
        self.nref = max(self.nref, nref)
        for k, v in nfresh.items(): self.nfresh[k] = max(self.nfresh.get(k, 0), v)
        for k, v in insts.items(): self.inst_terms.setdefault(k, v)
        for k, v in typs.items(): self.type_terms.setdefault(k, v)
        for q in qs:
            if q not in self.inst_q: self.inst_q.append(q)
        for t in touched: TOUCHED.setdefault(t, True)
        i = 0 if len(outs) == 1 else self.choose([x[0] for x in outs])
        cond, kind, val, heap, facts, notes = outs[i]
        if len(outs) == 1 and not (isinstance(cond, bool) and cond): self.assume(cond)
        self.heap.update(heap)
        self.facts.extend(facts)
        self.notes.extend(n for n in notes if n not in self.notes)
        if kind == 'raise': raise PyRaise(val)
        return (val,)

    def call_function_(self, fn, args, kw):
        node = node_of(fn)
        self.executed.setdefault(fn.__module__ + '.' + fn.__qualname__, '%s:%d' % (os.path.relpath(fn.__code__.co_filename, REPO), node.lineno))
        env = {'vars': {}, 'up': None}
        if fn.__closure__:
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try: env['vars'][nm] = cell.cell_contents
                except ValueError: pass
        up = env if env['vars'] else None
        cls = env['vars'].get('__class__')
        if cls is None and '.' in fn.__qualname__: cls = self.class_of(fn)
        d = list(fn.__defaults__ or ())
        kd = [(fn.__kwdefaults__ or {}).get(a.arg, MISSING) for a in node.args.kwonlyargs]
        return self.call_node(node, up, fn.__globals__, d, kd, args, kw, fn.__qualname__, fn, cls)

    def class_of(self, fn):
        parts = fn.__qualname__.split('.')
        o = fn.__globals__.get(parts[0])
        for p in parts[1:-1]:
            o = getattr(o, p, None)
        return o if isinstance(o, type) else None

    def call_node(self, node, up, globs, defaults, kwdefaults, args, kw, name, fn, cls=None):
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion without a contract: %s' % name)
        vars_ = self.bind(node.args, defaults, kwdefaults, args, kw, name)
        body = node.body
        env = {'vars': vars_, 'up': up, 'locals': _local_names(node)}
        first = vars_[node.args.args[0].arg] if node.args.args else None
        self.frames.append(Frame(env, globs, None, fn, cls, first))
        try:
            if isinstance(node, ast.Lambda): return self.ev(body)
            if _is_generator(node): raise Unsupported('generator function %s' % name)
            self.exec_block(body)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.frames.pop(); self.depth -= 1

    def bind(self, a, defaults, kwdefaults, args, kw, name):
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        star = [i for i, x in enumerate(args) if isinstance(x, tuple) and len(x) == 2 and x[0] == '*']
        args = list(args)
        if star:
            if star[0] < len(pos) or a.vararg is None:
                if len(star) == 1 and star[0] == len(args) - 1:
                    # f(a, *seq): take the missing positionals from seq if its length is known to be exact
                    part = args.pop()[1]
                    sq = part[1]
                    need = 0
                    if self.entails(sq.n == 0): pass
                    else: raise Unsupported('* argument of symbolic length for %s' % name)
                    star = []
                else: raise Unsupported('* argument of symbolic length for %s' % name)
        for i, p in enumerate(pos):
            if i < len(args): out[p] = args[i]
        if len(args) > len(pos):
            if a.vararg is None: self.raise_(TypeError, '%s() takes %d positional arguments' % (name, len(pos)))
            rest = args[len(pos):]
            parts = [x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == '*' else ('e', x) for x in rest]
            if all(p[0] == 'e' and not isinstance(p[1], SYMBOLIC) for p in parts): out[a.vararg.arg] = tuple(p[1] for p in parts)
            else: out[a.vararg.arg] = self.alloc(ListC(parts, 'tuple'))
        elif a.vararg is not None: out[a.vararg.arg] = ()
        rest = kw
        posonly = {x.arg for x in a.posonlyargs}
        named = [p for p in pos if p not in posonly] + [x.arg for x in a.kwonlyargs]
        dmap = dict(zip(pos[len(pos) - len(defaults):], defaults)) if defaults else {}
        for x, d in zip(a.kwonlyargs, kwdefaults): dmap[x.arg] = d
        for p in named:
            in_log = [e for e in rest.log if not isinstance(e, Writes) and not isinstance(e[0], SYMBOLIC) and e[0] == p]
            if in_log:
                v = in_log[-1][1]
                if v is DELETED: pass
                else:
                    if p in out: self.raise_(TypeError, '%s() got multiple values for argument %r' % (name, p))
                    out[p] = v
                rest = DictC(rest.base if rest.base is None else z3.Store(rest.base, kstr(p), Val.absent),
                             [e for e in rest.log if e not in in_log], True)
                continue
            if any(isinstance(e, Writes) or isinstance(e[0], SYMBOLIC) for e in rest.log):
                v = self.dict_find(rest, p)
                if v is not None:
                    if p in out: self.raise_(TypeError, 'multiple values')
                    out[p] = v
                    rest = DictC(rest.base, rest.log + ((p, DELETED),), True)
                continue
            if rest.base is not None and not (p in out and False):
                cur = self.sel(rest.base, kstr(p))
                if cur.eq(Val.absent): continue
                if p in out:
                    if name.split('.')[-1].startswith('_') and p not in OPTION_NAMES:
                        # the caller passes no option named like a parameter of a private helper
                        self.assume(cur == Val.absent); self.note('no option has the name of a parameter of a private function')
                    elif self.branch(cur != Val.absent): self.raise_(TypeError, '%s() got multiple values for argument %r' % (name, p))
                else:
                    d = dmap.get(p, MISSING)
                    if d is MISSING:
                        if self.branch(cur == Val.absent): continue
                        out[p] = T(cur)
                    elif self.entails(cur != Val.absent): out[p] = T(cur)
                    elif self.entails(cur == Val.absent): out[p] = d
                    elif isinstance(d, (type(None), bool, int, str, float, type)):
                        out[p] = T(z3.If(cur == Val.absent, const_term(d), cur))
                    else:
                        if self.branch(cur == Val.absent): out[p] = d
                        else: out[p] = T(cur)
                rest = DictC(z3.Store(rest.base, kstr(p), Val.absent), rest.log, True)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in out:
                d = dmap.get(p, MISSING)
                if d is MISSING: self.raise_(TypeError, '%s() missing argument %r' % (name, p))
                out[p] = d
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(DictC(rest.base, rest.log, True))
        else:
            if rest.log and any(not isinstance(e, Writes) and e[1] is not DELETED for e in rest.log):
                self.raise_(TypeError, '%s() got an unexpected keyword argument' % name)
            if rest.base is not None:
                # unknown further keywords would be a TypeError
                extra = self.fresh('unexpected_kw', Bool)
                k = z3.Const('k!x', Val)
                self.fact(z3.Implies(z3.Not(extra), z3.ForAll([k], rest.base[k] == Val.absent)))
                if not self.entails_empty(rest.base):
                    if self.branch(extra): self.raise_(TypeError, '%s() got an unexpected keyword argument' % name)
        return out

    def entails_empty(self, a):
        x = a
        while z3.is_store(x) and x.arg(2).eq(Val.absent): x = x.arg(0)
        return x.eq(EMPTY)

    def instantiate(self, cls, args, kw):
        kw = self.kwc(kw)
        from . import models
        m = models.lookup(cls)
        if m is not None: return m(self, args, kw)
        if issubclass(cls, BaseException):
            r = self.alloc(InstC(cls, {}))
            self.init_exc(r, cls, args, kw)
            return r
        if not any(self.symbolic_deep(a) for a in args) and kw.base is None and not any(isinstance(x, Writes) or self.symbolic_deep(x[1]) for x in kw.log) and models.is_pure(cls):
            kws = dict(self.const_keys(kw))
            return self.native(lambda: cls(*args, **kws))
        init = _find_init(cls)
        if isinstance(init, types.FunctionType) and is_repo_fn(init):
            r = self.alloc(InstC(cls, {}))
            self.call_function(init, [r] + list(args), kw)
            return r
        return self.call_unknown(T(const_term(cls)), args, kw, name=cls.__name__)

    def init_exc(self, r, cls, args, kw):
        init = _find_init(cls)
        self.put(r, self.get(r).with_attr('args', tuple(args)))
        if isinstance(init, types.FunctionType):
            if is_repo_fn(init): self.call_function(init, [r] + list(args), kw); return
            return self.exc_native_init(r, cls, init, args, kw)
        if args: self.put(r, self.get(r).with_attr('args', tuple(args)))

    def exc_native_init(self, r, cls, init, args, kw):
        # e.g. JSONDecodeError.__init__: sets msg, doc, pos and the message
        self.put(r, self.get(r).with_attr('args', (T(self.fresh('exc_args', Val)),)))

    def builtin_method(self, obj, k, name, args, kw):
        if name == '__init__':
            if isinstance(obj, Ref) and issubclass(k, BaseException):
                self.put(obj, self.get(obj).with_attr('args', tuple(args)))
            return None
        raise Unsupported('builtin method %s.%s' % (k, name))

    def call_method(self, o, name, args, kw):
        kw = self.kwc(kw)
        from . import models
        return models.call_method(self, o, name, args, kw)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = None
                if v.format_spec is not None: spec = self.ev(v.format_spec)
                if v.conversion == 114: x = self.repr_(x)
                parts.append(self.format_(x, spec))
        return self.str_concat(parts)


    def e_ListComp(self, e): return self.comp(e.generators, lambda: self.ev(e.elt), 'list')
    def e_SetComp(self, e): return self.comp(e.generators, lambda: self.ev(e.elt), 'set')
    def e_GeneratorExp(self, e): return self.comp(e.generators, lambda: self.ev(e.elt), 'list')
    def e_DictComp(self, e): return self.comp(e.generators, lambda: (self.ev(e.key), self.ev(e.value)), 'dict')
    def e_Starred(self, e): raise Unsupported('starred')


class _Suppress: pass

def unwrap_cached(fn):
    """jsons._cache wrapper objects and functools wrappers around repo functions"""
    w = getattr(fn, 'wrapped', None)
    if w is None and not isinstance(fn, types.FunctionType): w = getattr(fn, '__wrapped__', None)
    if w is not None and callable(w) and not isinstance(fn, type): return w
    return None

def _find_init(cls):
    for k in cls.__mro__:
        if '__init__' in k.__dict__: return k.__dict__['__init__']

def zz(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def zand(xs):
    xs = list(xs)
    if any(x is False for x in xs): return False
    xs = [x for x in xs if x is not True]
    return True if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)
def zor(xs):
    xs = list(xs)
    if any(x is True for x in xs): return True
    xs = [x for x in xs if x is not False]
    return False if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)
def znot(x): return (not x) if isinstance(x, bool) else z3.Not(x)
def _is_const_app(v):
    return z3.is_app(v) and v.decl().name() in ('none', 'absent', 'boolv', 'intv', 'strv', 'fltv', 'ref')
def _as_load(n): return n
def is_identity(node):
    """lambda x: x (or a def returning its only parameter)"""
    a = node.args
    if len(a.args) != 1 or a.kwonlyargs or a.vararg or a.kwarg or a.defaults: return False
    b = node.body
    if isinstance(node, ast.Lambda): return isinstance(b, ast.Name) and b.id == a.args[0].arg
    b = [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Name) and b[0].value.id == a.args[0].arg
class _Ident: 
    def __call__(self, x): return x
IDENTITY_FN = _Ident()
IDENT = const_term(IDENTITY_FN)

_gen_cache = {}
def _is_generator(node):
    k = id(node)
    if k not in _gen_cache:
        found = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)): found = True
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)): continue
            stack += list(ast.iter_child_nodes(n))
        _gen_cache[k] = (found, node)
    return _gen_cache[k][0]

_loc_cache = {}
def _local_names(node):
    k = id(node)
    if k not in _loc_cache:
        names = set()
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): names.add(n.id)
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    names.add(n.name); continue
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): continue
                if isinstance(n, (ast.Nonlocal, ast.Global)): names -= set(n.names)
                stack += list(ast.iter_child_nodes(n))
        _loc_cache[k] = (names, node)
    return _loc_cache[k][0]

from . import models, loops
for _n in 'binop len_ iter_ format_ str_concat repr_ str_ rope_eq rope_contains rope_item'.split():
    setattr(Engine, _n, getattr(models, _n))
for _n in 's_For s_While comp loop_over'.split():
    setattr(Engine, _n, getattr(loops, _n))
