"""Summaries (contracts of callees) shared by the contracts of the properties."""
import z3, jsons
from pyvc.values import *
from pyvc.engine import *
from pyvc.spec import contract, Ctx
from pyvc import models
from jsons import (_load_impl, _dump_impl, _lizers_impl, _validation, _common_impl, _cache, _extra_impl, _fork_impl,
                   _multitasking, exceptions, _compatibility_impl)
from jsons.exceptions import (JsonsError, DeserializationError, SerializationError, ValidationError, DecodeError,
                              UnknownClassError, UnfulfilledArgumentError, SignatureMismatchError, InvalidDecorationError)
StateHolder = _common_impl.StateHolder
load, dump = _load_impl.load, _dump_impl.dump

def sym(name): return T(z3.Const(name, Val))
def arr(name='kw'): return z3.Const(name, Arr)
RESERVED = ('json_obj', 'cls', 'obj', 'deserializer', 'initial', 'serializer', 'kwargs', 'str_', 'bytes_')
def options(name='kw', without=(), reserved=RESERVED):
    """any set of keyword arguments that does not contain the given names"""
    a = arr(name)
    for n in tuple(reserved) + tuple(without): a = z3.Store(a, kstr(n), Val.absent)
    return a

def value(eng, t):
    """t is some Python value"""
    eng.assume(t.t != Val.absent); return t
def svalue(eng, name): return value(eng, sym(name))
def sclass(eng, name):
    """some class or typing construct: truthy, not None, not a string"""
    t = z3.Const(name, Val)
    eng.assume(Val.is_ref(t)); eng.assume(TRUTH_U(t)); eng.assume(z3.Not(eng.inst(t, str)))
    return T(t)
def type_axioms(eng, t):
    """typing constructs: their parameters, if any, are tuples"""
    for nm in ('__args__', '__union_params__'):
        h, a = uf('hasattr:' + nm, Val, Bool)(t), uf('attr:' + nm, Val, Val)(t)
        eng.assume(z3.Implies(h, z3.And(Val.is_ref(a), eng.inst(a, tuple), TRUTH_U(a) == (LEN_U(a) > 0))))
def fork_value(eng, name='fork'):
    t = z3.Const(name, Val)
    eng.assume(Val.is_ref(t)); eng.assume(TRUTH_U(t))
    return T(t)

def wrapped(f):
    return unwrap_cached(f) or f

LOAD_OK = z3.Function('load_ok', Val, Val, Arr, Bool)
LOAD_V = z3.Function('load_value', Val, Val, Arr, Val)
LOAD_E = z3.Function('load_error', Val, Val, Arr, Val)
DUMP_OK = z3.Function('dump_ok', Val, Val, Arr, Bool)
DUMP_V = z3.Function('dump_value', Val, Val, Arr, Val)
DUMP_E = z3.Function('dump_error', Val, Val, Arr, Val)
LOOKUP = {k: z3.Function(k + '_for', Val, Val, Val) for k in ('serializer', 'deserializer', 'validator')}
CLSNAME = z3.Function('class_name', Val, Bool, Str)
FROM_STR_OK = z3.Function('class_known', Str, Val, Bool)
FROM_STR = z3.Function('class_named', Str, Val, Val)

def full_kwargs(eng, kw, defaults):
    """array of the keyword arguments with the defaults of the callee filled in"""
    a = eng.arr_of(kw)
    for k, d in defaults:
        cur = z3.simplify(a[kstr(k)])
        dt = const_term(d)
        if cur.eq(Val.absent): a = z3.Store(a, kstr(k), dt)
        elif not eng.entails(cur != Val.absent): a = z3.Store(a, kstr(k), z3.If(cur == Val.absent, dt, cur))
    return canon_arr(a)

def _two(eng, args, kw, n1='json_obj', n2='cls'):
    args = list(args)
    rest = kw
    if len(args) > 2 or any(isinstance(x, tuple) and len(x) == 2 and x[0] == '*' for x in args): raise Unsupported('call of load/dump in this shape')
    out = []
    for i, n in enumerate((n1, n2)):
        if i < len(args): out.append(args[i]); continue
        hit = [e for e in rest.log if not isinstance(e, Writes) and e[0] == n] if not any(isinstance(e, Writes) or isinstance(e[0], SYMBOLIC) for e in rest.log) else None
        if hit:
            out.append(hit[-1][1])
            rest = DictC(rest.base, [e for e in rest.log if e[0] != n], True)
            if rest.base is not None: rest = DictC(z3.Store(rest.base, kstr(n), Val.absent), rest.log, True)
        elif rest.base is not None and not eng.entails(eng.sel(rest.base, kstr(n)) == Val.absent):
            cur = eng.sel(rest.base, kstr(n))
            rest = DictC(z3.Store(rest.base, kstr(n), Val.absent), rest.log, True)
            out.append(T(z3.If(cur == Val.absent, Val.none, cur)))
        else: out.append(None)
    return out[0], out[1], rest

LOAD_DEFAULTS = (('strict', False), ('fork_inst', StateHolder), ('attr_getters', None))
DUMP_DEFAULTS = (('strict', False), ('fork_inst', StateHolder))

def s_load(eng, args, kw):
    """contract of jsons.load for its callers (established by C01): a value, or a JsonsError"""
    o, c, rest = _two(eng, args, kw)
    a = full_kwargs(eng, rest, LOAD_DEFAULTS)
    ot, ct = eng.tv(o), eng.tv(c)
    ev = ['load', ot, ct, a, list(eng.loops), o, c, None]
    eng.events.append(ev)
    if eng.branch(LOAD_OK(ot, ct, a), free=True):
        v = LOAD_V(ot, ct, a); eng.assume(v != Val.absent)
        ev[7] = v
        return T(v)
    x = LOAD_E(ot, ct, a)
    eng.assume(Val.is_ref(x)); eng.assume(eng.inst(x, JsonsError))
    exception_invariant(eng, x)
    raise PyRaise(T(x))

def exception_invariant(eng, x):
    """class invariant of the exceptions of jsons: they know their message, and a DeserializationError its source and target"""
    eng.assume(uf('hasattr:message', Val, Bool)(x)); eng.assume(Val.is_strv(uf('attr:message', Val, Val)(x)))
    for n in ('source', 'target'): eng.assume(z3.Implies(eng.inst(x, DeserializationError), z3.And(uf('hasattr:' + n, Val, Bool)(x), uf('attr:' + n, Val, Val)(x) != Val.absent)))

def s_dump(eng, args, kw):
    """contract of jsons.dump for its callers (established by C02): a value, or a SerializationError"""
    o, c, rest = _two(eng, args, kw, 'obj')
    a = full_kwargs(eng, rest, DUMP_DEFAULTS)
    ot, ct = eng.tv(o), eng.tv(c)
    ev = ['dump', ot, ct, a, list(eng.loops), o, c, None]
    eng.events.append(ev)
    if eng.branch(DUMP_OK(ot, ct, a), free=True):
        v = DUMP_V(ot, ct, a); eng.assume(v != Val.absent)
        ev[7] = v
        return T(v)
    x = DUMP_E(ot, ct, a)
    eng.assume(Val.is_ref(x)); eng.assume(eng.inst(x, SerializationError)); eng.assume(eng.inst(x, JsonsError))
    exception_invariant(eng, x)
    raise PyRaise(T(x))

def s_lookup(kind):
    def h(eng, args, kw):
        c = args[0] if args else eng.dict_find(kw, 'cls')
        f = args[1] if len(args) > 1 else eng.dict_find(kw, 'fork_inst')
        if f is None: f = StateHolder
        ct, ft = eng.tv(c), eng.tv(f)
        r = LOOKUP[kind](ct, ft)
        eng.assume(r != Val.absent)
        eng.assume(z3.Or(Val.is_none(r), z3.And(Val.is_ref(r), TRUTH_U(r))))
        eng.events.append(('lookup', kind, ct, ft, list(eng.loops), r))
        return T(r)
    return h

def s_class_name(eng, args, kw):
    c = args[0] if args else eng.dict_find(kw, 'cls')
    tr = args[1] if len(args) > 1 else eng.dict_find(kw, 'transformer')
    fq = args[2] if len(args) > 2 else eng.dict_find(kw, 'fully_qualified')
    if not isinstance(c, SYMBOLIC) and not isinstance(tr, SYMBOLIC) and not isinstance(fq, SYMBOLIC):
        return eng.native(lambda: wrapped(_common_impl.get_class_name)(c, tr, bool(fq)))
    q = eng.bool_(fq)
    s = CLSNAME(eng.tv(c), zz(q))
    if tr is None: return St(s)
    if tr is str.lower: return St(uf('str.lower', Str, Str)(s))
    raise Unsupported('class name transformer')

def s_cls_from_str(eng, args, kw):
    """contract of get_cls_from_str: the class, or an UnknownClassError (established by C01)"""
    s, src, f = args
    st = eng.tv(s)
    ok = z3.And(Val.is_strv(st), FROM_STR_OK(Val.s(st), eng.tv(f)))
    if eng.branch(ok):
        r = FROM_STR(Val.s(st), eng.tv(f))
        eng.assume(Val.is_ref(r)); eng.assume(TRUTH_U(r)); eng.assume(z3.Not(eng.inst(r, str)))
        return T(r)
    x = uf('unknown_class_error', Val, Val)(st)
    eng.assume(Val.is_ref(x)); eng.assume(eng.inst(x, UnknownClassError))
    raise PyRaise(T(x))

def s_nop(name):
    def h(eng, args, kw):
        eng.events.append((name, list(args), list(eng.loops)))
        return None
    return h

def s_unknown_total(name):
    """a callee that returns some value depending on its arguments only, and does not raise"""
    def h(eng, args, kw):
        ts = [eng.tv(a) for a in args]
        if kw.log or kw.base is not None: ts.append(MKDICT(eng.arr_of(kw)))
        r = uf('val:%s%d' % (name, len(ts)), *([Val] * len(ts) + [Val]))(*ts)
        eng.assume(r != Val.absent)
        return T(r)
    return h

def base_summaries(*names):
    S = {}
    def put(f, h):
        S[id(f)] = h
        w = unwrap_cached(f)
        if w is not None: S[id(w)] = h
    put(load, s_load); put(dump, s_dump)
    put(_lizers_impl.get_serializer, s_lookup('serializer'))
    put(_lizers_impl.get_deserializer, s_lookup('deserializer'))
    put(_validation.get_validator, s_lookup('validator'))
    put(_common_impl.get_class_name, s_class_name)
    put(_common_impl.get_cls_from_str, s_cls_from_str)
    put(_cache.clear, s_nop('clear'))
    put(_extra_impl.announce_class, s_nop('announce'))
    put(StateHolder.__dict__['_warn'].__func__, s_nop('warn'))
    return S

def without(S, *fns):
    S = dict(S)
    for f in fns:
        S.pop(id(f), None)
        w = unwrap_cached(f)
        if w is not None: S.pop(id(w), None)
    return S

def run_fn(eng, f, args, kw=None):
    """call the function under contract by its body (its own summary is not used for this call)"""
    f = wrapped(f)
    return eng.call_function(f, list(args), kw if isinstance(kw, DictC) else DictC(None, tuple((kw or {}).items())))

def exc_class(p, classes):
    """z3/bool: the exception of path p is an instance of classes"""
    if not isinstance(classes, tuple): classes = (classes,)
    v = p.value
    if isinstance(v, Ref):
        return any(issubclass(p.heap[v.id].cls, c) for c in classes)
    # the instance predicate was instantiated during the run
    return zor([inst_uf(c)(v.t) for c in classes])

# ---- events at any loop depth -------------------------------------------------
def flat(events, hyps=(), facts=(), depth=0):
    """(event, hypotheses under which it happens, facts) for every event of a path, loops included"""
    for e in events:
        if e[0] == 'loop':
            i, cnt, guard = e[1], e[2], e[3]
            h = [i >= 0, i < cnt] + ([zz(guard(i))] if guard is not None else [])
            for cond, evs, body in e[4]:
                yield from flat(evs, tuple(hyps) + tuple(h) + (cond,), tuple(facts) + tuple(body.facts), depth + 1)
        else: yield e, hyps, facts

def nested(p, *kinds):
    return [(e, list(h) + list(f)) for e, h, f in flat(p.events) if e[0] in kinds]

# option values: whatever the caller passed, with the documented default where nothing was passed
def with_defaults(a, pairs):
    for k, d in pairs:
        a = z3.Store(a, kstr(k), z3.If(a[kstr(k)] == Val.absent, const_term(d), a[kstr(k)]))
    return a

ANYKEY = z3.Const('some_option', Str)
def reaches(a, want, but=()):
    """for every option name (an arbitrary constant): the nested call has it as wanted"""
    n = ANYKEY
    return z3.Implies(z3.And(*[n != z3.StringVal(b) for b in but]) if but else z3.BoolVal(True), a[Val.strv(n)] == want[Val.strv(n)])

__all__ = [n for n in globals() if not n.startswith('__')]

def warnable(eng, fork):
    """contract of StateHolder._warn: no effect but a warning"""
    eng.assume(uf('hasattr:_warn', Val, Bool)(fork.t))
    def warn(e2, o, args, kw):
        e2.events.append(('warn', list(args), list(e2.loops))); return None
    eng.method_models['_warn'] = warn
    return fork

def as_list(p, v):
    """(number of candidates, element k as a term, guard or None) of a list or tuple value; None if it has another shape"""
    p.eng.heap = p.heap
    if isinstance(v, tuple): parts = [('e', x) for x in v]
    elif isinstance(v, Ref) and isinstance(p.heap.get(v.id), ListC): parts = p.heap[v.id].parts
    else: return None
    if len(parts) == 1 and parts[0][0] == 'seq':
        s = parts[0][1]
        n = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
        return n, (lambda k: p.eng.tv(s.get(k))), s.guard
    if all(x[0] == 'e' for x in parts):
        ts = [p.eng.tv(x[1]) for x in parts]
        def get(k):
            r = Val.absent
            for j, t in reversed(list(enumerate(ts))): r = z3.If(k == j, t, r)
            return r
        return z3.IntVal(len(ts)), get, None
    return None

def seq_of(p, v):
    """the loop-built sequence a list or tuple value consists of, if it does"""
    if isinstance(v, Seq): return v
    if isinstance(v, Ref) and isinstance(p.heap.get(v.id), ListC):
        ps = p.heap[v.id].parts
        if len(ps) == 1 and ps[0][0] == 'seq': return ps[0][1]
    return None

def element_cases(p, v, got):
    """how the k-th element came about: [(index, hypotheses, term)], one per path through the loop that built it"""
    s = seq_of(p, v)
    num, get, guard = got
    k = z3.Int('k')
    if s is not None and s.cases is not None:
        i, cs = s.cases
        h = [i >= 0, i < num] + ([zz(guard(i))] if guard is not None else [])
        out = []
        for c, facts, val in cs:
            p.eng.heap = p.heap
            out.append((i, h + [c] + facts, p.eng.tv(val())))
        return out
    return [(k, [k >= 0, k < num] + ([zz(guard(k))] if guard is not None else []), get(k))]

def kind_of(p, v):
    if isinstance(v, tuple): return 'tuple'
    if isinstance(v, Ref) and isinstance(p.heap.get(v.id), ListC): return p.heap[v.id].kind
    if isinstance(v, Ref) and isinstance(p.heap.get(v.id), DictC): return 'dict'
    return None

__all__ = [n for n in globals() if not n.startswith('__')]

def entries_of(p, v):
    """the entries of a dict value: (number of candidates, [(index, hypotheses, key term, value term)], guard), or None"""
    p.eng.heap = p.heap
    if not (isinstance(v, Ref) and isinstance(p.heap.get(v.id), DictC)): return None
    c = p.heap[v.id]
    if c.base is not None: return None
    if not c.log: return z3.IntVal(0), [], None
    if len(c.log) != 1: return None
    w = c.log[0]
    if not isinstance(w, Writes):
        if w[1] is DELETED: return None
        i = z3.Int('i!one')
        return z3.IntVal(1), [(i, [i == 0], p.eng.tv(w[0]), p.eng.tv(w[1]))], None
    n = z3.IntVal(w.n) if isinstance(w.n, int) else w.n
    if w.cases is None: return None
    i, cs = w.cases
    out = []
    for c2, facts, val in cs:
        p.eng.heap = p.heap
        k, x = val()
        out.append((i, [i >= 0, i < n, c2] + facts, p.eng.tv(k), p.eng.tv(x)))
    return n, out, (None if w.cond is None else w.cond)

def transformer(eng, name='kt'):
    """some key transformer: a pure total function of the key"""
    kt = sclass(eng, name)
    f = uf(name + '_of', Val, Val)
    def call(e, a, k):
        r = f(e.tv(a[0])); e.assume(r != Val.absent); return T(r)
    eng.call_models[name] = call
    return kt, f

__all__ = [n for n in globals() if not n.startswith('__')]
