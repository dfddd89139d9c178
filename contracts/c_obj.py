"""Contracts on the object deserializer (C07, C13, C14)."""
from contracts.c_coll import *
from contracts.c_coll import s_hints, HINTS, HINTS_OK
from contracts.common import _compatibility_impl, _common_impl
from contracts.c_deco import PARAMS, SIG, ANN
from contracts.c_load import evs, term
from contracts import c_options
from jsons.deserializers import default_object as DO
from pyvc.engine import Oracle
import copy

dobj = DO.default_object_deserializer
DEFAULT, KIND = uf('attr:default', Val, Val), uf('attr:kind', Val, Val)
ADMITS = uf('admits_none', Val, Bool)
NESTED = uf('nested_hints', Val, Val, Val)
KINV = z3.Function('position_of_key', Val, Int)
P_ = inspect.Parameter
P_KINDS = list(type(P_.VAR_KEYWORD))
VARIADIC = [const_term(k) for k in (P_.VAR_POSITIONAL, P_.VAR_KEYWORD)]
EMPTY_ = const_term(P_.empty)
META = kstr('-meta')

def signature(eng, args, kw):
    """assumed of inspect.signature: an ordered dict of the parameters by name, each with kind, default and annotation"""
    s = SIG(eng.tv(args[0])); eng.assume(Val.is_ref(s)); eng.assume(uf('hasattr:parameters', Val, Bool)(s))
    ps = PARAMS(s)
    eng.assume(Val.is_ref(ps)); eng.assume(eng.inst(ps, dict)); eng.assume(TRUTH_U(ps) == (LEN_U(ps) > 0))
    at = lambda x: eng.dget(ps)[x]
    eng.element_of[ps.sexpr()] = lambda i, x: z3.And(Val.is_strv(x), x != kstr(''), Val.is_ref(at(x)), z3.Or([KIND(at(x)) == const_term(k) for k in P_KINDS]), *[c for n in ('kind', 'default', 'annotation', 'name')
        for c in (uf('hasattr:' + n, Val, Bool)(at(x)), uf('attr:' + n, Val, Val)(at(x)) != Val.absent)])
    return T(s)

def s_hints2(eng, args, kw):
    r = s_hints(eng, [T(eng.tv(args[0]))], kw)
    k = z3.Const('k!ht', Val); x = eng.dget(r.t)[k]
    eng.fact(forall([k], z3.Or(x == Val.absent, z3.And(Val.is_ref(x), TRUTH_U(x))), [x]))      # types are true
    return r

def s_nested(eng, args, kw):
    """contract of _get_nested_hints (C19): the class hints below a key, a dict"""
    k = args[0] if args else eng.dict_find(kw, 'cls_key')
    h = args[1] if len(args) > 1 else eng.dict_find(kw, 'meta_hints')
    r = NESTED(eng.tv(k), eng.tv(h)); eng.assume(Val.is_ref(r)); eng.assume(eng.inst(r, dict)); return T(r)

def obj_summaries():
    S = base_summaries()
    def put(f, h):
        S[id(f)] = h
        w = unwrap_cached(f)
        if w is not None: S[id(w)] = h
    put(_compatibility_impl.get_type_hints, s_hints2)
    put(_common_impl.can_match_with_none, lambda eng, args, kw: True if args[0] is None else B(z3.Or(eng.tv(args[0]) == Val.none, ADMITS(eng.tv(args[0])))))
    put(inspect.signature, signature)
    if hasattr(DO, '_get_nested_hints'): put(DO._get_nested_hints, s_nested)
    return S

def obj_thunk(getters, tr):
    def thunk(eng):
        o, c, f = slist(eng, 'obj', dict), stype(eng, 'cls'), warnable(eng, fork_value(eng))
        mh = slist(eng, 'meta_hints', dict)
        eng.assume(c.t != const_term(object))
        for n in ('__init__', '__module__'): eng.assume(uf('hasattr:' + n, Val, Bool)(c.t))
        strict = B(z3.Const('strict', Bool))
        eng.data['in'] = (o, c, f); eng.data['mh'] = mh
        eng.data['kw'] = options(without=NOOPT + ('key_transformer', 'strict', 'attr_getters', 'meta_hints'))
        for d in (mh, o): eng.element_of[d.t.sexpr()] = lambda i, x: Val.is_strv(x)
        g = None
        if getters:
            g = slist(eng, 'attr_getters', dict)
            eng.element_of[g.t.sexpr()] = lambda i, x: z3.And(Val.is_strv(x), Val.is_ref(eng.dget(g.t)[x]), TRUTH_U(eng.dget(g.t)[x]))
        eng.data['getters'] = g
        more = [('fork_inst', f), ('meta_hints', mh), ('strict', strict), ('attr_getters', g)]
        eng.data['kt'], eng.data['ktv'] = None, None
        if tr:
            kt, ktf = transformer(eng)
            j = z3.Int('j!kt')
            # excluded: keys of one object that the transformer maps to the same name
            eng.fact(forall([j], z3.Implies(z3.And(j >= 0, j < LEN_U(o.t)), KINV(ktf(ITER(o.t, j))) == j), [ITER(o.t, j)]))
            fs = lambda e, a, k: (lambda r: (e.assume(Val.is_strv(r)), T(r))[1])(ktf(e.tv(a[0])))
            eng.call_models['kt'] = fs
            more.append(('key_transformer', kt)); eng.data['kt'], eng.data['ktv'] = ktf, kt
        return run_fn(eng, dobj, [o, c], DictC(eng.data['kw'], more))
    return thunk

VARIANTS = [(g, t) for g in (False, True) for t in (False, True)]
def obj_paths(ctx, g, t):
    return cached_paths(ctx, ('object', g, t), lambda: ctx.paths(obj_thunk(g, t), obj_summaries(), feas_ms=100))

class View:
    """what the statements of C13 and C14 speak about, for one path"""
    def __init__(s, p):
        s.p, s.eng = p, p.eng
        s.o, s.c, s.f = (x.t for x in p.data['in'])
        s.kt = p.data['kt']
        s.ps = PARAMS(SIG(uf('attr:__init__', Val, Val)(s.c)))
        s.strict = z3.Const('strict', Bool)
        s.n = LEN_U(s.o)
    def tkey(s, k): return ITER(s.o, k) if s.kt is None else s.kt(ITER(s.o, k))
    def entry(s, k): return s.eng.dget(s.o)[ITER(s.o, k)]
    def given(s, name):
        if s.kt is None: return s.eng.dget(s.o)[name] != Val.absent
        j = KINV(name)
        return z3.And(0 <= j, j < s.n, s.kt(ITER(s.o, j)) == name)
    def value(s, name): return s.eng.dget(s.o)[name] if s.kt is None else s.entry(KINV(name))
    def par(s, name): return s.eng.dget(s.ps)[name]
    def consumed(s, name):
        """the constructor names such a parameter, other than self and *args, **kwargs"""
        return z3.And(s.par(name) != Val.absent, name != kstr('self'), *[KIND(s.par(name)) != v for v in VARIADIC])
    def hint(s, name): return or_none(s.eng.dget(HINTS(uf('attr:__init__', Val, Val)(s.c)))[name])
    def getter(s, name):
        g = s.p.data['getters']
        return Val.absent if g is None else s.eng.dget(g.t)[name]
    def admits(s, name): return z3.Or(s.hint(name) == Val.none, ADMITS(s.hint(name)))
    def where(s, *names, more=()):
        """facts about the place of a key among the parameters and in the object"""
        out = []
        for x in names:
            j = DIDX(s.ps, x)
            out += [z3.Implies(s.par(x) != Val.absent, z3.And(0 <= j, j < LEN_U(s.ps), ITER(s.ps, j) == x))] + instances(s.p, j, more=more)
            j = DIDX(s.o, x)
            out += [z3.Implies(s.eng.dget(s.o)[x] != Val.absent, z3.And(0 <= j, j < s.n, ITER(s.o, j) == x))]
            g = s.p.data['getters']
            if g is not None:
                j = DIDX(g.t, x)
                out += [z3.Implies(s.eng.dget(g.t)[x] != Val.absent, z3.And(0 <= j, j < LEN_U(g.t), ITER(g.t, j) == x))]
        return out
    def meta(s, name):
        m = s.eng.dget(s.p.data['mh'].t)[Val.strv(z3.Concat(z3.StringVal('/'), Val.s(name)))]
        return m, z3.And(m != Val.absent, zz(s.eng.bool_(T(m))))
    def cls_for(s, name):
        m, has = s.meta(name)
        return z3.If(has, FROM_STR(Val.s(m), s.f), s.hint(name))
    def loaded(s, val, src, cls, loads):
        return z3.Or([z3.And(val == LOAD_V(e[1], e[2], e[3]), LOAD_OK(e[1], e[2], e[3]), e[1] == src, e[2] == cls) for e in loads] + [z3.BoolVal(False)])

def attribute(p, v, name):
    """the attribute of an exception made on the path, through its properties"""
    eng = p.eng
    eng.heap = p.heap
    eng.oracle = Oracle()
    return eng.getattr_(v, name)

def body_events(p, i, kinds):
    """events of the bodies of the loops over index i, anywhere on the path"""
    out = []
    def walk(events, inside):
        for e in events:
            if e[0] == 'loop':
                for c, ev, b in e[4]: walk(ev, inside or e[1].eq(i))
            elif inside and e[0] in kinds: out.append(e)
    walk(p.events, False)
    return out

def instances(p, *ks, more=()):
    """the facts about every index, at the given ones"""
    out = []
    for f in list(p.facts) + list(more):
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == Int:
            out += [z3.substitute_vars(f.body(), k) for k in ks]
    return out

def class_calls(v): return [e for e in v.p.events if e[0] == 'call' and e[1].eq(v.c)]
def failing(p):
    """the last event of the path, if it failed: the reason the path failed"""
    es = [e for e in p.events if e[0] in ('load', 'call', 'setattr')]
    return es[-1] if es else None
def hints_fail(p, *ts):
    """the hints of the constructor or of the class of the instance cannot be had"""
    return z3.Or([z3.Not(HINTS_OK(t)) for t in ts])

def once(ctx, p, e, what=''):
    """the call was not met before, with the same history"""
    k = (id(ctx), what, e[1].get_id(), e[5].get_id(), tuple(x.get_id() for x in p.pc), tuple(x.get_id() for x in p.facts))
    if k in _met: return False
    _met[k] = (e, p); return True
_met = {}

def c13(ctx, g, t):
    if True:
        tag = '%s%s' % ('with getters' if g else 'no getters', ', with a key transformer' if t else '')
        ps = obj_paths(ctx, g, t)
        for q, p in enumerate(ps):
            v = View(p)
            name_ = '%s, %d' % (tag, q)
            cs = class_calls(v)
            if p.kind == 'ret':
                ctx.check('the class is called once [%s]' % name_, p, len(cs) == 1)
                if len(cs) != 1: continue
                ctx.prove('the result is what the class made [%s]' % name_, p, term(p, p.value) == cs[0][-1].t)
            if cs:
                v = View(known_at_call(p, cs[0]))
                if once(ctx, v.p, cs[0]): args(ctx, v, cs[0], name_)
                continue
            if p.kind != 'raise': continue
            unfulfilled(ctx, v, name_)
        ctx.cover('an object [%s]' % tag, ps, lambda p: p.kind == 'ret' and LEN_U(View(p).ps) > 2)
        ctx.cover('an unfulfilled argument [%s]' % tag, ps, lambda p: p.kind == 'raise' and isinstance(p.value, Ref) and p.heap[p.value.id].cls is UnfulfilledArgumentError)
        if g: ctx.cover('a value from a getter [%s]' % tag, ps, lambda p: p.kind == 'ret' and z3.And(LEN_U(View(p).ps) > 1, LEN_U(p.data['getters'].t) > 1))

def args(ctx, v, e, nm):
    p = v.p
    ctx.check('no positional argument [%s]' % nm, p, len(e[2]) == 0)
    kw = e[3]
    w = [x for x in kw.log if isinstance(x, Writes)]
    if kw.base is not None or len(kw.log) > 1 or (kw.log and (not w or w[0].cases is None)):
        ctx.add('the arguments of the constructor [%s]' % nm, 'undecided', detail=str(kw.log)); return
    if not w:
        ctx.prove('every parameter of the constructor is passed [%s]' % nm, p, z3.Not(v.consumed(ITER(v.ps, K))), [K >= 0, K < LEN_U(v.ps)]); return
    w = w[0]
    i, cs = w.cases
    for m, (c, facts, val) in enumerate(cs):
        p.eng.heap = p.heap
        k, x = val()
        k, x = p.eng.tv(k), p.eng.tv(x)
        h = [i >= 0, i < w.n, c] + facts + v.where(k, more=facts)
        loads, calls = body_events(p, i, ('load',)), body_events(p, i, ('call',))
        ctx.prove('only named parameters are passed [%s.%d]' % (nm, m), p, v.consumed(k), h)
        by_getter = z3.Or([z3.And(e2[1] == v.getter(k), z3.BoolVal(not e2[2] and e2[-1] is not None), x == e2[-1].t) for e2 in calls if e2[-1] is not None] + [z3.BoolVal(False)])
        given, got, has = v.given(k), v.getter(k) != Val.absent, DEFAULT(v.par(k)) != EMPTY_
        for what, when, then in (('the object', given, v.loaded(x, v.value(k), v.cls_for(k), loads)), ('a getter', z3.And(z3.Not(given), got), by_getter),
                                 ('its default', z3.And(z3.Not(given), z3.Not(got), has), x == DEFAULT(v.par(k))),
                                 ('nowhere: None', z3.Not(z3.Or(given, got, has)), z3.And(v.admits(k), x == Val.none))):
            ctx.prove('an argument from %s [%s.%d]' % (what, nm, m), p, z3.Implies(when, then), h)
    here = z3.And(K < w.n, zz(w.cond(K)) if w.cond else z3.BoolVal(True))
    ctx.prove('every parameter of the constructor is passed [%s]' % nm, p, z3.Implies(v.consumed(ITER(v.ps, K)), z3.And(here, p.eng.tv(w.key(K)) == ITER(v.ps, K))), [K >= 0, K < LEN_U(v.ps)] + instances(p, K))

def unfulfilled(ctx, v, nm):
    """a load that fails before the class is called"""
    p = v.p
    if isinstance(p.value, Ref) and p.heap[p.value.id].cls is UnfulfilledArgumentError:
        a = term(p, attribute(p, p.value, 'argument'))
        ctx.prove('the error names a parameter of the constructor [%s]' % nm, p, v.consumed(a))
        ctx.prove('for which there is no source [%s]' % nm, p, z3.Not(z3.Or(v.given(a), v.getter(a) != Val.absent, DEFAULT(v.par(a)) != EMPTY_, v.admits(a))), v.where(a))
        for at, want in (('source', None if v.kt is not None else v.o), ('target', v.c)):
            if want is not None: ctx.prove('carrying the %s [%s]' % (at, nm), p, term(p, attribute(p, p.value, at)) == want)
        return
    if isinstance(p.value, Ref) and p.heap[p.value.id].cls is SignatureMismatchError: return      # C14
    if isinstance(p.value, Ref): ctx.check('no other error [%s]' % nm, p, False); return
    e = failing(p)
    init = uf('attr:__init__', Val, Val)(v.c)
    x = p.value.t
    causes = [z3.Not(HINTS_OK(init)), inst_uf(UnknownClassError)(x)]
    if e is not None and e[0] == 'load': causes.append(z3.And(z3.Not(LOAD_OK(e[1], e[2], e[3])), x == LOAD_E(e[1], e[2], e[3])))
    if e is not None and e[0] == 'call' and e[-1] is None: causes.append(z3.BoolVal(True))      # a getter raised
    ctx.prove('any other failure is that of the value of an argument [%s]' % nm, p, z3.Or(causes))

# ------------------------------------------------------------------ C14
def known_at_call(p, e):
    """the path as it was when the call returned"""
    pp = copy.copy(p)
    _, npc, nf = p.data['known_at'][id(e)]
    pp.pc, pp.facts = p.pc[:npc], p.facts[:nf]
    return pp

def c14(ctx, g, t):
    if True:
        tag = '%s%s' % ('with getters' if g else 'no getters', ', with a key transformer' if t else '')
        ps = obj_paths(ctx, g, t)
        done = set()
        for q, p in sorted(enumerate(ps), key=lambda x: x[1].kind != 'ret'):
            v = View(p)
            nm = '%s, %d' % (tag, q)
            cs = class_calls(v)
            extra = z3.And(z3.Not(v.consumed(v.tkey(K))), v.tkey(K) != META)
            if p.kind == 'raise' and isinstance(p.value, Ref) and p.heap[p.value.id].cls is SignatureMismatchError:
                a = term(p, attribute(p, p.value, 'argument'))
                ctx.prove('only strict loading rejects leftovers [%s]' % nm, p, v.strict)
                ctx.prove('the error names a key of the object that is left over [%s]' % nm, p, z3.And(v.given(a), z3.Not(v.consumed(a)), a != META), v.where(a))
                ctx.prove('carrying the target [%s]' % nm, p, term(p, attribute(p, p.value, 'target')) == v.c)
                continue
            if not cs: continue
            pp = known_at_call(p, cs[0])
            hk = lambda x: [K >= 0, K < v.n] + key_facts(v, K) + instances(x, K) + View(x).where(v.tkey(K))
            if once(ctx, pp, cs[0], 'strict'): ctx.prove('strict loading makes no instance if a key is left over [%s]' % nm, pp, z3.Implies(v.strict, z3.Not(extra)), hk(pp))
            made = cs[0][-1]
            if made is None:
                ctx.check('a failing constructor is the reason [%s]' % nm, p, p.kind == 'raise' and p.events[-1] is cs[0]); continue
            after(ctx, v, made.t, nm, done)
            if p.kind == 'ret': kept(ctx, v, extra, hk(p), nm)
            else: fails(ctx, v, made.t, nm)
        ctx.cover('leftovers rejected [%s]' % tag, ps, lambda p: p.kind == 'raise' and isinstance(p.value, Ref) and p.heap[p.value.id].cls is SignatureMismatchError)
        ctx.cover('leftovers kept [%s]' % tag, ps, lambda p: p.kind == 'ret' and any(e[0] == 'setattr' for e, h in nested(p, 'setattr')))
        ctx.cover('an object without leftovers, strictly [%s]' % tag, ps, lambda p: p.kind == 'ret' and View(p).strict)

def key_facts(v, k):
    x = ITER(v.o, k)
    return [x != Val.absent, Val.is_strv(x), v.eng.dget(v.o)[x] != Val.absent, DIDX(v.o, x) == k] + ([KINV(v.kt(x)) == k] if v.kt is not None else [])

keep = []
def after(ctx, v, inst, nm, done):
    """what is set on the instance after it was made: the leftovers and the results of the getters, nothing else"""
    p = v.p
    for m, (e, h) in enumerate(nested(p, 'setattr')):
        name = term(p, e[2]); x = term(p, e[3])
        # iterations that ended normally are those of the complete loops, which were seen first
        k = (e[1].get_id(), name.get_id(), x.get_id(), tuple(y.get_id() for y in h[2:]))
        if e[4]:
            if k in done: continue
            if p.kind == 'ret': done.add(k); keep.append((e, h))
        loads = [e2 for e2, _ in nested(p, 'load')]; calls = [e2 for e2, _ in nested(p, 'call')]
        left = z3.And(v.given(name), z3.Not(v.consumed(name)), name != META, z3.Not(v.strict),
                      z3.Or([z3.And(x == LOAD_V(e2[1], e2[2], e2[3]), e2[1] == v.value(name)) for e2 in loads] + [z3.BoolVal(False)]))
        got = z3.Or([z3.And(v.getter(name) != Val.absent, e2[1] == v.getter(name), x == e2[-1].t) for e2 in calls if e2[-1] is not None and not e2[2]] + [z3.BoolVal(False)])
        ctx.prove('an attribute that is set is a leftover with its loaded value, or that of a getter [%s.%d]' % (nm, m), p, z3.And(e[1] == inst, z3.Or(left, got)), h + v.where(name, more=h))

def kept(ctx, v, extra, hk, nm):
    """every leftover is set"""
    p = v.p
    alts = []
    for e in p.events:
        if e[0] != 'loop': continue
        i, cnt, guard, bodies = e[1], e[2], e[3], e[4]
        names = [[term(p, x[2]) for x in ev if x[0] == 'setattr'] for c, ev, b in bodies]
        if not names or not all(len(n) == 1 for n in names): continue
        at = lambda n: z3.substitute(n, (i, K))
        alts.append(z3.And(K < cnt, zz(guard(K)) if guard is not None else z3.BoolVal(True), *[at(n[0]) == v.tkey(K) for n in names]))
    ctx.prove('every leftover ends up as an attribute [%s]' % nm, p, z3.Implies(z3.And(extra, z3.Not(v.strict)), z3.Or(alts) if alts else z3.BoolVal(False)), hk)

def fails(ctx, v, inst, nm):
    p = v.p
    if isinstance(p.value, Ref):
        # an instance that does not know its own class cannot be made by a class; anything else is an error of its own
        ctx.check('no other error [%s]' % nm, p, False); return
    x = p.value.t
    e = failing(p)
    causes = [z3.Not(HINTS_OK(p.eng.typeof(inst)))]
    if e[0] == 'load': causes.append(z3.And(z3.Not(LOAD_OK(e[1], e[2], e[3])), x == LOAD_E(e[1], e[2], e[3])))
    if e[0] == 'call' and e[-1] is None: causes.append(z3.BoolVal(True))
    if e[0] == 'setattr': causes.append(z3.And(z3.Not(uf('settable', Val, Val, Bool)(e[1], term(p, e[2]))), z3.Or(z3.Not(inst_uf(AttributeError)(x)), v.getter(term(p, e[2])) != Val.absent)))
    ctx.prove('an extra key alone does not make it fail [%s]' % nm, p, z3.Or(causes))

# ------------------------------------------------------------------ C07
def o_object(ctx, g, t):
    if True:
        def extra(p):
            x = [('strict', Val.boolv(z3.Const('strict', Bool)))]
            return x + ([('key_transformer', p.data['ktv'].t)] if t else [])
        c_options.options_reach(ctx, obj_paths(ctx, g, t), 'load', extra=extra, what='attribute')

for _g, _t in VARIANTS:
    _tag = ', '.join(n for n, x in (('getters', _g), ('key transformer', _t)) if x)
    _tag = ' (%s)' % _tag if _tag else ''
    for _prop, _name, _f in (('C13', 'an object: every constructor argument from its source', c13), ('C14', 'an object: leftovers are rejected or kept', c14),
                             ('C07', 'load an object: the options reach every argument and attribute', o_object)):
        contract(_prop, _name + _tag)(lambda ctx, f=_f, g=_g, t=_t: f(ctx, g, t))
