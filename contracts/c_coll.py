"""Contracts on the collection (de)serializers (C04, C05, C07, C23)."""
from contracts.common import *
from contracts.common import _compatibility_impl
from contracts.c_load import evs, term
import typish, inspect
from jsons.deserializers.default_list import default_list_deserializer as dlist
from jsons.deserializers.default_iterable import default_iterable_deserializer as diter

from pyvc.engine import GARG, NGARG
GET_ARGS = uf('generic_args', Val, Val)
HASA, ARGS = uf('hasattr:__args__', Val, Bool), uf('attr:__args__', Val, Val)
HASO, ORIGIN = uf('hasattr:__origin__', Val, Bool), uf('attr:__origin__', Val, Val)

def tup(eng, t):
    eng.assume(Val.is_ref(t)); eng.assume(eng.inst(t, tuple)); eng.assume(TRUTH_U(t) == (LEN_U(t) > 0))
    return T(t)
def slist(eng, name, cls=list):
    t = z3.Const(name, Val)
    eng.assume(Val.is_ref(t)); eng.assume(eng.inst(t, cls)); eng.assume(TRUTH_U(t) == (LEN_U(t) > 0)); eng.assume(LEN_U(t) >= 0)
    return T(t)

def s_get_args(eng, args, kw):
    """assumed of typish.get_args: the tuple of generic arguments of a type (empty if it has none), depending on the type only"""
    c = args[0] if args else eng.dict_find(kw, 'cls')
    if not isinstance(c, SYMBOLIC): return eng.native(lambda: typish.get_args(c))
    t = eng.tv(c)
    r = GET_ARGS(t); tup(eng, r)
    j = z3.Int('j!ga')
    eng.assume(LEN_U(r) == NGARG(t)); eng.assume(uf('is_argtuple', Val, Bool)(r))
    eng.fact(forall([j], ITER(r, j) == GARG(t, j), [ITER(r, j)]))
    for k in range(3): eng.assume(ITER(r, z3.IntVal(k)) == GARG(t, z3.IntVal(k)))
    return T(r)

def stype(eng, name):
    """some class or typing construct (Python 3.7+): its generic arguments, if any, are in __args__ and are no type
    variables; the class behind it is its __origin__ or itself"""
    c = sclass(eng, name); t = c.t
    a = ARGS(t)
    j = z3.Int('j!ty')
    eng.assume(z3.Implies(HASA(t), z3.And(Val.is_ref(a), eng.inst(a, tuple), TRUTH_U(a) == (LEN_U(a) > 0), uf('is_argtuple', Val, Bool)(a), NGARG(t) == LEN_U(a))))
    for k in range(3): eng.assume(z3.Implies(HASA(t), ITER(a, z3.IntVal(k)) == GARG(t, z3.IntVal(k))))
    eng.fact(forall([j], z3.Implies(HASA(t), ITER(a, j) == GARG(t, j)), [ITER(a, j)]))
    eng.assume(z3.Implies(z3.Not(HASA(t)), NGARG(t) == 0)); eng.assume(NGARG(t) >= 0)
    for n in ('__extra__', '__tuple_params__', '__tuple_use_ellipsis__', '__union_params__'): eng.assume(z3.Not(uf('hasattr:' + n, Val, Bool)(t)))
    eng.assume(z3.If(HASO(t), z3.And(Val.is_ref(ORIGIN(t)), eng.inst(ORIGIN(t), type)), eng.inst(t, type)))
    return c
def naked(t): return z3.If(HASO(t), ORIGIN(t), t)

def summaries():
    S = base_summaries()
    S[id(typish.get_args)] = s_get_args
    return S

LEVEL = ('tasks', 'task_type', 'warn_on_fail', '_inferred_cls')      # options of one level, and the internal mark
K = z3.Int('k')
NOOPT = ('obj', 'cls', 'tasks', 'task_type', '_inferred_cls', 'fork_inst')

def first_arg(c): return z3.If(NGARG(c) > 0, GARG(c, 0), Val.none)

_mem = {}
def cached_paths(ctx, key, make):
    k = (id(ctx), key)
    if k not in _mem: _mem[k] = make()
    return _mem[k]

def the_options(p, kind):
    """the options of the nested calls of a path, if they are the same for all"""
    arrs = []
    for e, h in nested(p, kind):
        if not any(e[3].eq(a) for a in arrs): arrs.append(e[3])
    return arrs

# ------------------------------------------------------------------ lists
def list_paths(ctx):
    def make():
        def thunk(eng):
            o, c, f = slist(eng, 'obj'), stype(eng, 'cls'), warnable(eng, fork_value(eng))
            eng.data['in'] = (o, c, f)
            eng.data['kw'] = options(without=NOOPT)
            return run_fn(eng, dlist, [o, c], DictC(eng.data['kw'], (('fork_inst', f),)))
        return ctx.paths(thunk, summaries())
    return cached_paths(ctx, 'list', make)

def elementwise(ctx, q, p, v, got, n, elem, cls_at, OK, V, arrs, hyps=(), what='element'):
    """got is (number, element k, guard) of the value v; the k-th one is the conversion of elem(k) to cls_at(k), nothing else is in it"""
    num, get, guard = got
    ctx.prove('as many %ss as given [%d]' % (what, q), p, num == n, hyps)
    if z3.is_int_value(z3.simplify(num)) and z3.simplify(num).as_long() == 0: return
    for m, (k, h, t) in enumerate(element_cases(p, v, got)):
        alts = [z3.And(t == V(elem(k), cls_at(k), a), OK(elem(k), cls_at(k), a)) for a in arrs]
        ctx.prove('%s k is the conversion of %s k to its declared type [%d.%d]' % (what, what, q, m), p, z3.Or(alts) if alts else False, list(hyps) + h)

def check_list(ctx, ps, instance):
    for q, p in enumerate(ps):
        o, c, f = p.data['in']
        n = LEN_U(o.t)
        elem, cls_at = (lambda k: ITER(o.t, k)), (lambda k: first_arg(c.t))
        es, arrs = evs(p, 'load'), the_options(p, 'load')
        if p.kind == 'ret':
            v = instance(ctx, q, p, c.t)
            got = as_list(p, v) if v is not None else None
            if got is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
            elementwise(ctx, q, p, v, got, n, elem, cls_at, LOAD_OK, LOAD_V, arrs)
            if got[2] is not None:
                wanted = p.data['kw'][kstr('warn_on_fail')]
                ctx.prove('elements are left out only when warnings are asked for [%d]' % q, p, z3.Or(zz(got[2](K)), z3.And(wanted != Val.absent, zz(p.eng.bool_(T(wanted))))), [K >= 0, K < n])
                ctx.prove('elements are left out only if they fail [%d]' % q, p, z3.Or(zz(got[2](K)), z3.And([z3.Not(LOAD_OK(elem(K), cls_at(K), a)) for a in arrs])), [K >= 0, K < n])
        else:
            cs = evs(p, 'call')
            if cs and cs[-1][-1] is None:      # the constructor of the collection failed
                ctx.prove('only the class of the collection is called [%d]' % q, p, cs[-1][1] == naked(c.t)); continue
            ctx.check('a failure is a JsonsError [%d]' % q, p, exc_class(p, JsonsError))
            if not es: ctx.check('a failure stems from an element [%d]' % q, p, False); continue
            x = es[-1][1]
            w = x.arg(1) if z3.is_app(x) and x.num_args() == 2 else None
            if w is None: ctx.add('which element fails [%d]' % q, 'undecided'); continue
            ctx.prove('the failing element is one of the list [%d]' % q, p, z3.And(x == elem(w), w >= 0, w < n, z3.Not(LOAD_OK(x, cls_at(w), es[-1][3]))))
            if isinstance(p.value, Ref) and isinstance(p.heap[p.value.id], InstC):
                a = p.heap[p.value.id].attrs.get('args')
                msg = p.eng.tv(a[0]) if isinstance(a, tuple) and a else None
                if msg is None: ctx.add('the message [%d]' % q, 'undecided')
                else: ctx.prove('the message names the index of the failing element [%d]' % q, p, z3.Contains(Val.s(msg), z3.IntToStr(w)))
    ctx.cover('a loaded collection', ps, lambda p: p.kind == 'ret')
    ctx.cover('a failing element', ps, lambda p: p.kind == 'raise')

@contract('C04', 'a list: every element, in order')
def c04_list(ctx):
    def instance(ctx, q, p, c):
        ctx.check('the result is a list [%d]' % q, p, kind_of(p, p.value) == 'list')
        return p.value
    check_list(ctx, list_paths(ctx), instance)

ISINST = uf('isinstance', Val, Val, Bool)
def iter_paths(ctx):
    def make():
        def thunk(eng):
            o, c, f = slist(eng, 'obj'), stype(eng, 'cls'), warnable(eng, fork_value(eng))
            eng.data['in'] = (o, c, f)
            eng.data['kw'] = options(without=NOOPT)
            return run_fn(eng, diter, [o, c], DictC(eng.data['kw'], (('fork_inst', f),)))
        return ctx.paths(thunk, summaries())
    return cached_paths(ctx, 'iter', make)

@contract('C04', 'an iterable: every element, in order, as the class asked for')
def c04_iter(ctx):
    def instance(ctx, q, p, c):
        cs = evs(p, 'call')
        if not cs:
            if kind_of(p, p.value) != 'list': ctx.add('the result is an instance of the class [%d]' % q, 'undecided'); return None
            tests = [x for x in isinstance_tests(p)]
            ctx.prove('a list is returned only if it is an instance of the class [%d]' % q, p, z3.Or([z3.And(x, x.arg(1) == naked(c)) for x in tests] or [z3.BoolVal(False)]))
            return p.value
        ctx.prove('the class of the collection is called [%d]' % q, p, z3.And(cs[-1][1] == naked(c), term(p, p.value) == (cs[-1][-1].t if isinstance(cs[-1][-1], T) else p.eng.tv(cs[-1][-1]))))
        ctx.check('called once, with one argument [%d]' % q, p, len(cs) == 1 and len(cs[0][2]) == 1)
        return cs[-1][2][0]
    check_list(ctx, iter_paths(ctx), instance)

def isinstance_tests(p):
    out, seen, st = [], set(), list(p.pc)
    while st:
        a = st.pop()
        if a.get_id() in seen: continue
        seen.add(a.get_id())
        if z3.is_app(a):
            if a.decl().name() == 'isinstance' and a.num_args() == 2: out.append(a)
            st += a.children()
    return out

# ------------------------------------------------------------------ tuples
from jsons.deserializers.default_tuple import default_tuple_deserializer as dtuple
ELL = const_term(...)
FIELDS, HASF = uf('attr:_fields', Val, Val), uf('hasattr:_fields', Val, Bool)
HINTS_OK, HINTS = uf('type_hints_ok', Val, Bool), uf('type_hints', Val, Val)

def s_hints(eng, args, kw):
    """contract of get_type_hints: a dict of names to types depending on the class only, or an exception"""
    t = eng.tv(args[0])
    if not eng.branch(HINTS_OK(t)): raise PyRaise(T(eng_exc(eng, uf('type_hints_error', Val, Val)(t))))
    r = HINTS(t)
    eng.assume(Val.is_ref(r)); eng.assume(eng.inst(r, dict))
    eng.assume(TRUTH_U(r) == (LEN_U(r) > 0))
    k = z3.Const('k!h', Val)
    eng.fact(forall([k], z3.Implies(eng.dget(r)[k] != Val.absent, LEN_U(r) > 0), [eng.dget(r)[k]]))
    return T(r)
def eng_exc(eng, x, cls=Exception):
    eng.assume(Val.is_ref(x)); eng.assume(eng.inst(x, cls)); return x

def variadic(c): return z3.And(NGARG(c) > 0, GARG(c, NGARG(c) - 1) == ELL)
def tuple_at(c): return lambda k: z3.If(NGARG(c) == 0, Val.none, z3.If(variadic(c), GARG(c, 0), GARG(c, k)))

def tuple_paths(ctx):
    def make():
        def thunk(eng):
            o, c, f = slist(eng, 'obj'), stype(eng, 'cls'), warnable(eng, fork_value(eng))
            eng.assume(z3.Not(HASF(c.t)))
            eng.data['in'] = (o, c, f)
            eng.data['kw'] = options(without=NOOPT)
            return run_fn(eng, dtuple, [o, c], DictC(eng.data['kw'], (('fork_inst', f),)))
        return ctx.paths(thunk, summaries())
    return cached_paths(ctx, 'tuple', make)

@contract('C04', 'a tuple: every element, in order, as the type at its position')
def c04_tuple(ctx):
    ps = tuple_paths(ctx)
    for q, p in enumerate(ps):
        o, c, f = p.data['in']
        n = LEN_U(o.t)
        elem, cls_at = (lambda k: ITER(o.t, k)), tuple_at(c.t)
        es, arrs = evs(p, 'load'), the_options(p, 'load')
        if p.kind == 'ret':
            v = p.value; got = as_list(p, v)
            if got is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
            ctx.check('the result is a tuple [%d]' % q, p, kind_of(p, p.value) == 'tuple')
            if got[2] is not None: ctx.prove('no element is left out [%d]' % q, p, zz(got[2](K)), [K >= 0, K < got[0]])
            elementwise(ctx, q, p, v, got, n, elem, cls_at, LOAD_OK, LOAD_V, arrs)
        else:
            short = z3.And(NGARG(c.t) > 0, z3.Not(variadic(c.t)), n > NGARG(c.t))
            x = es[-1] if es else None
            fails = z3.Not(LOAD_OK(x[1], x[2], x[3])) if x else z3.BoolVal(False)
            ctx.prove('it fails only if an element fails or there are too many of them [%d]' % q, p, z3.Or(short, fails))
    ctx.cover('a loaded tuple', ps, lambda p: p.kind == 'ret')
    ctx.cover('a failing element', ps, lambda p: p.kind == 'raise')
    ctx.cover('a variadic tuple', ps, lambda p: variadic(p.data['in'][1].t) if p.kind == 'ret' else None)

FDEF = uf('attr:_field_defaults', Val, Val)
UNION_PARAMS = uf('union_params', Val, Val)
def s_union_params(eng, args, kw):
    """contract of get_union_params: a tuple of types or None, depending on the type only"""
    r = UNION_PARAMS(eng.tv(args[0]))
    if not eng.branch(z3.Not(Val.is_none(r)), free=True): return None
    return tup(eng, r)

def named_summaries():
    S = summaries()
    for f, s in ((_compatibility_impl.get_type_hints, s_hints), (_compatibility_impl.get_union_params, s_union_params)):
        S[id(f)] = s; S[id(wrapped(f))] = s
    return S

def snamedtuple(eng, c):
    """c is a named tuple class: _fields is a tuple of strings, _field_defaults a dict"""
    fl = FIELDS(c.t)
    eng.assume(HASF(c.t)); tup(eng, fl)
    for n in ('_field_defaults', '__annotations__'): eng.assume(uf('hasattr:' + n, Val, Bool)(c.t))
    eng.assume(Val.is_ref(FDEF(c.t))); eng.assume(eng.inst(FDEF(c.t), dict))
    j = z3.Int('j!f')
    eng.fact(forall([j], Val.is_strv(ITER(fl, j)), [ITER(fl, j)]))

def or_none(x): return z3.If(x == Val.absent, Val.none, x)

def named(ctx, kind):
    def thunk(eng):
        o, c, f = slist(eng, 'obj', kind), stype(eng, 'cls'), warnable(eng, fork_value(eng))
        snamedtuple(eng, c)
        eng.data['in'] = (o, c, f)
        eng.data['kw'] = options(without=NOOPT + ('key_transformer',))
        return run_fn(eng, dtuple, [o, c], DictC(eng.data['kw'], (('fork_inst', f),)))
    ps = cached_paths(ctx, ('named', kind), lambda: ctx.paths(thunk, named_summaries()))
    return ps

def check_named(ctx, kind):
    ps = named(ctx, kind)
    for q, p in enumerate(ps):
        o, c, f = p.data['in']
        fl = FIELDS(c.t)
        given = (lambda k: p.eng.dget(o.t)[ITER(fl, k)]) if kind is dict else (lambda k: ITER(o.t, k))
        elem = lambda k: z3.If(k < LEN_U(o.t), given(k), or_none(p.eng.dget(FDEF(c.t))[ITER(fl, k)]))
        cls_at = lambda k: or_none(p.eng.dget(HINTS(c.t))[ITER(fl, k)])
        arrs = the_options(p, 'load')
        if p.kind == 'ret':
            cs = evs(p, 'call')
            if len(cs) != 1: ctx.check('the class is called exactly once [%d]' % q, p, False); continue
            ctx.prove('the named tuple is made by its class [%d]' % q, p, z3.And(cs[0][1] == c.t, term(p, p.value) == (cs[0][-1].t if isinstance(cs[0][-1], T) else p.eng.tv(cs[0][-1]))))
            a = cs[0][2]
            if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == '*' and a[0][1][0] == 'seq':
                s = a[0][1][1]
                v = s; got = (z3.IntVal(s.n) if isinstance(s.n, int) else s.n), (lambda k: p.eng.tv(s.get(k))), s.guard
            elif not any(isinstance(x, tuple) for x in a) and not a: v = None; got = z3.IntVal(0), (lambda k: Val.absent), None
            else: ctx.add('the arguments of the class [%d]' % q, 'undecided'); continue
            if got[2] is not None: ctx.prove('no field is left out [%d]' % q, p, zz(got[2](K)), [K >= 0, K < got[0]])
            elementwise(ctx, q, p, v, got, LEN_U(fl), elem, cls_at, LOAD_OK, LOAD_V, arrs, what='field')
            if kind is dict: ctx.prove('a field is read only if it is there [%d]' % q, p, z3.Implies(K < LEN_U(o.t), given(K) != Val.absent), [K >= 0, K < LEN_U(fl)])
    ctx.cover('a loaded named tuple', ps, lambda p: p.kind == 'ret')
    ctx.cover('a failure', ps, lambda p: p.kind == 'raise')

@contract('C04', 'a named tuple from a list: every field from its position')
def c04_named_list(ctx): check_named(ctx, list)
@contract('C04', 'a named tuple from a dict: every field from its key')
def c04_named_dict(ctx): check_named(ctx, dict)

# ------------------------------------------------------------------ dicts
from jsons.deserializers.default_dict import default_dict_deserializer as ddict

def dict_thunk(with_transformer, fn=ddict):
    def thunk(eng):
        o, c, f = slist(eng, 'obj', dict), stype(eng, 'cls'), warnable(eng, fork_value(eng))
        eng.assume(eng.dget(o.t)[kstr('-keys')] == Val.absent)
        eng.data['in'] = (o, c, f)
        eng.data['kw'] = options(without=NOOPT + ('key_transformer', 'cls_args'))
        more = [('fork_inst', f)]
        eng.data['kt'] = lambda k: k
        if with_transformer:
            kt, ktf = transformer(eng)
            more.append(('key_transformer', kt)); eng.data['kt'] = ktf
        return run_fn(eng, fn, [o, c], DictC(eng.data['kw'], more))
    return thunk

def dict_paths(ctx, tr, fn=ddict): return cached_paths(ctx, ('dict', tr, fn), lambda: ctx.paths(dict_thunk(tr, fn), summaries()))

def own_value(ctx, q, p): return p.value
def check_dict(ctx, ps, value=own_value):
    for q, p in enumerate(ps):
        o, c, f = p.data['in']
        kt, n = p.data['kt'], LEN_U(o.t)
        arrs = the_options(p, 'load')
        entry = lambda k: p.eng.dget(o.t)[ITER(o.t, k)]
        two = NGARG(c.t) == 2
        if p.kind == 'ret':
            v = value(ctx, q, p)
            e = entries_of(p, v) if v is not None else None
            if e is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
            num, cases, guard = e
            ctx.prove('as many entries as given [%d]' % q, p, num == n)
            ctx.check('no entry is left out [%d]' % q, p, guard is None)
            for m, (i, h, k, x) in enumerate(cases):
                for what, got, src, cls in (('key', k, kt(ITER(o.t, i)), GARG(c.t, 0)), ('value', x, entry(i), GARG(c.t, 1))):
                    conv = z3.Or([z3.And(got == LOAD_V(src, cls, a), LOAD_OK(src, cls, a)) for a in arrs] or [z3.BoolVal(False)])
                    plain = got == src if what == 'key' else z3.Or([z3.And(got == LOAD_V(src, Val.none, a), LOAD_OK(src, Val.none, a)) for a in arrs] or [z3.BoolVal(False)])
                    ctx.prove('%s k is the load of %s k into the declared type [%d.%d]' % (what, what, q, m), p, z3.If(two, conv, plain), h)
        else:
            es, cs = evs(p, 'load'), evs(p, 'call')
            if cs and cs[-1][-1] is None:
                ctx.prove('only the class of the mapping is called [%d]' % q, p, z3.Or(cs[-1][1] == c.t, cs[-1][1] == naked(c.t))); continue
            ctx.check('a failure is a JsonsError [%d]' % q, p, exc_class(p, JsonsError))
            x = es[-1] if es else None
            ctx.prove('it fails only if a key or value fails [%d]' % q, p, z3.Not(LOAD_OK(x[1], x[2], x[3])) if x else z3.BoolVal(False))
    ctx.cover('a loaded dict', ps, lambda p: p.kind == 'ret')
    ctx.cover('a loaded dict with types', ps, lambda p: NGARG(p.data['in'][1].t) == 2 if p.kind == 'ret' else None)
    ctx.cover('a failure', ps, lambda p: p.kind == 'raise')

@contract('C04', 'a dict: every entry under its loaded key')
def c04_dict(ctx): check_dict(ctx, dict_paths(ctx, False))
@contract('C04', 'a dict: every entry under its transformed, loaded key')
def c04_dict_tr(ctx): check_dict(ctx, dict_paths(ctx, True))

from jsons.deserializers.default_mapping import default_mapping_deserializer as dmap
@contract('C04', 'a mapping: every entry under its loaded key, as the class asked for')
def c04_mapping(ctx):
    def value(ctx, q, p):
        c, cs = p.data['in'][1].t, evs(p, 'call')
        if not cs:
            if kind_of(p, p.value) != 'dict': ctx.add('the result is an instance of the class [%d]' % q, 'undecided'); return None
            ctx.prove('a dict is returned only if it is an instance of the class [%d]' % q, p, z3.Or([z3.And(x, x.arg(1) == naked(c)) for x in isinstance_tests(p)] or [z3.BoolVal(False)]))
            return p.value
        ctx.prove('the class of the mapping is called [%d]' % q, p, z3.And(z3.Or(cs[-1][1] == c, cs[-1][1] == naked(c)), term(p, p.value) == (cs[-1][-1].t if isinstance(cs[-1][-1], T) else p.eng.tv(cs[-1][-1]))))
        ctx.check('called once, with one argument [%d]' % q, p, len(cs) == 1 and len(cs[0][2]) == 1)
        return cs[-1][2][0]
    check_dict(ctx, dict_paths(ctx, False, dmap), value)

from jsons.deserializers.default_defaultdict import default_defaultdict_deserializer as ddefault
import collections
@contract('C04', 'a defaultdict: the dict of the same types, with the value type as factory')
def c04_default(ctx):
    DD = const_term(collections.defaultdict)
    for tr in (False, True):
        ps = dict_paths(ctx, tr, ddefault)
        for q, p in enumerate(ps):
            o, c, f = p.data['in']
            es, cs = evs(p, 'load'), evs(p, 'call')
            bad = z3.And(NGARG(c.t) > 0, NGARG(c.t) != 2)      # not a type of keys and values
            if p.kind == 'raise':
                x = es[-1] if es else None
                fails = z3.Not(LOAD_OK(x[1], x[2], x[3])) if x else z3.BoolVal(False)
                if cs and cs[-1][-1] is None: ctx.prove('only the defaultdict is made [%d]' % q, p, cs[-1][1] == DD)
                else: ctx.prove('it fails only if the dict fails [%d]' % q, p, z3.Or(fails, bad))
                continue
            if len(es) != 1 or len(cs) != 1 or len(cs[0][2]) != 2: ctx.check('loaded once, and made a defaultdict once [%d]' % q, p, False); continue
            e, k = es[0], cs[0]
            ctx.prove('the value itself is loaded [%d]' % q, p, e[1] == o.t)
            ctx.prove('as a dict of the same types [%d]' % q, p, z3.If(NGARG(c.t) == 2, z3.And(NGARG(e[2]) == 2, GARG(e[2], 0) == GARG(c.t, 0), GARG(e[2], 1) == GARG(c.t, 1)), z3.Or(e[2] == const_term(typing.Dict), e[2] == const_term(dict))))
            ctx.prove('the result is the defaultdict of what was loaded [%d]' % q, p, z3.And(k[1] == DD, k[4][1] == LOAD_V(e[1], e[2], e[3]), term(p, p.value) == k[-1].t))
            ctx.prove('with the value type as its factory [%d]' % q, p, k[4][0] == z3.If(NGARG(c.t) == 2, GARG(c.t, 1), Val.none))
        ctx.cover('a defaultdict', ps, lambda p: p.kind == 'ret')
