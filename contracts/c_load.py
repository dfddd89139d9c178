"""Contracts on load, loads, loadb, dump (C01, C02, C07, C12, C19 at the top level)."""
from contracts.common import *
from contracts.common import _load_impl, _dump_impl, _common_impl
import json

def load_inputs(eng, **more):
    o, c, f = svalue(eng, 'obj'), svalue(eng, 'cls'), fork_value(eng)
    eng.assume(z3.Or(Val.is_none(c.t), Val.is_strv(c.t), z3.And(Val.is_ref(c.t), TRUTH_U(c.t))))
    eng.assume(z3.Implies(Val.is_ref(c.t), z3.Not(eng.inst(c.t, str))))
    type_axioms(eng, c.t)
    eng.data['in'] = (o, c, f)
    return o, c, f

_paths = {}
def load_paths(ctx):
    """all paths of load(obj, cls, fork_inst=fork, **kw) for any obj, cls, fork and options"""
    k = id(ctx)
    if k not in _paths:
        S = base_summaries()
        def thunk(eng):
            o, c, f = load_inputs(eng)
            eng.data['kw'] = options(without=('fork_inst',))
            return run_fn(eng, load, [o, c], DictC(eng.data['kw'], (('fork_inst', f),)))
        _paths[k] = ctx.paths(thunk, S)
    return _paths[k]

def dump_paths(ctx):
    k = (id(ctx), 'd')
    if k not in _paths:
        S = base_summaries()
        def thunk(eng):
            o, c, f = svalue(eng, 'obj'), svalue(eng, 'cls'), fork_value(eng)
            eng.assume(z3.Or(Val.is_none(c.t), z3.And(Val.is_ref(c.t), TRUTH_U(c.t))))
            eng.data['in'] = (o, c, f)
            eng.data['kw'] = options(without=('fork_inst',))
            return run_fn(eng, dump, [o, c], DictC(eng.data['kw'], (('fork_inst', f),)))
        _paths[k] = ctx.paths(thunk, S)
    return _paths[k]

def evs(p, kind): return [e for e in p.events if e[0] == kind]
def lizer_calls(p, kind='deserializer'):
    """call events of what get_<kind> returned, as (event, class term, fork term)"""
    out = []
    for e in evs(p, 'call'):
        t = e[1]
        if z3.is_app(t) and t.decl().eq(LOOKUP[kind]): out.append((e, t.arg(0), t.arg(1)))
    return out
def call_result(e): return e[-1]
RET1 = lambda f, a: uf('returns1', Val, Val, Arr, Bool)(f, a, EMPTY)
RES1 = lambda f, a: uf('result1', Val, Val, Arr, Val)(f, a, EMPTY)
ERR1 = lambda f, a: uf('error1', Val, Val, Arr, Val)(f, a, EMPTY)
def truthy(p, t): return zz(p.eng.bool_(T(t)))
def same_exc(p, t):
    """z3/bool: the exception of the path is exactly the value t"""
    v = p.value
    if isinstance(v, Ref): return False
    return v.t == t
def exc_attr(p, name):
    c = p.heap[p.value.id]
    return c.attrs.get(name)
def term(p, v):
    eng = p.eng
    eng.heap = p.heap
    return eng.tv(v)
def values_equal(p, v, t):
    return term(p, v) == t

# ---------------------------------------------------------------- C12
@contract('C12', 'load: the returned value passed its validator')
def c12_load(ctx):
    ps = load_paths(ctx)
    for k, p in enumerate(ps):
        if p.kind != 'ret': continue
        o, c, f = p.data['in']
        r = term(p, p.value)
        ds = lizer_calls(p)
        if ds:
            e, ct, ft = ds[-1]
            ctx.check('the value returned is what the deserializer returned [%d]' % k, p, r == call_result(e).t)
        else:
            ct = c.t
            ctx.check('a value returned as it is, is the input [%d]' % k, p, r == o.t)
        v = LOOKUP['validator'](ct, f.t)
        ctx.prove('the validator of its type, if any, accepted exactly this value [%d]' % k, p,
                  z3.Or(z3.Not(truthy(p, v)), z3.And(RET1(v, r), truthy(p, RES1(v, r)))))
    ctx.cover('a validated value is returned', ps, lambda p: p.kind == 'ret' and bool(lizer_calls(p, 'validator')))
    ctx.cover('a value is returned as it is', ps, lambda p: p.kind == 'ret' and not lizer_calls(p))

@contract('C12', 'load: a rejected value raises a ValidationError')
def c12_reject(ctx):
    ps = load_paths(ctx)
    n = 0
    for k, p in enumerate(ps):
        o, c, f = p.data['in']
        ds = lizer_calls(p)
        for e, ct, ft in lizer_calls(p, 'validator'):
            v = e[1]
            a = e[4][0] if len(e[4]) == 1 else None
            ctx.check('validators get one argument, no options [%d]' % k, p, a is not None and (e[5].eq(EMPTY) or e[5] == EMPTY))
            if a is None: continue
            tgt = ds[-1][1] if ds else c.t
            ctx.check('only the validator registered for the target type and fork is consulted [%d]' % k, p, z3.And(ct == tgt, ft == f.t))
            rejected = z3.Or(z3.Not(RET1(v, a)), z3.Not(truthy(p, RES1(v, a))))
            if p.kind == 'ret':
                ctx.prove('no return after a rejection [%d]' % k, p, z3.Not(rejected)); continue
            n += 1
            isV = exc_class(p, ValidationError)
            ctx.check('a rejection surfaces as ValidationError [%d]' % k, p, z3.Implies(rejected, zz(isV)))
            if isinstance(p.value, Ref):
                msg = exc_attr(p, '_message')
                if msg is None:
                    ctx.add('the message is recorded [%d]' % k, 'undecided', 0, 'attribute _message not found'); continue
                x = ERR1(v, a)
                args = uf('attr:args', Val, Val)(x)
                ctx.prove('the message is the first argument of the validator\'s exception [%d]' % k, p,
                          z3.Implies(z3.And(z3.Not(RET1(v, a)), LEN_U(args) > 0), term(p, msg) == ITER(args, z3.IntVal(0))))
    if n == 0: ctx.add('reachable: a rejection', 'undecided', 0, 'no path calls a validator')

# ---------------------------------------------------------------- C01
@contract('C01', 'load: only JsonsErrors escape')
def c01_load(ctx):
    ps = load_paths(ctx)
    nd = 0
    for k, p in enumerate(ps):
        o, c, f = p.data['in']
        if p.kind != 'raise': continue
        if p.data.get('clash'): continue
        ctx.check('what escapes is a JsonsError [%d]' % k, p, exc_class(p, JsonsError))
        ds = lizer_calls(p)
        if ds and call_result(ds[-1][0]) is None:
            e, ct, ft = ds[-1]
            nd += 1
            x = uf('error2', Val, Val, Val, Arr, Val)(e[1], e[4][0], e[4][1], e[5])
            isj = inst_uf(JsonsError)(x)
            if isinstance(p.value, T):
                ctx.check('an error of the library passes through unchanged [%d]' % k, p, z3.And(p.value.t == x, isj))
            else:
                ctx.check('an error of the library is not replaced [%d]' % k, p, z3.Not(isj))
                ctx.check('any other exception surfaces as DeserializationError [%d]' % k, p, exc_class(p, DeserializationError))
                at = p.heap[p.value.id].attrs
                for nm, want in (('_source', o.t), ('_target', ct), ('__cause__', x)):
                    ctx.prove('it carries %s [%d]' % (nm.strip('_'), k), p, term(p, at[nm]) == want if nm in at else False)
    if nd == 0: ctx.add('reachable: the deserializer fails', 'undecided')
    ctx.cover('a failure of the deserializer is wrapped', ps, lambda p: p.kind == 'raise' and isinstance(p.value, Ref) and '__cause__' in p.heap[p.value.id].attrs)

@contract('C01', 'load: None is rejected where the type does not admit it')
def c01_none(ctx):
    ps = load_paths(ctx)
    NT = const_term(type(None))
    for k, p in enumerate(ps):
        o, c, f = p.data['in']
        # a plain class other than object and NoneType: no union, no parameters
        plain = z3.And(Val.is_ref(c.t), z3.Not(uf('hasattr:__args__', Val, Bool)(c.t)), z3.Not(uf('hasattr:__union_params__', Val, Bool)(c.t)),
                       *[c.t != const_term(x) for x in (typing.Any, object, type(None))])
        if p.kind == 'ret':
            ctx.prove('None never loads into a class that is not object or NoneType [%d]' % k, p, z3.Not(z3.And(Val.is_none(o.t), plain)))
    ctx.cover('None is loaded', ps, lambda p: z3.And(Val.is_none(p.data['in'][0].t)) if p.kind == 'ret' else False)

@contract('C01', 'loads: text that is not JSON surfaces as DecodeError')
def c01_loads(ctx):
    S = base_summaries()
    def thunk(eng):
        s = svalue(eng, 'text'); eng.assume(Val.is_strv(s.t))
        c = svalue(eng, 'cls'); eng.data['in'] = (s, c)
        return run_fn(eng, _load_impl.loads, [s, c], DictC(options(without=('jdkwargs', 'cls', 'str_'))))
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        s, c = p.data['in']
        bad = [e for e in p.events if e[0] == 'json.loads' and e[-1] is None]
        if p.kind == 'raise':
            ctx.check('what escapes is a JsonsError [%d]' % k, p, exc_class(p, JsonsError))
        if bad:
            ctx.check('invalid JSON raises [%d]' % k, p, p.kind == 'raise')
            ctx.check('invalid JSON is a DecodeError [%d]' % k, p, exc_class(p, DecodeError))
            if isinstance(p.value, Ref):
                at = p.heap[p.value.id].attrs
                ctx.prove('carrying the text [%d]' % k, p, term(p, at['_source']) == s.t if '_source' in at else False)
                ctx.prove('carrying the target type [%d]' % k, p, term(p, at['_target']) == c.t if '_target' in at else False)
    ctx.cover('invalid JSON', ps, lambda p: any(e[0] == 'json.loads' and e[-1] is None for e in p.events))
    ctx.cover('valid JSON', ps, lambda p: p.kind == 'ret')

@contract('C01', 'loadb: bytes only, and decoding errors surface as DeserializationError')
def c01_loadb(ctx):
    S = base_summaries()
    def loads_(eng, args, kw):
        eng.events.append(('loads', args[0], args[1] if len(args) > 1 else None))
        ok = eng.fresh('loads_returns', Bool)
        if eng.branch(ok): return T(eng.fresh('loads_result', Val))
        raise PyRaise(eng.unknown_exc('loads_error', JsonsError))
    S[id(_load_impl.loads)] = loads_
    def thunk(eng):
        b = svalue(eng, 'bytes'); c = svalue(eng, 'cls'); eng.data['in'] = (b, c)
        eng.data['isb'] = eng.inst(b.t, bytes)
        return run_fn(eng, _load_impl.loadb, [b, c], DictC(options(without=('jdkwargs', 'cls', 'str_', 'encoding'))))
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        b, c = p.data['in']
        if p.kind == 'raise':
            ctx.check('what escapes is a JsonsError [%d]' % k, p, exc_class(p, JsonsError))
        else: ctx.check('only bytes are accepted [%d]' % k, p, p.data['isb'])
        if not evs(p, 'loads') and p.kind == 'raise':
            ctx.check('a refusal is a DeserializationError [%d]' % k, p, exc_class(p, DeserializationError))
    ctx.cover('bytes are refused', ps, lambda p: p.kind == 'raise' and not evs(p, 'loads'))
    ctx.cover('bytes are loaded', ps, lambda p: p.kind == 'ret')

@contract('C01', 'get_cls_from_str: a class or an UnknownClassError')
def c01_cls_from_str(ctx):
    g = _common_impl.get_cls_from_str
    S = without(base_summaries(), g)
    import importlib
    def imp(eng, args, kw):
        """assumed: importing a module by name gives a module, or ImportError, TypeError or ValueError"""
        n = eng.tv(args[0])
        k = eng.choose([True] * 4, free=True)
        if k == 0:
            r = uf('module', Val, Val)(n); eng.assume(Val.is_ref(r)); return T(r)
        eng.raise_((ImportError, TypeError, ValueError)[k - 1], 'import')
    S[id(importlib.import_module)] = imp
    if hasattr(_common_impl, '_split_subtypes'):
        # assumed of the splitting loop (plain string operations on a string): a list of strings
        S[id(_common_impl._split_subtypes)] = lambda eng, args, kw: models.str_method(eng, args[0], 'split', [','], DictC(None, ()))
    inner = base_summaries()[id(g)]
    first = [True]
    def thunk(eng):
        s, o, f = svalue(eng, 'cls_str'), svalue(eng, 'source'), fork_value(eng)
        eng.assume(z3.Implies(Val.is_ref(s.t), z3.Not(eng.inst(s.t, str))))      # strings are plain strings
        eng.assume(eng.has_attr(f.t, '_announced_classes'))
        ann = uf('attr:_announced_classes', Val, Val)(f.t)
        eng.assume(eng.inst(ann, dict)); eng.assume(Val.is_ref(ann))
        eng.subscript_exc = (TypeError, ValueError, LookupError)     # assumed of subscripting whatever a name denotes
        eng.summaries = {k: v for k, v in S.items()}
        eng.summaries[id(g)] = inner          # recursive calls by contract
        return eng.call_function_(g, [s, o, f], DictC(None, ()))
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        if p.kind == 'raise': ctx.check('what escapes is an UnknownClassError [%d]' % k, p, exc_class(p, UnknownClassError))
    ctx.cover('a class is found', ps, lambda p: p.kind == 'ret')
    ctx.cover('an unknown class', ps, lambda p: p.kind == 'raise')

# ---------------------------------------------------------------- C02
@contract('C02', 'dump: only SerializationErrors escape, and nothing is swallowed')
def c02_dump(ctx):
    ps = dump_paths(ctx)
    for k, p in enumerate(ps):
        cs = lizer_calls(p, 'serializer')
        ok = len(cs) == 1
        if not ok:
            ctx.check('exactly one serializer is called [%d]' % k, p, False); continue
        e, ct, ft = cs[0]
        o, c, f = p.data['in']
        res = call_result(e)
        ctx.check('the serializer gets the object and the class [%d]' % k, p, z3.And(e[4][0] == o.t, e[5][kstr('cls')] == c.t))
        if p.kind == 'ret':
            ctx.check('a failure is not swallowed [%d]' % k, p, res is not None)
            if res is not None: ctx.check('what the serializer returned is returned [%d]' % k, p, term(p, p.value) == res.t)
        else:
            ctx.check('what escapes is a SerializationError [%d]' % k, p, exc_class(p, SerializationError))
            ctx.check('an error is raised only if the serializer failed [%d]' % k, p, res is None)
            if isinstance(p.value, Ref) and res is None:
                x = uf('error%d' % len(e[4]), *([Val] * (1 + len(e[4])) + [Arr, Val]))(e[1], *e[4], e[5])
                at = p.heap[p.value.id].attrs
                ctx.prove('its cause is the original exception [%d]' % k, p, term(p, at['__cause__']) == x if '__cause__' in at else False)
    ctx.cover('a dump returns', ps, lambda p: p.kind == 'ret')
    ctx.cover('a dump fails', ps, lambda p: p.kind == 'raise')
