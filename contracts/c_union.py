"""Contracts on the union (de)serializers (C15, C07)."""
from contracts.common import *
from contracts.common import _compatibility_impl
from contracts.c_load import evs, term
from jsons.deserializers.default_union import default_union_deserializer as deser
from jsons.serializers.default_union import default_union_serializer as ser

ARGS = uf('attr:__args__', Val, Val)
def alt(c, k): return ITER(ARGS(c), k)

def union_input(eng):
    o, c = svalue(eng, 'obj'), sclass(eng, 'union')
    type_axioms(eng, c.t)
    # a Union: has parameters, at least one
    eng.assume(uf('hasattr:__args__', Val, Bool)(c.t))
    eng.assume(z3.Not(uf('hasattr:__union_params__', Val, Bool)(c.t)))
    eng.assume(LEN_U(ARGS(c.t)) > 0)
    eng.data['in'] = (o, c)
    eng.data['kw'] = options(without=('obj', 'cls'))
    return o, c

_mem = {}
def paths(ctx, fn):
    k = (id(ctx), fn)
    if k not in _mem:
        def thunk(eng):
            o, c = union_input(eng)
            return run_fn(eng, fn, [o, c], DictC(eng.data['kw']))
        _mem[k] = ctx.paths(thunk, base_summaries())
    return _mem[k]

def first_success(ctx, fn, kind, OK, V, E, exc):
    ps = paths(ctx, fn)
    j = z3.Int('j')
    for k, p in enumerate(ps):
        o, c = p.data['in']
        es = nested(p, kind)
        n = LEN_U(ARGS(c.t))
        for e, h in es:
            ctx.prove('alternatives are tried with the value itself [%d]' % k, p, e[1] == o.t, h)
        if p.kind == 'ret':
            r = term(p, p.value)
            top = evs(p, kind)
            if not top:
                if kind == 'dump':
                    m = z3.Int('m')
                    ctx.prove('only None is returned as it is, and only if the union admits it [%d]' % k, p,
                              z3.And(Val.is_none(o.t), r == Val.none, z3.Exists([m], z3.And(m >= 0, m < n, alt(c.t, m) == const_term(type(None))))))
                else: ctx.check('a result stems from an alternative [%d]' % k, p, False)
                continue
            e = top[-1]; ct, a = e[2], e[3]
            w = ct.arg(1) if z3.is_app(ct) and ct.num_args() == 2 else None
            if w is None or w.sort() != Int:
                ctx.add('which alternative is tried [%d]' % k, 'undecided'); continue
            ctx.prove('the alternative is one of the union [%d]' % k, p, z3.And(ct == alt(c.t, w), w >= 0, w < n))
            ctx.prove('the result is that of the alternative [%d]' % k, p, z3.And(OK(o.t, ct, a), r == V(o.t, ct, a)))
            ctx.prove('every earlier alternative failed [%d]' % k, p, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(OK(o.t, alt(c.t, j), a)))))
            if kind == 'dump':
                m = z3.Int('m')
                ctx.prove('None of a union that admits it goes through no alternative [%d]' % k, p,
                    z3.Not(z3.And(Val.is_none(o.t), z3.Exists([m], z3.And(m >= 0, m < n, alt(c.t, m) == const_term(type(None)))))))
        else:
            ctx.check('a failure is a %s [%d]' % (exc.__name__, k), p, exc_class(p, exc))
            a = es[-1][0][3] if es else None
            if a is None: ctx.check('a failure only after trying the alternatives [%d]' % k, p, False); continue
            ctx.prove('a failure only if every alternative failed [%d]' % k, p, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(OK(o.t, alt(c.t, j), a)))))
    ctx.cover('an alternative succeeds', ps, lambda p: p.kind == 'ret' and bool(evs(p, kind)))
    ctx.cover('all alternatives fail', ps, lambda p: p.kind == 'raise')

@contract('C15', 'load into a union: the first alternative that works, or a DeserializationError')
def c15_load(ctx): first_success(ctx, deser, 'load', LOAD_OK, LOAD_V, LOAD_E, DeserializationError)

@contract('C15', 'dump as a union: the first alternative that works, or a SerializationError')
def c15_dump(ctx): first_success(ctx, ser, 'dump', DUMP_OK, DUMP_V, DUMP_E, SerializationError)

def reach(ctx, fn, kind, defaults, but):
    ps = paths(ctx, fn)
    n = 0
    for k, p in enumerate(ps):
        want = with_defaults(p.data['kw'], defaults)
        for e, h in nested(p, kind):
            n += 1
            ctx.prove('every option of the caller reaches the alternative [%d]' % k, p, reaches(e[3], want, but), h)
    if not n: ctx.add('reachable: an alternative', 'undecided')

@contract('C07', 'load into a union passes the options on')
def c07_load(ctx): reach(ctx, deser, 'load', LOAD_DEFAULTS, ('_inferred_cls',))
@contract('C07', 'dump as a union passes the options on')
def c07_dump(ctx): reach(ctx, ser, 'dump', DUMP_DEFAULTS, ())

@contract('C15', 'load: None is accepted exactly when the union admits it')
def c15_none(ctx):
    from contracts.c_load import load_paths, lizer_calls
    ps = load_paths(ctx)
    m = z3.Int('m')
    named = 0
    for k, p in enumerate(ps):
        o, c, f = p.data['in']
        low = uf('str.lower', Str, Str)(CLSNAME(c.t, z3.BoolVal(False)))
        n = LEN_U(ARGS(c.t))
        union = [Val.is_ref(c.t), Val.is_none(o.t), uf('hasattr:__args__', Val, Bool)(c.t), z3.Not(uf('hasattr:__union_params__', Val, Bool)(c.t)), n > 0,
                 z3.Or(z3.Contains(low, 'union'), z3.Contains(low, 'optional')), z3.Not(z3.Contains(low, '[')),
                 *[c.t != const_term(x) for x in (typing.Any, object, type(None))]]
        admits = z3.Exists([m], z3.And(m >= 0, m < n, z3.Or([alt(c.t, m) == const_term(x) for x in (typing.Any, object, type(None))])))
        if p.kind == 'ret':
            ctx.prove('None is returned only if an alternative admits it [%d]' % k, p, admits, union)
        elif not lizer_calls(p) and not any(e[0] == 'lookup' for e in p.events):
            named += 1
            ctx.prove('None is refused up front only if no alternative admits it [%d]' % k, p, z3.Not(admits), union)
    if not named: ctx.add('reachable: None is refused', 'undecided')
