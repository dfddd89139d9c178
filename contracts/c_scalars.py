"""Contracts on the (de)serializers of scalars (C22)."""
from contracts.common import *
from contracts.c_load import evs, term, load_paths, lizer_calls
from jsons.deserializers.default_primitive import default_primitive_deserializer
from jsons.deserializers.default_string import default_string_deserializer
from jsons.serializers.default_primitive import default_primitive_serializer
from jsons.deserializers.default_enum import default_enum_deserializer
from jsons.serializers.default_enum import default_enum_serializer
from jsons.deserializers.default_uuid import default_uuid_deserializer
from jsons.serializers.default_uuid import default_uuid_serializer
from jsons.deserializers.default_decimal import default_decimal_deserializer
from jsons.serializers.default_decimal import default_decimal_serializer
from jsons.deserializers.default_complex import default_complex_deserializer
from jsons.serializers.default_complex import default_complex_serializer
from jsons.deserializers.default_path import default_path_deserializer
from jsons.serializers.default_path import default_path_serializer
import uuid, decimal, pathlib, typing

PRIMS = (int, float, bool, str)
N1 = {c: typing.NewType('N_' + c.__name__, c) for c in (int, float, bool)}
N2 = {c: typing.NewType('NN_' + c.__name__, N1[c]) for c in N1}
TARGETS = [(c, c) for c in PRIMS] + [(N1[c], c) for c in N1] + [(N2[c], c) for c in N2]

def is_prim(p, t, c):
    """the value is exactly of the builtin type or a subclass of it"""
    return zz(p.eng.inst(t, c))

def cast(ctx, fn, target, base, what):
    S = base_summaries()
    def thunk(eng):
        o = svalue(eng, 'obj'); eng.data['in'] = o
        eng.data['is'] = eng.inst(o.t, base)
        eng.data['kw'] = options(without=('obj', 'cls', '_inferred_cls'))
        return run_fn(eng, fn, [o, target], DictC(eng.data['kw']))
    ps = ctx.paths(thunk, S)
    nm = getattr(target, '__name__', str(target))
    for k, p in enumerate(ps):
        o = p.data['in']
        if p.kind != 'ret': continue
        r = term(p, p.value)
        ctx.prove('%s: the result is a %s (or None for None) [%d]' % (nm, base.__name__, k), p, z3.Or(z3.And(Val.is_none(o.t), Val.is_none(r)), zz(p.eng.inst(r, base))))
        ctx.prove('%s: a value that already is a %s is unchanged [%d]' % (nm, base.__name__, k), p, z3.Implies(zz(p.data['is']), r == o.t) if base is not str else z3.Implies(Val.is_strv(o.t), r == o.t))
    ctx.cover('%s: a value is cast' % nm, ps, lambda p: z3.Not(zz(p.data['is'])) if p.kind == 'ret' else False)
    ctx.cover('%s: a value is kept' % nm, ps, lambda p: zz(p.data['is']) if p.kind == 'ret' else False)

@contract('C22', 'load into a primitive: an instance of it, or a failure')
def c22_load(ctx):
    for t, b in TARGETS:
        cast(ctx, default_string_deserializer if b is str else default_primitive_deserializer, t, b, 'load')

@contract('C22', 'dump as a primitive: cast to it, or a failure')
def c22_dump(ctx):
    for t, b in TARGETS: cast(ctx, default_primitive_serializer, t, b, 'dump')

@contract('C22', 'load: an explicitly given class is the target for anything that carries no meta information')
def c22_target(ctx):
    ps = load_paths(ctx)
    n = 0
    for k, p in enumerate(ps):
        o, c, f = p.data['in']
        hyp = [Val.is_ref(c.t), z3.Not(zz(p.eng.inst(o.t, dict)))]
        for e, ct, ft in lizer_calls(p):
            n += 1
            a = e[5][kstr('_inferred_cls')]
            ctx.prove('the deserializer is that of the class, told that it was not inferred [%d]' % k, p,
                      z3.And(ct == c.t, e[4][1] == c.t, z3.Or(a == Val.boolv(z3.BoolVal(False)), a == Val.absent)), hyp)
    if not n: ctx.add('reachable: a deserializer is called', 'undecided')

# ---------------------------------------------------------------- round trips
def call2(ser, deser, mkobj, kw=(), cls=None, axioms=lambda eng, o: None, summaries=None):
    S = base_summaries(); S.update(summaries or {})
    def thunk(eng):
        o = mkobj(eng); eng.data['in'] = o
        axioms(eng, o)
        w = run_fn(eng, ser, [o], DictC(options(without=('obj', 'cls') + tuple(k for k, _ in kw)), kw))
        eng.data['wire'] = w
        return run_fn(eng, deser, [w, eng.data.get('cls', cls)], DictC(options(without=('obj', 'cls') + tuple(k for k, _ in kw)), kw))
    return thunk, S

def enum_member(eng):
    c = sclass(eng, 'enum'); eng.data['cls'] = c
    m = svalue(eng, 'member'); eng.assume(Val.is_ref(m.t))
    for n in ('name', 'value'): eng.assume(uf('hasattr:' + n, Val, Bool)(m.t))
    return m
def enum_axioms(eng, m):
    """assumed of the standard library: an enum class maps the name of a member to it by [] and its value by ()"""
    c = eng.data['cls']
    nm, v = uf('attr:name', Val, Val)(m.t), uf('attr:value', Val, Val)(m.t)
    eng.assume(Val.is_strv(nm)); eng.assume(v != Val.absent)
    eng.assume(z3.Not(eng.inst(c.t, dict)))
    eng.data['byname'], eng.data['byvalue'] = nm, v

def enum_trip(ctx, use, label):
    def getitem(eng, o, k):
        if eng.branch(eng.tv(k) == eng.data['byname']): return eng.data['in']
        eng.raise_(KeyError, 'no such name')
    thunk0, S = call2(default_enum_serializer, default_enum_deserializer, enum_member, use, None, enum_axioms)
    def thunk(eng):
        eng.index_models['enum'] = getitem
        def call(e2, args, kw):
            if e2.branch(e2.tv(args[0]) == e2.data['byvalue']): return e2.data['in']
            e2.raise_(ValueError, 'no such value')
        eng.call_models['enum'] = call
        return thunk0(eng)
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        ctx.check('%s: loads back without an error [%d]' % (label, k), p, p.kind == 'ret')
        if p.kind == 'ret': ctx.prove('%s: loads back to the member [%d]' % (label, k), p, term(p, p.value) == p.data['in'].t)
    ctx.cover(label, ps, lambda p: p.kind == 'ret')

@contract('C22', 'enum members load back, by name, by value and by default')
def c22_enum(ctx):
    enum_trip(ctx, (('use_enum_name', True),), 'by name')
    enum_trip(ctx, (('use_enum_name', False),), 'by value')
    enum_trip(ctx, (), 'by default')

def text_trip(ctx, ser, deser, cls, label, conv):
    """assumed: conv(str(x)) == x for every instance x of the class"""
    def mk(eng):
        x = svalue(eng, 'x'); eng.assume(Val.is_ref(x.t)); eng.assume(eng.inst(x.t, cls)); return x
    thunk0, S = call2(ser, deser, mk, (), cls)
    TXT = uf('text_of', Val, Str)
    def to_str(eng, args, kw): return St(TXT(eng.tv(args[0])))
    def from_str(eng, args, kw):
        if len(args) == 1 and eng.branch(eng.tv(args[0]) == Val.strv(TXT(eng.data['in'].t))): return eng.data['in']
        raise Unsupported('%s of something else' % cls.__name__)
    S = dict(S); S[id(str)] = to_str; S[id(cls)] = from_str
    ps = ctx.paths(thunk0, S)
    for k, p in enumerate(ps):
        ctx.check('%s: loads back without an error [%d]' % (label, k), p, p.kind == 'ret')
        if p.kind == 'ret':
            ctx.prove('%s: loads back to the same value [%d]' % (label, k), p, term(p, p.value) == p.data['in'].t)
            ctx.prove('%s: the dump is text [%d]' % (label, k), p, Val.is_strv(term(p, p.data['wire'])))
    ctx.cover(label, ps, lambda p: p.kind == 'ret')

@contract('C22', 'UUIDs and Decimals load back')
def c22_text(ctx):
    text_trip(ctx, default_uuid_serializer, default_uuid_deserializer, uuid.UUID, 'UUID', None)
    text_trip(ctx, default_decimal_serializer, default_decimal_deserializer, decimal.Decimal, 'Decimal', None)

@contract('C22', 'complex numbers load back')
def c22_complex(ctx):
    def mk(eng):
        x = svalue(eng, 'z'); eng.assume(Val.is_ref(x.t)); eng.assume(eng.inst(x.t, complex))
        for n in ('real', 'imag'):
            eng.assume(uf('hasattr:' + n, Val, Bool)(x.t)); eng.assume(Val.is_fltv(uf('attr:' + n, Val, Val)(x.t)))
        return x
    thunk, S = call2(default_complex_serializer, default_complex_deserializer, mk, (), complex)
    CPLX = uf('complex_of', Val, Val, Val)
    def mkc(eng, args, kw):
        if len(args) != 2: raise Unsupported('complex of this shape')
        return T(CPLX(eng.tv(args[0]), eng.tv(args[1])))
    def s_load_float(eng, args, kw):
        """contract of load: a float loads into float as itself (established by the contracts on load and the primitive deserializer)"""
        o, c, rest = two(eng, args, kw)
        if c is float and eng.entails(Val.is_fltv(eng.tv(o))): return o
        return s_load(eng, args, kw)
    S = dict(S); S[id(complex)] = mkc; S[id(load)] = s_load_float
    from contracts.common import _two as two
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        ctx.check('loads back without an error [%d]' % k, p, p.kind == 'ret')
        if p.kind == 'ret':
            z = p.data['in'].t
            ctx.prove('has the real and imaginary part of the original [%d]' % k, p, term(p, p.value) == CPLX(uf('attr:real', Val, Val)(z), uf('attr:imag', Val, Val)(z)))
    ctx.cover('a complex number', ps, lambda p: p.kind == 'ret')

@contract('C22', 'a float loads into float as itself, in both modes')
def c22_float(ctx):
    ps = load_paths(ctx)
    for k, p in enumerate(ps):
        o, c, f = p.data['in']
        if p.kind != 'ret' or lizer_calls(p): continue
        ctx.prove('what is returned without a deserializer is the input [%d]' % k, p, term(p, p.value) == o.t)

@contract('C22', 'pure paths load back')
def c22_path(ctx):
    def mk(eng):
        x = svalue(eng, 'path'); eng.assume(Val.is_ref(x.t)); eng.assume(eng.inst(x.t, pathlib.PurePath))
        c = sclass(eng, 'pathclass'); eng.data['cls'] = c
        return x
    thunk0, S = call2(default_path_serializer, default_path_deserializer, mk, ())
    TXT = uf('posix_of', Val, Str)
    def thunk(eng):
        eng.method_models['as_posix'] = lambda e2, o, args, kw: St(TXT(e2.tv(o)))
        def call(e2, args, kw):
            if e2.branch(e2.tv(args[0]) == Val.strv(TXT(e2.data['in'].t))): return e2.data['in']
            raise Unsupported('path of something else')
        eng.call_models['pathclass'] = call
        return thunk0(eng)
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        ctx.check('loads back without an error [%d]' % k, p, p.kind == 'ret')
        if p.kind == 'ret': ctx.prove('loads back to the same path [%d]' % k, p, term(p, p.value) == p.data['in'].t)
    ctx.cover('a path', ps, lambda p: p.kind == 'ret')
