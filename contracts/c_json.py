"""Contracts on the serializers: what they return is JSON (C06), by induction over the nesting of dumps.

JSON(v): v is None, a bool, an int, a float or a str, or a list of which every element is JSON, or a dict of which every key is one the json module
accepts and every value is JSON. Each serializer is shown to return JSON, given that the nested dumps and serializers it calls do (they are calls on a
smaller depth), and dump to return what the serializer returned.
"""
from contracts.common import *
from contracts.c_load import evs, term
from contracts.c_coll import cached_paths, summaries, NOOPT, K
from contracts import c_dump, c_attrs, c_union
from contracts.c_dump import list_paths, iter_paths, tuple_paths, named_paths, dict_paths
from contracts.c_scalars import TARGETS, default_primitive_serializer, default_enum_serializer, default_uuid_serializer, default_decimal_serializer, default_complex_serializer, default_path_serializer, enum_member
from jsons import _dump_impl, _datetime_impl
from jsons.serializers.default_date import default_date_serializer
from jsons.serializers.default_time import default_time_serializer
from jsons.serializers.default_datetime import default_datetime_serializer
from jsons.serializers.default_timedelta import default_timedelta_serializer
from jsons.serializers.default_timezone import default_timezone_serializer
from jsons.serializers.default_zone_info import default_zone_info_serializer
import datetime, decimal, pathlib, uuid, zoneinfo

SER = LOOKUP['serializer']
KT = uf('kt_of', Val, Val)
TRANSFORMED = [forall([z3.Const('x!kt', Val)], Val.is_strv(KT(z3.Const('x!kt', Val))), [KT(z3.Const('x!kt', Val))])]   # assumed: a key transformer gives a str

def json_leaf(p, t): return z3.Or(t == Val.none, Val.is_boolv(t), Val.is_intv(t), Val.is_fltv(t), Val.is_strv(t))
JSON_TYPES = (str, int, float, bool, type(None))
def json_key(p, t): return z3.Or(json_leaf(p, t), z3.Or([zz(p.eng.inst(t, k)) for k in JSON_TYPES]))

def json_term(p, t):
    """t is a scalar of JSON, or was returned by a nested dump or serializer"""
    alts = [json_leaf(p, t)] + [zz(p.eng.inst(t, k)) for k in JSON_TYPES]
    for e, _ in nested(p, 'dump'): alts.append(z3.And(DUMP_OK(e[1], e[2], e[3]), t == DUMP_V(e[1], e[2], e[3])))
    for e, _ in nested(p, 'call'):
        if isinstance(e[-1], T) and z3.is_app(e[1]) and e[1].decl().eq(SER): alts.append(t == e[-1].t)
    return z3.Or(alts)

def check_json(ctx, p, v, label, hyps=()):
    """obligations: the value v that path p returned is JSON"""
    hyps = list(hyps) + TRANSFORMED
    p.eng.heap = p.heap
    k = kind_of(p, v)
    if k == 'dict':
        c = p.heap[v.id]
        if c.base is None and c.log and not any(isinstance(w, Writes) or w[1] is DELETED for w in c.log):
            i = z3.Int('i!one'); e = (0, [(i, [], p.eng.tv(k), p.eng.tv(x)) for k, x in c.log])
        else: e = entries_of(p, v)
        if e is None: return ctx.add('%s: the shape of the result' % label, 'undecided')
        for m, (i, h, key, x) in enumerate(e[1]):
            ctx.prove('%s: a key the json module accepts [%d]' % (label, m), p, json_key(p, key), h + hyps)
            ctx.prove('%s: a value that is JSON [%d]' % (label, m), p, json_term(p, x), h + hyps)
        return
    if k == 'list':
        got = as_list(p, v)
        if got is None: return ctx.add('%s: the shape of the result' % label, 'undecided')
        if z3.is_int_value(z3.simplify(got[0])) and z3.simplify(got[0]).as_long() == 0: return ctx.add('%s: an empty list' % label, 'discharged')
        for m, (i, h, t) in enumerate(element_cases(p, v, got)): ctx.prove('%s: an element that is JSON [%d]' % (label, m), p, json_term(p, t), h + hyps)
        return
    if k is not None: return ctx.check('%s: a %s is not JSON' % (label, k), p, False)
    if v is None or isinstance(v, (str, int, float, bool, St, Rope, I, B)): return ctx.add('%s: a scalar' % label, 'discharged')
    ctx.prove('%s: JSON' % label, p, json_term(p, p.eng.tv(v)), hyps)

def closed(ctx, ps, label, more=lambda p: ()):
    n = 0
    for q, p in enumerate(ps):
        if p.kind == 'ret': n += 1; check_json(ctx, p, p.value, '%s [%d]' % (label, q), more(p))
    ctx.cover('%s: something is returned' % label, ps, lambda p: p.kind == 'ret')

@contract('C06', 'dump returns what the serializer of the class returned')
def c06_dump(ctx):
    from contracts.c_load import dump_paths
    closed(ctx, dump_paths(ctx), 'dump')

@contract('C06', 'lists, iterables, sets and tuples become lists of JSON')
def c06_lists(ctx):
    for t in (False, True):
        s = ' with types' if t else ''
        closed(ctx, list_paths(ctx, t), 'list' + s)
        for k in (list, set): closed(ctx, iter_paths(ctx, t, k), 'iterable (%s)%s' % (k.__name__, s))
        closed(ctx, tuple_paths(ctx, t), 'tuple' + s)

@contract('C06', 'named tuples and dicts with JSON keys become dicts of JSON')
def c06_dicts(ctx):
    closed(ctx, named_paths(ctx), 'named tuple')
    for tr in (False, True): closed(ctx, dict_paths(ctx, tr), 'dict, keys transformed' if tr else 'dict')

@contract('C06', 'objects become dicts of JSON')
def c06_objects(ctx):
    for tr in (False, True):
        for st in (False, True): closed(ctx, c_attrs.dump_paths(ctx, tr, st), 'object%s%s' % (', strictly' if st else '', ', keys transformed' if tr else ''))

@contract('C06', 'unions become JSON')
def c06_unions(ctx): closed(ctx, c_union.paths(ctx, c_union.ser), 'union')

@contract('C06', 'primitives become JSON scalars')
def c06_prims(ctx):
    S = base_summaries()
    for t, b in TARGETS + [(None, k) for k in (str, int, float, bool, type(None))]:
        def thunk(eng):
            o = svalue(eng, 'obj'); eng.data['in'] = o
            if t is None: eng.assume(Val.is_none(o.t) if b is type(None) else eng.inst(o.t, b))
            return run_fn(eng, default_primitive_serializer, [o, t], DictC(options(without=('obj', 'cls'))))
        closed(ctx, ctx.paths(thunk, S), 'a %s%s' % (b.__name__, '' if t is b else ', no class given' if t is None else ' by %s' % t.__name__))

def plain(ctx, ser, cls, label, setup=lambda eng, o: None, S={}, kw=(), kwf=lambda eng: []):
    S0 = base_summaries(); S0.update(S)
    def thunk(eng):
        o = svalue(eng, 'obj'); eng.assume(Val.is_ref(o.t)); eng.assume(eng.inst(o.t, cls)); eng.data['in'] = o
        f = warnable(eng, fork_value(eng))
        setup(eng, o)
        return run_fn(eng, ser, [o], DictC(options(without=('obj',) + tuple(k for k, _ in kw)), [('fork_inst', f)] + list(kw)))
    closed(ctx, ctx.paths(thunk, S0), label)

def attr_is(*names_tests):
    def setup(eng, o):
        for n, test in names_tests:
            eng.assume(uf('hasattr:' + n, Val, Bool)(o.t)); eng.assume(test(uf('attr:' + n, Val, Val)(o.t)))
    return setup

def text(name): return lambda eng, args, kw: St(uf(name, Val, Str)(eng.tv(args[0])))

@contract('C06', 'enum members, UUIDs, Decimals, paths and complex numbers become JSON')
def c06_scalars(ctx):
    for kw in ((), (('use_enum_name', True),)):
        def thunk(eng):
            m = enum_member(eng); eng.assume(Val.is_strv(uf('attr:name', Val, Val)(m.t)))
            return run_fn(eng, default_enum_serializer, [m], DictC(options(without=('obj', 'use_enum_name')), list(kw)))
        # by name: use_enum_name as documented, its default
        ps = ctx.paths(thunk, base_summaries())
        closed(ctx, ps, 'enum %s' % (kw,), lambda p: ())
    for cls, ser in ((uuid.UUID, default_uuid_serializer), (decimal.Decimal, default_decimal_serializer)):
        plain(ctx, ser, cls, cls.__name__, S={id(str): text('text_of')})
    def posix(eng, o): eng.method_models['as_posix'] = lambda e2, o, args, kw: St(uf('posix_of', Val, Str)(e2.tv(o)))
    plain(ctx, default_path_serializer, pathlib.PurePath, 'path', posix)
    plain(ctx, default_complex_serializer, complex, 'complex', attr_is(('real', Val.is_fltv), ('imag', Val.is_fltv)))
    plain(ctx, default_zone_info_serializer, zoneinfo.ZoneInfo, 'ZoneInfo', attr_is(('key', Val.is_strv)))

@contract('C06', 'dates, times, offsets and durations become JSON')
def c06_dates(ctx):
    def dur(eng, o): eng.method_models['total_seconds'] = lambda e2, o, args, kw: T(Val.fltv(z3.Const('seconds', Val.fltv.domain(0)) if hasattr(Val.fltv, 'domain') else None))
    plain(ctx, default_timedelta_serializer, datetime.timedelta, 'timedelta', dur)
    def zone(eng, o):
        eng.method_models['tzname'] = lambda e2, o, args, kw: St(z3.String('tzname'))
        eng.method_models['utcoffset'] = lambda e2, o, args, kw: T(uf('utcoffset', Val, Val)(e2.tv(o)))
    plain(ctx, default_timezone_serializer, datetime.timezone, 'timezone', zone)
    S = {id(_datetime_impl.to_str): text('rfc3339_of')}
    plain(ctx, default_date_serializer, datetime.date, 'date', S=S)
    plain(ctx, default_time_serializer, datetime.time, 'time', S=S)
    plain(ctx, default_datetime_serializer, datetime.datetime, 'datetime', S=S)

@contract('C06', 'to_str gives text')
def c06_to_str(ctx):
    S = dict(base_summaries()); S[id(_datetime_impl.get_offset_str)] = text('offset_of')
    for pattern in (_datetime_impl.RFC3339_DATE_PATTERN, _datetime_impl.RFC3339_TIME_PATTERN, _datetime_impl.RFC3339_DATETIME_PATTERN):
        def thunk(eng):
            o = svalue(eng, 'dt'); eng.assume(Val.is_ref(o.t)); eng.data['in'] = o
            f = warnable(eng, fork_value(eng))
            year = uf('attr:year', Val, Val)(o.t)
            eng.assume(uf('hasattr:year', Val, Bool)(o.t)); eng.assume(Val.is_intv(year)); eng.assume(Val.i(year) >= 1); eng.assume(Val.i(year) <= 9999)
            eng.method_models['strftime'] = lambda e2, o, args, kw: St(uf('strftime', Val, Val, Str)(e2.tv(o), e2.tv(args[0])))
            return run_fn(eng, _datetime_impl.to_str, [o, B(z3.Bool('strip_microseconds')), f, pattern], {})
        closed(ctx, ctx.paths(thunk, S), 'to_str %s' % pattern)
