"""Frame conditions (C03): nothing the caller passed is assigned to, in no (de)serializer, on no path."""
from contracts.c_coll import *
from contracts import c_coll, c_dump, c_load, c_obj, c_union
from contracts.c_load import term

def results(p):
    """what nested loads, dumps, (de)serializers and classes made on the path: not the caller's (assumed of them: that is C03 again)"""
    out = [e[-1] for e, h in nested(p, 'load', 'dump', 'call')]
    return [x.t if isinstance(x, T) else x for x in out if isinstance(x, (T, z3.ExprRef))]

def frame(ctx, ps, what):
    n, seen = 0, set()
    for q, p in enumerate(ps):
        p.eng.heap = p.heap
        made, before = None, n
        for e, h in nested(p, 'mutate', 'setattr'):
            if e[0] == 'mutate' and isinstance(e[1], Ref): t = None
            else: t = e[1] if isinstance(e[1], z3.ExprRef) else None
            key = (t.get_id() if t is not None else id(e), tuple(x.get_id() for x in h), tuple(x.get_id() for x in p.pc))
            if key in seen: continue
            seen.add(key); keep.append((e, h, p)); n += 1
            if t is None: ctx.check('only new objects are altered by %s [%s, %d]' % (e[2], what, q), p, False); continue
            if made is None: made = results(p)
            if any(t.eq(m) for m in made): ctx.add('only new objects are altered [%s, %d: %d]' % (what, q, n), 'discharged'); continue
            ctx.prove('only new objects are altered: %s of %s [%s, %d: %d]' % (e[2] if isinstance(e[2], str) else 'setattr', str(t)[:40], what, q, n), p, z3.Or([t == m for m in made] + [z3.BoolVal(False)]), h)
        if n == before: ctx.add('nothing is altered [%s, %d]' % (what, q), 'discharged')
    ctx.cover('it returns [%s]' % what, ps, lambda p: p.kind == 'ret')
keep = []

def frame_contract(name, *families):
    def f(ctx):
        for what, make in families: frame(ctx, make(ctx), what)
    contract('C03', name)(f)

frame_contract('load alters nothing', ('load', c_load.load_paths))
frame_contract('dump alters nothing', ('dump', c_load.dump_paths))
frame_contract('loading a list alters nothing', ('list', c_coll.list_paths))
frame_contract('loading an iterable alters nothing', ('iterable', c_coll.iter_paths))
frame_contract('loading a tuple alters nothing', ('tuple', c_coll.tuple_paths), *[('named tuple from a %s' % k.__name__, lambda ctx, k=k: c_coll.named(ctx, k)) for k in (list, dict)])
for _fn, _n in ((c_coll.ddict, 'dict'), (c_coll.dmap, 'mapping'), (c_coll.ddefault, 'defaultdict')):
    frame_contract('loading a %s without hashed keys alters nothing' % _n, *[('%s%s' % (_n, ', key transformer' if t else ''), lambda ctx, t=t, f=_fn: c_coll.dict_paths(ctx, t, f)) for t in (False, True)])
frame_contract('loading and dumping a union alters nothing', ('load', lambda ctx: c_union.paths(ctx, c_union.deser)), ('dump', lambda ctx: c_union.paths(ctx, c_union.ser)))
frame_contract('dumping a list alters nothing', *[('list%s' % (', typed' if t else ''), lambda ctx, t=t: c_dump.list_paths(ctx, t)) for t in (False, True)])
frame_contract('dumping an iterable alters nothing', *[('%s%s' % (k.__name__, ', typed' if t else ''), lambda ctx, t=t, k=k: c_dump.iter_paths(ctx, t, k)) for t in (False, True) for k in (list, set)])
frame_contract('dumping a tuple alters nothing', *[('tuple%s' % (', typed' if t else ''), lambda ctx, t=t: c_dump.tuple_paths(ctx, t)) for t in (False, True)] + [('named tuple', c_dump.named_paths)])
frame_contract('dumping a dict with JSON keys alters nothing', *[('dict%s' % (', key transformer' if t else ''), lambda ctx, t=t: c_dump.dict_paths(ctx, t)) for t in (False, True)])
for _g, _t in c_obj.VARIANTS:
    _tag = ', '.join(n for n, x in (('getters', _g), ('key transformer', _t)) if x)
    frame_contract('loading an object alters nothing%s' % (' (%s)' % _tag if _tag else ''), ('object', lambda ctx, g=_g, t=_t: c_obj.obj_paths(ctx, g, t)))

# ------------------------------------------------------------------ scalars
def scalar_paths(fn):
    def make(ctx):
        def thunk(eng):
            o, c, f = svalue(eng, 'obj'), stype(eng, 'cls'), warnable(eng, fork_value(eng))
            eng.data['in'], eng.data['kw'] = (o, c, f), options(without=NOOPT)
            return run_fn(eng, fn, [o], DictC(eng.data['kw'], [('cls', c), ('fork_inst', f)]))
        return ctx.paths(thunk, summaries())
    return make

def scalars(ctx):
    import importlib
    n = 0
    for kind in ('serializers', 'deserializers'):
        for x in ('complex', 'decimal', 'enum', 'nonetype', 'path', 'primitive', 'string', 'timedelta', 'timezone', 'uuid', 'zone_info'):
            name = 'default_%s_%s' % (x, kind[:-1])
            try: fn = getattr(importlib.import_module('jsons.%s.default_%s' % (kind, x)), name)
            except (ImportError, AttributeError): continue
            n += 1
            frame(ctx, scalar_paths(fn)(ctx), name)
    if n < 15: ctx.add('the (de)serializers of scalars', 'undecided', detail='only %d found' % n)
contract('C03', 'the (de)serializers of scalars alter nothing')(scalars)

# ------------------------------------------------------------------ dumping an object
from contracts import c_attrs
for _st in (False, True):
    frame_contract('dumping an object alters nothing%s' % (', strictly' if _st else ''), ('selection', lambda ctx, st=_st: c_attrs.select_paths(ctx, 'class' if st else 'object')),
                   *[('object%s' % (', key transformer' if t else ''), lambda ctx, t=t, st=_st: c_attrs.dump_paths(ctx, t, st)) for t in (False, True)])
