"""Contracts on the collection serializers (C05)."""
from contracts.common import *
from contracts.c_load import evs, term
from contracts.c_coll import slist, stype, summaries, cached_paths, NOOPT, FIELDS, HASF, GARG, NGARG, K, variadic, tup
from jsons.serializers.default_list import default_list_serializer as dlist
from jsons.serializers.default_iterable import default_iterable_serializer as diter
from jsons.serializers.default_tuple import default_tuple_serializer as dtuple
from jsons.serializers.default_dict import default_dict_serializer as ddict
from jsons._common_impl import JSON_KEYS

SER = LOOKUP['serializer']

def truthy_opt(p, name):
    x = p.data['kw'][kstr(name)]
    return z3.And(x != Val.absent, zz(p.eng.bool_(T(x))))

def dumped(p, t, x, classes):
    """t is the dump of x, as one of the given classes: made by jsons.dump or by the serializer of that class and fork"""
    fork, alts = p.data['in'][2].t, []
    for e, h in nested(p, 'dump'):
        alts += [z3.And(t == DUMP_V(x, c, e[3]), DUMP_OK(x, c, e[3]), e[1] == x, e[2] == c) for c in classes]
    for e, h in nested(p, 'call'):
        if not isinstance(e[-1], T) or not e[4]: continue
        alts += [z3.And(t == e[-1].t, e[1] == SER(c, fork), e[4][0] == x, e[5][kstr('cls')] == c) for c in classes]
    return z3.Or(alts) if alts else z3.BoolVal(False)

def dump_fails(p, elems_ok=lambda x: True):
    """the last thing that happened is that a nested dump (or the serializer of an element) failed"""
    es = [e for e in p.events if e[0] in ('dump', 'call')]
    if not es: return z3.BoolVal(False)
    e = es[-1]
    if e[0] == 'dump': return z3.Not(DUMP_OK(e[1], e[2], e[3]))
    return z3.BoolVal(e[-1] is None)

def typeof(p, t): return p.eng.typeof(t)

def thunk_for(fn, kind, typed, more_without=(), pre=None, opts=lambda eng: []):
    def thunk(eng):
        o, f = slist(eng, 'obj', kind), warnable(eng, fork_value(eng))
        c = stype(eng, 'cls') if typed else None
        eng.data['in'] = (o, c, f)
        eng.data['kw'] = options(without=NOOPT + ('_store_cls',) + tuple(more_without))
        if pre: pre(eng, o, c)
        return run_fn(eng, fn, [o] + ([c] if typed else []), DictC(eng.data['kw'], [('fork_inst', f)] + opts(eng)))
    return thunk

def check_seq(ctx, ps, classes_at, may_fail):
    for q, p in enumerate(ps):
        o, c, f = p.data['in']
        n = LEN_U(o.t)
        if p.kind == 'ret':
            ctx.check('the result is a list [%d]' % q, p, kind_of(p, p.value) == 'list')
            got = as_list(p, p.value)
            if got is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
            ctx.prove('as many elements as given [%d]' % q, p, got[0] == n)
            if got[2] is not None: ctx.prove('no element is left out [%d]' % q, p, zz(got[2](K)), [K >= 0, K < got[0]])
            if z3.is_int_value(z3.simplify(got[0])) and z3.simplify(got[0]).as_long() == 0: continue
            for m, (k, h, t) in enumerate(element_cases(p, p.value, got)):
                x = ITER(o.t, k)
                ctx.prove('element k is the dump of element k [%d.%d]' % (q, m), p, dumped(p, t, x, classes_at(p, k, x)), h)
        else:
            ctx.prove('it fails only if an element fails or there are not enough types [%d]' % q, p, z3.Or(dump_fails(p), may_fail(p)))
    ctx.cover('a dumped collection', ps, lambda p: p.kind == 'ret' and LEN_U(p.data['in'][0].t) > 1)
    ctx.cover('a failing element', ps, lambda p: p.kind == 'raise')

def no_serializer(p):
    """no serializer is registered for the class of an element (excluded: the one for object serves every class)"""
    return z3.Or([SER(e[2], e[3]) == Val.none for e, h in nested(p, 'lookup')] + [z3.BoolVal(False)])

def list_paths(ctx, typed): return cached_paths(ctx, ('dlist', typed), lambda: ctx.paths(thunk_for(dlist, list, typed), summaries()))

@contract('C05', 'a list: the dump of every element, in order')
def c05_list(ctx):
    for typed in (False, True):
        ps = list_paths(ctx, typed)
        def classes(p, k, x):
            c = p.data['in'][1]
            plain = [Val.none, typeof(p, x)]
            return plain if c is None else [z3.If(NGARG(c.t) > 0, GARG(c.t, 0), d) for d in plain]
        check_seq(ctx, ps, classes, no_serializer)
        ctx.cover('strict%s' % (' with types' if typed else ''), ps, lambda p: truthy_opt(p, 'strict') if p.kind == 'ret' else None)

def iter_classes(declared):
    def classes(p, k, x):
        c = p.data['in'][1]
        plain = [Val.none, typeof(p, x)]
        return plain if c is None else plain + [declared(c.t, k)]
    return classes

def iter_paths(ctx, typed, kind): return cached_paths(ctx, ('diter', typed, kind), lambda: ctx.paths(thunk_for(diter, kind, typed, ('tasks',)), summaries()))

@contract('C05', 'an iterable: the dump of every element, in order')
def c05_iter(ctx):
    for typed, kind in ((False, list), (True, list), (False, set), (True, set)):
        ps = iter_paths(ctx, typed, kind)
        at = lambda c, k: z3.If(NGARG(c) == 1, GARG(c, 0), GARG(c, k))
        def short(p):
            c = p.data['in'][1]
            return z3.And(truthy_opt(p, 'strict'), NGARG(c.t) > 1, NGARG(c.t) != LEN_U(p.data['in'][0].t)) if c is not None else z3.BoolVal(False)
        check_seq(ctx, ps, iter_classes(at), short)
        for q, p in enumerate(ps):
            if typed and p.kind == 'ret': ctx.prove('the number of types matches [%d]' % q, p, z3.Not(short(p)))
            if typed and p.kind == 'ret': strict_classes(ctx, q, p, at)

def strict_classes(ctx, q, p, at):
    """in strict mode the elements are dumped as the declared types"""
    c = p.data['in'][1].t
    got = as_list(p, p.value)
    if got is None: return
    for m, (k, h, t) in enumerate(element_cases(p, p.value, got)):
        x = ITER(p.data['in'][0].t, k)
        ctx.prove('strict: element k is dumped as its declared type [%d.%d]' % (q, m), p, dumped(p, t, x, [at(c, k)]), h + [truthy_opt(p, 'strict'), NGARG(c) > 0])

def tuple_paths(ctx, typed):
    no_fields = lambda eng, o, c: eng.assume(z3.Not(uf('hasattr:_fields', Val, Bool)(o.t)))
    return cached_paths(ctx, ('dtuple', typed), lambda: ctx.paths(thunk_for(dtuple, tuple, typed, ('tasks',), no_fields), summaries()))

@contract('C05', 'a tuple: the dump of every element, in order')
def c05_tuple(ctx):
    for typed in (False, True):
        ps = tuple_paths(ctx, typed)
        at = lambda c, k: z3.If(z3.Or(NGARG(c) == 1, variadic(c)), GARG(c, 0), GARG(c, k))
        def short(p):
            c = p.data['in'][1]
            return z3.And(truthy_opt(p, 'strict'), NGARG(c.t) > 1, z3.Not(variadic(c.t)), NGARG(c.t) != LEN_U(p.data['in'][0].t)) if c is not None else z3.BoolVal(False)
        check_seq(ctx, ps, iter_classes(at), short)
        for q, p in enumerate(ps):
            if typed and p.kind == 'ret': ctx.prove('the number of types matches [%d]' % q, p, z3.Not(short(p)))
            if typed and p.kind == 'ret': strict_classes(ctx, q, p, at)

def named_paths(ctx):
    def pre(eng, o, c):
        fl = FIELDS(o.t)
        eng.assume(HASF(o.t)); tup(eng, fl)
        eng.element_of[fl.sexpr()] = lambda i, x: z3.And(Val.is_strv(x), uf('hasattr_dyn', Val, Val, Bool)(o.t, x))
    return cached_paths(ctx, 'dnamed', lambda: ctx.paths(thunk_for(dtuple, tuple, False, ('tasks',), pre), summaries()))

@contract('C05', 'a named tuple: the dump of every field under its name')
def c05_named(ctx):
    ps = named_paths(ctx)
    for q, p in enumerate(ps):
        o, c, f = p.data['in']
        fl = FIELDS(o.t)
        if p.kind == 'ret':
            e = entries_of(p, p.value)
            if e is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
            num, cases, guard = e
            ctx.prove('as many entries as fields [%d]' % q, p, num == LEN_U(fl))
            ctx.check('no field is left out [%d]' % q, p, guard is None)
            for m, (i, h, k, x) in enumerate(cases):
                ctx.prove('under the name of the field [%d.%d]' % (q, m), p, k == ITER(fl, i), h)
                alts = [z3.And(x == DUMP_V(d[1], d[2], d[3]), DUMP_OK(d[1], d[2], d[3]), is_field(p, d[1], o.t, ITER(fl, i)), d[2] == Val.none) for d, _ in nested(p, 'dump')]
                ctx.prove('the dump of the value of the field [%d.%d]' % (q, m), p, z3.Or(alts or [z3.BoolVal(False)]), h)
        else:
            ctx.prove('it fails only if a field fails [%d]' % q, p, z3.Or(dump_fails(p), z3.BoolVal(False)))
    ctx.cover('a dumped named tuple', ps, lambda p: p.kind == 'ret')

def is_field(p, t, o, name): return t == uf('attr_dyn', Val, Val, Val)(o, name)

# ------------------------------------------------------------------ dicts
def dict_paths(ctx, tr):
    def opts(eng):
        if not tr: return []
        kt, fn = transformer(eng); eng.data['kt'] = fn
        return [('key_transformer', kt)]
    def pre(eng, o, c):
        eng.data['kt'] = lambda k: k
        eng.element_of[o.t.sexpr()] = lambda i, x: zor([eng.inst(x, k) for k in JSON_KEYS])
    return cached_paths(ctx, ('ddict', tr), lambda: ctx.paths(thunk_for(ddict, dict, False, ('key_transformer', 'types'), pre, opts), summaries()))

def dict_check(ctx, tr):
    ps = dict_paths(ctx, tr)
    for q, p in enumerate(ps):
        o, c, f = p.data['in']
        kt = p.data['kt']
        if p.kind == 'ret':
            e = entries_of(p, p.value)
            if e is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
            num, cases, guard = e
            ctx.prove('as many candidates as entries [%d]' % q, p, num == LEN_U(o.t))
            for m, (i, h, k, x) in enumerate(cases):
                key = ITER(o.t, i); val = p.eng.dget(o.t)[key]
                ctx.prove('under its key [%d.%d]' % (q, m), p, k == kt(key), h)
                ctx.prove('the dump of the value under that key [%d.%d]' % (q, m), p, dumped(p, x, val, [Val.none]), h)
            if guard is not None:
                # an entry is left out only if it dumps to null and nulls are to be stripped
                i = cases[0][0]
                key = ITER(o.t, i); val = p.eng.dget(o.t)[key]
                arrs = []
                for e2, h in nested(p, 'dump'):
                    if not any(e2[3].eq(a) for a in arrs): arrs.append(e2[3])
                ctx.prove('an entry is left out only if it dumps to null and nulls are stripped [%d]' % q, p,
                          z3.Or(zz(guard(i)), z3.And(truthy_opt(p, 'strip_nulls'), z3.Or([DUMP_V(val, Val.none, a) == Val.none for a in arrs]))), [i >= 0, i < LEN_U(o.t)])
        else: ctx.prove('it fails only if a value fails [%d]' % q, p, dump_fails(p))
    ctx.cover('a dumped dict', ps, lambda p: p.kind == 'ret')

@contract('C05', 'a dict: the dump of every value under its key')
def c05_dict(ctx): dict_check(ctx, False)
@contract('C05', 'a dict: the dump of every value under its transformed key')
def c05_dict_tr(ctx): dict_check(ctx, True)
