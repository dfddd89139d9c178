"""Contracts on the object serializer: which attributes end up in a dump (C16), frame (C03), options (C07)."""
from contracts.c_coll import *
from contracts.c_load import evs, term
from jsons.exceptions import SerializationError
from contracts.common import _compatibility_impl, _common_impl
from contracts.c_dump import truthy_opt
from jsons.serializers import default_object as SO
from jsons.classes import JsonSerializable
from pyvc.spec import has_quantifier
import typish

sobj = SO.default_object_serializer
PROP, CVAR = (uf(n, Val, Val, Bool) for n in ('is_property_of', 'is_class_variable_of'))
INNER = uf('is_inner_class', Val, Val, Bool)
DIR = uf('dir', Val, Val)
DIRPOS = z3.Function('position_in_dir', Val, Val, Int)
KNOWN = uf('attributes_and_types', Val, Val, Val)
STRIP = uf('is_to_be_stripped', Val, Bool)
SETTINGS = ('strip_privates', 'strip_properties', 'strip_class_variables', 'strip_nulls')

def listof(eng, t, kind=list):
    eng.assume(Val.is_ref(t)); eng.assume(eng.inst(t, kind)); eng.assume(TRUTH_U(t) == (LEN_U(t) > 0)); eng.assume(LEN_U(t) >= 0)
    return T(t)

def s_props(eng, args, kw):
    """contract of _get_class_props: the names of the properties and of the class variables, of the class and its parents"""
    c = eng.tv(args[0])
    out = []
    for n, f in (('properties_of', PROP), ('class_variables_of', CVAR)):
        t = uf(n, Val, Val)(c); listof(eng, t)
        eng.member_of[t.sexpr()] = lambda x, f=f, c=c: f(c, x)
        out.append(T(t))
    return tuple(out)

def s_known(eng, args, kw):
    """contract of _get_attributes_and_types: the declared attributes with their types (or None), properties and class variables included"""
    c = eng.tv(args[0]); st = args[1] if len(args) > 1 else eng.dict_find(kw, 'strict')
    r = KNOWN(c, Val.boolv(zz(eng.bool_(st)))); listof(eng, r, dict)
    k = z3.Const('k!ka', Val); x = eng.dget(r)[k]
    eng.fact(forall([k], z3.Or(x == Val.absent, x == Val.none, z3.And(Val.is_ref(x), TRUTH_U(x))), [x]))
    eng.element_of[r.sexpr()] = lambda i, x: Val.is_strv(x)
    return T(r)

def s_inner(eng, args, kw): return B(INNER(eng.tv(args[0]), eng.tv(args[1])))

def s_dir(eng, args, kw):
    o = args[0]
    if not isinstance(o, SYMBOLIC): return eng.native(lambda: dir(o))
    t = DIR(eng.tv(o)); listof(eng, t)
    j = z3.Int('j!dir')
    eng.fact(forall([j], z3.Implies(z3.And(j >= 0, j < LEN_U(t)), DIRPOS(t, ITER(t, j)) == j), [ITER(t, j)]))
    eng.element_of[t.sexpr()] = lambda i, x: z3.And(Val.is_strv(x), x != kstr(''), DIRPOS(t, x) == i)
    return T(t)

def attr_summaries():
    S = summaries()
    def put(m, name, h):
        f = getattr(m, name)            # a missing name makes the contract inapplicable, and the property bounded
        S[id(f)] = h
        w = unwrap_cached(f)
        if w is not None: S[id(w)] = h
    put(SO, '_get_class_props', s_props); put(SO, '_get_attributes_and_types', s_known); put(SO, '_is_innerclass', s_inner)
    S[id(dir)] = s_dir
    for f in (inspect.ismethod, inspect.isfunction):
        S[id(f)] = lambda eng, args, kw, f=f: B(uf('inspect.' + f.__name__, Val, Bool)(eng.tv(args[0]))) if isinstance(args[0], SYMBOLIC) else f(args[0])
    return S


ATTRS = {k: uf('attributes_of_the_' + k, Val, Bool, Bool, Bool, Bool, Val) for k in ('object', 'class')}
def s_attributes(which):
    def h(eng, args, kw):
        """contract of _get_attributes_from_object/_class: the attributes to be dumped, with their declared types or None"""
        o, sp, spr, scv, sa, st = [eng.tv(args[0])] + [zz(eng.bool_(a)) for a in args[1:4]] + [args[4], zz(eng.bool_(args[5]))]
        x = z3.Const('x!strip', Val)         # what counts is which names are in it
        eng.data.setdefault('stripped', []).append((x, zz(eng.contains(sa, T(x)))))
        r = ATTRS[which](o, sp, spr, scv, st); listof(eng, r, dict)
        k = z3.Const('k!at', Val); x = eng.dget(r)[k]
        eng.fact(forall([k], z3.Or(x == Val.absent, x == Val.none, z3.And(Val.is_ref(x), TRUTH_U(x))), [x]))
        eng.element_of[r.sexpr()] = lambda i, x: z3.And(Val.is_strv(x), x != kstr(''), uf('hasattr_dyn', Val, Val, Bool)(o, x) if which == 'object' else z3.BoolVal(True))
        return T(r)
    return h

def dump_summaries():
    S = attr_summaries()
    for n, w in (('_get_attributes_from_object', 'object'), ('_get_attributes_from_class', 'class')):
        f = getattr(SO, n)
        for x in (f, unwrap_cached(f)):
            if x is not None: S[id(x)] = s_attributes(w)
    return S

def strip_option(eng, form):
    """strip_attr in each of its forms; STRIP(x): it names x"""
    x = z3.Const('x!so', Val)
    if form == 'str':
        t = z3.String('strip_attr')
        eng.fact(forall([x], STRIP(x) == z3.And(x == Val.strv(t), t != z3.StringVal('')), [STRIP(x)]))
        return St(t)
    if form == 'none':
        eng.fact(forall([x], z3.Not(STRIP(x)), [STRIP(x)]))
        return None
    sa = listof(eng, z3.Const('strip_attr', Val), form)
    eng.member_of[sa.t.sexpr()] = lambda x: STRIP(x)
    eng.fact(forall([x], z3.Implies(STRIP(x), LEN_U(sa.t) > 0), [STRIP(x)]))
    return sa

def setup(eng, tr, strict_cls, form=tuple):
    o, f = svalue(eng, 'obj'), warnable(eng, fork_value(eng))
    eng.assume(Val.is_ref(o.t))
    c = stype(eng, 'cls') if strict_cls else None
    if c is not None:
        eng.assume(c.t != const_term(object)); eng.assume(c.t != const_term(typing.Any)); eng.assume(eng.inst(c.t, type))
    own = eng.typeof(o.t)
    eng.assume(eng.inst(own, type))
    sa = strip_option(eng, form)
    eng.data['in'] = (o, c, f); eng.data['strict'] = bool(strict_cls); eng.data['k'] = c.t if c is not None else own
    eng.data['kw'] = options(without=NOOPT + ('verbose', '_store_cls', 'strict', 'strip_attr', 'key_transformer') + SETTINGS)
    more = [('fork_inst', f), ('strict', bool(strict_cls)), ('strip_attr', sa)]
    for n in SETTINGS: more.append((n, B(z3.Const(n, Bool))))
    if c is not None: more.append(('cls', c))
    eng.data['kt'] = lambda x: x
    if tr:
        kt, eng.data['kt'] = transformer(eng); more.append(('key_transformer', kt))
    return o, more

def attr_thunk(tr, strict_cls, form=tuple):
    def thunk(eng):
        o, more = setup(eng, tr, strict_cls, form)
        return run_fn(eng, sobj, [o], DictC(eng.data['kw'], more))
    return thunk
def dump_paths(ctx, tr=False, strict_cls=False, form=tuple): return cached_paths(ctx, ('objdump', tr, strict_cls, form), lambda: ctx.paths(attr_thunk(tr, strict_cls, form), dump_summaries()))

# ------------------------------------------------------------------ which attributes (C16)
HASDYN, GETDYN = uf('hasattr_dyn', Val, Val, Bool), uf('attr_dyn', Val, Val, Val)
ABC = ('_abc_registry', '_abc_cache', '_abc_negative_cache', '_abc_negative_cache_version', '_abc_impl')
def wanted(p, a):
    """the attribute a (a string) belongs in a dump of an object of the class k"""
    e, k = p.eng, p.data['k']
    B_ = lambda n: z3.Const(n, Bool)
    starts = lambda s: z3.PrefixOf(z3.StringVal(s), Val.s(a))
    x = GETDYN(k, a)
    fn = z3.And(HASDYN(k, a), z3.Or(uf('inspect.ismethod', Val, Bool)(x), uf('inspect.isfunction', Val, Bool)(x)))
    own = z3.Or([a == kstr(n) for n in dir(JsonSerializable)])
    return z3.And(Val.is_strv(a), z3.Not(starts('__')), z3.Not(z3.And(B_('strip_privates'), starts('_'))),
                  z3.Not(z3.And(B_('strip_properties'), PROP(k, a))), z3.Not(z3.And(B_('strip_class_variables'), CVAR(k, a))),
                  z3.Not(STRIP(a)), z3.And([a != kstr(n) for n in ABC]), z3.Not(fn),
                  z3.Not(z3.And(uf('issubclass', Val, Val, Bool)(k, const_term(StateHolder)), own)), z3.Not(INNER(a, k)))

def select_paths(ctx, which):
    def thunk(eng):
        o, more = setup(eng, False, which == 'class')
        d = dict(more); c = eng.data['in'][1]
        fn = getattr(SO, '_get_attributes_from_' + which)
        return run_fn(eng, unwrap_cached(fn) or fn, [o if which == 'object' else c] + [d[n] for n in SETTINGS[:3]] + [d['strip_attr'], which == 'class'])
    return cached_paths(ctx, ('select', which), lambda: ctx.paths(thunk, attr_summaries(), feas_ms=100))

def at_index(p, i):
    """what is known of every index, of i"""
    return [z3.substitute_vars(f.body(), i) for f in p.facts if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == Int]

def selection(ctx, which):
    ps = select_paths(ctx, which)
    for q, p in enumerate(ps):
        o, c, f = p.data['in']; e = p.eng
        if p.kind != 'ret': ctx.check('it does not fail [%d]' % q, p, False); continue
        k, st = p.data['k'], which == 'class'
        known = KNOWN(k, Val.boolv(z3.BoolVal(st)))
        src = known if st else DIR(o.t)
        r = entries_of(p, p.value)
        if r is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
        num, cases, guard = r
        ctx.prove('each attribute is considered [%d]' % q, p, num == LEN_U(src))
        i = cases[0][0]
        rng = [i >= 0, i < LEN_U(src)] + at_index(p, i)
        a = ITER(src, i)
        g = zz(guard(i)) if guard is not None else z3.BoolVal(True)
        ctx.prove('what is asked for is kept [%d]' % q, p, z3.Implies(wanted(p, a), g), rng)
        ctx.prove('nothing else is kept [%d]' % q, p, z3.Implies(g, wanted(p, a)), rng)
        for m, (i, h, key, x) in enumerate(cases):
            a = ITER(src, i); t = e.dget(known)[a]
            ctx.prove('under its name [%d.%d]' % (q, m), p, key == a, h)
            ctx.prove('with its declared type [%d.%d]' % (q, m), p, x == z3.If(t == Val.absent, Val.none, t), h)
    ctx.cover('attributes', ps, lambda p: p.kind == 'ret')

@contract('C16', 'the attributes of an object: exactly those that are asked for')
def c16_object(ctx): selection(ctx, 'object')
@contract('C16', 'the attributes of a class: exactly those that are asked for')
def c16_class(ctx): selection(ctx, 'class')

# ------------------------------------------------------------------ the dump of an object (C16)
def source(p):
    o, c, f = p.data['in']
    B_ = [z3.Const(n, Bool) for n in SETTINGS[:3]]
    return ATTRS['class'](c.t, *B_, z3.BoolVal(True)) if c is not None else ATTRS['object'](o.t, *B_, z3.BoolVal(False))

def call_of(p, events):
    """the call of a serializer among the events: (event, its result or None)"""
    cs = [e for e in events if e[0] == 'call' and z3.is_app(e[1]) and e[1].decl().eq(LOOKUP['serializer'])]
    return cs[0] if len(cs) == 1 else None

def right_call(p, e, i):
    """it is the attribute that is dumped, by the serializer of its declared type or of the type of its value"""
    o, c, f = p.data['in']; src = source(p); a = ITER(src, i); t = p.eng.dget(src)[a]; x = GETDYN(o.t, a)
    k = z3.If(t == Val.none, p.eng.typeof(x), t)
    return z3.And(e[4][0] == x, e[1] == LOOKUP['serializer'](k, f.t), z3.Select(e[5], kstr('cls')) == t)

def names(p, key, a):
    kt = p.data['kt']; k = p.data['k']
    pub = Val.strv(uf("str.lstrip|'_'", Str, Str)(Val.s(a)))
    attrs_class = z3.And(uf('hasattr:__attrs_attrs__', Val, Bool)(k), uf('attr:__attrs_attrs__', Val, Val)(k) != Val.none, z3.Not(z3.Const('strip_privates', Bool)))
    return z3.If(attrs_class, key == kt(pub), key == kt(a))

def result_term(e): return e[-1].t if isinstance(e[-1], T) else e[-1]

def object_dump(ctx, tr, st, ps=None):
    if ps is None: ps = dump_paths(ctx, tr, st)
    strip = z3.Const('strip_nulls', Bool)
    for q, p in enumerate(ps):
        p.eng.heap = p.heap
        o, c, f = p.data['in']; src = source(p)
        for x, has in p.data.get('stripped', ()):
            ctx.prove('the attributes to be stripped are those of the caller [%d]' % q, p, has == STRIP(x), [Val.is_strv(x)])
        if p.kind == 'raise':
            # strict: an attribute that cannot be dumped, or that the object does not have
            last = [e for e in p.events if e[0] == 'call']
            if not st: ctx.check('it does not fail [%d]' % q, p, False)
            elif last and not isinstance(last[-1][-1], (T, z3.ExprRef)): ctx.check('a strict dump fails with a SerializationError [%d]' % q, p, exc_class(p, SerializationError))
            else: ctx.prove('it fails only on an attribute that is missing [%d]' % q, p, z3.Or([z3.Not(HASDYN(o.t, ITER(src, x))) for x in p.iters] if getattr(p, 'iters', None) else [missing(p, src, o)]))
            continue
        r = entries_of(p, p.value)
        if r is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
        num, cases, guard = r
        ctx.prove('each attribute is considered [%d]' % q, p, num == LEN_U(src))
        loops = [e for e in p.events if e[0] == 'loop' and any(call_of(p, b[1]) for b in e[4])]
        if len(loops) != 1: ctx.check('the attributes are dumped once [%d]' % q, p, not loops and not cases); continue
        _, i, cnt, g0, bodies, _ = loops[0]
        g = zz(guard(i)) if guard is not None else z3.BoolVal(True)
        ctx.check('for all attributes [%d]' % q, p, g0 is None and cnt == LEN_U(src))
        got = []
        for m, (cond, events, bp) in enumerate(bodies):
            h = [i >= 0, i < cnt, cond] + list(bp.facts)
            e = call_of(p, events)
            if e is None: ctx.check('each attribute is dumped once [%d.%d]' % (q, m), bp, False); continue
            ctx.prove('the attribute is dumped by its serializer [%d.%d]' % (q, m), p, right_call(p, e, i), h)
            x = result_term(e)
            if isinstance(x, z3.ExprRef):
                got.append((cond, x))
                ctx.prove('an attribute that was dumped is in the dump, unless null and stripped [%d.%d]' % (q, m), p, g == z3.Not(z3.And(strip, x == Val.none)), h)
            else:
                ctx.check('a strict dump does not go on after a failure [%d.%d]' % (q, m), bp, not st)
                ctx.check('a warning is given [%d.%d]' % (q, m), bp, any(e[0] == 'warn' for e in events))
                ctx.prove('an attribute that could not be dumped is left out [%d.%d]' % (q, m), p, z3.Not(g), h)
        for m, (j, h, key, x) in enumerate(cases):
            a = ITER(src, j)
            ctx.prove('under its name [%d.%d]' % (q, m), p, names(p, key, a), h)
            ctx.prove('what its serializer made of it [%d.%d]' % (q, m), p, z3.Or([z3.And(z3.substitute(cd, (i, j)), x == z3.substitute(v, (i, j))) for cd, v in got] or [z3.BoolVal(False)]), h)
            ctx.prove('no null if nulls are stripped [%d.%d]' % (q, m), p, z3.Not(z3.And(strip, x == Val.none)), h)
    ctx.cover('a dumped object', ps, lambda p: p.kind == 'ret')
def missing(p, src, o):
    j = z3.Int('j!missing')
    return z3.Exists([j], z3.And(j >= 0, j < LEN_U(src), z3.Not(HASDYN(o.t, ITER(src, j)))))

for _tr in (False, True):
    for _st in (False, True):
        contract('C16', 'dumping an object%s%s: every attribute asked for, and nothing else' % (', strictly' if _st else '', ', with a key transformer' if _tr else ''))(lambda ctx, tr=_tr, st=_st: object_dump(ctx, tr, st))

@contract('C16', 'strip_attr: a name, a list of names, or nothing')
def c16_forms(ctx):
    for form in ('str', 'none', list):
        n = 0
        for st in (False, True):
            for q, p in enumerate(dump_paths(ctx, False, st, form)):
                if 'stripped' not in p.data: ctx.check('it does not fail before the attributes are selected [%s, %d]' % (form, q), p, False)
                for x, has in p.data.get('stripped', ()):
                    n += 1
                    ctx.prove('the attributes to be stripped are those of the caller [%s, %s, %d]' % (form, st, q), p, has == STRIP(x), [Val.is_strv(x)])
        if not n: ctx.add('reachable: strip_attr in the form %s' % (form,), 'undecided')
