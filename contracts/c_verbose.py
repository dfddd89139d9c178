"""Contracts on verbose dumps and on loading them (C19): which class is loaded, which class hints reach the values, what a verbose dump adds."""
from contracts.common import *
from contracts.common import _common_impl
from contracts.c_coll import slist, cached_paths
from contracts.c_load import load_paths, lizer_calls, term, truthy, evs
from contracts import c_attrs
from jsons.deserializers import default_object as DO
from jsons.serializers import default_object as SO
from jsons.classes.verbosity import Verbosity
import inspect

META, CLASSES, ROOT = kstr('-meta'), kstr('classes'), kstr('/')

# ------------------------------------------------------------------ which class an object is loaded as
@contract('C19', 'load: the class asked for, the recorded class, or the type of the value')
def c19_class(ctx):
    ps = load_paths(ctx)
    for q, p in enumerate(ps):
        o, c, f = p.data['in']; e = p.eng; kw = p.data['kw']
        ds = lizer_calls(p)
        if not ds: continue
        call, ct, ft = ds[-1]
        meta = e.dget(o.t)[META]
        has_meta = z3.And(zz(e.inst(o.t, dict)), meta != Val.absent)
        classes = e.dget(meta)[CLASSES]
        root = z3.If(z3.Or(z3.Not(has_meta), classes == Val.absent), Val.absent, e.dget(classes)[ROOT])
        recorded = root != Val.absent
        asked = c.t != Val.none
        want = z3.If(Val.is_strv(c.t), FROM_STR(Val.s(c.t), f.t), c.t)
        inner = kw[kstr('_inferred_cls')]
        inferred = z3.And(inner != Val.absent, truthy(p, inner))
        ctx.prove('a class that is asked for is the one that is loaded [%d]' % q, p, z3.Implies(z3.And(asked, z3.Not(inferred)), ct == want))
        ctx.prove('nothing asked for: the class that is recorded [%d]' % q, p, z3.Implies(z3.And(z3.Not(asked), recorded), ct == FROM_STR(Val.s(root), f.t)))
        ctx.prove('a class that was only inferred gives way to the one that is recorded [%d]' % q, p, z3.Implies(z3.And(inferred, recorded), ct == FROM_STR(Val.s(root), f.t)))
        ctx.prove('an inferred class is used if none is recorded [%d]' % q, p, z3.Implies(z3.And(asked, z3.Not(recorded)), ct == want))
        ctx.prove('nothing asked for, nothing recorded: the type of the value [%d]' % q, p, z3.Implies(z3.And(z3.Not(asked), z3.Not(recorded)), ct == e.typeof(o.t)))
        got = z3.Select(call[5], kstr('meta_hints'))
        own = z3.And(has_meta, classes != Val.absent)
        ctx.prove('the deserializer gets the classes that are recorded in the object [%d]' % q, p, z3.Implies(z3.And(own, truthy(p, classes)), got == classes), [z3.Implies(own, TRUTH_U(meta))])      # a dict with an entry is true
        ctx.prove('or the hints of the caller [%d]' % q, p, z3.Implies(z3.And(z3.Not(has_meta), kw[kstr('meta_hints')] != Val.absent), got == kw[kstr('meta_hints')]))
        flag = z3.Select(call[5], kstr('_inferred_cls'))
        ctx.prove('a class that was asked for does not count as inferred below it [%d]' % q, p, z3.Implies(z3.And(asked, z3.Not(Val.is_strv(c.t)), z3.Not(inferred)), z3.Not(z3.And(flag != Val.absent, truthy(p, flag)))))
        ctx.check('the value goes to the deserializer as it is, with the class [%d]' % q, p, len(call[4]) == 2 and z3.And(call[4][0] == o.t, call[4][1] == ct))
    ctx.cover('a class is recorded', ps, lambda p: bool(lizer_calls(p)) and z3.And(p.eng.dget(p.data['in'][0].t)[META] != Val.absent, p.data['in'][1].t == Val.none))

# ------------------------------------------------------------------ the hints for an attribute
@contract('C19', 'the class hints of an attribute: those below its path, with the path taken off')
def c19_hints(ctx):
    names = list(inspect.signature(DO._get_nested_hints).parameters)
    if names != ['cls_key', 'meta_hints']: ctx.add('the parameters of _get_nested_hints', 'undecided'); return
    key = z3.String('cls_key')
    def thunk(eng):
        h = slist(eng, 'meta_hints', dict)
        eng.element_of[h.t.sexpr()] = lambda i, x: z3.And(Val.is_strv(x), eng.dget(h.t)[x] != Val.absent)
        eng.data['h'] = h
        return run_fn(eng, DO._get_nested_hints, [St(key), h])
    ps = ctx.paths(thunk, base_summaries())
    s, k1, k2 = z3.Strings('s k1 k2')
    for q, p in enumerate(ps):
        h = p.data['h'].t; e = p.eng
        if p.kind != 'ret': ctx.check('it does not fail [%d]' % q, p, False); continue
        r = entries_of(p, p.value)
        if r is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
        num, cases, guard = r
        ctx.prove('each hint is considered [%d]' % q, p, num == LEN_U(h))
        i = cases[0][0]
        path = Val.s(ITER(h, i))
        below = z3.Or(path == key, z3.PrefixOf(z3.Concat(key, z3.StringVal('/')), path))
        rng = [i >= 0, i < LEN_U(h)] + c_attrs.at_index(p, i) + [Val.is_strv(ITER(h, i))]
        g = zz(guard(i)) if guard is not None else z3.BoolVal(True)
        ctx.prove('a hint is kept if and only if it is at or below the path [%d]' % q, p, g == below, rng)
        for m, (i, hy, name, x) in enumerate(cases):
            path = Val.s(ITER(h, i))
            ctx.prove('the path is taken off; the root is / [%d.%d]' % (q, m), p, z3.And(Val.is_strv(name), z3.If(path == key, Val.s(name) == z3.StringVal('/'), z3.Concat(key, Val.s(name)) == path)), hy + [Val.is_strv(ITER(h, i))])
            ctx.prove('with the class that is recorded [%d.%d]' % (q, m), p, x == e.dget(h)[ITER(h, i)], hy)
    off = lambda k, n: z3.And(z3.Or(k == key, z3.PrefixOf(z3.Concat(key, z3.StringVal('/')), k)), z3.If(k == key, n == z3.StringVal('/'), z3.And(z3.Concat(key, n) == k)))
    ctx.lemma('no two hints get the same name, but a path that ends in /', [off(k1, s), off(k2, s), k1 != z3.Concat(key, z3.StringVal('/')), k2 != z3.Concat(key, z3.StringVal('/'))], k1 == k2)
    ctx.cover('hints', ps, lambda p: p.kind == 'ret')

# ------------------------------------------------------------------ what a verbose dump adds
LEVELS = [Verbosity.WITH_NOTHING, Verbosity.WITH_CLASS_INFO, Verbosity.WITH_DUMP_TIME, Verbosity.WITH_EVERYTHING]
def s_mark(eng, args, kw):
    """contract of _store_cls_info: see below"""
    eng.events.append(('mark', eng.tv(args[0]), eng.tv(args[1]), eng.arr_of(args[2]) if not isinstance(args[2], Ref) else eng.arr_of(eng.heap[args[2].id]), list(eng.loops)))
    return None
def s_fill(eng, args, kw):
    """contract of _fill_collection_of_types: it fills the collection with the classes of the marks below the prefix, and takes the marks out of the nested dumps"""
    eng.events.append(('fill', args[0], args[1], args[2], args[3], list(eng.loops)))
    return T(z3.Const('filled', Val))

def verbose_paths(ctx, level, inside):
    S = dict(c_attrs.dump_summaries())
    S[id(SO._store_cls_info)] = s_mark; S[id(SO._fill_collection_of_types)] = s_fill
    S[id(SO.to_str)] = lambda eng, args, kw: (eng.events.append(('time', [args[0]], list(eng.loops))), St(z3.String('the_time')))[1]
    def thunk(eng):
        o, more = c_attrs.setup(eng, False, False, 'none')
        more = list(more) + [('verbose', level)]
        if inside is not None: more.append(('_store_cls', inside))
        return run_fn(eng, SO.default_object_serializer, [o], DictC(eng.data['kw'], more))
    return cached_paths(ctx, ('verbose', level, inside), lambda: ctx.paths(thunk, S))

def const(v): return const_term(v)
def calls_in(p):
    """(hypotheses, serializer call, marks) of every body of the loop over the attributes"""
    out = []
    for e in p.events:
        if e[0] != 'loop': continue
        for cond, events, bp in e[4]:
            c = c_attrs.call_of(p, events)
            if c is not None: out.append((e[1], [e[1] >= 0, e[1] < e[2], cond] + list(bp.facts), c, [x for x in events if x[0] == 'mark'], bp))
    return out

def verbose_dump(ctx, level, inside):
    ps = verbose_paths(ctx, level, inside)
    info, time = Verbosity.WITH_CLASS_INFO in level, Verbosity.WITH_DUMP_TIME in level
    meta = bool(info or time) and not inside
    # assumed: the clock does not fail
    ps = [p for p in ps if not (p.kind == 'raise' and p.events and p.events[-1][0] == 'call' and z3.is_app_of(p.events[-1][1], z3.Z3_OP_DT_CONSTRUCTOR) and not isinstance(p.events[-1][-1], T))]
    for q, p in enumerate(ps):
        p.eng.heap = p.heap
        o, c, f = p.data['in']
        if p.kind != 'ret' or not isinstance(p.value, Ref): ctx.check('it does not fail, and gives a dict [%d]' % q, p, False); continue
        body = p.heap[p.value.id]
        top = [w for w in body.log if not isinstance(w, Writes) and w[0] == '-meta']
        ctx.check('meta info if and only if it is asked for, at the top only [%d]' % q, p, len(top) == (1 if meta else 0))
        own = z3.simplify(CLSNAME(p.data['k'], z3.BoolVal(True)))
        fills = [e for e in p.events if e[0] == 'fill']
        ctx.check('the classes are collected once if they are asked for [%d]' % q, p, len(fills) == (1 if meta and info else 0))
        if top and meta and isinstance(top[0][1], Ref):
            sect = dict((w[0], w[1]) for w in p.heap[top[0][1].id].log if not isinstance(w, Writes))
            ctx.check('the classes and the time, each if and only if it is asked for [%d]' % q, p, set(sect) == set((['classes'] if info else []) + (['dump_time'] if time else [])))
            if info and isinstance(sect.get('classes'), Ref):
                ws = [w for w in p.heap[sect['classes'].id].log if not isinstance(w, Writes) and w[0] == '/']
                ctx.check('the class of the object is that of the root [%d]' % q, p, bool(ws) and term(p, ws[-1][1]) == Val.strv(CLSNAME(p.data['k'], z3.BoolVal(True))))
                if fills: ctx.check('those of this dump, from the root [%d]' % q, p, fills[0][1] == p.value and fills[0][3] == '/' and fills[0][4] == sect['classes'] and fills[0][2] is not None)
            elif info: ctx.add('the shape of the classes [%d]' % q, 'undecided')
            if time: ctx.check('the time is that of the dump [%d]' % q, p, term(p, sect['dump_time']) == Val.strv(z3.String('the_time')) if 'dump_time' in sect else False)
        elif top and meta: ctx.add('the shape of the meta info [%d]' % q, 'undecided')
        for m, (i, h, e, marks, bp) in enumerate(calls_in(p)):
            a = GETDYN_(o.t, ITER(c_attrs.source(p), i))
            ctx.prove('the values are dumped with class marks if and only if classes are asked for [%d.%d]' % (q, m), p, z3.Select(e[5], kstr('_store_cls')) == Val.boolv(z3.BoolVal(bool(info))), h)
            ctx.prove('and as verbose [%d.%d]' % (q, m), p, z3.Select(e[5], kstr('verbose')) == const(level), h)
            x = c_attrs.result_term(e)
            if isinstance(x, z3.ExprRef):
                ctx.check('each dump is marked once [%d.%d]' % (q, m), bp, len(marks) == 1)
                for k in marks: ctx.prove('with the class of its value [%d.%d]' % (q, m), p, z3.And(k[1] == x, k[2] == a, z3.Select(k[3], kstr('_store_cls')) == Val.boolv(z3.BoolVal(bool(info)))), h)
        p.heap = dict(p.heap) if isinstance(p.heap, dict) else p.heap
        p.heap[p.value.id] = DictC(body.base, tuple(w for w in body.log if isinstance(w, Writes) or w[0] != '-meta'))
    c_attrs.object_dump(ctx, False, False, ps)

GETDYN_ = c_attrs.GETDYN
for _l in LEVELS:
    for _i in (None, True):
        contract('C19', 'dumping an object, %s%s' % (_l.name, ', within another' if _i else ''))(lambda ctx, l=_l, i=_i: verbose_dump(ctx, l, i))

# ------------------------------------------------------------------ marks and how they are collected
@contract('C19', 'marking a dump: dicts only, and only if asked for')
def c19_mark(ctx):
    def thunk(eng):
        d, o = svalue(eng, 'dumped'), svalue(eng, 'obj')
        eng.assume(uf('hasattr:__module__', Val, Bool)(eng.typeof(o.t)))
        eng.data['in'] = (d, o); eng.data['kw'] = options(without=())
        kw = eng.alloc(DictC(eng.data['kw']))
        return run_fn(eng, SO._store_cls_info, [d, o, kw])
    S = dict(base_summaries()); S[id(SO.get_type)] = lambda eng, args, kw: (lambda t: (eng.assume(Val.is_ref(t)), eng.assume(uf('hasattr:__module__', Val, Bool)(t)), T(t))[2])(uf('get_type', Val, Val)(eng.tv(args[0])))
    ps = ctx.paths(thunk, S)
    for q, p in enumerate(ps):
        e = p.eng; d, o = (x.t for x in p.data['in'])
        if p.kind != 'ret': ctx.check('it does not fail [%d]' % q, p, False); continue
        flag = p.data['kw'][kstr('_store_cls')]
        due = z3.And(flag != Val.absent, truthy(p, flag), zz(e.inst(d, dict)))
        marks = evs(p, 'mutate')
        ctx.check('a mark if and only if it is due [%d]' % q, p, due if marks else z3.Not(due))
        for m in marks:
            ok = len(marks) == 1 and m[2] == 'setitem' and m[3][0] == '-cls' and m[1].eq(d)
            ctx.check('it is put in the dump, under -cls, and nothing else is altered [%d]' % q, p, ok)
            if not ok: continue
            ty = z3.If(zz(e.inst(o, tuple)), e.typeof(o), uf('get_type', Val, Val)(o))
            ctx.prove('it is the name of the class of the value [%d]' % q, p, z3.Or(term(p, m[3][1]) == Val.strv(CLSNAME(ty, z3.BoolVal(True))), uf('attr:__module__', Val, Val)(ty) == kstr('typing')))
    ctx.cover('a mark', ps, lambda p: bool(evs(p, 'mutate')))

FILL = uf('class_of_the_mark', Val, Val)
@contract('C19', 'taking the mark out of a dump')
def c19_strip(ctx):
    A = z3.Const('dump', z3.ArraySort(Val, Val))
    for given in (False, True):
        def thunk(eng):
            eng.assume(z3.Or(A[kstr('-cls')] == Val.absent, Val.is_strv(A[kstr('-cls')])))
            d = eng.alloc(DictC(A)); eng.data['d'] = d
            n = St(z3.String('given')) if given else None
            if given: eng.assume(n.t != z3.StringVal(''))
            return run_fn(eng, SO._get_class_name_and_strip_cls, [n, d])
        ps = ctx.paths(thunk, base_summaries())
        k = z3.Const('some_key', Val)
        for q, p in enumerate(ps):
            if p.kind != 'ret': ctx.check('it does not fail [%s, %d]' % (given, q), p, False); continue
            p.eng.heap = p.heap
            r = term(p, p.value)
            m = A[kstr('-cls')]
            ctx.prove('the class that is given, else that of the mark, else none [%s, %d]' % (given, q), p, r == (Val.strv(z3.String('given')) if given else z3.If(m == Val.absent, Val.none, m)))
            now = p.eng.arr_of(p.heap[p.data['d'].id])
            ctx.prove('the mark is gone, the rest stays [%s, %d]' % (given, q), p, z3.Select(now, k) == z3.If(k == kstr('-cls'), Val.absent, A[k]))
        ctx.cover('a mark [%s]' % given, ps, lambda p: A[kstr('-cls')] != Val.absent)

@contract('C19', 'collecting the marks: every nested dump under its path')
def c19_fill(ctx):
    S = dict(base_summaries())
    def s_strip(eng, args, kw):
        eng.events.append(('strip', eng.tv(args[0]), eng.tv(args[1]), list(eng.loops)))
        r = uf('stripped_name', Val, Val, Val)(eng.tv(args[0]), eng.tv(args[1])); eng.assume(r != Val.absent); return T(r)
    S[id(SO._get_class_name_and_strip_cls)] = s_strip
    fill = SO._fill_collection_of_types
    def s_rec(eng, args, kw):
        r = FILL(eng.tv(args[0])); eng.assume(r != Val.absent)
        eng.events.append(('fill', eng.tv(args[0]), args[1], eng.tv(args[2]), args[3], r, list(eng.loops))); return T(r)
    S[id(fill)] = s_rec
    px = z3.String('prefix')
    def thunk(eng):
        d = slist(eng, 'dump', dict)
        eng.element_of[d.t.sexpr()] = lambda i, x: Val.is_strv(x)
        eng.assume(z3.Not(eng.inst(eng.dget(d.t)[kstr('-cls')], dict)))
        coll = eng.alloc(DictC()); eng.data.update(d=d, coll=coll)
        eng.skip_summary_once = fill
        return run_fn(eng, fill, [d, St(z3.String('name')), St(px), coll])
    ps = ctx.paths(thunk, S)
    for q, p in enumerate(ps):
        p.eng.heap = p.heap; e = p.eng
        d = p.data['d'].t
        if p.kind != 'ret': ctx.check('it does not fail [%d]' % q, p, False); continue
        ss = evs(p, 'strip')
        ctx.check('the mark of the dump itself is taken out, and is the result if no name is given [%d]' % q, p, len(ss) == 1 and z3.And(ss[0][1] == Val.strv(z3.String('name')), ss[0][2] == d, term(p, p.value) == uf('stripped_name', Val, Val, Val)(ss[0][1], d)))
        loops = [x for x in p.events if x[0] == 'loop']
        r = entries_of(p, p.data['coll'])
        if r is None or len(loops) != 1: ctx.add('the shape of the collection [%d]' % q, 'undecided'); continue
        num, cases, guard = r
        ctx.prove('each entry is considered [%d]' % q, p, z3.And(num == LEN_U(d), loops[0][2] == LEN_U(d)))
        i = loops[0][1]
        def nested_dump(i): return z3.And(ITER(d, i) != META, zz(e.inst(e.dget(d)[ITER(d, i)], dict)))
        path = lambda i: z3.Concat(px, Val.s(ITER(d, i)))
        done = []
        for m, (cond, events, bp) in enumerate(loops[0][4]):
            h = [i >= 0, i < LEN_U(d), cond] + list(bp.facts)
            rec = [x for x in events if x[0] == 'fill']
            ctx.prove('a dump within it is gone through, nothing else is [%d.%d]' % (q, m), p, nested_dump(i) if rec else z3.Not(nested_dump(i)), h)
            ctx.check('once [%d.%d]' % (q, m), bp, len(rec) <= 1)
            for x in rec:
                ctx.prove('below its path, into the same collection [%d.%d]' % (q, m), p, z3.And(x[1] == e.dget(d)[ITER(d, i)], x[3] == Val.strv(z3.Concat(path(i), z3.StringVal('/'))), z3.BoolVal(x[4] == p.data['coll'])), h)
                ctx.check('with no name, so that its mark counts [%d.%d]' % (q, m), bp, x[2] is None)
                done.append((cond, x[5]))
        j = cases[0][0]
        g = zz(guard(j)) if guard is not None else z3.BoolVal(True)
        rng = [j >= 0, j < LEN_U(d), Val.is_strv(ITER(d, j))] + c_attrs.at_index(p, j)
        ctx.prove('a class is recorded for each dump within it, and for nothing else [%d]' % q, p, g == nested_dump(j), rng)
        for m, (j, h, key, x) in enumerate(cases):
            ctx.prove('under its path [%d.%d]' % (q, m), p, key == Val.strv(path(j)), h + [Val.is_strv(ITER(d, j))])
            ctx.prove('the class of its mark [%d.%d]' % (q, m), p, x == FILL(e.dget(d)[ITER(d, j)]), h)
    ctx.cover('a collection', ps, lambda p: p.kind == 'ret')
