"""Contracts on the variants of load and dump (C21), and what they pass on (C07)."""
from contracts.common import *
from contracts.c_load import evs, term
from jsons import _transform_impl
from jsons.classes.json_serializable import JsonSerializable as JS
loads, loadb, dumps, dumpb, transform = _load_impl.loads, _load_impl.loadb, _dump_impl.dumps, _dump_impl.dumpb, _transform_impl.transform

def jd_input(eng):
    j = svalue(eng, 'jdkwargs')
    eng.assume(z3.Or(Val.is_none(j.t), z3.And(Val.is_ref(j.t), eng.inst(j.t, dict))))
    eng.data['jd'] = j
    return j
def jd_opts(p):
    j = p.data['jd'].t
    return z3.If(truth(p, j), p.eng.dget(j), EMPTY)
def truth(p, t): return zz(p.eng.bool_(T(t)))
def one(ctx, p, kind, k):
    es = [e for e, _ in nested(p, kind)]
    ctx.check('exactly one %s [%d]' % (kind, k), p, len(es) == 1)
    return es[0] if len(es) == 1 else None
def same_arr(a, b):
    n = ANYKEY
    return a[Val.strv(n)] == b[Val.strv(n)]

def text_in(ctx, fn, what):
    S = base_summaries()
    def thunk(eng):
        s = svalue(eng, 'text'); c = svalue(eng, 'cls')
        eng.assume(Val.is_strv(s.t) if what == 'str' else z3.And(Val.is_ref(s.t), eng.inst(s.t, bytes)))
        j = jd_input(eng); eng.data['in'] = (s, c)
        eng.data['kw'] = options(without=('jdkwargs', 'encoding', 'json_obj', 'cls', 'fork'))
        kws = (('jdkwargs', j),)
        if what == 'bytes':
            enc = svalue(eng, 'encoding'); eng.assume(Val.is_strv(enc.t)); eng.data['enc'] = enc
            kws += (('encoding', enc),)
        return run_fn(eng, fn, [s, c], DictC(eng.data['kw'], kws))
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        s, c = p.data['in']
        js, ls = evs(p, 'json.loads'), [e for e, _ in nested(p, 'load')]
        if p.kind == 'ret':
            if len(js) != 1 or len(ls) != 1: ctx.check('decoded once and loaded once [%d]' % k, p, False); continue
            want = Val.strv(uf('decoded', Val, Val, Str)(s.t, p.data['enc'].t)) if what == 'bytes' else s.t
            ctx.prove('the whole text is decoded, with the json options given [%d]' % k, p, z3.And(js[0][1] == want, same_arr(js[0][2], jd_opts(p))))
            e = ls[0]
            ctx.prove('what was decoded is loaded into the class given [%d]' % k, p, z3.And(e[1] == js[0][3], e[2] == c.t))
            ctx.prove('with the options given [%d]' % k, p, reaches(e[3], with_defaults(p.data['kw'], LOAD_DEFAULTS)))
            ctx.prove('and returned as it is [%d]' % k, p, term(p, p.value) == e[7] if e[7] is not None else False)
        elif ls:
            e = ls[0]
            ctx.check('an error of load is passed on [%d]' % k, p, z3.And(zz(isinstance(p.value, T)), p.value.t == LOAD_E(e[1], e[2], e[3])) if isinstance(p.value, T) else False)
    ctx.cover('a text is loaded', ps, lambda p: p.kind == 'ret')
    ctx.cover('loading fails', ps, lambda p: p.kind == 'raise' and bool(evs(p, 'load')))

@contract('C21', 'loads is load of the decoded text')
def c21_loads(ctx): text_in(ctx, loads, 'str')
@contract('C21', 'loadb is load of the decoded bytes')
def c21_loadb(ctx): text_in(ctx, loadb, 'bytes')

def text_out(ctx, fn, what):
    S = base_summaries()
    def thunk(eng):
        o = svalue(eng, 'obj'); j = jd_input(eng); eng.data['in'] = o
        eng.data['kw'] = options(without=('jdkwargs', 'encoding', 'obj', 'fork'))
        eng.data['kw'] = z3.Store(eng.data['kw'], kstr('cls'), z3.Const('cls', Val))
        eng.assume(z3.Const('cls', Val) != Val.absent)
        kws = (('jdkwargs', j),)
        if what == 'bytes':
            enc = svalue(eng, 'encoding'); eng.assume(Val.is_strv(enc.t)); eng.data['enc'] = enc
            kws += (('encoding', enc),)
        return run_fn(eng, fn, [o], DictC(eng.data['kw'], kws))
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        o = p.data['in']
        ds, js = [e for e, _ in nested(p, 'dump')], evs(p, 'json.dumps')
        if len(ds) != 1: ctx.check('dumped once [%d]' % k, p, False); continue
        e = ds[0]
        ctx.prove('the object is dumped with the options given [%d]' % k, p,
                  z3.And(e[1] == o.t, e[2] == z3.Const('cls', Val), reaches(e[3], with_defaults(p.data['kw'], DUMP_DEFAULTS), ('cls',))))
        if p.kind == 'ret':
            if len(js) != 1: ctx.check('encoded once [%d]' % k, p, False); continue
            ctx.prove('the dump is encoded with the json options given [%d]' % k, p, z3.And(js[0][1] == e[7], same_arr(js[0][2], jd_opts(p))) if e[7] is not None else False)
            txt = Val.strv(uf('json_text', Val, Arr, Str)(js[0][1], js[0][2]))
            if what == 'str': ctx.prove('and returned as it is [%d]' % k, p, term(p, p.value) == txt)
            else:
                cs = [x for x in evs(p, 'call')]
                ok = len(cs) == 1 and cs[0][-1] is not None
                if not ok: ctx.check('encoded to bytes once [%d]' % k, p, False); continue
                c = cs[0]
                enc = c[4][1] if len(c[4]) > 1 else c[5][kstr('encoding')]
                ctx.prove('the text is encoded to bytes as asked [%d]' % k, p, z3.And(c[4][0] == txt, enc == p.data['enc'].t, term(p, p.value) == c[-1].t))
        elif e[7] is None:
            ctx.check('an error of dump is passed on [%d]' % k, p, p.value.t == DUMP_E(e[1], e[2], e[3]) if isinstance(p.value, T) else False)
    ctx.cover('an object is dumped', ps, lambda p: p.kind == 'ret')

@contract('C21', 'dumps is the json encoding of dump')
def c21_dumps(ctx): text_out(ctx, dumps, 'str')
@contract('C21', 'dumpb is the encoded json encoding of dump')
def c21_dumpb(ctx): text_out(ctx, dumpb, 'bytes')

@contract('C21', 'transform is load of the mapped dump')
def c21_transform(ctx):
    S = base_summaries()
    def thunk(eng):
        o, c, m, dc = svalue(eng, 'obj'), svalue(eng, 'cls'), svalue(eng, 'mapper'), svalue(eng, 'dump_cls')
        eng.assume(z3.Or(Val.is_none(m.t), z3.And(Val.is_ref(m.t), TRUTH_U(m.t))))
        dk = svalue(eng, 'dump_kwargs')
        eng.assume(z3.Or(Val.is_none(dk.t), z3.And(Val.is_ref(dk.t), eng.inst(dk.t, dict))))
        for n in ('obj', 'cls'): eng.assume(eng.dget(dk.t)[kstr(n)] == Val.absent)
        eng.data['in'] = (o, c, m, dc, dk)
        eng.data['kw'] = options(without=('mapper', 'dump_cls', 'dump_args', 'dump_kwargs'))
        return run_fn(eng, transform, [o, c], DictC(eng.data['kw'], (('mapper', m), ('dump_cls', dc), ('dump_kwargs', dk))))
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        o, c, m, dc, dk = p.data['in']
        ds, ls, cs = [e for e, _ in nested(p, 'dump')], [e for e, _ in nested(p, 'load')], evs(p, 'call')
        if len(ds) != 1: ctx.check('dumped once [%d]' % k, p, False); continue
        d = ds[0]
        want = with_defaults(z3.If(truth(p, dk.t), p.eng.dget(dk.t), EMPTY), DUMP_DEFAULTS)
        ctx.prove('the object is dumped as asked [%d]' % k, p, z3.And(d[1] == o.t, d[2] == dc.t, reaches(d[3], want)))
        if p.kind != 'ret': continue
        if len(ls) != 1: ctx.check('loaded once [%d]' % k, p, False); continue
        l = ls[0]
        mapped = RES1_(m.t, d[7])
        ctx.prove('what is loaded is the dump, mapped if asked [%d]' % k, p, l[1] == z3.If(Val.is_none(m.t), d[7], mapped))
        ctx.prove('into the class and with the options given [%d]' % k, p, z3.And(l[2] == c.t, reaches(l[3], with_defaults(p.data['kw'], LOAD_DEFAULTS))))
        ctx.prove('and returned as it is [%d]' % k, p, term(p, p.value) == l[7] if l[7] is not None else False)
    ctx.cover('without a mapper', ps, lambda p: Val.is_none(p.data['in'][2].t) if p.kind == 'ret' else False)
    ctx.cover('with a mapper', ps, lambda p: z3.Not(Val.is_none(p.data['in'][2].t)) if p.kind == 'ret' else False)
RES1_ = lambda f, a: uf('result1', Val, Val, Arr, Val)(f, a, EMPTY)

# ---------------------------------------------------------------- methods
def fn_summaries():
    """loads, loadb, dumps, dumpb by their contracts above: recorded and any outcome"""
    S = base_summaries()
    for f in (loads, loadb, dumps, dumpb):
        def h(eng, args, kw, f=f):
            at = [eng.tv(a) for a in args]
            a = eng.arr_of(kw)
            r = uf('%s_result%d' % (f.__name__, len(at)), *([Val] * len(at) + [Arr, Val]))(*at, a)
            eng.events.append((f.__name__, at, a, r))
            if eng.branch(uf('%s_ok%d' % (f.__name__, len(at)), *([Val] * len(at) + [Arr, Bool]))(*at, a), free=True):
                eng.assume(r != Val.absent); return T(r)
            raise PyRaise(eng.unknown_exc(f.__name__ + '_error', JsonsError))
        S[id(f)] = h
    return S

def method(ctx, name, f, inst):
    """a method of a serializable class: the function of the same name with the class as fork (and target)"""
    S = fn_summaries()
    g = getattr(f, '__func__', f)
    def thunk(eng):
        x = svalue(eng, 'self_or_cls'); eng.assume(Val.is_ref(x.t)); eng.assume(TRUTH_U(x.t))
        kw = options(without=('fork_inst', 'encoding', 'jdkwargs', 'self'))
        eng.data['kw'] = kw
        args = [x] + ([] if inst else [svalue(eng, 'json')])
        eng.data['in'] = args
        eng.data['fork'] = eng.typeof(x.t) if inst else x.t
        return run_fn(eng, g, args, DictC(kw))
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        x = p.data['in'][0].t
        fk = p.data['fork']
        want = z3.Store(p.data['kw'], kstr('fork_inst'), fk)
        es = [e for e, _ in nested(p, 'load', 'dump', 'loads', 'loadb', 'dumps', 'dumpb')]
        if len(es) != 1 or es[0][0] != name:
            ctx.check('%s: exactly the function of that name is called [%d]' % (name, k), p, False); continue
        e = es[0]
        if name in ('load', 'dump'):
            d = LOAD_DEFAULTS if name == 'load' else DUMP_DEFAULTS
            o, c, a, r = e[1], e[2], e[3], e[7]
            want = with_defaults(want, d)
        else:
            at, a, r = e[1], e[2], e[3]
            o = at[0]; c = at[1] if len(at) > 1 else a[kstr('cls')]
        if inst:
            ctx.prove('%s: of the instance, for its class as fork, with the options given [%d]' % (name, k), p, z3.And(o == x, reaches(a, want)))
        else:
            ctx.prove('%s: of the data into the class, for the class as fork, with the options given [%d]' % (name, k), p, z3.And(o == p.data['in'][1].t, c == x, reaches(a, want, ('cls',))))
        if p.kind == 'ret': ctx.prove('%s: its result is returned [%d]' % (name, k), p, term(p, p.value) == r if r is not None else False)
    ctx.cover('%s returns' % name, ps, lambda p: p.kind == 'ret')

@contract('C21', 'the methods of serializable classes call the functions with the class as fork and target')
def c21_methods(ctx):
    for n in ('dump', 'dumps', 'dumpb'): method(ctx, n, JS.__dict__[n], True)
    for n in ('load', 'loads', 'loadb'): method(ctx, n, JS.__dict__[n], False)

def preset(ctx, which):
    S = base_summaries()
    g = JS.__dict__['with_' + which].__func__
    def thunk(eng):
        c = sclass(eng, 'js_class'); 
        kw = options('preset', without=('fork', 'fork_inst', 'cls', 'inst', 'cls_'))
        eng.data['preset'] = kw
        r = run_fn(eng, g, [c], DictC(kw))
        eng.data['type'] = r
        st = [e for e in eng.events if e[0] == 'setattr' and e[2] == which]
        if len(st) != 1: eng.data['bad'] = 'no %s set' % which; return None
        w = st[0][3]
        eng.data['owner'] = st[0][1]
        x = svalue(eng, 'inst'); eng.assume(Val.is_ref(x.t))
        kw2 = options('call', without=('fork_inst', 'cls', 'inst', 'cls_'))
        eng.data['call'] = kw2
        eng.data['in'] = (c, x)
        if which == 'load':
            sub = sclass(eng, 'sub_class'); eng.data['fork'] = sub.t
            w = class_method_function(eng, w)
            return eng.call(w, [sub, x], DictC(kw2))
        eng.data['fork'] = eng.typeof(x.t)
        return eng.call(w, [x], DictC(kw2))
    ps = ctx.paths(thunk, S)
    for k, p in enumerate(ps):
        if p.data.get('bad'):
            ctx.check('%s [%d]' % (p.data['bad'], k), p, False); continue
        if 'in' not in p.data: continue
        c, x = p.data['in']
        es = [e for e, _ in nested(p, which)]
        if len(es) != 1: ctx.check('%s is called once [%d]' % (which, k), p, False); continue
        e = es[0]; n = Val.strv(ANYKEY)
        pre, call = p.data['preset'], p.data['call']
        want = z3.If(pre[n] != Val.absent, pre[n], call[n])
        d = dict(LOAD_DEFAULTS if which == 'load' else DUMP_DEFAULTS)
        for nm, v in d.items(): want = z3.If(z3.And(n == kstr(nm), want == Val.absent), const_term(v), want)
        want = z3.If(n == kstr('fork_inst'), p.data['fork'], want)
        ctx.prove('the options preset are applied on top of those of the call, and the fork is the class [%d]' % k, p, e[3][n] == want)
        ctx.prove('the object handed in is the one that is processed [%d]' % k, p, e[1] == x.t)
        if which == 'load': ctx.prove('into the class it is called on [%d]' % k, p, e[2] == p.data['fork'])
        if p.kind == 'ret': ctx.prove('its result is returned [%d]' % k, p, term(p, p.value) == e[7] if e[7] is not None else False)
    ctx.cover('with_%s' % which, ps, lambda p: p.kind == 'ret' and not p.data.get('bad'))

def class_method_function(eng, w):
    if isinstance(w, Ref):
        c = eng.get(w)
        for nm in ('__func__', 'func'):
            if nm in c.attrs: return c.attrs[nm]
    return getattr(w, '__func__', w)

@contract('C21', 'with_dump: the preset options are applied on top')
def c21_with_dump(ctx): preset(ctx, 'dump')
@contract('C21', 'with_load: the preset options are applied on top')
def c21_with_load(ctx): preset(ctx, 'load')

@contract('C21', 'json and from_json go through the dump and load of the class')
def c21_json(ctx):
    S = fn_summaries()
    for name, inner in (('json', 'dump'), ('from_json', 'load')):
        f = JS.__dict__[name]
        g = f.fget if isinstance(f, property) else f.__func__
        def thunk(eng):
            x = svalue(eng, 'x'); eng.assume(Val.is_ref(x.t)); eng.assume(uf('hasattr:' + inner, Val, Bool)(x.t))
            eng.assume(z3.Not(eng.inst(x.t, dict)))
            o = svalue(eng, 'json'); eng.data['in'] = (x, o)
            eng.data['kw'] = EMPTY if name == 'json' else options(without=('json_obj', 'cls'))
            return run_fn(eng, g, [x] if name == 'json' else [x, o], DictC(None if name == 'json' else eng.data['kw']))
        ps = ctx.paths(thunk, S)
        for k, p in enumerate(ps):
            x, o = p.data['in']
            cs = evs(p, 'call')
            if len(cs) != 1: ctx.check('%s: one call [%d]' % (name, k), p, False); continue
            c = cs[0]
            ctx.prove('%s: the %s of the class or instance is called [%d]' % (name, inner, k), p, z3.Or(c[1] == uf('attr:' + inner, Val, Val)(x.t), c[1] == uf('bound:' + inner, Val, Val)(x.t)))
            ctx.prove('%s: with what was given [%d]' % (name, k), p, z3.And(z3.BoolVal(len(c[4]) == (0 if name == 'json' else 1)), same_arr(c[5], p.data['kw']), *([c[4][0] == o.t] if c[4] else [])))
            if p.kind == 'ret': ctx.prove('%s: its result is returned [%d]' % (name, k), p, term(p, p.value) == c[-1].t if c[-1] is not None else False)
        ctx.cover(name, ps, lambda p: p.kind == 'ret')
