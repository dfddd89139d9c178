"""Contracts on the decorators (C20)."""
from contracts.common import *
from contracts.c_load import evs, term
import inspect
import jsons
from jsons import decorators

SIG = uf('signature', Val, Val)
PARAMS = uf('attr:parameters', Val, Val)
RETANN = uf('attr:return_annotation', Val, Val)
ANN, PNAME = uf('attr:annotation', Val, Val), uf('attr:name', Val, Val)
FNAME = uf('attr:__name__', Val, Val)
EMPTYP = const_term(inspect.Parameter.empty)
COROUTINE, AWAITABLE, AWAITED = uf('iscoroutinefunction', Val, Bool), uf('isawaitable', Val, Bool), uf('await', Val, Val)
HASDYN = uf('hasattr_dyn', Val, Val, Bool)

# contracts of the variants for the decorators' purposes: as load/dump, they yield a value or a JsonsError (C21, C01, C02)
MAP = {f: (z3.Function(n + '_ok', Val, Val, Arr, Bool), z3.Function(n + '_value', Val, Val, Arr, Val))
       for n, f in (('loads', jsons.loads), ('loadb', jsons.loadb), ('dumps', jsons.dumps), ('dumpb', jsons.dumpb))}
MAP[load], MAP[dump] = (LOAD_OK, LOAD_V), (DUMP_OK, DUMP_V)
NAMES = {load: 'load', dump: 'dump', jsons.loads: 'loads', jsons.loadb: 'loadb', jsons.dumps: 'dumps', jsons.dumpb: 'dumpb'}

def s_variant(f):
    ok, v = MAP[f]
    def h(eng, args, kw):
        first = next(iter(inspect.signature(f).parameters))
        o, c, rest = common_two(eng, args, kw, first)
        a = canon_arr(eng.arr_of(rest))
        ot, ct = eng.tv(o), eng.tv(c)
        ev = [NAMES[f], ot, ct, a, list(eng.loops), o, c, None]
        eng.events.append(ev)
        if eng.branch(ok(ot, ct, a), free=True):
            r = v(ot, ct, a); eng.assume(r != Val.absent)
            ev[7] = r
            return T(r)
        x = uf(NAMES[f] + '_error', Val, Val)(ot)
        eng.assume(Val.is_ref(x)); eng.assume(eng.inst(x, JsonsError))
        raise PyRaise(T(x))
    return h
common_two = _two

def summaries():
    S = base_summaries()
    def signature(eng, args, kw):
        """assumed of inspect.signature: an ordered mapping from name to parameter (which knows its name and annotation), and a return annotation"""
        s = SIG(eng.tv(args[0]))
        eng.assume(Val.is_ref(s))
        for n in ('parameters', 'return_annotation'): eng.assume(uf('hasattr:' + n, Val, Bool)(s))
        ps = PARAMS(s)
        eng.assume(Val.is_ref(ps)); eng.assume(eng.inst(ps, dict))
        eng.assume(RETANN(s) != Val.absent)
        j = z3.Int('j!p'); k = ITER(ps, j)
        p = eng.dget(ps)[k]
        eng.fact(forall([j], z3.Implies(z3.And(j >= 0, j < LEN_U(ps)), z3.And(Val.is_strv(k), Val.is_ref(p), PNAME(p) == k, ANN(p) != Val.absent,
                 uf('hasattr:name', Val, Bool)(p), uf('hasattr:annotation', Val, Bool)(p))), [k]))
        return T(s)
    S[id(inspect.signature)] = signature
    S[id(inspect.iscoroutinefunction)] = lambda eng, args, kw: B(COROUTINE(eng.tv(args[0])))
    S[id(inspect.isawaitable)] = lambda eng, args, kw: B(AWAITABLE(eng.tv(args[0])))
    for f in MAP:
        if f not in (load, dump): S[id(f)] = s_variant(f)
    return S

def inputs(eng):
    f, fork = sclass(eng, 'decorated'), fork_value(eng)
    eng.assume(uf('hasattr:__name__', Val, Bool)(f.t)); eng.assume(Val.is_strv(FNAME(f.t)))
    eng.assume(uf('hasattr:_warn', Val, Bool)(fork.t))
    def warn(e2, args, kw2):
        'contract of StateHolder._warn: no effect but a warning'
        e2.events.append(('warn', list(args), list(e2.loops))); return None
    eng.method_models['_warn'] = lambda e2, o, args, kw2: warn(e2, args, kw2)
    kw = options('deco', without=('fork_inst', 'loader', 'dumper', 'parameters', 'returnvalue', 'cls', 'jdkwargs'))
    eng.data['kw'] = kw
    return f, fork, kw

def thunk_for(deco, mapper_kw, mapper, parameters, returnvalue):
    def thunk(eng):
        f, fork, kw = inputs(eng)
        eng.assume(z3.Not(eng.inst(f.t, staticmethod))); eng.assume(z3.Not(eng.inst(f.t, type)))
        n = z3.Int('n_args'); eng.assume(n >= 0)
        ARG = z3.Function('arg', Int, Val)
        eng.data['in'] = (f, fork, n, ARG)
        d = eng.call_function_(deco, [], DictC(kw, (('parameters', parameters), ('returnvalue', returnvalue), ('fork_inst', fork), (mapper_kw, mapper))))
        w = eng.call(d, [f], DictC(None, ()))
        j = z3.Int('j!a')
        eng.fact(forall([j], ARG(j) != Val.absent, [ARG(j)]))
        # the arguments fit the parameters of the function (variadic positional parameters excluded)
        eng.assume(n <= LEN_U(PARAMS(SIG(f.t))))
        ckw = options('call'); eng.data['ckw'] = ckw
        eng.data['start'] = len(eng.events)
        return eng.call(w, [('*', ('seq', Seq(n, lambda i: T(ARG(i)))))], DictC(ckw))
    return thunk

def annotation(a): return z3.If(a == EMPTYP, Val.none, a)

def behaviour(ctx, deco, mapper_kw, mapper, parameters, returnvalue):
    ps = ctx.paths(thunk_for(deco, mapper_kw, mapper, parameters, returnvalue), summaries())
    ok, val = MAP[mapper]
    defaults = {load: LOAD_DEFAULTS, dump: DUMP_DEFAULTS}.get(mapper, ())
    kinds = tuple(NAMES.values())
    for q, p in enumerate(ps):
        f, fork, n, ARG = p.data['in']
        p.eng.heap = p.heap
        opts = canon_arr(with_defaults(z3.Store(p.data['kw'], kstr('fork_inst'), fork.t), [d for d in defaults if d[0] != 'fork_inst']))
        def expected(k):
            a, pr = ARG(k), p.eng.dget(PARAMS(SIG(f.t)))[ITER(PARAMS(SIG(f.t)), k)]
            me = z3.And(z3.Or(PNAME(pr) == kstr('self'), PNAME(pr) == kstr('cls')), HASDYN(a, FNAME(f.t)))
            return z3.If(me, a, val(a, annotation(ANN(pr)), opts)), me
        for e, h in nested(p, *kinds):
            ctx.check('only the chosen function converts [%d]' % q, p, e[0] == NAMES[mapper])
            n0 = ANYKEY
            ctx.prove('the options of the decorator and its fork reach every conversion [%d]' % q, p, reaches(e[3], opts), h)
        calls = [e for e in p.events if e[0] == 'call']
        inner = [e for e, h in nested(p, 'call')]
        if p.kind == 'raise':
            own = calls and calls[-1][-1] is None
            if calls and own:
                ctx.check('only the decorated function is called [%d]' % q, p, len(inner) == 1)
            else: ctx.check('an error stems from the function or is a JsonsError [%d]' % q, p, exc_class(p, JsonsError))
            if not calls: ctx.check('parameters are left alone on demand [%d]' % q, p, parameters)
            if not parameters and not own: ctx.check('an error of the conversion of the result only [%d]' % q, p, returnvalue)
            continue
        if len(inner) != 1 or len(calls) != 1:
            ctx.check('the function is called exactly once [%d]' % q, p, False); continue
        c = calls[0]
        ctx.prove('it is the decorated function that is called [%d]' % q, p, c[1] == f.t)
        ctx.prove('its keyword arguments are those of the call [%d]' % q, p, reaches(c[5], p.data['ckw']))
        args = c[2]
        if not (len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == '*' and args[0][1][0] == 'seq'):
            ctx.add('the arguments of the call [%d]' % q, 'undecided'); continue
        s = args[0][1][1]
        if s.guard is not None: ctx.add('the number of arguments [%d]' % q, 'undecided'); continue
        ctx.prove('it gets as many arguments as were given [%d]' % q, p, s.n == n if not isinstance(s.n, int) else z3.IntVal(s.n) == n)
        k = z3.Int('k')
        got = p.eng.tv(s.get(k))
        h = [k >= 0, k < n]
        if parameters:
            want, me = expected(k)
            ctx.prove('argument k is converted to the type of parameter k [%d]' % q, p, got == want, h)
            ctx.prove('self and cls go unconverted [%d]' % q, p, z3.Implies(me, got == ARG(k)), h)
        else: ctx.prove('arguments are passed as they are [%d]' % q, p, got == ARG(k), h)
        r = c[-1].t if isinstance(c[-1], T) else p.eng.tv(c[-1])
        r = z3.If(z3.And(COROUTINE(f.t), AWAITABLE(r)), AWAITED(r), r)
        res = term(p, p.value)
        if returnvalue: ctx.prove('the result is converted to the annotated return type [%d]' % q, p, res == val(r, annotation(RETANN(SIG(f.t))), opts))
        else: ctx.prove('the result is returned as it is [%d]' % q, p, res == r)
    ctx.cover('a normal call', ps, lambda p: p.kind == 'ret')
    ctx.cover('a call of a coroutine function', ps, lambda p: COROUTINE(p.data['in'][0].t) if p.kind == 'ret' else None)
    ctx.cover('the function fails', ps, lambda p: p.kind == 'raise' and any(e[0] == 'call' for e in p.events))

def declare(deco, kw, mapper, P, R):
    what = {(True, True): 'arguments and result', (True, False): 'arguments only', (False, True): 'the result only', (False, False): 'nothing'}[(P, R)]
    @contract('C20', '%s(%s): converts %s' % (deco.__name__, NAMES[mapper], what))
    def f(ctx): behaviour(ctx, deco, kw, mapper, P, R)

for _P in (True, False):
    for _R in (True, False):
        declare(decorators.loaded, 'loader', load, _P, _R)
        declare(decorators.dumped, 'dumper', dump, _P, _R)
for _m in (jsons.loads, jsons.loadb): declare(decorators.loaded, 'loader', _m, True, True)
for _m in (jsons.dumps, jsons.dumpb): declare(decorators.dumped, 'dumper', _m, True, True)

def bad_mapper(ctx, deco, kw):
    def thunk(eng):
        f, fork, a = inputs(eng)
        m = sclass(eng, 'mapper'); eng.data['m'] = m
        return eng.call_function_(deco, [], DictC(a, (('fork_inst', fork), (kw, m))))
    good = (load, jsons.loads, jsons.loadb) if kw == 'loader' else (dump, jsons.dumps, jsons.dumpb)
    ps = ctx.paths(thunk, summaries())
    for q, p in enumerate(ps):
        m = p.data['m'].t
        fine = z3.Or([m == const_term(g) for g in good])
        if p.kind == 'ret': ctx.prove('accepted only if it is one of the three functions [%d]' % q, p, fine)
        else:
            ctx.prove('refused only if it is none of the three functions [%d]' % q, p, z3.Not(fine))
            ctx.check('refused with an InvalidDecorationError [%d]' % q, p, exc_class(p, InvalidDecorationError))
    ctx.cover('a refused mapper', ps, lambda p: p.kind == 'raise')
    ctx.cover('an accepted mapper', ps, lambda p: p.kind == 'ret')

@contract('C20', 'loaded refuses another loader')
def c20_bad_loader(ctx): bad_mapper(ctx, decorators.loaded, 'loader')
@contract('C20', 'dumped refuses another dumper')
def c20_bad_dumper(ctx): bad_mapper(ctx, decorators.dumped, 'dumper')

def bad_decorated(ctx, deco, kw, mapper):
    def thunk(eng):
        f, fork, a = inputs(eng)
        eng.data['f'] = f
        d = eng.call_function_(deco, [], DictC(a, (('fork_inst', fork), (kw, mapper))))
        return eng.call(d, [f], DictC(None, ()))
    ps = ctx.paths(thunk, summaries())
    for q, p in enumerate(ps):
        f = p.data['f'].t
        bad = z3.Or(p.eng.inst(f, staticmethod), p.eng.inst(f, type))
        if p.kind == 'ret': ctx.prove('a static method or class is never decorated [%d]' % q, p, z3.Not(bad))
        else:
            ctx.prove('only a static method or class is refused [%d]' % q, p, bad)
            ctx.check('refused with an InvalidDecorationError [%d]' % q, p, exc_class(p, InvalidDecorationError))
    ctx.cover('refused', ps, lambda p: p.kind == 'raise')
    ctx.cover('decorated', ps, lambda p: p.kind == 'ret')

@contract('C20', 'loaded refuses classes and static methods')
def c20_bad_loaded(ctx): bad_decorated(ctx, decorators.loaded, 'loader', load)
@contract('C20', 'dumped refuses classes and static methods')
def c20_bad_dumped(ctx): bad_decorated(ctx, decorators.dumped, 'dumper', dump)
