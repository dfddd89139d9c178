"""Contracts on the registries: registering, looking up, forking."""
from contracts.c_coll import *
from contracts.c_load import evs, term
from contracts.common import _lizers_impl, _validation, _fork_impl, _extra_impl, _cache, _common_impl
from jsons._common_impl import StateHolder
import collections.abc

L, V, F, X = _lizers_impl, _validation, _fork_impl, _extra_impl
HAS = lambda n: uf('hasattr:' + n, Val, Bool)
ATTR = lambda n: uf('attr:' + n, Val, Val)
REGISTRIES = {n: type(v) for n, v in vars(StateHolder).items() if isinstance(v, (dict, list, set))}
FLAGS = [n for n, v in vars(StateHolder).items() if isinstance(v, (bool, int))]

def holder(eng, name='fork'):
    """a class that holds state: it has every registry, of the type the base class gives it"""
    f = z3.Const(name, Val)
    eng.assume(Val.is_ref(f)); eng.assume(TRUTH_U(f)); eng.assume(eng.inst(f, type))
    for n, k in REGISTRIES.items():
        r = ATTR(n)(f)
        eng.assume(HAS(n)(f)); eng.assume(Val.is_ref(r)); eng.assume(eng.inst(r, k)); eng.assume(LEN_U(r) >= 0); eng.assume(TRUTH_U(r) == (LEN_U(r) > 0))
    for n in FLAGS:
        r = ATTR(n)(f); eng.assume(HAS(n)(f))
        eng.assume(Val.is_boolv(r) if isinstance(getattr(StateHolder, n), bool) else Val.is_intv(r))
    return T(f)

def s_register(name, params, defaults):
    """a setter called by another (or itself, for each class of a sequence): its contract is used"""
    def h(eng, args, kw):
        d = dict(defaults)
        d.update(zip(params, args)); d.update(kw.log)
        eng.events.append(('register', name) + tuple(eng.tv(d[n]) for n in params) + (list(eng.loops),))
        return None
    return h
SETTERS = {'set_serializer': (L.set_serializer, ('func', 'cls', 'high_prio', 'fork_inst'), (('high_prio', True), ('fork_inst', StateHolder)), '_serializers', '_classes_serializers'),
           'set_deserializer': (L.set_deserializer, ('func', 'cls', 'high_prio', 'fork_inst'), (('high_prio', True), ('fork_inst', StateHolder)), '_deserializers', '_classes_deserializers'),
           'set_validator': (V.set_validator, ('func', 'cls', 'fork_inst'), (('fork_inst', StateHolder),), '_validators', '_classes_validators')}
def reg_summaries():
    S = base_summaries()
    for n, (f, ps, d, _, _) in SETTERS.items(): S[id(f)] = s_register(n, ps, d)
    return S

LOOK = z3.Function('lookup_of', Val, Val, Val, Val)
def s_get_lizer(eng, args, kw):
    c, lz, cl, f = args
    r = LOOK(eng.tv(c), eng.tv(lz), eng.tv(cl)); eng.assume(r != Val.absent)
    eng.assume(z3.Or(Val.is_none(r), z3.And(Val.is_ref(r), TRUTH_U(r))))
    eng.events.append(('inner lookup', eng.tv(c), eng.tv(lz), eng.tv(cl), eng.tv(f), r))
    return T(r)

# ------------------------------------------------------------------ looking up (C11)
def name_of(c): return Val.strv(uf('str.lower', Str, Str)(CLSNAME(c, z3.BoolVal(True))))
def classlike(eng, x): return z3.Or(zz(eng.inst(x, type)), uf('is_runtime_type', Val, Bool)(x))
def issub(eng, a, b): return z3.And(classlike(eng, a), classlike(eng, b), uf('issubclass', Val, Val, Bool)(a, b))
def bare(eng, c):
    """the class of a generic type"""
    return z3.If(HAS('__extra__')(c), ATTR('__extra__')(c), z3.If(HAS('__origin__')(c), ATTR('__origin__')(c), c))

def lookup_paths(ctx, kind):
    fn, _, _, lz, cl = SETTERS['set_' + kind]
    def thunk(eng):
        f, k = holder(eng), sclass(eng, 'cls')
        tl, tc = ATTR(lz)(f.t), ATTR(cl)(f.t)
        # invariant of the registries, kept by the setters: every registered class has a function under its name, and every function is truthy
        x = z3.Const('x!fn', Val)
        eng.fact(forall([x], z3.Or(eng.dget(tl)[x] == Val.absent, z3.And(Val.is_ref(eng.dget(tl)[x]), TRUTH_U(eng.dget(tl)[x]))), [eng.dget(tl)[x]]))
        eng.element_of[tc.sexpr()] = lambda i, x: z3.And(Val.is_ref(x), TRUTH_U(x), eng.dget(tl)[name_of(x)] != Val.absent)
        eng.data['in'] = (k, f); eng.data['reg'] = (tl, tc)
        return run_fn(eng, L._get_lizer, [k, T(tl), T(tc), f])
    S = reg_summaries(); S[id(L._get_lizer)] = s_get_lizer
    return cached_paths(ctx, ('lookup', kind), lambda: ctx.paths(thunk, S))

def at_index(p, *ix):
    """what is known of every index, of these"""
    return [z3.substitute_vars(f.body(), i) for f in p.facts if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == Int for i in ix]

def lookup(ctx, kind):
    ps = lookup_paths(ctx, kind)
    w, j = z3.Int('first'), z3.Int('j!p')
    for q, p in enumerate(ps):
        e = p.eng; (k, f), (tl, tc) = p.data['in'], p.data['reg']
        c = k.t; exact = e.dget(tl)[name_of(c)]; n = bare(e, c)
        P = lambda i: issub(e, n, ITER(tc, i))
        el = e.element_of[tc.sexpr()]
        first = [w >= 0, w < LEN_U(tc), P(w), el(w, ITER(tc, w)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(P(j))))]
        nobody = [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LEN_U(tc)), z3.Not(P(j))))]
        sup = ATTR('__supertype__')(c)
        if p.kind != 'ret':
            ctx.prove('it does not fail [%d]' % q, p, z3.BoolVal(False), [exact != Val.absent])
            ctx.prove('it does not fail for a subclass [%d]' % q, p, z3.BoolVal(False), first)
            ctx.prove('it does not fail for an unrelated type [%d]' % q, p, z3.BoolVal(False), nobody)
            continue
        v = e.tv(p.value)
        ctx.prove('the function registered for exactly that type [%d]' % q, p, v == exact, [exact != Val.absent])
        ctx.prove('the function of the first registered type it is a subclass of [%d]' % q, p, v == e.dget(tl)[name_of(ITER(tc, w))], [exact == Val.absent] + first)
        ctx.prove('that of the supertype of a NewType [%d]' % q, p, v == LOOK(sup, tl, tc), [exact == Val.absent, HAS('__supertype__')(c)] + nobody)
        ctx.prove('none for any other type [%d]' % q, p, v == Val.none, [exact == Val.absent, z3.Not(HAS('__supertype__')(c))] + nobody)
    ctx.cover('a type that is registered', ps, lambda p: p.eng.dget(p.data['reg'][0])[name_of(p.data['in'][0].t)] != Val.absent if p.kind == 'ret' else False)
    ctx.cover('a subclass of a registered type', ps, lambda p: z3.And(p.eng.dget(p.data['reg'][0])[name_of(p.data['in'][0].t)] == Val.absent, issub(p.eng, bare(p.eng, p.data['in'][0].t), ITER(p.data['reg'][1], 0)), LEN_U(p.data['reg'][1]) > 0, p.eng.tv(p.value) != Val.none) if p.kind == 'ret' else False)
for _k in ('serializer', 'deserializer', 'validator'):
    contract('C11', 'looking up a %s: the exact type, else the first parent, else the supertype' % _k)(lambda ctx, k=_k: lookup(ctx, k))

# ------------------------------------------------------------------ registering (C09, C10, C11)
def setter_paths(ctx, n, form):
    """form: a class, a sequence of classes (empty or not, any length), or None"""
    fn, ps, _, lz, cl = SETTERS[n]
    def thunk(eng):
        f, g = holder(eng), sclass(eng, 'func')
        if form == 'sequence':
            k = slist(eng, 'cls')
            eng.element_of[k.t.sexpr()] = lambda i, x: z3.And(Val.is_ref(x), TRUTH_U(x), eng.inst(x, type))
        elif form == 'class':
            k = sclass(eng, 'cls')
            eng.assume(z3.Not(eng.inst(k.t, collections.abc.Sequence))); eng.assume(z3.Not(eng.inst(k.t, str))); eng.assume(eng.inst(k.t, type))
        else: k = None
        hp = B(z3.Const('high_prio', Bool))
        eng.data['in'] = (g, k, hp, f)
        args = {'func': g, 'cls': k, 'fork_inst': f}
        if 'high_prio' in ps: args['high_prio'] = hp
        return run_fn(eng, fn, [], args)
    return cached_paths(ctx, ('setter', n, form), lambda: ctx.paths(thunk, reg_summaries()))

def index_term(p, e):
    """where an element ends up in a list: (index, length) of an insertion at the front or back; None for other operations"""
    e_ = p.eng
    n = LEN_U(e[1])
    if e[2] == 'append': return n, e_.tv(e[3][0])
    if e[2] == 'insert' and len(e[3]) == 2: return z3.If(e_.num(e[3][0]) > n, n, z3.If(e_.num(e[3][0]) < 0, z3.If(n + e_.num(e[3][0]) < 0, 0, n + e_.num(e[3][0])), e_.num(e[3][0]))), e_.tv(e[3][1])
    return None

def known_effects(ctx, label, events):
    """the events of a setter, without those that leave the registries alone; None if there are others than altering a container"""
    out = []
    for e in events:
        if e[0] in ('clear', 'warn', 'register'): out.append(e)
        elif e[0] == 'mutate' and not isinstance(e[1], Ref): out.append(e)
        elif e[0] == 'mutate': continue
        else: ctx.add(label + ': an effect the contract does not speak about: %s' % e[0], 'undecided'); return None
    return out

def registers(ctx, label, p, n, evs, x, hyps):
    """these effects register func for the class x, at the place asked for"""
    fn, ps, _, lz, cl = SETTERS[n]
    e = p.eng; e.heap = p.heap; g, k, hp, f = p.data['in']
    regs = [y for y in evs if y[0] == 'register']
    if regs:
        want = {'func': g.t, 'cls': x, 'high_prio': Val.boolv(hp.t), 'fork_inst': f.t}
        ctx.check(label + ' once, by the same setter', p, len(regs) == 1 and regs[0][1] == n)
        if len(regs) != 1 or regs[0][1] != n: return
        for a, t in zip(ps, regs[0][2:]): ctx.prove('%s: its %s' % (label, a), p, t == want[a], hyps)
        return
    tl, tc = ATTR(lz)(f.t), ATTR(cl)(f.t)
    ms = [y for y in evs if y[0] == 'mutate']
    inl = [y for y in ms if z3.eq(y[1], tc)]; ind = [y for y in ms if z3.eq(y[1], tl)]
    if len(ms) != len(inl) + len(ind) or any(index_term(p, y) is None for y in inl) or any(y[2] != 'setitem' for y in ind):
        ctx.add(label + ': the registries are altered in a way the contract does not speak about', 'undecided'); return
    ctx.check(label + ': one entry in the list of classes', p, len(inl) == 1)
    ctx.check(label + ': one entry in the registry of functions', p, len(ind) == 1)
    if len(inl) == 1:
        i, c = index_term(p, inl[0])
        ctx.prove(label + ': the class itself', p, c == x, hyps)
        ctx.prove(label + ': before all others, or behind them', p, i == (z3.If(hp.t, 0, LEN_U(tc)) if 'high_prio' in ps else LEN_U(tc)), hyps)
    if len(ind) == 1:
        ctx.prove(label + ': under its own name', p, e.tv(ind[0][3][0]) == name_of(x), hyps)
        ctx.prove(label + ': the function given', p, e.tv(ind[0][3][1]) == g.t, hyps)

def setter(ctx, n):
    fn, ps_, _, lz, cl = SETTERS[n]
    for q, p in enumerate(setter_paths(ctx, n, 'class')):
        if p.kind != 'ret': ctx.prove('registering a class does not fail [%d]' % q, p, z3.BoolVal(False)); continue
        evs = known_effects(ctx, 'a class [%d]' % q, p.events)
        if evs is not None: registers(ctx, 'a class [%d]' % q, p, n, evs, p.data['in'][1].t, [])
    for q, p in enumerate(setter_paths(ctx, n, 'sequence')):
        if p.kind != 'ret': ctx.prove('registering a sequence does not fail [%d]' % q, p, z3.BoolVal(False)); continue
        k = p.data['in'][1].t
        loops = [e for e in p.events if e[0] == 'loop' and any(ev for c, ev, b in e[4])]
        rest = known_effects(ctx, 'a sequence [%d]' % q, [e for e in p.events if e[0] != 'loop'])
        if rest is None: continue
        if len(loops) != 1 or loops[0][3] is not None or any(e[0] in ('register', 'mutate') for e in rest):
            ctx.add('a sequence [%d]: registered in a way the contract does not speak about' % q, 'undecided'); continue
        _, i, cnt, guard, bodies = loops[0][:5]
        ctx.prove('a sequence: every element, and no other [%d]' % q, p, cnt == LEN_U(k))
        for m, (cond, ev, b) in enumerate(bodies):
            evs = known_effects(ctx, 'an element [%d: %d]' % (q, m), ev)
            if evs is not None: registers(ctx, 'an element [%d: %d]' % (q, m), p, n, evs, ITER(k, i), [i >= 0, i < cnt, cond] + list(b.facts))
    if n != 'set_validator':
        for q, p in enumerate(setter_paths(ctx, n, 'none')):
            if p.kind != 'ret': ctx.prove('registering for None does not fail [%d]' % q, p, z3.BoolVal(False)); continue
            g, k, hp, f = p.data['in']
            evs = known_effects(ctx, 'None [%d]' % q, p.events)
            if evs is None: continue
            ms = [y for y in evs if y[0] == 'mutate' and z3.eq(y[1], ATTR(lz)(f.t)) and y[2] == 'setitem']
            ctx.check('None: registered for its class [%d]' % q, p, z3.Or([z3.And(p.eng.tv(y[3][0]) == kstr('nonetype'), p.eng.tv(y[3][1]) == g.t) for y in ms]))
    ctx.cover('a class', setter_paths(ctx, n, 'class'), lambda p: p.kind == 'ret')
    ctx.cover('two elements', setter_paths(ctx, n, 'sequence'), lambda p: LEN_U(p.data['in'][1].t) > 1 if p.kind == 'ret' else False)
for _n in SETTERS:
    contract('C11', '%s: each class once, at its place, under its name' % _n)(lambda ctx, n=_n: setter(ctx, n))

def getter(ctx, kind):
    """the lookup is made in the registries of the fork that is asked"""
    fn, _, _, lz, cl = SETTERS['set_' + kind]
    get = {'serializer': L.get_serializer, 'deserializer': L.get_deserializer, 'validator': V.get_validator}[kind]
    def thunk(eng):
        f, k = holder(eng), sclass(eng, 'cls')
        eng.data['in'] = (k, f)
        return run_fn(eng, get, [k, f])
    S = without(reg_summaries(), get); S[id(L._get_lizer)] = s_get_lizer
    ps = ctx.paths(thunk, S)
    for q, p in enumerate(ps):
        k, f = p.data['in']
        if p.kind != 'ret': ctx.prove('it does not fail [%d]' % q, p, z3.BoolVal(False)); continue
        ctx.prove('looked up in the registries of that fork [%d]' % q, p, p.eng.tv(p.value) == LOOK(k.t, ATTR(lz)(f.t), ATTR(cl)(f.t)))
        ctx.check('it alters nothing [%d]' % q, p, not nested(p, 'mutate', 'setattr'))
    ctx.cover('found', ps, lambda p: p.eng.tv(p.value) != Val.none if p.kind == 'ret' else False)
for _k in ('serializer', 'deserializer', 'validator'):
    for _c in ('C09', 'C11'): contract(_c, 'get_%s: in the registries of the fork asked' % _k)(lambda ctx, k=_k: getter(ctx, k))

# ------------------------------------------------------------------ caches are emptied (C10)
def after_clear(events, pending=False):
    """is there an alteration that is not followed by clear()?"""
    for e in events:
        if e[0] == 'clear': pending = False
        elif e[0] == 'mutate' and not isinstance(e[1], Ref): pending = True
        elif e[0] == 'setattr': pending = True
        elif e[0] == 'loop':
            for c, ev, b in e[4]: pending = after_clear(ev, pending) or pending
    return pending
def clears(ctx, n):
    for form in ('class', 'sequence') + (('none',) if n != 'set_validator' else ()):
        for q, p in enumerate(setter_paths(ctx, n, form)):
            # a setter that fails half way: only the registry of functions decides what a lookup of the type itself gives
            ctx.check('the caches are emptied after the last alteration [%s, %d]' % (form, q), p, not after_clear(p.events))
        ctx.cover('%s: altered' % form, setter_paths(ctx, n, form), lambda p: p.kind == 'ret' and bool(nested(p, 'mutate', 'register')))
for _n in SETTERS:
    contract('C10', '%s: empties the caches after altering the registries' % _n)(lambda ctx, n=_n: clears(ctx, n))

def cached_functions():
    """every object of the modules of jsons that remembers results"""
    import sys
    out = {}
    for m, mod in list(sys.modules.items()):
        if m != 'jsons' and not m.startswith('jsons.'): continue
        for n, o in list(vars(mod).items()):
            if isinstance(o, _cache._Wrapper) or hasattr(o, 'cache_info'): out[id(o)] = (m, n, o)
            if isinstance(o, type) and o.__module__.startswith('jsons'):
                for a, x in list(vars(o).items()):
                    if hasattr(x, 'cache_info') and o is not _cache._Wrapper: out[id(x)] = (m, n + '.' + a, x)
    return list(out.values())

@contract('C10', 'clear: forgets the results of every cached function')
def clear_all(ctx):
    """clear() takes no input: it is run, on caches that are filled, for every function that is cached"""
    fs = cached_functions()
    for m, n, o in fs:
        if not isinstance(o, _cache._Wrapper):
            ctx.add('%s.%s remembers results by other means than cached' % (m, n), 'undecided'); continue
        calls = []
        w, keep = o, o.wrapped
        key = (type('Asked', (), {}),)
        try:
            o.wrapped = lambda *a, **k: calls.append(a) or object()
            r1 = o(*key); r2 = o(*key); before = len(calls)
            _cache.clear(); r3 = o(*key)
        finally: o.wrapped = keep
        ctx.check('%s.%s: asked again after clear()' % (m, n), None, True) if len(calls) == before + 1 else ctx.add('%s.%s: asked again after clear()' % (m, n), 'refuted', detail='clear() leaves the cache of this function filled')
        ctx.check('%s.%s: gives what the function gives' % (m, n), None, True) if r1 is not None and r2 is r1 and r3 is not r1 or before == 2 else ctx.add('%s.%s: gives what the function gives' % (m, n), 'refuted')
    _cache.clear()
    for g in (L.get_serializer, L.get_deserializer, V.get_validator):
        ctx.check('%s is among them, or not cached at all' % g.__name__, None, True) if any(o is g for m, n, o in fs) or not hasattr(g, '__wrapped__') else ctx.add('%s is cached in an unknown way' % g.__name__, 'undecided')

def touching(names):
    """(file, function) in which an attribute of one of these names occurs"""
    import ast, os
    out = []
    root = os.path.dirname(sys.modules['jsons'].__file__)
    for d, _, files in os.walk(root):
        for fn in sorted(files):
            if not fn.endswith('.py'): continue
            path = os.path.join(d, fn)
            tree = ast.parse(open(path).read())
            def walk(x, where):
                for y in ast.iter_child_nodes(x):
                    w = where + (y.name,) if isinstance(y, (ast.FunctionDef, ast.ClassDef)) else where
                    if isinstance(y, ast.Attribute) and y.attr in names or isinstance(y, ast.Constant) and y.value in names: out.append((os.path.relpath(path, root), '.'.join(w)))
                    walk(y, w)
            walk(tree, ())
    return sorted(set(out))
UNDER_CONTRACT = {'set_serializer', 'set_deserializer', 'set_validator', 'get_serializer', 'get_deserializer', 'get_validator', 'fork', 'announce_class', 'suppress_warnings',
                  'suppress_warning', '_lookup_announced_class', 'StateHolder._warn'}
import sys
def only_there(ctx, names):
    for path, where in touching(names):
        ok = where in UNDER_CONTRACT
        ctx.add('%s: %s is under contract, or does not touch the state of a fork' % (path, where or 'module'), 'discharged' if ok else 'undecided')
contract('C10', 'the registries are altered by the setters only')(lambda ctx: only_there(ctx, {n for n in REGISTRIES if 'lizers' in n or 'validators' in n}))
contract('C09', 'the state of a fork is used by the functions under contract only')(lambda ctx: only_there(ctx, set(REGISTRIES) | set(FLAGS) - {'_fork_counter'}))

# ------------------------------------------------------------------ forks (C09)
def state_paths(ctx, what):
    def thunk(eng):
        f = holder(eng); n = svalue(eng, 'name'); eng.assume(z3.Or(n.t == Val.none, Val.is_strv(n.t)))
        eng.data['in'] = (f, n)
        if what == 'fork': return run_fn(eng, F.fork, [f, n])
        if what == 'suppress_warnings': return run_fn(eng, X.suppress_warnings, [svalue(eng, 'do'), f])
        if what == 'suppress_warning': return run_fn(eng, X.suppress_warning, [St(z3.String('code')), f])
        if what == 'announce_class': return run_fn(eng, X.announce_class, [sclass(eng, 'cls'), n, f])
    return cached_paths(ctx, ('state', what), lambda: ctx.paths(thunk, reg_summaries()))

@contract('C09', 'fork: a copy of everything, of its own')
def fork(ctx):
    ps = state_paths(ctx, 'fork')
    for q, p in enumerate(ps):
        if p.kind != 'ret': continue        # the class could not be made
        e = p.eng; e.heap = p.heap; f, _ = p.data['in']
        made = [c for c in p.events if c[0] == 'call' and c[1].eq(const_term(type))]
        if not isinstance(p.value, T) or len(made) != 1: ctx.add('made in a way the contract does not speak about [%d]' % q, 'undecided'); continue
        r = p.value.t; c = made[0]
        ctx.prove('a class of its own [%d]' % q, p, zz(isinstance(c[-1], T)) if not isinstance(c[-1], T) else r == c[-1].t)
        b = as_list(p, c[2][1])
        ctx.check('that is based on the one it is forked from [%d]' % q, p, False if b is None or b[2] is not None else z3.And(b[0] >= 1, b[1](0) == f.t))
        ns = e.get(c[2][2]) if isinstance(c[2][2], Ref) else None
        given = {k: v for k, v in ns.log if isinstance(k, str)} if isinstance(ns, DictC) and ns.base is None else {}
        for ev in p.events:
            if ev[0] == 'setattr' and isinstance(ev[2], str) and z3.eq(ev[1], r): given[ev[2]] = ev[3]
            elif ev[0] == 'setattr': ctx.check('it alters no more of the other than how often it was forked [%d]' % q, p, z3.And(ev[1] == f.t, z3.BoolVal(ev[2] == '_fork_counter')))
            elif ev[0] == 'mutate' and not isinstance(ev[1], Ref): ctx.prove('it alters no container of the other [%d]' % q, p, z3.BoolVal(False))
            elif ev[0] == 'loop': ctx.add('a loop [%d]' % q, 'undecided')
        used = {}
        for n, kind in REGISTRIES.items():
            v = given.get(n, MISSING)
            if v is MISSING: ctx.prove('%s of its own [%d]' % (n, q), p, z3.BoolVal(False)); continue
            old = ATTR(n)(f.t)
            if isinstance(v, T): ctx.prove('%s of its own [%d]' % (n, q), p, z3.And([v.t != ATTR(m)(f.t) for m in REGISTRIES])); ctx.add('%s: content not known [%d]' % (n, q), 'undecided'); continue
            if not isinstance(v, Ref): ctx.check('%s: a container [%d]' % (n, q), p, False); continue
            ctx.check('%s of its own [%d]' % (n, q), p, v.id not in used); used[v.id] = n
            c = e.get(v)
            ctx.check('%s: of the same kind [%d]' % (n, q), p, (c.kind if isinstance(c, (ListC, DictC)) else None) == kind.__name__)
            if kind is dict and isinstance(c, DictC):
                x = z3.Const('any_key', Val)
                if c.base is None and not c.log: ctx.prove('%s: the same entries [%d]' % (n, q), p, e.dget(old)[x] == Val.absent)
                elif c.log: ctx.add('%s: made in a way the contract does not speak about [%d]' % (n, q), 'undecided')
                else: ctx.prove('%s: the same entries [%d]' % (n, q), p, c.base[x] == e.dget(old)[x])
            elif isinstance(c, ListC):
                l = as_list(p, v)
                if l is None or l[2] is not None: ctx.add('%s: made in a way the contract does not speak about [%d]' % (n, q), 'undecided'); continue
                k = z3.Int('any_place')
                ctx.prove('%s: as many [%d]' % (n, q), p, l[0] == LEN_U(old))
                ctx.prove('%s: the same, in the same order [%d]' % (n, q), p, z3.Implies(z3.And(k >= 0, k < LEN_U(old)), l[1](k) == ITER(old, k)))
            else: ctx.add('%s: made in a way the contract does not speak about [%d]' % (n, q), 'undecided')
        for n in FLAGS:
            if n == '_fork_counter': continue
            v = given.get(n, MISSING)
            if v is MISSING: ctx.prove('%s of its own [%d]' % (n, q), p, z3.BoolVal(False)); continue
            ctx.prove('%s as it is in the other [%d]' % (n, q), p, e.tv(v) == ATTR(n)(f.t))
    ctx.cover('a fork with a name', ps, lambda p: z3.And(p.data['in'][1].t != Val.none) if p.kind == 'ret' else False)
    ctx.cover('a fork without', ps, lambda p: p.data['in'][1].t == Val.none if p.kind == 'ret' else False)

def own_state(ctx, what):
    """nothing is altered but the containers and flags of the fork given, and containers made here"""
    if what in SETTERS: pss = [('class', setter_paths(ctx, what, 'class')), ('sequence', setter_paths(ctx, what, 'sequence'))]
    else: pss = [('', state_paths(ctx, what))]
    for form, ps in pss:
        for q, p in enumerate(ps):
            f = p.data['in'][-1] if what in SETTERS else p.data['in'][0]
            for m, (e, h) in enumerate(nested(p, 'mutate', 'setattr', 'register')):
                t = '[%s %d: %d]' % (form, q, m)
                if e[0] == 'register': ctx.prove('registered with the same fork ' + t, p, e[2 + SETTERS[e[1]][1].index('fork_inst')] == f.t, h)
                elif e[0] == 'setattr':
                    ctx.prove('assigned to the fork itself ' + t, p, e[1] == f.t, h)
                    if isinstance(e[2], str) and e[2] in REGISTRIES: ctx.prove('a container of its own ' + t, p, z3.BoolVal(isinstance(e[3], Ref)) if not isinstance(e[3], T) else e[3].t == ATTR(e[2])(f.t), h)
                elif not isinstance(e[1], Ref): ctx.prove('a container of that fork is altered ' + t, p, z3.Or([e[1] == ATTR(n)(f.t) for n in REGISTRIES]), h)
        ctx.cover('%s: something is altered' % form, ps, lambda p: p.kind == 'ret' and bool(nested(p, 'mutate', 'setattr', 'register')))
for _n in list(SETTERS) + ['suppress_warnings', 'suppress_warning', 'announce_class']:
    contract('C09', '%s: alters the state of the fork given, and nothing else' % _n)(lambda ctx, n=_n: own_state(ctx, n))

@contract('C09', '_warn: as that fork says')
def warns(ctx):
    def thunk(eng):
        f = holder(eng); c = z3.String('code')
        eng.data['in'] = (f, c)
        return run_fn(eng, StateHolder.__dict__['_warn'].__func__, [f, 'message', St(c)])
    S = reg_summaries()
    import warnings
    def warn(eng, args, kw): eng.events.append(('warned', list(args))); return None
    S[id(warnings.warn)] = warn
    ps = ctx.paths(thunk, S)
    for q, p in enumerate(ps):
        f, c = p.data['in']
        if p.kind != 'ret': ctx.prove('it does not fail [%d]' % q, p, z3.BoolVal(False)); continue
        n = len([e for e in p.events if e[0] == 'warned'])
        sup = ATTR('_suppress_warnings')(f.t) == Val.boolv(True)
        ins = p.eng.contains(T(ATTR('_suppressed_warnings')(f.t)), St(c))
        ctx.check('at most one warning [%d]' % q, p, n <= 1)
        if n: ctx.prove('a warning only if neither all nor this one are suppressed [%d]' % q, p, z3.And(z3.Not(sup), z3.Not(zz(ins))))
        else: ctx.prove('no warning only if all or this one are suppressed [%d]' % q, p, z3.Or(sup, zz(ins)))
    ctx.cover('a warning', ps, lambda p: any(e[0] == 'warned' for e in p.events))
    ctx.cover('none', ps, lambda p: not any(e[0] == 'warned' for e in p.events))

def on_class(ctx, n):
    from jsons.classes.json_serializable import JsonSerializable
    def thunk(eng):
        c, g, k = holder(eng, 'cls'), sclass(eng, 'func'), sclass(eng, 'cls_')
        eng.assume(HAS('fork')(c.t))
        hp, fk = B(z3.Const('high_prio', Bool)), B(z3.Const('fork', Bool))
        eng.data['in'] = (c, g, k, hp, fk)
        return run_fn(eng, JsonSerializable.__dict__[n].__func__, [c, g, k, hp, fk])
    S = reg_summaries()
    forked = z3.Function('fork_of', Val, Val)
    def s_fork(eng, o, args, kw):
        if args or kw.log or kw.base is not None: raise Unsupported('cls.fork with arguments')
        r = forked(o.t); eng.assume(Val.is_ref(r)); eng.assume(r != o.t); return T(r)
    def setup(eng): eng.method_models['fork'] = s_fork
    ps = ctx.paths(thunk, S, setup)
    for q, p in enumerate(ps):
        c, g, k, hp, fk = p.data['in']
        if p.kind != 'ret': ctx.prove('it does not fail [%d]' % q, p, z3.BoolVal(False)); continue
        rs = nested(p, 'register'); st = z3.If(fk.t, forked(c.t), c.t)
        ctx.check('registered once [%d]' % q, p, len(rs) == 1 and rs[0][0][1] == n)
        for e, h in rs:
            for what, got, want in zip(('function', 'class', 'priority', 'fork'), e[2:6], (g.t, k.t, Val.boolv(hp.t), st)): ctx.prove('with that %s [%d]' % (what, q), p, got == want, h)
        ctx.prove('the class, or the fork of it, is returned [%d]' % q, p, p.eng.tv(p.value) == st)
        ctx.check('it alters nothing else [%d]' % q, p, not nested(p, 'mutate', 'setattr'))
    ctx.cover('with a fork', ps, lambda p: p.data['in'][-1].t if p.kind == 'ret' else False)
    ctx.cover('without', ps, lambda p: z3.Not(p.data['in'][-1].t) if p.kind == 'ret' else False)
for _n in ('set_serializer', 'set_deserializer'):
    contract('C09', 'JsonSerializable.%s: on the class, or a fork of it' % _n)(lambda ctx, n=_n: on_class(ctx, n))
