"""Contracts on processing in parallel (C08)."""
from contracts.c_coll import *
from contracts.c_coll import check_list
from contracts import c_dump
from contracts.c_dump import diter as siter, thunk_for, check_seq, iter_classes
from contracts.c_options import options_reach
from contracts.c_load import evs, term
import jsons._multitasking as MT
import jsons.deserializers.default_list, jsons.serializers.default_iterable
from multiprocessing import Process

HAS = lambda n: uf('hasattr:' + n, Val, Bool)
ATTR = lambda n: uf('attr:' + n, Val, Val)
# ------------------------------------------------------------------ dividing the work
TASK = z3.Function('task_made', Val, Val, Val)
def division_paths(ctx):
    def thunk(eng):
        f, o, l = sclass(eng, 'func'), slist(eng, 'obj'), slist(eng, 'filled')
        eng.assume(f.t != l.t); eng.assume(o.t != l.t); eng.assume(LEN_U(l.t) == LEN_U(o.t))
        tk = I(z3.Int('tasks')); eng.assume(tk.t >= 1); eng.assume(LEN_U(o.t) >= 1)
        tt = sclass(eng, 'task_type')
        args = svalue(eng, 'args'); eng.assume(Val.is_ref(args.t)); eng.assume(eng.inst(args.t, tuple)); eng.assume(LEN_U(args.t) >= 0)
        a = options(without=('tasks',))
        eng.data['in'] = (f, o, l, tk, tt, args); eng.data['kw'] = a
        def make(e, pos, kw):
            """assumed of threads and processes: once started, and joined, the target has been called with the arguments, once.
            It is called here; as the tasks write to different places only, their order does not matter"""
            if pos: raise Unsupported('a task made with positional arguments')
            target, targs = e.dict_find(kw, 'target'), e.dict_find(kw, 'args')
            r = TASK(e.tv(targs), tt.t)
            e.events.append(('task', r, list(e.loops)))
            e.call(target, list(targs) if isinstance(targs, (tuple, list)) else list(e.get(targs).elems()), DictC())
            return T(r)
        def start(e, x, pos, kw): e.events.append(('start', x.t, list(e.loops))); return None
        eng.call_models[str(tt.t)] = make; eng.method_models['start'] = start
        return run_fn(eng, MT._start_tasks, [], {'tasks': tk, 'task_type': tt, 'func': f, 'list_to_fill': l, 'obj': o, 'args': args, 'kwargs': eng.mkdict((), base=a)})
    return cached_paths(ctx, 'division', lambda: ctx.paths(thunk, summaries()))

def part(events):
    """(loop over the tasks, [(condition, facts, events, writing loop)]) of a run that divides the work; None if it has another shape"""
    ls = [e for e in events if e[0] == 'loop' and any(x[0] == 'task' for c, ev, b in e[4] for x in ev)]
    if len(ls) != 1 or ls[0][3] is not None or any(e[0] in ('task', 'mutate', 'call') for e in events): return None
    out = []
    for cond, ev, b in ls[0][4]:
        inner = [e for e in ev if e[0] == 'loop' and any(True for x in flat([e]))]
        if len(inner) != 1 or inner[0][3] is not None or len([e for e in ev if e[0] == 'task']) != 1 or any(e[0] == 'mutate' for e in ev): return None
        out.append((cond, list(b.facts), ev, inner[0]))
    return ls[0], out

def holds(ctx, label, p, goal, hyps=()):
    """sufficient, not necessary, for the property: undecided if it cannot be shown"""
    st, model = ctx.query(list(p.pc) + list(p.facts) + list(hyps), goal)
    return ctx.add(label, 'discharged' if st == 'discharged' else 'undecided', detail='' if st == 'discharged' else 'the parts are not shown to follow each other')

@contract('C08', 'dividing the work: every element is in exactly one part, and is processed as it would be alone')
def division(ctx):
    ps = division_paths(ctx)
    for q, p in enumerate(ps):
        f, o, l, tk, tt, args = p.data['in']; e = p.eng; e.heap = p.heap
        n = LEN_U(o.t)
        if p.kind != 'ret': ctx.prove('it does not fail [%d]' % q, p, z3.BoolVal(False)); continue
        sh = part(p.events)
        if sh is None: ctx.add('divided in a way the contract does not speak about [%d]' % q, 'undecided'); continue
        L, bodies = sh; i, k = L[1], L[2]; j0 = z3.IntVal(0)
        ctx.prove('there is a task [%d]' % q, p, k >= 1)
        ctx.prove('not more than allowed [%d]' % q, p, k <= tk.t)
        rng = [i >= 0, i < k]
        nx = lambda t: z3.substitute(t, (i, i + 1))
        parts = []
        for m, (cond, facts, ev, inner) in enumerate(bodies):
            j, cnt, wr = inner[1], inner[2], inner[4]
            idx = None
            for c2, ev2, b2 in wr:
                ms = [x for x in ev2 if x[0] == 'mutate']
                if len(ms) != 1 or ms[0][2] != 'setitem' or not z3.eq(ms[0][1], l.t): idx = None; break
                t = e.num(ms[0][3][0])
                if idx is None or z3.eq(idx, t): idx = t
                else: idx = None; break
            if idx is None: ctx.add('the results are stored in a way the contract does not speak about [%d: %d]' % (q, m), 'undecided'); return
            first = z3.substitute(idx, (j, j0))
            parts.append((cond, facts, j, cnt, idx, first, wr))
            holds(ctx, 'the results of a task lie next to each other [%d: %d]' % (q, m), p, idx == first + j, rng + [cond] + facts)
            holds(ctx, 'the first part begins with the first element [%d: %d]' % (q, m), p, first == 0, rng + [cond, i == 0] + facts)
            holds(ctx, 'the last part ends with the last element [%d: %d]' % (q, m), p, first + cnt == n, rng + [cond, i == k - 1] + facts)
            holds(ctx, 'no part is turned around [%d: %d]' % (q, m), p, cnt >= 0, rng + [cond] + facts)
        for a, (c1, f1, j1, cnt1, idx1, first1, _) in enumerate(parts):
            for b, (c2, f2, j2, cnt2, idx2, first2, _) in enumerate(parts):
                holds(ctx, 'each part begins where the one before ends [%d: %d, %d]' % (q, a, b), p, first1 + cnt1 == nx(first2), [i >= 0, i + 1 < k, c1, nx(c2)] + f1)
        # by induction over the tasks: every place of the list is written by exactly one task, exactly once; each index is one of the list
        for m, (cond, facts, j, cnt, idx, first, wr) in enumerate(parts):
            for w, (c2, ev2, b2) in enumerate(wr):
                h = rng + [cond, c2, j >= 0, j < cnt, idx >= 0, idx < n] + facts + list(b2.facts)
                t = '[%d: %d.%d]' % (q, m, w)
                cs = [x for x in ev2 if x[0] == 'call']
                v = [x for x in ev2 if x[0] == 'mutate'][0][3][1]
                e.heap = b2.heap if hasattr(b2, 'heap') else p.heap
                if len(cs) != 1:
                    ctx.prove('every element is processed, once ' + t, p, z3.BoolVal(False), h); continue
                c = cs[0]
                ctx.prove('by the function given ' + t, p, c[1] == f.t, h)
                ctx.prove('the element at that place ' + t, p, term(p, c[2][0]) == ITER(o.t, idx) if c[2] else z3.BoolVal(False), h)
                rest = [x for x in c[2][1:]]
                ok = len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][0] == '*' and rest[0][1][0] == 'seq' and isinstance(rest[0][1][1].what, z3.ExprRef) and z3.eq(rest[0][1][1].what, args.t)
                ctx.add('with the other arguments ' + t, 'discharged' if ok else 'undecided')
                ctx.prove('with every option ' + t, p, reaches(c[5], p.data['kw'], ('tasks',)), h)
                ctx.prove('with a valid number of tasks ' + t, p, z3.And(Val.is_intv(c[5][kstr('tasks')]), Val.i(c[5][kstr('tasks')]) >= 1), h)
                if isinstance(c[-1], T): ctx.prove('the result is stored ' + t, p, z3.BoolVal(isinstance(v, T)) if not isinstance(v, T) else v.t == c[-1].t, h)
                else: ctx.check('a failure is stored as such ' + t, p, isinstance(v, Ref) and isinstance(b2.heap.get(v.id), InstC) and b2.heap[v.id].cls is MT._Failure)
            ev = bodies[m][2]
            made = [x for x in ev if x[0] == 'task'][0]
            st = [x for x in ev if x[0] == 'start']
            ctx.check('each task is started [%d: %d]' % (q, m), p, z3.And(st[0][1] == made[1])) if len(st) == 1 else ctx.add('each task is started [%d: %d]' % (q, m), 'undecided')
        e.heap = p.heap
        got = as_list(p, p.value)
        if got is None or got[2] is not None: ctx.add('the tasks that are returned [%d]' % q, 'undecided'); continue
        ctx.prove('all tasks are returned [%d]' % q, p, got[0] == k)
        for m, (cond, facts, ev, inner) in enumerate(bodies):
            made = [x for x in ev if x[0] == 'task'][0]
            ctx.prove('each task is returned [%d: %d]' % (q, m), p, got[1](i) == made[1], rng + [cond] + facts)
    ctx.cover('three tasks for seven elements', ps, lambda p: z3.And(p.data['in'][3].t == 3, LEN_U(p.data['in'][1].t) == 7) if p.kind == 'ret' else False)

# ------------------------------------------------------------------ collecting the results
def multi_paths(ctx):
    def thunk(eng):
        f, o, tt = sclass(eng, 'func'), slist(eng, 'obj'), sclass(eng, 'task_type')
        l, started = slist(eng, 'filled'), slist(eng, 'started')
        eng.assume(l.t != o.t); eng.assume(started.t != l.t); eng.assume(LEN_U(l.t) == LEN_U(o.t))
        tk = I(z3.Int('tasks')); eng.assume(tk.t >= 1)
        a = options(without=('tasks', 'task_type', 'func', 'obj'))
        x1 = svalue(eng, 'arg')
        eng.data['in'] = (f, o, l, started, tk, tt, x1); eng.data['kw'] = a
        eng.element_of[l.t.sexpr()] = lambda i, x: z3.Implies(eng.inst(x, MT._Failure), z3.And(HAS('message')(x), Val.is_strv(ATTR('message')(x))))
        def s_start(e, args, kw):
            names = list(inspect.signature(MT._start_tasks).parameters)
            d = dict(zip(names, args))
            if kw.base is not None: raise Unsupported('_start_tasks called in this shape')
            d.update(kw.log)
            e.events.append(('started', d, e.snapshot_kw(d.get('kwargs')) if False else None, list(e.loops)))
            return started
        S = eng.summaries
        S[id(MT._start_tasks)] = s_start
        def s_fill(e, args, kw): return l
        S[id(MT._get_list_to_fill)] = s_fill
        def join(e, x, pos, kw): e.events.append(('join', x.t, list(e.loops))); return None
        eng.method_models['join'] = join
        def read():
            ok = any(ev[0] == 'loop' and ev[3] is None and z3.eq(z3.simplify(ev[2]), LEN_U(started.t)) and ev[4] and all(any(x[0] == 'join' and z3.eq(x[1], ITER(started.t, ev[1])) for x in evs_) for c, evs_, b in ev[4]) for ev in eng.events)
            if not ok and not eng.loops: eng.events.append(('read too early',))
        eng.read_hooks[l.t.get_id()] = read
        return run_fn(eng, MT.multi_task, [f, o, tk, tt, x1], DictC(a, ()))
    return cached_paths(ctx, 'multi', lambda: ctx.paths(thunk, summaries()))

@contract('C08', 'multi_task: all results, after all tasks are done, or a failure if one failed')
def multi(ctx):
    ps = multi_paths(ctx)
    w, j = z3.Int('which'), z3.Int('j!f')
    for q, p in enumerate(ps):
        f, o, l, started, tk, tt, x1 = p.data['in']; e = p.eng; e.heap = p.heap
        n = LEN_U(o.t)
        fail = lambda i: e.inst(ITER(l.t, i), MT._Failure)
        none_failed = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(fail(j))))
        st = [x for x in p.events if x[0] == 'started']
        ctx.check('the results are read when all tasks are done [%d]' % q, p, True) if not any(x[0] == 'read too early' for x in p.events) else ctx.prove('the results are read when all tasks are done [%d]' % q, p, n == 0)
        if st:
            ctx.check('the work is divided once [%d]' % q, p, len(st) == 1)
            d = st[0][1]
            for nm, want in (('tasks', Val.intv(tk.t)), ('task_type', tt.t), ('func', f.t), ('list_to_fill', l.t), ('obj', o.t)):
                ctx.prove('divided: %s [%d]' % (nm, q), p, term(p, d[nm]) == want)
            a = d['kwargs']; c = e.get(a) if isinstance(a, Ref) else a
            ctx.prove('divided: the options [%d]' % q, p, reaches(e.arr_of(c), p.data['kw']))
            g = as_list(p, d['args'])
            if g is None: ctx.add('divided: the arguments [%d]' % q, 'undecided')
            else: ctx.prove('divided: the arguments [%d]' % q, p, z3.And(g[0] == 1, g[1](z3.IntVal(0)) == x1.t))
        else: ctx.prove('nothing is divided only if there is nothing to divide [%d]' % q, p, n == 0)
        if p.kind == 'ret':
            ctx.check('a list [%d]' % q, p, kind_of(p, p.value) == 'list')
            got = as_list(p, p.value)
            if got is None: ctx.add('the shape of the result [%d]' % q, 'undecided'); continue
            ctx.prove('as many as given [%d]' % q, p, got[0] == n)
            if got[2] is not None: ctx.prove('none is left out [%d]' % q, p, zz(got[2](K)), [K >= 0, K < n])
            ctx.prove('the result of each, at its place [%d]' % q, p, z3.Implies(n > 0, got[1](K) == ITER(l.t, K)), [K >= 0, K < n])
            ctx.prove('no failure is passed for a result [%d]' % q, p, z3.BoolVal(False), [w >= 0, w < n, fail(w)] + at_index(p, w))
        else:
            ctx.check('a failure is a JsonsError [%d]' % q, p, exc_class(p, JsonsError))
            ctx.prove('it fails only if an element fails [%d]' % q, p, z3.BoolVal(False), [none_failed])
    ctx.cover('several results', ps, lambda p: LEN_U(p.data['in'][1].t) > 1 if p.kind == 'ret' else False)
    ctx.cover('a failure', ps, lambda p: p.kind == 'raise')

def at_index(p, *ix):
    return [z3.substitute_vars(f.body(), i) for f in p.facts if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == Int for i in ix]

@contract('C08', 'the list that is filled has a place for each element')
def to_fill(ctx):
    def thunk(eng):
        o, tt = slist(eng, 'obj'), sclass(eng, 'task_type')
        eng.assume(eng.inst(tt.t, type))
        eng.data['in'] = (o, tt)
        return run_fn(eng, MT._get_list_to_fill, [o, tt])
    ps = ctx.paths(thunk, summaries())
    for q, p in enumerate(ps):
        o, tt = p.data['in']
        isp = uf('issubclass', Val, Val, Bool)(tt.t, const_term(Process))
        got = as_list(p, p.value) if p.kind == 'ret' else None
        if got is None: ctx.prove('only processes need another list than an ordinary one [%d]' % q, p, isp); continue
        ctx.prove('a place for each [%d]' % q, p, got[0] == LEN_U(o.t))
        ctx.check('a list of its own [%d]' % q, p, isinstance(p.value, Ref))
    ctx.cover('an ordinary list', ps, lambda p: p.kind == 'ret' and isinstance(p.value, Ref))

# ------------------------------------------------------------------ (de)serializing with several tasks
def _multi_task(func, obj, left, *args, **kwargs):
    """what the contracts above establish of multi_task: the function applied to every element"""
    result = []
    for index, elem in enumerate(obj):
        try:
            done = func(elem, *args, tasks=left, **kwargs)
        except Exception:
            raise JsonsError('Could not process the element at index {}.'.format(index))
        result.append(done)
    return result

def s_multi_task(eng, args, kw):
    func, obj, tasks, tt = args[:4]
    left = I(z3.Int('tasks_left')); eng.assume(left.t >= 1)
    eng.events.append(('multi', eng.tv(tasks), eng.tv(tt), list(eng.loops)))
    return eng.call_function(_multi_task, [func, obj, left] + list(args[4:]), kw)

def several(fn, typed, kind, lo=2):
    def thunk(eng):
        o, f = slist(eng, 'obj', kind), warnable(eng, fork_value(eng))
        c = stype(eng, 'cls') if typed else None
        tk, tt = I(z3.Int('tasks')), sclass(eng, 'task_type')
        eng.assume(tk.t >= lo) if lo else eng.assume(tk.t < 1)
        eng.data['in'] = (o, c, f); eng.data['tasks'] = (tk, tt)
        eng.data['kw'] = options(without=NOOPT + ('_store_cls',))
        return run_fn(eng, fn, [o] + ([c] if typed else []), DictC(eng.data['kw'], [('fork_inst', f), ('tasks', tk), ('task_type', tt)]))
    return thunk
def several_paths(ctx, fn, typed, kind, lo=2):
    def make():
        S = summaries(); S[id(MT.multi_task)] = s_multi_task
        return ctx.paths(several(fn, typed, kind, lo), S)
    return cached_paths(ctx, ('several', fn.__name__, typed, kind, lo), make)
def given_tasks(ctx, ps):
    for q, p in enumerate(ps):
        tk, tt = p.data['tasks']
        for e, h in nested(p, 'multi'):
            ctx.prove('the number of tasks is the one given [%d]' % q, p, e[1] == Val.intv(tk.t), h)
            ctx.prove('the kind of tasks is the one given [%d]' % q, p, e[2] == tt.t, h)

@contract('C08', 'loading a list with several tasks: every element as with one')
def load_several(ctx):
    ps = several_paths(ctx, dlist, True, list)
    def instance(ctx, q, p, c):
        ctx.check('the result is a list [%d]' % q, p, kind_of(p, p.value) == 'list')
        return p.value
    check_list(ctx, ps, instance)
    given_tasks(ctx, ps)
    options_reach(ctx, ps, 'load')

@contract('C08', 'loading a list with less than one task is refused')
def load_none(ctx):
    ps = several_paths(ctx, dlist, True, list, 0)
    for q, p in enumerate(ps):
        if p.kind == 'ret': ctx.prove('refused [%d]' % q, p, z3.BoolVal(False)); continue
        ctx.check('by a JsonsError [%d]' % q, p, exc_class(p, JsonsError))
    ctx.cover('refused', ps, lambda p: p.kind == 'raise')

@contract('C08', 'dumping an iterable with several tasks: every element as with one')
def dump_several(ctx):
    for typed, kind in ((False, list), (True, list), (False, tuple), (True, set)):
        ps = several_paths(ctx, siter, typed, kind)
        at = lambda c, k: z3.If(NGARG(c) == 1, GARG(c, 0), GARG(c, k))
        def short(p):
            c = p.data['in'][1]
            return z3.And(c_dump.truthy_opt(p, 'strict'), NGARG(c.t) > 1, NGARG(c.t) != LEN_U(p.data['in'][0].t)) if c is not None else z3.BoolVal(False)
        check_seq(ctx, ps, iter_classes(at), short)
        for q, p in enumerate(ps):
            if typed and p.kind == 'ret': c_dump.strict_classes(ctx, q, p, at)
        given_tasks(ctx, ps)
        options_reach(ctx, ps, 'dump')
