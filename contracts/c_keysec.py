"""Contracts on dicts with keys that are no JSON keys (C23): one step of the dump (_store_and_hash), the load of the key section (_load_hashed_keys).

Invariant of the dump, over the result D made so far from some keys of the source: every name in the key section has no key of the source, and the next
entry is written under a name that is not in the key section of D. It is kept by every step; so no entry of a key section is overwritten, whatever follows,
and what is written under a key of its own overwrites no other entry.
"""
from contracts.common import *
from contracts.c_coll import summaries, NOOPT, cached_paths
from jsons.serializers import default_dict as SD
import inspect

KEYS = kstr('-keys')
JSON_TYPES = (str, int, float, bool, type(None))
HASH = uf('hash', Val, Int)

def s_hash(eng, args, kw): return I(HASH(eng.tv(args[0])))

A, SECT = z3.Const('made', z3.ArraySort(Val, Val)), z3.Const('section', z3.ArraySort(Val, Val))
def inp(eng, sect):
    src = svalue(eng, 'source'); eng.assume(Val.is_ref(src.t)); eng.assume(eng.inst(src.t, dict))
    key = svalue(eng, 'key')
    f = warnable(eng, fork_value(eng))
    sec = None
    if sect:
        sec = eng.alloc(DictC(SECT)); base = DictC(A, (('-keys', sec),))
    else:
        eng.assume(A[KEYS] == Val.absent); base = DictC(A)
    d = eng.alloc(base)
    eng.data.update(src=src, key=key, d=d, sec=sec)
    # the invariant, for the names it is needed for
    n = z3.Const('n!inv', Val)
    if sect: eng.fact(forall([n], z3.Implies(SECT[n] != Val.absent, eng.dget(src.t)[n] == Val.absent), [SECT[n]]))
    eng.data['kw'] = options(without=NOOPT + ('obj', 'key', 'source'))
    return d, key, src, f

def step_paths(ctx, sect):
    def thunk(eng):
        S = eng.data
        d, key, src, f = inp(eng, sect)
        return run_fn(eng, SD._store_and_hash, [d, key, src], DictC(eng.data['kw'], [('fork_inst', f)]))
    S = dict(summaries()); S[id(hash)] = s_hash
    return ctx.paths(thunk, S)

def is_json(p, t): return z3.Or([zz(p.eng.inst(t, k)) for k in JSON_TYPES])

def content(p, r, n):
    """the value under the name n in the dict r of the heap (absent if there is none)"""
    c = p.heap[r.id]
    v = Val.absent if c.base is None else c.base[n]
    for w in c.log:
        if isinstance(w, Writes): return None
        k, x = w
        kt = p.eng.tv(k)
        if kt.eq(KEYS) and isinstance(x, Ref): v = z3.If(n == KEYS, z3.Const('the_section', Val), v)
        else: v = z3.If(n == kt, Val.absent if type(x).__name__ == 'Deleted' else p.eng.tv(x), v)
    return v

def section_of(p, r):
    c = p.heap[r.id]
    for w in reversed(c.log):
        if isinstance(w, Writes): return None
        if p.eng.tv(w[0]).eq(KEYS): return w[1]
    return None

@contract('C23', 'dumping a key that is no JSON key: a name of its own, and nothing is lost')
def c23_step(ctx):
    names = [x.name for x in inspect.signature(SD._store_and_hash).parameters.values() if x.kind == x.POSITIONAL_OR_KEYWORD]
    if names != ['obj', 'key', 'source']: ctx.add('the parameters of _store_and_hash are obj, key and source', 'undecided'); return
    for sect in (False, True):
        L = 'with a key section' if sect else 'without a key section'
        ps = step_paths(ctx, sect)
        n = z3.Const('some_name', Val)
        for q, p in enumerate(ps):
            p.eng.heap = p.heap
            key, src = p.data['key'].t, p.data['src'].t
            before = z3.If(n == KEYS, Val.absent, A[n])
            had = SECT[n] if sect else Val.absent
            if p.kind != 'ret':
                ds = [e for e, h in nested(p, 'dump')]
                ctx.prove('%s: it fails only if the key does [%d]' % (L, q), p, z3.Or([z3.Not(DUMP_OK(e[1], e[2], e[3])) for e in ds] + [z3.BoolVal(False)])); continue
            if p.value is None:
                ctx.prove('%s: nothing to be done for JSON keys only [%d]' % (L, q), p, is_json(p, key))
                ctx.check('%s: and nothing is done [%d]' % (L, q), p, p.heap[p.data['d'].id].log == (() if not sect else (('-keys', p.data['sec']),)))
                continue
            pair = p.value
            if isinstance(pair, Ref): pair = tuple(p.heap[pair.id].elems())
            if not (isinstance(pair, tuple) and len(pair) == 2 and isinstance(pair[0], Ref)): ctx.add('%s: the new dict and the name [%d]' % (L, q), 'undecided'); continue
            r, k = pair[0], p.eng.tv(pair[1])
            if p.heap[r.id].log == p.heap[p.data['d'].id].log and k.eq(key): continue
            ctx.prove('%s: a JSON key is its own name [%d]' % (L, q), p, z3.Not(is_json(p, key)))
            c = content(p, r, n)
            if c is None: ctx.add('%s: the shape of the result [%d]' % (L, q), 'undecided'); continue
            ctx.prove('%s: every other entry is as it was [%d]' % (L, q), p, z3.Implies(n != KEYS, c == A[n]))
            sec = section_of(p, r)
            now = content(p, sec, n) if isinstance(sec, Ref) else had
            ds = [e for e, h in nested(p, 'dump')]
            dk = DUMP_V(ds[-1][1], ds[-1][2], ds[-1][3]) if ds else Val.absent
            ctx.prove('%s: the name is a JSON key [%d]' % (L, q), p, is_json(p, k))
            ctx.prove('%s: the name is not that of the key section [%d]' % (L, q), p, k != KEYS)
            ctx.prove('%s: the key itself is dumped [%d]' % (L, q), p, z3.Or([e[1] == key for e in ds] + [z3.BoolVal(False)]))
            hadk, nowk = [z3.substitute(x, (n, k)) for x in (had, now)]
            ctx.prove('%s: the name is not in the key section already [%d]' % (L, q), p, hadk == Val.absent)
            plain = z3.And(is_json(p, dk), k == dk, z3.ForAll([n], now == had) if False else now == had)
            own = z3.And(z3.Implies(n != k, now == had), nowk == dk, z3.substitute(before, (n, k)) == Val.absent, k != KEYS, p.eng.dget(src)[k] == Val.absent)
            ctx.prove('%s: it is the dump of the key, or new and kept with it in the key section [%d]' % (L, q), p, z3.Or(plain, own))
            ctx.prove('%s: a dump that is a JSON key is used as such, if it is free [%d]' % (L, q), p, z3.Implies(z3.And(is_json(p, dk), z3.substitute(had, (n, dk)) == Val.absent, dk != KEYS), k == dk))
        ctx.cover('%s: a JSON key' % L, ps, lambda p: p.value is None if p.kind == 'ret' else False)
        ctx.cover('%s: a key that needs a name' % L, ps, lambda p: p.value is not None and z3.Not(is_json(p, DUMP_V(*[nested(p, 'dump')[-1][0][i] for i in (1, 2, 3)]))) if p.kind == 'ret' and nested(p, 'dump') else False)

contract('C06', 'dict keys that are no JSON keys get names that are')(c23_step)
