"""Contracts on the key transformers (C18).

Assumed of str, for ASCII strings: lower, upper, title and replace of a character by another keep the length and introduce no other separators; lower and
upper of a single character is a single character; lower is idempotent and undoes upper of a character; ''.join of strings without a separator has none;
split('_') gives strings without '_', and one string, the whole, if there is none. Of re.sub of ([a-z])([A-Z]) by \\1_\\2: it introduces no '-', and
leaves alone what has no upper-case letter.
"""
from contracts.common import *
from jsons import _key_transformers as KTM
import re
from contracts.c_attrs import at_index

LOWER, UPPER = uf('str.lower', Str, Str), uf('str.upper', Str, Str)
SUB = uf('re.sub:lower_upper', Str, Str)
A_ = lambda s: z3.StringVal(s)
NAMES = ('camelcase', 'snakecase', 'pascalcase', 'lispcase')

def first(s): return z3.SubString(s, 0, 1)
def rest(s): return z3.SubString(s, 1, z3.Length(s))

def s_sub(eng, args, kw):
    if kw.log or kw.base is not None or len(args) != 3: raise Unsupported('re.sub of this shape')
    pat, repl, s = args
    if pat not in ('([a-z])([A-Z])',) or repl not in ('\\1_\\2',): raise Unsupported('re.sub of another pattern')
    t = eng.sterm(s); r = SUB(t)
    eng.assume(z3.Implies(z3.Not(z3.Contains(t, A_('-'))), z3.Not(z3.Contains(r, A_('-')))))
    eng.assume(z3.Implies(LOWER(t) == t, r == t))
    eng.assume((z3.Length(r) == 0) == (z3.Length(t) == 0))
    eng.assume(z3.Length(r) >= z3.Length(t)); eng.assume(z3.Implies(z3.Length(t) > 0, first(r) == first(t)))
    return St(r)

def facts(t):
    """what is assumed of lower and upper, for the string t"""
    out = [LOWER(UPPER(t)) == LOWER(t), UPPER(LOWER(t)) == UPPER(t)]
    for f in (LOWER, UPPER):
        out += [z3.Length(f(t)) == z3.Length(t), f(f(t)) == f(t)]
        for c in '-_': out.append(z3.Contains(f(t), A_(c)) == z3.Contains(t, A_(c)))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        for f in (LOWER, UPPER): out.append(f(t) == z3.Concat(*[f(x) for x in t.children()]))
    return out

def subterms(ts):
    out, seen = [], set()
    def go(t):
        if t.get_id() in seen or not z3.is_app(t): return
        seen.add(t.get_id())
        for c in t.children(): go(c)
        out.append(t)
    for t in ts: go(t)
    return out

def prove(ctx, label, p, goal, hyps=()):
    """prove it by cases: each string that is cut is empty, or a character and the rest"""
    hs = [h for h in list(p.pc) + list(p.facts) + list(hyps) if not has_q(h)]
    ws = [t for t in subterms(hs) if t.sort() == Int and t.num_args() == 0 and not z3.is_int_value(t)]
    for w in ws: hs += [h for h in at_index(p, w) if not has_q(h)]
    hs = [z3.simplify(h) for h in hs + same_joins(p)]
    work = [(hs, z3.simplify(goal), '')]
    for _ in range(4):
        nxt, more = [], False
        for hs, g, l in work:
            cut = [t.arg(0) for t in subterms([g] + hs) if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_AT)]
            cut = [t for t in cut if not z3.is_string_value(t) and t.decl().kind() != z3.Z3_OP_SEQ_CONCAT and not any(x.decl().kind() in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_AT) for x in subterms([t]))]
            if not cut: nxt.append((hs, g, l)); continue
            more, J = True, cut[0]
            k = len(l)
            c, r = z3.FreshConst(z3.CharSort(), 'c'), z3.FreshConst(Str, 'rest')
            for v, m in ((z3.StringVal(''), 'e'), (z3.Concat(z3.Unit(c), r), 'n')):
                sub = lambda x: chars(z3.simplify(z3.substitute(x, (J, v))))
                nxt.append(([sub(h) for h in hs] + [J == v], sub(g), l + m))
        work = nxt
        if not more: break
    for hs, g, l in work:
        if z3.is_false(z3.simplify(z3.And(hs))): continue
        for _ in range(2):
            know = []
            for t in subterms([g] + hs):
                if t.decl().eq(LOWER) or t.decl().eq(UPPER): know += facts(t.arg(0))
                if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: know += facts(t)
                if t.decl().eq(LC) or t.decl().eq(UC): know += char_facts(t.arg(0))
                if t.decl().name() in ("str.replace|'-'|'_'", "str.replace|'_'|'-'"):
                    r = lambda x, f=t.decl(): f(x)
                    know.append(LOWER(t) == r(LOWER(t.arg(0))))
            know = [chars(k) for k in know]
            hs = hs + [k for k in know if not any(k.eq(h) for h in hs)]
        st, model = ctx.query(hs, g)
        # a model of str functions of which only some facts are known is no counterexample
        ctx.add(label + (' (%s)' % l if l else ''), 'discharged' if st == 'discharged' else 'undecided', 0, '' if st == 'discharged' else '%s\n%s' % (g, model))

LC, UC = z3.Function('lower_char', z3.CharSort(), z3.CharSort()), z3.Function('upper_char', z3.CharSort(), z3.CharSort())
def char_facts(c):
    out = [LC(UC(c)) == LC(c), UC(LC(c)) == UC(c), LC(LC(c)) == LC(c), UC(UC(c)) == UC(c)]
    for x in '-_':
        for f in (LC, UC): out.append((z3.Unit(f(c)) == A_(x)) == (z3.Unit(c) == A_(x)))
    return out

def chars(t):
    """lower and upper of one character are one character"""
    for _ in range(6):
        u = [x for x in subterms([t]) if (x.decl().eq(LOWER) or x.decl().eq(UPPER)) and (x.arg(0).decl().kind() == z3.Z3_OP_SEQ_UNIT or z3.is_string_value(x.arg(0)) and x.arg(0).as_string() == '')]
        if not u: return t
        new = [(x, z3.Unit((LC if x.decl().eq(LOWER) else UC)(x.arg(0).arg(0))) if x.arg(0).decl().kind() == z3.Z3_OP_SEQ_UNIT else x.arg(0)) for x in u]
        t = z3.simplify(z3.substitute(t, *new))
    return t

def same_joins(p):
    """joining equal sequences gives equal strings"""
    js, out, j = p.eng.data.get('joined', p.data.get('joined', [])), [], z3.Int('j!join')
    for a in range(len(js)):
        for b in range(a):
            (r1, o1, s1), (r2, o2, s2) = js[a], js[b]
            try:
                if isinstance(o1, str) and o1 == o2 and zi(s1.n).eq(zi(s2.n)) and s1.guard is None and s2.guard is None and p.eng.sterm(s1.get(j)).eq(p.eng.sterm(s2.get(j))): out.append(r1 == r2)
            except Unsupported: pass
    return out
def zi(x): return z3.IntVal(x) if isinstance(x, int) else z3.simplify(x)

def has_q(t):
    from pyvc.spec import has_quantifier
    return has_quantifier(t)

def models():
    S = dict(base_summaries()); S[id(re.sub)] = s_sub
    return S

def paths(ctx, *fns):
    """the functions applied one after the other to some string"""
    def thunk(eng):
        eng.merging = False
        s = z3.String('s'); eng.data['mid'] = [s]
        v = St(s)
        for n in fns:
            v = run_fn(eng, getattr(KTM, n), [v], {})
            eng.data['mid'].append(eng.sterm(v) if isinstance(v, (str, St)) else None)
        return v
    return ctx.paths(thunk, models())

def text(p, v): return p.eng.sterm(v) if isinstance(v, (str, St)) else None

FOREIGN = {'camelcase': '-_', 'pascalcase': '-_', 'snakecase': '-', 'lispcase': '_'}
def style(n, r):
    """what is left alone by the transformer n"""
    out = [z3.Not(z3.Contains(r, A_(c))) for c in FOREIGN[n]]
    if n == 'camelcase': out.append(LOWER(first(r)) == first(r))
    if n == 'pascalcase': out.append(UPPER(first(r)) == first(r))
    if n in ('snakecase', 'lispcase'): out.append(LOWER(r) == r)
    return out

@contract('C18', 'every transformer accepts every string, and gives a string in its style')
def c18_style(ctx):
    for n in NAMES:
        ps = paths(ctx, n)
        for q, p in enumerate(ps):
            if not ctx.check('%s: never raises [%d]' % (n, q), p, p.kind == 'ret'): continue
            r = text(p, p.value)
            if not ctx.check('%s: gives a string [%d]' % (n, q), p, r is not None): continue
            for c, g in zip(FOREIGN[n], style(n, r)): prove(ctx, '%s: no %s in the result [%d]' % (n, c, q), p, g)
            prove(ctx, '%s: the case of the result [%d]' % (n, q), p, style(n, r)[-1])
        ctx.cover('%s of the empty string' % n, ps, lambda p: p.data['mid'][0] == A_('') if p.kind == 'ret' else False)

@contract('C18', 'every transformer leaves alone what is in its style: twice is once')
def c18_idem(ctx):
    for n in NAMES:
        for q, p in enumerate(paths(ctx, n)):
            if p.kind != 'ret': continue
            s = p.data['mid'][0]
            more = style(n, s)
            if n == 'lispcase':
                t = uf("str.replace|'-'|'_'", Str, Str)(s)
                more += [uf("str.replace|'_'|'-'", Str, Str)(t) == s, LOWER(t) == t]      # assumed of replace: undone, as s has no '_'; and it does not change case
            prove(ctx, '%s: what is in style is left alone [%d]' % (n, q), p, text(p, p.value) == s, more)

def both(ctx, a, b):
    """two transformers on the same string"""
    def thunk(eng):
        eng.merging = False
        s = z3.String('s')
        x = run_fn(eng, getattr(KTM, a), [St(s)], {}); y = run_fn(eng, getattr(KTM, b), [St(s)], {})
        eng.data['xy'] = (x, y)
        return x
    return ctx.paths(thunk, models())

@contract('C18', 'PascalCase is camelCase but for the case of its first letter')
def c18_pascal(ctx):
    for q, p in enumerate(both(ctx, 'camelcase', 'pascalcase')):
        if not ctx.check('never raises [%d]' % q, p, p.kind == 'ret'): continue
        x, y = [text(p, v) for v in p.data['xy']]
        prove(ctx, 'the same but for the first letter [%d]' % q, p, z3.And(z3.Length(x) == z3.Length(y), rest(x) == rest(y)))
        prove(ctx, 'its first letter is the upper case of that of camelCase [%d]' % q, p, first(y) == UPPER(first(x)))

@contract('C18', 'lisp-case is snake_case with other separators')
def c18_lisp(ctx):
    for q, p in enumerate(both(ctx, 'snakecase', 'lispcase')):
        if not ctx.check('never raises [%d]' % q, p, p.kind == 'ret'): continue
        x, y = [text(p, v) for v in p.data['xy']]
        ctx.prove('the same with - for _ [%d]' % q, p, y == uf("str.replace|'_'|'-'", Str, Str)(x))
