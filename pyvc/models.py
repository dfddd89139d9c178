"""Meaning of Python builtins and library functions used by the verified code."""
import ast, builtins, string, types, inspect, typing, collections.abc
import z3
from .values import *
from . import engine as E
from .engine import (ITER, LEN_U, DGET, DIDX, TYPE_U, TRUTH_U, STRV, GARG, NGARG, MKDICT, uf, zz, zand, zor, znot,
                     MISSING, PyRaise, Unsupported, Infeasible)
from .loops import loop_over

# ------------------------------------------------------------- numbers
def binop(eng, op, a, b, inplace=False):
    symb = isinstance(a, SYMBOLIC) or isinstance(b, SYMBOLIC)
    if not symb:
        import operator as o
        f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'FloorDiv': o.floordiv, 'Mod': o.mod,
             'Pow': o.pow, 'BitOr': o.or_, 'BitAnd': o.and_, 'BitXor': o.xor, 'LShift': o.lshift, 'RShift': o.rshift}.get(op)
        if isinstance(a, (list, dict, set)): raise Unsupported('operator on a global container')
        if op == 'Mod' and isinstance(a, str): return eng.native(lambda: a % b)
        return eng.native(lambda: f(a, b))
    strs = (str, St, Rope)
    if op == 'Mod' and isinstance(a, strs): return percent(eng, a, b)
    if op == 'Add' and (isinstance(a, strs) or isinstance(b, strs)):
        if isinstance(a, T) or isinstance(b, T):
            t = a if isinstance(a, T) else b
            if not eng.branch(Val.is_strv(t.t)): eng.raise_(TypeError, 'can only concatenate str')
            s = St(Val.s(t.t))
            a, b = (s, b) if t is a else (a, s)
        if isinstance(a, strs) and isinstance(b, strs): return eng.str_concat([a, b])
        eng.raise_(TypeError, 'can only concatenate str')
    islist = lambda v: isinstance(v, (list, tuple)) or isinstance(v, Ref) and isinstance(eng.get(v), ListC)
    if op == 'Add' and islist(a) and islist(b):
        kind = kind_of(eng, a)
        if kind != kind_of(eng, b): eng.raise_(TypeError, 'concatenation')
        if inplace and kind == 'list' and isinstance(a, Ref):
            c = eng.get(a); eng.mutation(a, c, 'extend', (b,))
            eng.put(a, ListC(list(c.parts) + eng.parts_of(b), c.kind, c.fresh)); return a
        return eng.alloc(ListC(eng.parts_of(a) + eng.parts_of(b), kind))
    if op == 'Add' and (islist(a) and isinstance(b, T) or islist(b) and isinstance(a, T)):
        t = a if isinstance(a, T) else b
        l = b if isinstance(a, T) else a
        k = kind_of(eng, l)
        if not eng.branch(eng.inst(t.t, {'list': list, 'tuple': tuple}[k])): eng.raise_(TypeError, 'concatenation')
        return eng.alloc(ListC(eng.parts_of(a) + eng.parts_of(b), k))
    if op == 'Mult' and (islist(a) or islist(b)):
        l, m = (a, b) if islist(a) else (b, a)
        return repeat(eng, l, m)
    if op == 'Mult' and isinstance(a, T) and isinstance(b, (I, int)) and not isinstance(b, bool):
        k = eng.choose([zor([eng.inst(a.t, list), eng.inst(a.t, tuple)]), znot(zor([eng.inst(a.t, list), eng.inst(a.t, tuple)]))])
        if k == 0: return repeat(eng, a, b)
    if op == 'BitOr' and isinstance(a, Ref) and isinstance(eng.get(a), ListC) and eng.get(a).kind == 'set':
        c = eng.get(a)
        parts = list(c.parts) + eng.parts_of(b)
        if inplace:
            eng.mutation(a, c, 'update', (b,))
            eng.put(a, ListC(parts, 'set', c.fresh)); return a
        return eng.alloc(ListC(parts, 'set'))
    if op == 'BitOr' and isinstance(a, Ref) and isinstance(eng.get(a), DictC):
        (ba, la), (bb, lb) = eng.dict_parts(a), eng.dict_parts(b)
        if bb is None: new = DictC(ba, tuple(la) + tuple(lb))
        else: new = DictC(eng.merge(eng.arr_of(DictC(ba, la)), eng.arr_of(DictC(bb, lb))))
        if inplace:
            c = eng.get(a); eng.mutation(a, c, 'update', (b,)); eng.put(a, DictC(new.base, new.log, c.fresh)); return a
        return eng.alloc(new)
    if isinstance(a, (T,)) and op in ('BitOr', 'BitAnd') or isinstance(b, T) and op in ('BitOr', 'BitAnd'):
        return eng.call_unknown(Tm('op:' + op), [a, b], DictC())
    if isinstance(a, Ref) or isinstance(b, Ref):
        nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(op)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and nm: return eng.call_method(x, nm if x is a else nm.replace('__', '__r', 1), [y], DictC())
        raise Unsupported('operator %s' % op)
    if isinstance(a, T) and not isinstance(b, T) or isinstance(b, T) and not isinstance(a, T) or isinstance(a, T):
        # unknown operands: numbers, or something with its own operator
        ta = [x for x in (a, b) if isinstance(x, T)]
        isnum = zand([z3.Or(Val.is_intv(x.t), Val.is_boolv(x.t), Val.is_fltv(x.t)) for x in ta])
        if not eng.branch(isnum): return eng.call_unknown(Tm('op:' + op), [a, b], DictC())
    x, y = eng.num(a), eng.num(b)
    real = eng.isreal(x) or eng.isreal(y)
    zr = lambda v: (z3.RealVal(v) if isinstance(v, (int, float)) else (z3.ToReal(v) if v.sort() == Int else v))
    if op in ('Add', 'Sub', 'Mult'):
        if real: x, y = zr(x), zr(y)
        return eng.mknum({'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y}[op]())
    if op == 'Div':
        if eng.branch(zr(y) == 0): eng.raise_(ZeroDivisionError, 'division by zero')
        if isinstance(y, (int, float)) or not eng.loops: pass
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == Int and y.sort() == Int and not z3.is_int_value(y):
            eng.data.setdefault('ratio', {})
            r = R(zr(x) / zr(y)); eng.data['ratio'][r.t.sexpr()] = (x, y)
            return r
        return R(z3.simplify(zr(x) / zr(y)))
    if op in ('FloorDiv', 'Mod'):
        zi = lambda v: z3.IntVal(v) if isinstance(v, int) else v
        if real:
            x, y = zr(x), zr(y)
            if eng.branch(y == 0): eng.raise_(ZeroDivisionError, 'modulo')
            q = z3.ToReal(z3.ToInt(x / y))
            return R(z3.simplify(q if op == 'FloorDiv' else x - q * y))
        x, y = zi(x), zi(y)
        if eng.branch(y == 0): eng.raise_(ZeroDivisionError, 'modulo')
        # Python floors; z3 div/mod are Euclidean: equal for positive divisors
        if eng.entails(y > 0): return eng.mknum(x / y if op == 'FloorDiv' else x % y)
        q, r = eng.fresh('quot', Int), eng.fresh('rem', Int)
        eng.assume(z3.And(x == q * y + r, z3.If(y > 0, z3.And(0 <= r, r < y), z3.And(y < r, r <= 0))))
        return I(q if op == 'FloorDiv' else r)
    raise Unsupported('operator %s on symbolic numbers' % op)

def Tm(name): return T(Val.ref(z3.IntVal(intern_id(('model', name)))))

def kind_of(eng, v):
    if isinstance(v, tuple): return 'tuple'
    if isinstance(v, list): return 'list'
    return eng.get(v).kind

def repeat(eng, l, m):
    parts = eng.parts_of(l)
    kind = 'tuple' if isinstance(l, T) else kind_of(eng, l)
    if isinstance(m, int) and all(p[0] == 'e' for p in parts):
        return eng.mklist([p[1] for p in parts] * m, kind)
    k = eng.num(m); k = z3.IntVal(k) if isinstance(k, int) else k
    n = z3.If(k > 0, k, 0)
    if eng.entails(k >= 0): n = k
    if len(parts) == 1 and parts[0][0] == 'e':
        v = parts[0][1]
        return eng.mkseq(Seq(z3.simplify(n), lambda j: v, None, 'repeat'), kind)
    if len(parts) == 1 and parts[0][0] == 'seq' and parts[0][1].guard is None:
        sq = parts[0][1]
        if eng.branch(sq.n == 1):
            v = sq.get(z3.IntVal(0))
            return eng.mkseq(Seq(z3.simplify(n), lambda j: v, None, 'repeat'), kind)
        if eng.branch(n == 1): return eng.alloc(ListC(parts, kind))
    raise Unsupported('repetition of a list')

# ------------------------------------------------------------- sequences
class CSeq(Seq):
    __slots__ = ('conc',)
    def __init__(self, items):
        Seq.__init__(self, len(items), lambda i: items[i.as_long()] if z3.is_int_value(i) else _pick(items, i))
        self.conc = list(items)
def _pick(items, i): raise Unsupported('symbolic index into a concrete sequence')

def dict_axioms(eng, t):
    d = eng.data.setdefault('dictax', set())
    if t.sexpr() in d: return
    d.add(t.sexpr())
    i = z3.Int('i!d'); k = z3.Const('k!d', Val)
    n = LEN_U(t)
    eng.fact(forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(DIDX(t, ITER(t, i)) == i, eng.dget(t)[ITER(t, i)] != Val.absent, ITER(t, i) != Val.absent)), [ITER(t, i)]))
    eng.fact(forall([k], z3.Implies(eng.dget(t)[k] != Val.absent, z3.And(0 <= DIDX(t, k), DIDX(t, k) < n, ITER(t, DIDX(t, k)) == k)), [eng.dget(t)[k]]))

def tseq(eng, t, what='keys'):
    """Seq over a symbolic value known to be iterable"""
    n = LEN_U(t)
    eng.unaltered(t)
    eng.assume(n >= 0)
    isd = eng.entails(eng.inst(t, dict))
    if isd: dict_axioms(eng, t)
    def key(i):
        x = ITER(t, i)
        eng.assume(z3.Implies(z3.And(i >= 0, i < n), x != Val.absent))
        if isd: eng.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(eng.dget(t)[x] != Val.absent, DIDX(t, x) == i)))
        inv = eng.element_of.get(t.sexpr()) if eng.element_of else None
        if inv is not None: eng.assume(z3.Implies(z3.And(i >= 0, i < n), inv(i, x)))
        return T(x)
    if what == 'keys': return Seq(n, key, None, t)
    val = lambda i: T(eng.dget(t)[key(i).t])
    if what == 'values': return Seq(n, val, None, t)
    return Seq(n, lambda i: (key(i), val(i)), None, t)

def iter_(eng, v):
    if isinstance(v, Seq): return v
    if isinstance(v, Ref):
        c = eng.get(v)
        if isinstance(c, ListC):
            if c.concrete(): return CSeq(c.elems())
            if len(c.parts) == 1 and c.parts[0][0] == 'seq': return c.parts[0][1]
            if len(c.parts) == 1 and c.parts[0][0] == 'store':
                sq, st = c.parts[0][1], c.parts[0][2]
                def get(j):
                    r = eng.tv(sq.get(j))
                    for ix, x in st: r = z3.If(j == ix, eng.tv(x), r)
                    return T(r)
                return Seq(sq.n, get)
            if any(p[0] == 'opaque' for p in c.parts): raise Unsupported('iteration over a list under construction')
            return concat_seq(eng, c.parts)
        if isinstance(c, DictC):
            ks = eng.const_keys(c)
            if ks is not None: return CSeq([k for k, _ in ks])
            return dict_seq(eng, c, 'keys')
        if isinstance(c, InstC):
            return iter_(eng, eng.call_method(v, '__iter__', [], DictC()))
    if isinstance(v, T):
        t = v.t
        scal = z3.Or(Val.is_none(t), Val.is_boolv(t), Val.is_intv(t), Val.is_fltv(t))
        kinds = [eng.inst(t, dict), zor([eng.inst(t, list), eng.inst(t, tuple), eng.inst(t, set)])]
        k = eng.choose([kinds[0], zand([znot(kinds[0]), kinds[1]]), Val.is_strv(t),
                        z3.And(z3.Not(zor(kinds)), z3.Not(Val.is_strv(t)))])
        if k == 2:
            s = Val.s(t)
            return Seq(z3.Length(s), lambda i: St(z3.SubString(s, i, 1)), None, 'chars')
        if k == 3:
            if eng.branch(scal): eng.raise_(TypeError, 'not iterable')
            if not eng.branch(uf('iterable', Val, Bool)(t)): eng.raise_(TypeError, 'not iterable')
        return tseq(eng, t)
    if isinstance(v, (tuple, list, str)): return CSeq(list(v))
    if isinstance(v, (set, frozenset, dict)): return CSeq(list(v))
    if isinstance(v, St): return Seq(z3.Length(v.t), lambda i: St(z3.SubString(v.t, i, 1)), None, 'chars')
    if isinstance(v, SYMBOLIC): raise Unsupported('iteration over %r' % (v,))
    try: return CSeq(list(v))
    except TypeError as ex: raise PyRaise(eng.from_native(ex))

def concat_seq(eng, parts):
    offs, n = [], z3.IntVal(0)
    for p in parts:
        offs.append(n)
        if p[0] == 'e': n = n + 1
        elif p[0] == 'seq' and p[1].guard is None: n = n + p[1].n
        else: raise Unsupported('iteration over a list of this shape')
    def get(j):
        r = None
        for p, o in reversed(list(zip(parts, offs))):
            t = eng.tv(p[1] if p[0] == 'e' else p[1].get(j - o))
            r = t if r is None else z3.If(j < o + (1 if p[0] == 'e' else p[1].n), t, r)
        return T(r)
    return Seq(z3.simplify(n), get)

def dict_seq(eng, c, what):
    """iterate over a dict that is an unmodified copy of a symbolic dict, or has an abstract key sequence"""
    if not c.log and c.base is not None and not isinstance(c.base, Opaque):
        a = c.base
        if z3.is_app(a) and a.decl().eq(DGET):
            return tseq(eng, a.arg(0), what)
    if c.base is None and len(c.log) == 1 and isinstance(c.log[0], Writes):
        w = c.log[0]
        # a dict built by a loop: in general keys may coincide; only without duplicates this is the sequence
        keys_distinct = eng.data.get('distinct_ok')
        k = eng.fresh('dup', Bool)
        a, b = z3.Int('a!q'), z3.Int('b!q')
        cond = lambda j: zz(w.cond(j)) if w.cond else z3.BoolVal(True)
        dist = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < w.n, cond(a), cond(b)), eng.tv(w.key(a)) != eng.tv(w.key(b))))
        s = z3.Solver(); s.set('timeout', 3000)
        for x in eng.pc + eng.facts: s.add(x)
        x_, y_ = z3.Int('x!q'), z3.Int('y!q')
        s.add(0 <= x_, x_ < y_, y_ < w.n, cond(x_), cond(y_), eng.tv(w.key(x_)) == eng.tv(w.key(y_)))
        if s.check() == z3.unsat:
            eng.data.setdefault('distinct', {})[id(w)] = w
            get = {'keys': w.key, 'values': w.val, 'items': lambda i: (w.key(i), w.val(i))}[what]
            return Seq(w.n, get, w.cond)
    # unknown order and number: an abstract sequence of exactly the keys
    try: a = eng.arr_of(c)
    except Unsupported: raise Unsupported('iteration over a dict of this shape')
    t = MKDICT(a)
    eng.assume(uf('isinstance:' + E.tname(dict), Val, Bool)(t)); eng.inst(t, dict); eng.assume(Val.is_ref(t))
    return tseq(eng, t, what)

def counted(eng, sq):
    """the number of elements of a sequence of which some are left out"""
    m, j = eng.fresh('count', Int), z3.Int('j!c')
    eng.assume(z3.And(m >= 0, m <= sq.n))
    eng.fact((m == 0) == z3.Not(z3.Exists([j], z3.And(0 <= j, j < sq.n, zz(sq.guard(j))))))
    return I(m)

def len_(eng, v):
    if isinstance(v, Rope):
        raise Unsupported('length of a formatted string')
    if isinstance(v, St): return I(z3.Length(v.t))
    if isinstance(v, Ref):
        c = eng.get(v)
        if isinstance(c, ListC):
            if c.kind == 'set' and not (c.concrete() and len(c.parts) <= 1):
                n = eng.fresh('setlen', Int); eng.assume(n >= 0); 
                if c.concrete() and c.parts: eng.assume(n >= 1)
                if not c.concrete() and len(c.parts) == 1 and c.parts[0][0] == 'seq' and c.parts[0][1].guard is None:
                    eng.assume((n == 0) == (c.parts[0][1].n <= 0))
                return I(n)
            n = 0
            for p in c.parts:
                if p[0] == 'e': n = n + 1
                elif p[0] in ('seq', 'store'):
                    if p[0] == 'seq' and p[1].guard is not None: n = n + counted(eng, p[1]).t
                    else: n = n + p[1].n
                else: raise Unsupported('length of a list under construction')
            return n if isinstance(n, int) else (n.as_long() if z3.is_int_value(z3.simplify(n)) else I(z3.simplify(n)))
        if isinstance(c, DictC):
            ks = eng.const_keys(c)
            if ks is not None: return len(ks)
            sq = dict_seq(eng, c, 'keys')
            return len_(eng, sq) if sq.guard is None else counted(eng, sq)
        return eng.call_method(v, '__len__', [], DictC())
    if isinstance(v, T):
        t = v.t
        eng.unaltered(t)
        if eng.entails(zor([eng.inst(t, k) for k in (dict, list, tuple, set)])):
            eng.assume(LEN_U(t) >= 0); return I(LEN_U(t))
        scal = z3.Or(Val.is_none(t), Val.is_boolv(t), Val.is_intv(t), Val.is_fltv(t))
        k = eng.choose([Val.is_strv(t), scal, z3.And(Val.is_ref(t), z3.Not(Val.is_strv(t)))])
        if k == 0: return I(z3.Length(Val.s(t)))
        if k == 1: eng.raise_(TypeError, 'object has no len()')
        cont = zor([eng.inst(t, k) for k in (dict, list, tuple, set)])
        if not eng.branch(zor([cont, uf('sized', Val, Bool)(t)])): eng.raise_(TypeError, 'object has no len()')
        eng.assume(LEN_U(t) >= 0)
        return I(LEN_U(t))
    if isinstance(v, Seq):
        if v.guard is None: return v.n if isinstance(v.n, int) else I(v.n)
    if isinstance(v, SYMBOLIC): raise Unsupported('len of %r' % (v,))
    return eng.native(lambda: len(v))

# ------------------------------------------------------------- strings
def str_concat(eng, parts):
    parts = [p for p in parts if p != ''] if not any(isinstance(p, SYMBOLIC) for p in parts) else [p for p in parts if isinstance(p, SYMBOLIC) or p != '']
    if not parts: return ''
    if all(isinstance(p, str) for p in parts): return ''.join(parts)
    if all(isinstance(p, (str, Rope)) for p in parts):
        segs = []
        for p in parts: segs += [p] if isinstance(p, str) else list(p.segs)
        return Rope(segs)
    ts = [eng.sterm(p) for p in parts]
    return St(z3.simplify(z3.Concat(*ts))) if len(ts) > 1 else St(ts[0])

def format_(eng, v, spec=None):
    if spec in (None, ''): return str_(eng, v)
    if not isinstance(v, SYMBOLIC): return eng.native(lambda: format(v, spec))
    if isinstance(v, T) and eng.entails(Val.is_intv(v.t)): v = I(Val.i(v.t))
    if isinstance(v, I) and isinstance(spec, str):
        m = __import__('re').fullmatch(r'0(\d+)d?', spec)
        if m:
            w = int(m.group(1))
            if eng.entails(z3.And(v.t >= 0, v.t < 10 ** w)): return Rope([('d', w, v.t)])
            if eng.entails(v.t >= 0): raise Unsupported('formatted number may be wider than its field')
        raise Unsupported('format spec %r' % spec)
    if isinstance(v, (Rope, St)) and spec == 's': return v
    return St(uf('format:' + str(spec), Val, Str)(eng.tv(v)))

def str_(eng, v):
    if isinstance(v, (str, St, Rope)): return v
    if isinstance(v, T):
        t = v.t
        if z3.is_app(t) and t.decl().name() == 'strv': return St(t.arg(0))
        eng.assume(z3.Implies(Val.is_strv(t), STRV(t) == Val.s(t)))
        return St(STRV(t))
    if isinstance(v, Ref):
        c = eng.get(v)
        if isinstance(c, InstC) and c.cls is not None and issubclass(c.cls, BaseException):
            a = c.attrs.get('args', ())
            if isinstance(a, tuple) and len(a) == 1 and c.cls is not KeyError: return str_(eng, a[0])
        if isinstance(c, InstC) and c.lazy is not None:
            r = c.lazy(eng, v, '__str__')
            if r is not MISSING: return r
        try: return St(STRV(eng.tv(v)))
        except Unsupported: return St(eng.fresh('str', Str))
    if isinstance(v, I):
        return St(z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.t))))
    if isinstance(v, SYMBOLIC):
        try: return St(STRV(eng.tv(v)))
        except Unsupported: return St(eng.fresh('str', Str))
    return eng.native(lambda: str(v))

def repr_(eng, v):
    if not isinstance(v, SYMBOLIC): return eng.native(lambda: repr(v))
    try: return St(uf('repr', Val, Str)(eng.tv(v)))
    except Unsupported: return St(eng.fresh('repr', Str))

def str_format(eng, tmpl, args, kw):
    if not isinstance(tmpl, str):
        if isinstance(tmpl, Rope) and not any(isinstance(s, tuple) for s in tmpl.segs): tmpl = ''.join(tmpl.segs)
        else:
            return St(eng.fresh('formatted', Str))
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        if lit: out.append(lit)
        if field is None: continue
        if field == '':
            i = auto; auto += 1
        elif field.isdigit(): i = int(field)
        else: i = field
        if isinstance(i, int):
            if i >= len(args): eng.raise_(IndexError, 'Replacement index out of range')
            v = args[i]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == '*': raise Unsupported('* in format')
        else:
            v = eng.dict_find(kw, i)
            if v is None: eng.raise_(KeyError, i)
        if conv == 'r': v = repr_(eng, v)
        out.append(format_(eng, v, spec))
    return str_concat(eng, out)

def percent(eng, tmpl, b):
    if not isinstance(tmpl, str): return St(eng.fresh('formatted', Str))
    args = list(b) if isinstance(b, tuple) else (eng.get(b).elems() if isinstance(b, Ref) and isinstance(eng.get(b), ListC) and eng.get(b).kind == 'tuple' and eng.get(b).concrete() else [b])
    out, k = [], 0
    import re
    for piece in re.split(r'(%[sdr%])', tmpl):
        if piece == '%%': out.append('%')
        elif piece in ('%s', '%d', '%r'):
            if k >= len(args): eng.raise_(TypeError, 'not enough arguments for format string')
            out.append(repr_(eng, args[k]) if piece == '%r' else str_(eng, args[k])); k += 1
        else: out.append(piece)
    return str_concat(eng, out)

SEPS = ('-', '_')
def sfun(eng, name, s, *consts):
    """uninterpreted string function with the listed library facts"""
    r = uf('str.' + name + ''.join('|%r' % (c,) for c in consts), Str, Str)(s)
    return r

def keeps_chars(eng, r, s, extra=''):
    """every character of r that is not a letter is one of s or of extra"""
    for c in SEPS:
        if c not in extra: eng.assume(z3.Implies(z3.Not(z3.Contains(s, c)), z3.Not(z3.Contains(r, c))))

def str_method(eng, o, name, args, kw):
    s = eng.sterm(o)
    if name == 'format': return str_format(eng, o, args, kw)
    if isinstance(o, str) and not any(eng.symbolic_deep(a) for a in args) and name != 'join': return eng.native(lambda: getattr(o, name)(*args, **dict(eng.const_keys(kw))))
    if name in ('lower', 'upper', 'title', 'strip', 'capitalize', 'casefold', 'swapcase') and not args:
        if isinstance(o, Rope) and name in ('lower', 'upper'):
            return Rope([getattr(x, name)() if isinstance(x, str) else x for x in o.segs])
        r = sfun(eng, name, s)
        if name in ('lower', 'upper', 'title', 'capitalize', 'swapcase'):
            for c in SEPS: eng.assume(z3.Contains(r, c) == z3.Contains(s, c))
            eng.assume((z3.Length(r) == 0) == (z3.Length(s) == 0))
        else: keeps_chars(eng, r, s)
        if name in ('lower', 'upper'):
            # idempotent, and distributing over first character and rest (assumed of str)
            f = lambda x: uf('str.' + name, Str, Str)(x)
            eng.assume(f(r) == r)
            eng.assume(f(z3.StringVal('')) == z3.StringVal(''))
        return St(r)
    if name in ('startswith', 'endswith') and len(args) == 1:
        if isinstance(o, Rope) and isinstance(args[0], str): return rope_fix(eng, o, name, args[0])
        a = args[0]
        if isinstance(a, tuple): return B(zor([zz_(str_method(eng, o, name, [x], kw)) for x in a]))
        at = eng.sterm(a)
        if at is None: eng.raise_(TypeError, name)
        return B(z3.PrefixOf(at, s) if name == 'startswith' else z3.SuffixOf(at, s))
    if name == 'removeprefix' and len(args) == 1:
        at = eng.sterm(args[0])
        return St(z3.If(z3.PrefixOf(at, s), z3.SubString(s, z3.Length(at), z3.Length(s) - z3.Length(at)), s))
    if name == 'replace' and len(args) == 2:
        if isinstance(o, Rope) or isinstance(o, str) and isinstance(args[0], str) and isinstance(args[1], Rope):
            return rope_replace(eng, o if isinstance(o, Rope) else Rope([o]), args[0], args[1])
        if isinstance(args[0], str) and isinstance(args[1], str):
            a, b = args
            r = sfun(eng, name, s, a, b)
            if len(a) == 1 and a not in b: eng.assume(z3.Not(z3.Contains(r, a)))
            keeps_chars(eng, r, s, b)
            eng.assume(z3.Implies(z3.Not(z3.Contains(s, a)), r == s))
            if len(a) == 1 and len(b) == 1: eng.assume(z3.Length(r) == z3.Length(s))
            eng.data.setdefault('replaced', []).append((r, s, a, b))
            return St(r)
        at, bt = eng.sterm(args[0]), eng.sterm(args[1])
        if at is not None and bt is not None: return St(uf('str.replace_with', E.Str, E.Str, E.Str, E.Str)(s, at, bt))
        if any(isinstance(x, (Rope,)) for x in args): raise Unsupported('replace with a formatted string')
        ta, tb = eng.sterm(args[0]), eng.sterm(args[1])
        r = uf('str.replace', Str, Str, Str, Str)(s, ta, tb)
        eng.assume(z3.Implies(z3.Not(z3.Contains(s, ta)), r == s))
        return St(r)
    if name == 'split' and len(args) <= 2:
        if isinstance(o, Rope): return rope_split(eng, o, args)
        if len(args) == 1 and isinstance(args[0], str) and args[0]:
            sep = args[0]
            n = uf('str.split#|%r' % sep, Str, Int)(s)
            item = uf('str.split@|%r' % sep, Str, Int, Str)
            eng.assume(n >= 1)
            eng.assume((n == 1) == z3.Not(z3.Contains(s, sep)))
            eng.assume(z3.Implies(n == 1, item(s, z3.IntVal(0)) == s))
            def get(i):
                x = item(s, i)
                eng.assume(z3.Not(z3.Contains(x, sep)))
                keeps_chars(eng, x, s)
                return St(x)
            return eng.mkseq(Seq(n, get, None, ('split', s, sep)), 'list')
        if len(args) == 2 and isinstance(args[0], str) and args[0] and args[1] == 1:
            sep = args[0]
            if not eng.branch(z3.Contains(s, sep)): return eng.mklist([o])
            at = z3.IndexOf(s, sep, 0)
            a, b = St(z3.SubString(s, 0, at)), St(z3.SubString(s, at + len(sep), z3.Length(s) - at - len(sep)))
            eng.assume(z3.Not(z3.Contains(a.t, sep)))
            return eng.mklist([a, b])
        raise Unsupported('split')
    if name in ('rsplit', 'partition', 'rpartition', 'splitlines'): 
        if isinstance(o, Rope) and name == 'partition': return rope_partition(eng, o, args[0])
        raise Unsupported('str.' + name)
    if name in ('lstrip', 'rstrip') and all(isinstance(a, str) for a in args):
        r = sfun(eng, name, s, *args)
        keeps_chars(eng, r, s)
        return St(r)
    if name == 'join' and len(args) == 1:
        v = args[0]
        if isinstance(v, Ref) and isinstance(eng.get(v), ListC) and eng.get(v).concrete(): v = eng.get(v).elems()
        if isinstance(v, (list, tuple)):
            out = []
            for k, x in enumerate(v):
                if k: out.append(o)
                if isinstance(x, T):
                    xs = eng.sterm(x)
                    if xs is None: eng.raise_(TypeError, 'expected str instance')
                    x = St(xs)
                if not isinstance(x, (str, St, Rope)): eng.raise_(TypeError, 'expected str instance')
                out.append(x)
            return str_concat(eng, out)
        sq = iter_(eng, v)
        j = z3.Int('j!s')
        r = eng.fresh('joined', Str)
        x = sq.get(j) if not isinstance(sq.n, int) else None
        if x is not None:
            try: xt = Val.s(eng.tv(x)) if isinstance(x, T) else eng.sterm(x)
            except Unsupported: return St(r)
            for c in SEPS:
                if c in (o if isinstance(o, str) else SEPS): continue
                w = eng.fresh('w', Int)
                xw = sq.get(w); xw = Val.s(xw.t) if isinstance(xw, T) else eng.sterm(xw)
                eng.assume(z3.Implies(z3.Contains(r, c), z3.And(0 <= w, w < sq.n, z3.Contains(xw, c))))
            eng.data.setdefault('joined', []).append((r, o, sq))
        return St(r)
    if name in ('isdigit', 'isalpha', 'isupper', 'islower', 'isidentifier', 'isspace', 'isnumeric', 'isalnum'):
        return B(uf('str.' + name, Str, Bool)(s))
    if name == 'encode':
        return eng.call_unknown(Tm('str.encode'), [o] + args, kw)
    if name in ('find', 'index', 'count', 'rfind'):
        at = eng.sterm(args[0])
        if name == 'find' and len(args) == 1: return I(z3.IndexOf(s, at, 0))
        if name == 'count' and len(args) == 1:
            r = uf('str.count', Str, Str, Int)(s, at)
            eng.assume(z3.And(r >= 0, (r == 0) == z3.Not(z3.Contains(s, at)))); return I(r)
        raise Unsupported('str.' + name)
    if name == '__getitem__': return eng.getitem(o, args[0])
    if name == '__contains__': return B(zz(eng.contains(o, args[0])))
    if name == '__len__': return eng.len_(o)
    if name == 'isoformat': raise Unsupported(name)
    raise Unsupported('str.' + name)

def zz_(v): return v.t if isinstance(v, B) else z3.BoolVal(bool(v))

# ---- ropes -------------------------------------------------------------------
def rope_eq(eng, a, b):
    if isinstance(b, str): b = Rope([b])
    if len(a.segs) == len(b.segs) and all((isinstance(x, str) and x == y) or (not isinstance(x, str) and not isinstance(y, str) and x[1] == y[1]) for x, y in zip(a.segs, b.segs)):
        return zand([x[2] == y[2] for x, y in zip(a.segs, b.segs) if not isinstance(x, str)])
    # expand to characters: literals against fields
    def width(r): return sum(len(s) if isinstance(s, str) else s[1] for s in r.segs)
    if width(a) != width(b): return False
    ca, cb = rope_chars(a), rope_chars(b)
    out = []
    for x, y in zip(ca, cb):
        if isinstance(x, str) and isinstance(y, str):
            if x != y: return False
        elif isinstance(x, str) or isinstance(y, str):
            c, d = (x, y) if isinstance(x, str) else (y, x)
            if not c.isdigit(): return False
            out.append(digit(d) == int(c))
        else: out.append(digit(x) == digit(y))
    return zand(out)

def rope_chars(r):
    out = []
    for s in r.segs:
        if isinstance(s, str): out += list(s)
        else: out += [(s[1], k, s[2]) for k in range(s[1])]
    return out

def digit(d):
    w, k, t = d
    return (t / (10 ** (w - 1 - k))) % 10

def rope_contains(eng, c, x):
    if isinstance(x, Rope):
        if all(isinstance(s, str) for s in x.segs): x = ''.join(x.segs)
        else: raise Unsupported('membership of a formatted string')
    if isinstance(c, str): c = Rope([c])
    if len(x) == 1 and not x.isdigit(): return any(isinstance(s, str) and x in s for s in c.segs)
    if all(isinstance(s, str) for s in c.segs): return x in ''.join(c.segs)
    if not any(ch.isdigit() for ch in x): return any(isinstance(s, str) and x in s for s in c.segs)
    raise Unsupported('digits in a formatted string')

def rope_item(eng, o, k):
    if isinstance(o, str): raise Unsupported('symbolic index into a string')
    ch = rope_chars(o)
    if isinstance(k, tuple) and k and k[0] == 'slice':
        if any(isinstance(x, SYMBOLIC) for x in k[1:]): raise Unsupported('symbolic slice of a formatted string')
        return rope_from(ch[slice(*k[1:])])
    if not isinstance(k, int): raise Unsupported('symbolic index of a formatted string')
    if not -len(ch) <= k < len(ch): eng.raise_(IndexError, 'string index out of range')
    return rope_from([ch[k]])

def rope_from(ch):
    segs, i = [], 0
    while i < len(ch):
        c = ch[i]
        if isinstance(c, str): segs.append(c); i += 1; continue
        w, k, t = c
        j = i
        while j + 1 < len(ch) and not isinstance(ch[j + 1], str) and ch[j + 1][2] is t and ch[j + 1][1] == ch[j][1] + 1: j += 1
        n = j - i + 1
        if n == w: segs.append(('d', w, t))
        else:
            last = ch[j][1]
            segs.append(('d', n, z3.simplify((t / (10 ** (w - 1 - last))) % (10 ** n))))
        i = j + 1
    r = Rope(segs)
    if all(isinstance(s, str) for s in r.segs): return ''.join(r.segs)
    return r

def rope_fix(eng, o, name, a):
    ch = rope_chars(o)
    part = ch[:len(a)] if name == 'startswith' else ch[len(ch) - len(a):]
    if len(part) != len(a): return False
    r = rope_from(part)
    q = r == a if isinstance(r, str) else rope_eq(eng, r, a)
    return q if isinstance(q, bool) else B(q)

def rope_replace(eng, o, a, b):
    if isinstance(a, Rope):
        # obj.replace(frac, frac[:k]): the searched text is a part of the rope, anchored by its first literal
        if not a.segs or not isinstance(a.segs[0], str): raise Unsupported('replace of a digit field')
        ach, och = rope_chars(a), rope_chars(o)
        n = len(ach)
        hits = [p for p in range(len(och) - n + 1) if all(_samech(x, y) for x, y in zip(och[p:p + n], ach))]
        maybe = [p for p in range(len(och) - n + 1) if all(_maych(x, y) for x, y in zip(och[p:p + n], ach))]
        if len(hits) == 1 and maybe == hits:
            bch = rope_chars(b) if isinstance(b, Rope) else list(b)
            return rope_from(och[:hits[0]] + bch + och[hits[0] + n:])
        raise Unsupported('replace in a formatted string')
    if not isinstance(a, str) or not isinstance(b, (str, Rope)): raise Unsupported('replace')
    if any(c.isdigit() for c in a): raise Unsupported('replace of digits in a formatted string')
    segs = []
    for s in o.segs:
        if isinstance(s, str):
            ps = s.split(a)
            for k, x in enumerate(ps):
                if k: segs += [b] if isinstance(b, str) else list(b.segs)
                segs.append(x)
        else: segs.append(s)
    r = Rope([s for s in segs if s != ''])
    return ''.join(r.segs) if all(isinstance(s, str) for s in r.segs) else r

def _samech(x, y):
    if isinstance(x, str) or isinstance(y, str): return x == y if isinstance(x, str) and isinstance(y, str) else False
    return x[0] == y[0] and x[1] == y[1] and x[2].eq(y[2])
def _maych(x, y):
    if isinstance(x, str) and isinstance(y, str): return x == y
    if isinstance(x, str): return x.isdigit()
    if isinstance(y, str): return y.isdigit()
    return True

def rope_split(eng, o, args):
    if not args or not isinstance(args[0], str) or any(c.isdigit() for c in args[0]) or not args[0]: raise Unsupported('split of a formatted string')
    sep = args[0]
    lim = args[1] if len(args) > 1 else -1
    out, cur, cnt = [], [], 0
    for s in o.segs:
        if not isinstance(s, str): cur.append(s); continue
        ps = s.split(sep) if lim < 0 else s.split(sep, max(lim - cnt, 0))
        for k, x in enumerate(ps):
            if k: out.append(cur); cur = []; cnt += 1
            cur.append(x)
    out.append(cur)
    return eng.mklist([_simp_rope(Rope(c)) for c in out])

def rope_partition(eng, o, sep):
    r = eng.get(rope_split(eng, o, [sep, 1])).elems()
    if len(r) == 1: return eng.mklist([r[0], '', ''], 'tuple')
    return eng.mklist([r[0], sep, r[1]], 'tuple')

def _simp_rope(r):
    if all(isinstance(s, str) for s in r.segs): return ''.join(r.segs)
    return r

# ------------------------------------------------------------- methods
def call_method(eng, o, name, args, kw):
    if isinstance(o, (St, Rope)): return str_method(eng, o, name, args, kw)
    if isinstance(o, str) and name in E.Engine.STR_METHODS:
        if name == 'join' or any(eng.symbolic_deep(a) for a in args) or kw.log or kw.base is not None: return str_method(eng, o, name, args, kw)
    if isinstance(o, Seq):
        raise Unsupported('method %s of an iterator' % name)
    if isinstance(o, Ref):
        c = eng.get(o)
        if isinstance(c, DictC): return dict_method(eng, o, c, name, args, kw)
        if isinstance(c, ListC): return list_method(eng, o, c, name, args, kw)
        h = eng.method_models.get((c.cls, name)) if c.cls else None
        if h is not None: return h(eng, o, args, kw)
        v = eng.inst_attr(o, c, name)
        if v is MISSING: eng.raise_(AttributeError, name)
        if isinstance(v, Bound) and v.fn is None and v.name == name:
            return eng.builtin_method(o, c.cls, name, args, kw)
        return eng.call(v, args, kw)
    if isinstance(o, T): return t_method(eng, o, name, args, kw)
    if isinstance(o, Bound): # super()
        raise Unsupported('super')
    if isinstance(o, I) and name == 'bit_length': raise Unsupported(name)
    if isinstance(o, SYMBOLIC): raise Unsupported('method %s of %r' % (name, o))
    if isinstance(o, (list, dict, set)) and not hasattr(o, '__self__'):
        if name in ('append', 'extend', 'insert', 'pop', 'update', 'clear', 'setdefault', 'add', 'remove', 'discard', '__setitem__'):
            eng.events.append(('mutate', const_term(o), name, tuple(args), list(eng.loops))); eng.note('mutation of a global')
            return None
        if isinstance(o, dict) and name == 'get' and any(eng.symbolic_deep(a) for a in args):
            for k in o:
                if eng.branch(eng.eq(k, args[0])): return o[k]
            return args[1] if len(args) > 1 else None
    fn = eng.getattr_(o, name)
    h = eng.method_models.get(name + '@' + getattr(o, '__name__', type(o).__name__))
    if h is not None: return h(eng, o, args, kw)
    return eng.call(fn, args, kw)

def t_method(eng, o, name, args, kw):
    t = o.t
    h = eng.method_models.get(name)
    if h is not None:
        r = h(eng, o, args, kw)
        if r is not NotImplemented: return r
    if name == 'decode' and eng.entails(eng.inst(t, bytes)):
        enc = args[0] if args else eng.dict_find(kw, 'encoding')
        et = eng.tv(enc if enc is not None else 'utf-8')
        if eng.branch(uf('decodable', Val, Val, Bool)(t, et), free=True): return St(uf('decoded', Val, Val, E.Str)(t, et))
        raise PyRaise(eng.unknown_exc('decode_error', UnicodeDecodeError))
    if name == 'format' or name in ('startswith', 'endswith', 'lower', 'upper', 'split', 'replace', 'lstrip', 'rstrip', 'strip', 'title', 'join', 'removeprefix', 'isidentifier'):
        if eng.branch(Val.is_strv(t)): return str_method(eng, St(Val.s(t)), name, args, kw)
    if name == 'copy' and not args:
        for k in (list, set):
            if eng.entails(eng.inst(t, k)): return eng.alloc(E.ListC([('seq', tseq(eng, t))], k.__name__))
    if name in ('get', 'items', 'keys', 'values', 'copy', '__getitem__', '__contains__', 'pop', 'setdefault', 'update', 'popitem', 'clear'):
        if eng.branch(eng.inst(t, dict)):
            eng.unaltered(t)
            if name == 'get':
                a = z3.simplify(eng.dget(t)[eng.tv(args[0])])
                d = args[1] if len(args) > 1 else None
                if eng.entails(a != Val.absent): return T(a)
                if isinstance(d, (T, type(None), bool, str, int, type)): return T(z3.If(a == Val.absent, eng.tv(d), a))
                return d if eng.branch(a == Val.absent) else T(a)
            if name in ('items', 'keys', 'values'): return tseq(eng, t, name)
            if name == 'copy': return eng.mkdict((), base=eng.dget(t))
            if name == '__contains__': return B(eng.dget(t)[eng.tv(args[0])] != Val.absent)
            if name == '__getitem__': return eng.getitem(o, args[0])
            eng.events.append(('mutate', t, name, tuple(args), list(eng.loops))); eng.note('mutation of a value that is not local')
            a = eng.dget(t)[eng.tv(args[0])] if args else None
            if name == 'pop':
                d = args[1] if len(args) > 1 else MISSING
                if eng.branch(a == Val.absent):
                    if d is MISSING: eng.raise_(KeyError, args[0])
                    return d
                return T(a)
            if name == 'setdefault':
                return T(z3.If(a == Val.absent, eng.tv(args[1] if len(args) > 1 else None), a))
            return None
    if name in ('append', 'extend', 'insert', 'remove', 'sort', 'reverse', 'add', 'discard'):
        eng.events.append(('mutate', t, name, tuple(args), list(eng.loops))); eng.note('mutation of a value that is not local')
        return None
    scal = z3.Or(Val.is_none(t), Val.is_boolv(t), Val.is_intv(t), Val.is_fltv(t), Val.is_strv(t))
    if not eng.branch(eng.has_attr(t, name)): eng.raise_(AttributeError, name)
    if eng.branch(scal): raise Unsupported('method %s of a scalar' % name)
    return eng.call_unknown(T(uf('bound:' + name, Val, Val)(t)), args, kw)

def dict_method(eng, o, c, name, args, kw):
    if name == 'get':
        d = args[1] if len(args) > 1 else (eng.dict_find(kw, 'default') if kw.log else None)
        if isinstance(d, (type(None), bool, int, str, T, B, I, St)) and not isinstance(c.base, Opaque) and c.base is not None \
                and not any(isinstance(e, Writes) for e in c.log) and not isinstance(args[0], SYMBOLIC):
            hit = None
            for e in reversed(c.log):
                if isinstance(e[0], SYMBOLIC): hit = 0; break
                if e[0] == args[0]: hit = e; break
            if hit is None:
                a = eng.sel(c.base, eng.tv(args[0]))
                return T(z3.If(a == Val.absent, eng.tv(d), a))
        v = eng.dict_find(c, args[0])
        return v if v is not None else (args[1] if len(args) > 1 else (eng.dict_find(kw, 'default') if kw.log else None))
    if name == 'pop':
        eng.mutation(o, c, 'pop', tuple(args))
        v = eng.dict_find(c, args[0])
        if v is None:
            if len(args) > 1: return args[1]
            eng.raise_(KeyError, args[0])
        eng.put(o, DictC(c.base, c.log + ((args[0], DELETED),), c.fresh)); return v
    if name == 'setdefault':
        v = eng.dict_find(c, args[0])
        if v is not None: return v
        d = args[1] if len(args) > 1 else None
        eng.mutation(o, c, 'setdefault', tuple(args))
        eng.put(o, DictC(c.base, c.log + ((args[0], d),), c.fresh)); return d
    if name == 'update':
        eng.mutation(o, c, 'update', tuple(args))
        base, log = c.base, list(c.log)
        for x in args:
            b, l = eng.dict_parts(x)
            if b is None: log += l
            else: base, log = eng.merge(eng.arr_of(DictC(base, log)), eng.arr_of(DictC(b, l))), []
        if kw.base is not None: base, log = eng.merge(eng.arr_of(DictC(base, log)), eng.arr_of(kw)), []
        else: log += list(kw.log)
        eng.put(o, DictC(base, log, c.fresh)); return None
    if name == 'copy': return eng.alloc(DictC(c.base, c.log))
    if name in ('items', 'keys', 'values'):
        ks = eng.const_keys(c)
        if ks is not None:
            if name == 'items': return CSeq([eng_tuple(k, v) for k, v in ks])
            return CSeq([k if name == 'keys' else v for k, v in ks])
        return dict_seq(eng, c, name)
    if name == 'clear':
        eng.mutation(o, c, name, ()); eng.put(o, DictC(None, (), c.fresh)); return None
    if name == '__contains__': 
        r = eng.dict_has(c, args[0]); return r if isinstance(r, bool) else B(r)
    if name == '__getitem__': return eng.getitem(o, args[0])
    if name == '__setitem__': return eng.setitem(o, args[0], args[1])
    if name == '__len__': return len_(eng, o)
    raise Unsupported('dict.' + name)

def eng_tuple(*xs): return tuple(xs)

def list_method(eng, o, c, name, args, kw):
    if c.kind == 'set':
        if name == 'add':
            eng.mutation(o, c, 'add', tuple(args)); eng.put(o, ListC(c.parts + (('e', args[0]),), 'set', c.fresh)); return None
        if name == 'copy': return eng.alloc(ListC(c.parts, 'set'))
        if name == 'update':
            eng.mutation(o, c, name, tuple(args))
            parts = list(c.parts)
            for a in args: parts += eng.parts_of(a)
            eng.put(o, ListC(parts, 'set', c.fresh)); return None
        if name == 'union':
            parts = list(c.parts)
            for a in args: parts += eng.parts_of(a)
            return eng.alloc(ListC(parts, 'set'))
        raise Unsupported('set.' + name)
    if name == 'append':
        eng.mutation(o, c, 'append', tuple(args)); eng.put(o, ListC(c.parts + (('e', args[0]),), c.kind, c.fresh)); return None
    if name == 'extend':
        eng.mutation(o, c, 'extend', tuple(args)); eng.put(o, ListC(list(c.parts) + eng.parts_of(args[0]), c.kind, c.fresh)); return None
    if name == 'insert':
        eng.mutation(o, c, 'insert', tuple(args))
        k, v = args
        if isinstance(k, int) and k == 0: eng.put(o, ListC((('e', v),) + tuple(c.parts), c.kind, c.fresh)); return None
        if isinstance(k, int) and c.concrete():
            els = c.elems(); els.insert(k, v)
            eng.put(o, ListC([('e', x) for x in els], c.kind, c.fresh)); return None
        n = eng.len_(o); n = z3.IntVal(n) if isinstance(n, int) else n.t
        kt = eng.num(k); kt = z3.IntVal(kt) if isinstance(kt, int) else kt
        if eng.branch(kt >= n): eng.put(o, ListC(c.parts + (('e', v),), c.kind, c.fresh)); return None
        if eng.branch(kt == 0): eng.put(o, ListC((('e', v),) + tuple(c.parts), c.kind, c.fresh)); return None
        raise Unsupported('insert in the middle')
    if name == 'copy': return eng.alloc(ListC(c.parts, c.kind))
    if name == 'pop':
        if c.concrete() and all(isinstance(a, int) for a in args):
            els = c.elems()
            if not els: eng.raise_(IndexError, 'pop from empty list')
            eng.mutation(o, c, 'pop', tuple(args))
            v = els.pop(*args); eng.put(o, ListC([('e', x) for x in els], c.kind, c.fresh)); return v
        raise Unsupported('pop')
    if name == '__getitem__': return eng.getitem(o, args[0])
    if name == '__len__': return len_(eng, o)
    if name == '__contains__': return B(zz(eng.contains(o, args[0])))
    if name == 'index' and c.concrete():
        for k, x in enumerate(c.elems()):
            if eng.branch(eng.eq(x, args[0])): return k
        eng.raise_(ValueError, 'not in list')
    if name == 'reverse' and c.concrete():
        eng.put(o, ListC([('e', x) for x in reversed(c.elems())], c.kind, c.fresh)); return None
    raise Unsupported('%s.%s' % (c.kind, name))

# ------------------------------------------------------------- functions
_models = {}
def model(f):
    def deco(h):
        _models[id(f)] = (h, f)
        return h
    return deco
def lookup(f):
    m = _models.get(id(f))
    return m[0] if m else None

PURE = {len, repr, str, int, float, bool, tuple, list, dict, set, frozenset, isinstance, issubclass, hasattr, getattr, min, max, abs,
        sum, sorted, any, all, hash, callable, range, enumerate, zip, reversed, ord, chr, round, divmod, format, type, id, iter, next}
PURE_MODULES = ('re', 'typing', 'string', 'inspect', 'datetime', 'typish', 'decimal', 'uuid', 'pathlib', 'operator', 'collections', 'functools', 'itertools', 'enum', 'warnings_', '_operator')
def is_pure(f):
    try:
        if f in PURE: return True
    except TypeError: return False
    if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, (str, int, float, bytes, tuple, frozenset)): return True
    if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, (dict, list, set)) and f.__name__ in ('get', 'items', 'keys', 'values', 'copy', 'index', 'count', '__contains__', '__getitem__'): return True
    m = (getattr(f, '__module__', None) or '').split('.')[0]
    return m in PURE_MODULES

def nokw(kw): return not kw.log and kw.base is None

@model(isinstance)
def m_isinstance(eng, args, kw):
    x, c = args
    return isinst(eng, x, c)

def isinst(eng, x, c):
    if isinstance(c, Ref) and isinstance(eng.get(c), ListC): c = tuple(eng.get(c).elems())
    if isinstance(c, tuple):
        rs = [isinst(eng, x, k) for k in c]
        r = zor([q.t if isinstance(q, B) else q for q in rs])
        return r if isinstance(r, bool) else B(r)
    if isinstance(c, T):
        if not eng.branch(zor([eng.inst(c.t, type), uf('is_runtime_type', Val, Bool)(c.t)])): eng.raise_(TypeError, 'isinstance() arg 2 must be a type')
        xt = eng.tv(x)
        f = uf('isinstance', Val, Val, Bool)(xt, c.t)
        return B(f)
    if isinstance(c, Ref):
        ct = eng.ref_term(c)
        return B(uf('isinstance', Val, Val, Bool)(eng.tv(x), ct))
    if not isinstance(x, SYMBOLIC): return eng.native(lambda: isinstance(x, c))
    if isinstance(x, Clo): return eng.native(lambda: isinstance(lambda: 0, c))
    if isinstance(x, (Model,)): return eng.native(lambda: isinstance(len, c))
    if isinstance(x, Seq): return eng.native(lambda: isinstance(iter([]), c))
    ex = {B: True, I: 1, R: 1.0, St: '', Rope: ''}.get(type(x), MISSING)
    if ex is not MISSING: return eng.native(lambda: isinstance(ex, c))
    if isinstance(x, Ref):
        k = eng.get(x)
        if isinstance(k, (ListC, DictC)): return eng.native(lambda: isinstance({'list': [], 'tuple': (), 'set': set(), 'dict': {}}[k.kind], c))
        if k.cls is not None:
            if k.attrs.get('__class_like__'): return eng.native(lambda: isinstance(k.cls, c))
            return eng.native(lambda: issubclass(k.cls, c))
        return B(eng.inst(eng.ref_term(x), c))
    if not isinstance(c, type):
        try: isinstance(None, c)
        except TypeError as ex: raise PyRaise(eng.from_native(ex))
        o = typing.get_origin(c) or c
        if isinstance(o, type): c = o
        else: return B(uf('isinstance', Val, Val, Bool)(eng.tv(x), const_term(c)))
    return B(z3.simplify(eng.inst(x.t, c)))

@model(issubclass)
def m_issubclass(eng, args, kw):
    a, b = args
    if isinstance(b, Ref) and isinstance(eng.get(b), ListC): b = tuple(eng.get(b).elems())
    if isinstance(b, tuple):
        r = zor([q.t if isinstance(q, B) else q for q in [m_issubclass(eng, [a, k], kw) for k in b]])
        return r if isinstance(r, bool) else B(r)
    if not isinstance(a, SYMBOLIC) and not isinstance(b, SYMBOLIC): return eng.native(lambda: issubclass(a, b))
    ta, tb = eng.tv(a), eng.tv(b)
    for x, v in ((a, ta), (b, tb)):
        if isinstance(x, T) and not eng.branch(zor([eng.inst(v, type), uf('is_runtime_type', Val, Bool)(v)])): eng.raise_(TypeError, 'issubclass() arg must be a class')
    if isinstance(b, type):
        # type(x) of a value that is known: reduce to isinstance
        src = eng.data.get('typeof', {}).get(ta.sexpr())
        if src is not None: return B(eng.inst(src, b))
    return B(uf('issubclass', Val, Val, Bool)(ta, tb))

@model(type)
def m_type(eng, args, kw):
    if len(args) == 3:
        return eng.call_unknown(T(const_term(type)), args, kw)
    x = args[0]
    if isinstance(x, T):
        t = eng.typeof(x.t)
        eng.assume(eng.inst(t, type)); 
        eng.data.setdefault('typeof', {})[t.sexpr()] = x.t
        return T(t)
    if isinstance(x, Ref):
        c = eng.get(x)
        if isinstance(c, (ListC, DictC)): return {'list': list, 'tuple': tuple, 'set': set, 'dict': dict}[c.kind]
        return c.cls if c.cls is not None else T(eng.typeof(eng.ref_term(x)))
    k = {B: bool, I: int, R: float, St: str, Rope: str}.get(type(x))
    if k: return k
    if isinstance(x, Clo): return types.FunctionType
    if isinstance(x, SYMBOLIC): raise Unsupported('type of %r' % (x,))
    return type(x)

@model(len)
def m_len(eng, args, kw): return eng.len_(args[0])
@model(str)
def m_str(eng, args, kw):
    if not args: return ''
    return str_(eng, args[0])
@model(repr)
def m_repr(eng, args, kw): return repr_(eng, args[0])
@model(format)
def m_format(eng, args, kw): return format_(eng, args[0], args[1] if len(args) > 1 else None)
@model(bool)
def m_bool(eng, args, kw):
    if not args: return False
    b = eng.bool_(args[0]); return b if isinstance(b, bool) else B(b)
@model(callable)
def m_callable(eng, args, kw):
    x = args[0]
    if isinstance(x, T): return B(uf('callable', Val, Bool)(x.t))
    if isinstance(x, (Clo, Model, Bound)): return True
    if isinstance(x, SYMBOLIC): return False
    return callable(x)
@model(hash)
def m_hash(eng, args, kw):
    x = args[0]
    if not isinstance(x, SYMBOLIC): return eng.native(lambda: hash(x))
    t = eng.tv(x)
    if not eng.branch(uf('hashable', Val, Bool)(t)): eng.raise_(TypeError, 'unhashable')
    return I(uf('hash', Val, Int)(t))
@model(id)
def m_id(eng, args, kw):
    return I(uf('id', Val, Int)(eng.tv(args[0])))
@model(getattr)
def m_getattr(eng, args, kw):
    d = args[2] if len(args) > 2 else MISSING
    nm = args[1]
    if isinstance(nm, SYMBOLIC):
        ot = eng.tv(args[0])
        nt = eng.tv(nm)
        has = uf('hasattr_dyn', Val, Val, Bool)(ot, nt)
        if not eng.branch(has):
            if d is not MISSING: return d
            raise PyRaise(T(_attr_error(eng, ot, nt)))
        return T(uf('attr_dyn', Val, Val, Val)(ot, nt))
    if not isinstance(nm, str): eng.raise_(TypeError, 'attribute name must be string')
    return eng.getattr_(args[0], nm, d)
def _attr_error(eng, ot, nt):
    x = uf('getattr_error', Val, Val, Val)(ot, nt)
    mod = z3.is_app(ot) and ot.decl().name() == 'module'
    eng.assume(Val.is_ref(x)); eng.assume(eng.inst(x, AttributeError if mod else Exception))
    return x
@model(hasattr)
def m_hasattr(eng, args, kw):
    o, nm = args
    if isinstance(nm, SYMBOLIC): return B(uf('hasattr_dyn', Val, Val, Bool)(eng.tv(o), eng.tv(nm)))
    if isinstance(o, T): return B(z3.simplify(eng.has_attr(o.t, nm)))
    try:
        eng.getattr_(o, nm); return True
    except PyRaise as ex:
        if isinstance(ex.exc, Ref) and issubclass(eng.get(ex.exc).cls, AttributeError): return False
        raise
@model(setattr)
def m_setattr(eng, args, kw):
    o, nm, v = args
    if isinstance(nm, SYMBOLIC) or isinstance(o, T):
        ot, nt = eng.tv(o), eng.tv(nm)
        eng.events.append(('setattr', ot, nm, v, list(eng.loops)))
        if not eng.branch(uf('settable', Val, Val, Bool)(ot, nt)):
            x = uf('setattr_error', Val, Val, Val)(ot, nt)
            eng.assume(Val.is_ref(x)); eng.assume(eng.inst(x, Exception))
            raise PyRaise(T(x))
        return None
    eng.setattr_(o, nm, v)
@model(int)
def m_int(eng, args, kw):
    if not args: return 0
    x = args[0]
    if isinstance(x, I): return x
    if isinstance(x, B): return I(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, R):
        ra = eng.data.get('ratio', {}).get(x.t.sexpr())
        if ra is not None:
            a, b = ra   # int(a / b): truncation of the exact quotient (float rounding ignored)
            if eng.entails(z3.And(a >= 0, b > 0)):
                q, r = eng.fresh('quot', Int), eng.fresh('rem', Int)
                eng.assume(z3.And(a == q * b + r, 0 <= r, r < b, q >= 0, q == a / b, r == a % b))
                eng.note('int(a / b) taken as exact integer division')
                return I(q)
        return I(z3.simplify(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t))))
    if isinstance(x, Rope):
        if len(x.segs) == 1 and not isinstance(x.segs[0], str): return I(x.segs[0][2])
        ch = rope_chars(x)
        if all(not isinstance(c, str) or c.isdigit() for c in ch) and ch:
            v = z3.IntVal(0)
            for s in x.segs:
                w = len(s) if isinstance(s, str) else s[1]
                v = v * 10 ** w + (int(s) if isinstance(s, str) else s[2])
            return I(z3.simplify(v))
        if any(isinstance(c, str) and not (c.isdigit() or c in '+- _') for c in ch): eng.raise_(ValueError, 'invalid literal for int()')
        if ch and isinstance(ch[0], str) and ch[0] in '+-' and len(ch) > 1:
            v = m_int(eng, [rope_from(ch[1:])], kw)
            vt = eng.num(v)
            return eng.mknum(vt if ch[0] == '+' else -vt)
        raise Unsupported('int of a formatted string')
    if isinstance(x, SYMBOLIC): return eng.call_unknown(T(const_term(int)), args, kw)
    return eng.native(lambda: int(*args))
@model(abs)
def m_abs(eng, args, kw):
    x = eng.num(args[0]) if not isinstance(args[0], Ref) else None
    if x is None: return eng.call_method(args[0], '__abs__', [], DictC())
    return eng.mknum(z3.If(x >= 0, x, -x)) if isinstance(x, z3.ExprRef) else abs(x)
@model(divmod)
def m_divmod(eng, args, kw):
    if not any(isinstance(a, SYMBOLIC) for a in args): return eng.native(lambda: divmod(*args))
    return eng.mklist([binop(eng, 'FloorDiv', *args), binop(eng, 'Mod', *args)], 'tuple')
@model(round)
def m_round(eng, args, kw):
    if isinstance(args[0], R) and len(args) == 1:
        x = args[0].t; r = eng.fresh('round', Int)
        eng.assume(z3.And(z3.ToReal(r) - x <= z3.RealVal('1/2'), x - z3.ToReal(r) <= z3.RealVal('1/2'))); return I(r)
    if isinstance(args[0], I): return args[0]
    return eng.native(lambda: round(*args))
def _minmax(f):
    def h(eng, args, kw):
        if not any(eng.symbolic_deep(a) for a in args) and nokw(kw): return eng.native(lambda: f(*args))
        if len(args) == 1 or not nokw(kw): raise Unsupported('min/max of an iterable')
        r = eng.num(args[0])
        for a in args[1:]:
            x = eng.num(a)
            if isinstance(r, (int, float)) and isinstance(x, (int, float)): r = f(r, x)
            else: r = z3.If((x < r) if f is min else (x > r), x, r)
        return eng.mknum(r)
    return h
model(min)(_minmax(min)); model(max)(_minmax(max))
@model(sum)
def m_sum(eng, args, kw):
    if any(eng.symbolic_deep(a) for a in args): raise Unsupported('sum')
    return eng.native(lambda: sum(*args))
@model(range)
def m_range(eng, args, kw):
    if not any(isinstance(a, SYMBOLIC) for a in args): return eng.native(lambda: range(*args))
    ns = [eng.num(a) for a in args]
    ns = [z3.IntVal(x) if isinstance(x, int) else x for x in ns]
    if len(ns) == 1: lo, hi = z3.IntVal(0), ns[0]
    elif len(ns) == 2: lo, hi = ns
    else:
        lo, hi, st = ns
        if not eng.entails(st > 0): raise Unsupported('range with a step')
        k = eng.fresh('steps', Int)
        eng.assume(z3.If(hi > lo, z3.And(k >= 1, lo + (k - 1) * st < hi, lo + k * st >= hi), k == 0))
        return Seq(k, lambda i: I(z3.simplify(lo + i * st)), None, 'range')
    n = z3.simplify(z3.If(hi > lo, hi - lo, 0)) if not eng.entails(hi >= lo) else z3.simplify(hi - lo)
    return Seq(n, lambda i: I(z3.simplify(lo + i)), None, 'range')
@model(enumerate)
def m_enumerate(eng, args, kw):
    st = args[1] if len(args) > 1 else (eng.dict_find(kw, 'start') if kw.log else 0)
    st = 0 if st is None else st
    sq = iter_(eng, args[0])
    if getattr(sq, 'conc', None) is not None: return CSeq([(eng.mknum(eng.num(st) + k) if isinstance(st, SYMBOLIC) else st + k, x) for k, x in enumerate(sq.conc)])
    if sq.guard is not None: raise Unsupported('enumerate of a filtered sequence')
    s0 = eng.num(st)
    return Seq(sq.n, lambda i: (I(z3.simplify(i + s0)), sq.get(i)), None, 'enumerate')
@model(zip)
def m_zip(eng, args, kw):
    sqs = [iter_(eng, a) for a in args]
    if not sqs: return CSeq([])
    if all(getattr(s, 'conc', None) is not None for s in sqs): return CSeq(list(zip(*[s.conc for s in sqs])))
    if any(s.guard is not None for s in sqs): raise Unsupported('zip of a filtered sequence')
    n = None
    for s in sqs:
        m = z3.IntVal(s.n) if isinstance(s.n, int) else s.n
        n = m if n is None else n if eng.entails(n <= m) else m if eng.entails(m <= n) else z3.If(m < n, m, n)
    return Seq(z3.simplify(n), lambda i: tuple(s.get(i) for s in sqs), None, 'zip')
@model(reversed)
def m_reversed(eng, args, kw):
    sq = iter_(eng, args[0])
    if getattr(sq, 'conc', None) is not None: return CSeq(sq.conc[::-1])
    if sq.guard is not None: raise Unsupported('reversed')
    return Seq(sq.n, lambda i: sq.get(z3.simplify(sq.n - 1 - i)), None, 'reversed')
def _mk(kind):
    def h(eng, args, kw):
        if not args: return eng.alloc(ListC([], kind)) if kind != 'tuple' else ()
        if isinstance(args[0], tuple) and kind == 'tuple': return args[0]
        c = None
        if isinstance(args[0], Ref): c = eng.get(args[0])
        if isinstance(c, ListC) and c.kind != 'set': return eng.alloc(ListC(c.parts, kind))
        sq = iter_(eng, args[0])
        if getattr(sq, 'conc', None) is not None:
            if kind == 'tuple' and not any(isinstance(x, SYMBOLIC) for x in sq.conc): return tuple(sq.conc)
            return eng.mklist(sq.conc, kind)
        return eng.mkseq(sq, kind)
    return h
model(list)(_mk('list')); model(tuple)(_mk('tuple')); model(set)(_mk('set')); model(frozenset)(_mk('set'))
@model(iter)
def m_iter(eng, args, kw): return iter_(eng, args[0])
@model(dict)
def m_dict(eng, args, kw):
    if not args: return eng.alloc(DictC(kw.base, kw.log))
    x = args[0]
    if isinstance(x, (dict, T)) or isinstance(x, Ref) and isinstance(eng.get(x), DictC):
        b, l = eng.dict_parts(x)
        if kw.base is not None: raise Unsupported('dict(x, **y)')
        return eng.alloc(DictC(b, list(l) + list(kw.log)))
    out = eng.mkdict()
    def step(kv):
        k, v = eng.unpack(kv, 2)
        c = eng.get(out); eng.put(out, DictC(c.base, c.log + ((k, v),)))
    loop_over(eng, iter_(eng, x), step)
    for e in kw.log:
        c = eng.get(out); eng.put(out, DictC(c.base, c.log + (e,)))
    return out
def _anyall(isany):
    def h(eng, args, kw):
        sq = iter_(eng, args[0])
        if getattr(sq, 'conc', None) is not None:
            bs = [eng.bool_(x) for x in sq.conc]
            r = zor(bs) if isany else zand(bs)
            return r if isinstance(r, bool) else B(r)
        j = z3.Int('j!a'); b = eng.fresh('any' if isany else 'all', Bool); w = eng.fresh('w', Int)
        g = lambda i: z3.And(0 <= i, i < sq.n, zz(sq.guard(i)) if sq.guard else True)
        p = lambda i: zz(eng.bool_(sq.get(i)))
        if isany:
            eng.assume(z3.Implies(b, z3.And(g(w), p(w)))); eng.fact(z3.ForAll([j], z3.Implies(z3.And(g(j), p(j)), b)))
        else:
            eng.assume(z3.Implies(z3.Not(b), z3.And(g(w), z3.Not(p(w))))); eng.fact(z3.ForAll([j], z3.Implies(z3.And(g(j), b), p(j))))
        return B(b)
    return h
model(any)(_anyall(True)); model(all)(_anyall(False))
@model(map)
def m_map(eng, args, kw):
    f = args[0]
    sq = iter_(eng, args[1]) if len(args) == 2 else m_zip(eng, args[1:], DictC())
    out = eng.mklist([])
    def step(x):
        v = eng.call(f, [x] if len(args) == 2 else list(x), DictC())
        c = eng.get(out); eng.put(out, ListC(c.parts + (('e', v),)))
    loop_over(eng, sq, step)
    return out
@model(filter)
def m_filter(eng, args, kw):
    f, sq = args[0], iter_(eng, args[1])
    out = eng.mklist([])
    def step(x):
        if eng.truth(x if f is None else eng.call(f, [x], DictC())):
            c = eng.get(out); eng.put(out, ListC(c.parts + (('e', x),)))
    loop_over(eng, sq, step)
    return out
@model(next)
def m_next(eng, args, kw):
    sq = iter_(eng, args[0])
    if getattr(sq, 'conc', None) is not None:
        if sq.conc: return sq.conc[0]
        if len(args) > 1: return args[1]
        eng.raise_(StopIteration)
    j = z3.Int('j!n'); f = eng.fresh('first', Int); has = eng.fresh('has_first', Bool)
    g = lambda i: z3.And(0 <= i, i < sq.n, zz(sq.guard(i)) if sq.guard else True)
    if eng.branch(has):
        eng.assume(g(f)); eng.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < f), z3.Not(g(j)))))
        return sq.get(f)
    eng.fact(z3.ForAll([j], z3.Not(g(j))))
    if len(args) > 1: return args[1]
    eng.raise_(StopIteration)
@model(sorted)
def m_sorted(eng, args, kw):
    if any(eng.symbolic_deep(a) for a in args): raise Unsupported('sorted')
    return eng.native(lambda: sorted(*args, **dict(eng.const_keys(kw))))
import functools, contextlib
@model(functools.partial)
def m_partial(eng, args, kw):
    f, pre = args[0], args[1:]
    def h(e, a, k):
        if k.base is None: kk = DictC(kw.base, tuple(kw.log) + tuple(k.log))
        elif kw.base is None and not kw.log: kk = k
        else: kk = DictC(e.merge(e.arr_of(kw), e.arr_of(k)))
        return e.call(f, list(pre) + list(a), kk)
    return Model('partial', h)
@model(contextlib.suppress)
def m_suppress(eng, args, kw):
    return eng.alloc(InstC(E._Suppress, {'excs': tuple(args)}))
@model(print)
def m_print(eng, args, kw): return None
@model(typing.cast)
def m_cast(eng, args, kw): return args[1]
@model(super)
def m_super(eng, args, kw): raise Unsupported('super with arguments')

import typish
@model(typish.get_args)
def m_get_args(eng, args, kw):
    x = args[0]
    if not isinstance(x, SYMBOLIC): return typish.get_args(x)
    t = eng.tv(x)
    n = NGARG(t); eng.assume(n >= 0)
    g = eng.data.get('generic_of', {}).get(t.sexpr())
    if g is not None: return g
    sq = eng.data.get('generic_seq', {}).get(t.sexpr())
    if sq is not None: return eng.mkseq(sq, 'tuple')
    eng.assume(z3.Implies(z3.Not(Val.is_ref(t)), n == 0))
    def get(i):
        eng.assume(GARG(t, i) != Val.absent)
        return T(GARG(t, i))
    return eng.mkseq(Seq(n, get, None, ('args', t)), 'tuple')

import re as _re
@model(_re.sub)
def m_resub(eng, args, kw):
    pat, repl, s = args[:3]
    if not any(isinstance(a, SYMBOLIC) for a in args): return eng.native(lambda: _re.sub(*args))
    if not isinstance(pat, str) or not isinstance(repl, str): raise Unsupported('re.sub')
    st = eng.sterm(s)
    r = uf('re.sub|%r|%r' % (pat, repl), Str, Str)(st)
    lit = _re.sub(r'\\(\d|g<\w+>)', '', repl)
    keeps_chars(eng, r, st, lit)
    eng.assume((z3.Length(st) == 0) == (z3.Length(r) == 0)) if False else None
    eng.data.setdefault('resub', []).append((r, st, pat, repl))
    return St(r)

import json as _json
@model(_json.JSONDecodeError.__init__)
def m_jde_init(eng, args, kw):
    r, msg, doc, pos = args
    c = eng.get(r)
    for k, v in (('msg', msg), ('doc', doc), ('pos', pos), ('args', (T(eng.fresh('exc_message', Val)),))): c = c.with_attr(k, v)
    eng.put(r, c)
    return None

@model(_json.loads)
def m_json_loads(eng, args, kw):
    """assumed contract of json.loads for text: the decoded value, or a JSONDecodeError"""
    s = args[0]
    st = eng.tv(s)
    opts = eng.arr_of(kw)
    eng.events.append(['json.loads', st, opts, None])
    ev = eng.events[-1]
    if isinstance(s, T) and not eng.branch(z3.Or(Val.is_strv(st), eng.inst(st, bytes))): eng.raise_(TypeError, 'the JSON object must be str, bytes or bytearray')
    if eng.branch(E.uf('is_json', Val, Arr, Bool)(st, opts), free=True):
        r = E.uf('json_value', Val, Arr, Val)(st, opts)
        eng.assume(r != Val.absent); ev[3] = r
        return T(r)
    x = E.uf('json_error', Val, Arr, Val)(st, opts)
    eng.assume(Val.is_ref(x)); eng.assume(eng.inst(x, _json.JSONDecodeError))
    for a in ('doc', 'pos', 'msg'): eng.assume(E.uf('hasattr:' + a, Val, Bool)(x))
    raise E.PyRaise(T(x))

@model(_json.dumps)
def m_json_dumps(eng, args, kw):
    """json.dumps as an unknown function of its arguments"""
    v = eng.tv(args[0]); opts = eng.arr_of(kw)
    eng.events.append(['json.dumps', v, opts, args[0]])
    if eng.branch(E.uf('json_encodable', Val, Arr, Bool)(v, opts), free=True):
        return St(E.uf('json_text', Val, Arr, Str)(v, opts))
    raise E.PyRaise(eng.unknown_exc('json_dumps_error'))

@model(classmethod)
def m_classmethod(eng, args, kw):
    return eng.alloc(InstC(classmethod, {'__func__': args[0]}))
@model(staticmethod)
def m_staticmethod(eng, args, kw):
    return eng.alloc(InstC(staticmethod, {'__func__': args[0]}))
