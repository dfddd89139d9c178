"""Value domain of the verifier: z3 sorts, wrappers, interning of concrete objects."""
import types
import z3

_V = z3.Datatype('Val')
_V.declare('none')
_V.declare('absent')                      # "no such key"; never a Python value
_V.declare('boolv', ('b', z3.BoolSort()))
_V.declare('intv', ('i', z3.IntSort()))
_V.declare('strv', ('s', z3.StringSort()))
_V.declare('fltv', ('r', z3.RealSort()))
_V.declare('ref', ('id', z3.IntSort()))
Val = _V.create()
Int, Bool, Str, Real = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()
Arr = z3.ArraySort(Val, Val)
EMPTY = z3.K(Val, Val.absent)


class T:            # any Python value, as a term of sort Val
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'T(%s)' % self.t

class B:            # bool
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'B(%s)' % self.t

class I:            # int
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'I(%s)' % self.t

class R:            # float treated as a real number
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'R(%s)' % self.t

class St:           # str
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'St(%s)' % self.t

class Rope:         # str known as a sequence of literal and digit-field segments
    """segments: str | ('d', width, z3 Int): exactly `width` digits, zero padded"""
    __slots__ = ('segs',)
    def __init__(self, segs):
        out = []
        for s in segs:
            if isinstance(s, str):
                if not s: continue
                if out and isinstance(out[-1], str):
                    out[-1] += s
                    continue
            out.append(s)
        self.segs = tuple(out)
    def __repr__(self): return 'Rope%r' % (self.segs,)

class Ref:          # a heap object created by the verified code (or by a contract)
    __slots__ = ('id',)
    def __init__(self, id): self.id = id
    def __repr__(self): return 'Ref(%d)' % self.id

class Clo:          # a closure created by interpreted code
    __slots__ = ('node', 'env', 'globs', 'name', 'defaults', 'kwdefaults', 'id', 'cls')
    def __init__(self, node, env, globs, name, defaults, kwdefaults, id, cls=None):
        self.node, self.env, self.globs, self.name = node, env, globs, name
        self.defaults, self.kwdefaults, self.id, self.cls = defaults, kwdefaults, id, cls
    def __repr__(self): return 'Clo(%s)' % self.name

class Bound:        # a method bound to an object, not yet called
    __slots__ = ('obj', 'name', 'fn')
    def __init__(self, obj, name, fn=None):
        self.obj, self.name, self.fn = obj, name, fn
    def __repr__(self): return 'Bound(%r.%s)' % (self.obj, self.name)

class Model:        # a callable given by a Python handler: fn(engine, args, kwargs:DictC|dict)
    __slots__ = ('name', 'fn', 'id')
    def __init__(self, name, fn): self.name, self.fn, self.id = name, fn, None
    def __repr__(self): return 'Model(%s)' % self.name

class Seq:          # something to iterate over: n elements, element i present iff guard(i)
    # cases: how element i came about: (i, [(condition, facts, value)]), one per path through the loop body
    __slots__ = ('n', 'get', 'guard', 'what', 'cases')
    def __init__(self, n, get, guard=None, what='', cases=None):
        self.n, self.get, self.guard, self.what, self.cases = n, get, guard, what, cases
    def __repr__(self): return 'Seq(%s,%s)' % (self.n, self.what)

class Poison:       # a local of which the value after a loop is not tracked
    def __init__(self, why): self.why = why

SYMBOLIC = (T, B, I, R, St, Rope, Ref, Clo, Bound, Model, Seq, Poison)

# ---- heap contents (immutable; the heap maps Ref.id -> content) -------------

class DictC:
    """base (z3 array | None = empty) plus a log of writes, oldest first.
    log entry: (key, value) with value DELETED for a deletion, or a Writes."""
    __slots__ = ('base', 'log', 'fresh', 'kind')
    def __init__(self, base=None, log=(), fresh=True, kind='dict'):
        self.base, self.log, self.fresh, self.kind = base, tuple(log), fresh, kind

class Writes:
    """for i in 0..n-1 with cond(i): d[key(i)] = val(i), in order"""
    __slots__ = ('n', 'cond', 'key', 'val', 'inv', 'cases')
    def __init__(self, n, cond, key, val, inv=None, cases=None):
        self.n, self.cond, self.key, self.val, self.inv, self.cases = n, cond, key, val, inv, cases

DELETED = object()

class Opaque:
    """unknown earlier content of a container inside a generic loop iteration"""
    def __init__(self, of, before=None): self.of, self.before = of, before      # before: the content when the loop began

class ListC:
    """parts: ('e', sv) | ('seg', Seq) | ('opaque', Opaque); kind list|tuple|set"""
    __slots__ = ('parts', 'fresh', 'kind')
    def __init__(self, parts=(), kind='list', fresh=True):
        self.parts, self.kind, self.fresh = tuple(parts), kind, fresh
    def concrete(self):
        return all(p[0] == 'e' for p in self.parts)
    def elems(self):
        return [p[1] for p in self.parts]

class InstC:
    """an instance (or a class-like holder): concrete cls or None, attributes, parent to inherit from"""
    __slots__ = ('cls', 'attrs', 'parent', 'fresh', 'term', 'lazy')
    def __init__(self, cls, attrs=None, parent=None, fresh=True, term=None, lazy=None):
        self.cls, self.attrs, self.parent = cls, dict(attrs or {}), parent
        self.fresh, self.term, self.lazy = fresh, term, lazy
    def with_attr(self, k, v):
        a = dict(self.attrs); a[k] = v
        return InstC(self.cls, a, self.parent, self.fresh, self.term, self.lazy)

def forall(vs, body, pats):
    """universally quantified fact with a trigger if z3 accepts it (no if-then-else in triggers)"""
    def ok(t):
        st = [t]
        while st:
            a = st.pop()
            if z3.is_app_of(a, z3.Z3_OP_ITE): return False
            st += a.children()
        return True
    pats = [x for x in pats if ok(x)]
    if not pats: return z3.ForAll(vs, body)
    try: return z3.ForAll(vs, body, patterns=pats)
    except z3.Z3Exception: return z3.ForAll(vs, body)

# ---- interning --------------------------------------------------------------
_ids = {}
TOUCHED = {}        # objects mentioned on the current path, in order
_objs = []

def intern_id(o):
    try:
        k = ('h', type(o), o)
        hash(k)
    except Exception:
        k = ('i', id(o))
    if isinstance(o, (list, dict, set)) or callable(o):
        k = ('i', id(o))
        if isinstance(o, (types.BuiltinMethodType, types.MethodType)) and o.__self__ is not None:
            k = ('m', id(o.__self__), o.__name__)       # bound anew by every access
    if k not in _ids:
        _ids[k] = len(_objs)
        _objs.append(o)
    n = _ids[k]
    if n not in TOUCHED: TOUCHED[n] = True
    return n

def concrete_of(n):
    return _objs[n] if 0 <= n < len(_objs) else None

def const_term(o):
    """Val term of a concrete Python object"""
    if o is None: return Val.none
    if o is True or o is False: return Val.boolv(z3.BoolVal(o))
    if type(o) is int: return Val.intv(z3.IntVal(o))
    if type(o) is str: return Val.strv(z3.StringVal(o))
    if type(o) is float and o == o and o not in (float('inf'), float('-inf')):
        return Val.fltv(z3.RealVal(repr(o)) if 'e' not in repr(o) else z3.RealVal(str(o)))
    return Val.ref(z3.IntVal(intern_id(o)))

def kstr(s):
    return Val.strv(z3.StringVal(s))
