"""Pseudo-random types, values of those types, and JSON values."""
import string, datetime as dt, decimal, uuid, enum, pathlib, collections, dataclasses, itertools, typing, math
from typing import *
import jsons

class Spec:
    """a type, a maker of its values, and whether values are hashable / None is admitted"""
    def __init__(self, t, make, kind, hashable=False, optional=False, subs=(), flat=False):
        self.t, self.make, self.kind, self.hashable, self.optional, self.subs, self.flat = t, make, kind, hashable, optional, subs, flat
    def __repr__(self): return 'Spec(%s)' % (self.t,)

WORDS = ['a', 'b', 'name', 'my_name', 'some_long_name', 'x', 'value', 'key', 'zz', 'item_list', 'foo_bar', 'size', 'left', 'right', 'first_name', 'ids']
NASTY_KEYS = ['', '_', '-', 'self', 'cls', '__class__', '-cls', 'class', 'a-b', 'a b', 'Ab', 'é', '0', 'key', 'dump', 'json', 'load', '__dict__', '__doc__']

def word(r): return r.choice(WORDS)
def text(r, n=8):
    c = r.random()
    if c < .5: return word(r)
    if c < .6: return ''
    if c < .7: return r.choice(['2020-01-01T00:00:00Z', '2020-01-01', '12', '1.5', 'true', 'None', 'null', 'Z', 'T', '2020-13-01T00:00:00Z', '.', '-', '+', '2020-01-01T00:00:00.1234567+01:00', '10:00:00', '10:00:00.5'])
    return ''.join(r.choice(string.ascii_letters + string.digits + '_-. éß\u1234') for _ in range(r.randrange(n)))
def integer(r):
    return r.choice([0, 1, -1, 2, 7, 255, 10**12, -10**20, r.randrange(-1000, 1000), r.randrange(-10**9, 10**9)])
def floating(r):
    return r.choice([0.0, 1.0, -1.5, 3.14, 1e-9, 1e300, r.uniform(-1e6, 1e6), r.random()])
def boolean(r): return r.random() < .5
def offset(r):
    return dt.timedelta(minutes=r.choice([0, 0, 60, -60, 330, -210, 1, -1, 30, -30, 1439, -1439, 90, -90, 59, -59, r.randrange(-1439, 1440)]))
def tzone(r):
    o = offset(r)
    c = r.random()
    if c < .15: return dt.timezone.utc
    if c < .25: return dt.timezone(o, r.choice(['UTC', 'CET', 'X', 'utc']))
    return dt.timezone(o)
def micro(r): return r.choice([0, 0, 1, 10, 100, 1000, 123456, 999999, 500000, 100000, r.randrange(10**6)])
def date_(r):
    y = r.choice([1, 33, 999, 1000, 1899, 1969, 1970, 2000, 2020, 2024, 9999, r.randrange(1, 10000)])
    m = r.choice([1, 2, 12, r.randrange(1, 13)])
    return dt.date(y, m, r.choice([1, 28, r.randrange(1, 29)]))
def time_(r): return dt.time(r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)]), micro(r))
def datetime_(r): return dt.datetime.combine(date_(r), time_(r)).replace(tzinfo=tzone(r))
def timedelta_(r):
    c = r.random()
    if c < .2: return dt.timedelta(r.choice([0, 1, -1, 365]), r.choice([0, 1, 86399]), micro(r))
    return dt.timedelta(seconds=r.randrange(-10**7, 10**7), microseconds=micro(r))
def decimal_(r):
    return r.choice([decimal.Decimal(0), decimal.Decimal('-0'), decimal.Decimal('1.10'), decimal.Decimal('1E+10'), decimal.Decimal('1e-30'),
                     decimal.Decimal(r.randrange(-10**25, 10**25)), decimal.Decimal(r.randrange(-10**9, 10**9)).scaleb(r.randrange(-20, 20))])
def uuid_(r): return uuid.UUID(int=r.getrandbits(128))
def complex_(r): return complex(floating(r), floating(r))
def path_(r): return pathlib.PurePosixPath(r.choice(['/', '.', 'a', '/a/b.c', '../x', 'a b/c', '~/d', 'é/ü']))

class Color(enum.Enum):
    RED = 1
    GREEN = 'green'
    BLUE = 3
    ALIAS = 1
class Swap(enum.Enum):        # names and values overlap crosswise
    A = 'B'
    B = 'A'
    C = 'x'
class Num(enum.IntEnum):
    ONE = 1
    TWO = 2
    ZERO = 0

SCALARS = [
    (int, integer, True), (float, floating, True), (str, text, True), (bool, boolean, True),
    (dt.datetime, datetime_, True), (dt.date, date_, True), (dt.time, time_, True), (dt.timedelta, timedelta_, True),
    (dt.timezone, lambda r: dt.timezone(offset(r)), True), (decimal.Decimal, decimal_, True), (uuid.UUID, uuid_, True),
    (complex, complex_, True), (pathlib.PurePosixPath, path_, True),
    (Color, lambda r: r.choice(list(Color)), True), (Swap, lambda r: r.choice(list(Swap)), True), (Num, lambda r: r.choice(list(Num)), True)]

def scalar(r, hashable=True):
    t, f, h = r.choice(SCALARS)
    return Spec(t, f, 'scalar', True, flat=True)

_n = itertools.count()
def identifier(r, used):
    for _ in range(50):
        w = word(r) if r.random() < .8 else word(r) + str(r.randrange(9))
        if w not in used: used.add(w); return w
    w = 'n%d' % next(_n); used.add(w); return w

def mk_class(r, fields, style, name=None, bases=()):
    """fields: [(name, Spec, has_default, default)]"""
    name = name or 'K%d' % next(_n)
    if style == 'dataclass':
        ns = [(n, s.t, dataclasses.field(default_factory=(lambda d=d: d))) if hd else (n, s.t) for n, s, hd, d in fields]
        c = dataclasses.make_dataclass(name, ns, bases=bases)
        c.__module__ = __name__
    elif style == 'namedtuple':
        c = NamedTuple(name, [(n, s.t) for n, s, hd, d in fields])
    elif style == 'attrless':      # only annotations, plain __init__ written by hand
        c = None
    if style in ('init', 'slots'):
        params = ', '.join(n + (': __T[%d]' % i) + (' = __D[%d]' % i if hd else '') for i, (n, s, hd, d) in enumerate(fields))
        body = '\n'.join('        self.%s = %s' % (n, n) for n, *_ in fields) or '        pass'
        src = 'class %s(*__B):\n%s    def __init__(self%s):\n%s\n    def __eq__(self, o): return type(o) is type(self) and all(getattr(o, n) == getattr(self, n) for n in __N)\n    def __repr__(self): return "%s(%%s)" %% ", ".join("%%s=%%r" %% (n, getattr(self, n, "?")) for n in __N)\n    __hash__ = None\n' % (
            name, '    __slots__ = %r\n' % (tuple(n for n, *_ in fields),) if style == 'slots' else '', ', ' + params if params else '', body, name)
        ns = {'_%s__T' % name: [s.t for _, s, _, _ in fields], '_%s__D' % name: [d for *_, d in fields], '_%s__N' % name: [n for n, *_ in fields],
              '__T': [s.t for _, s, _, _ in fields], '__D': [d for *_, d in fields], '__B': bases, '__N': [n for n, *_ in fields], '__name__': __name__}
        exec(src, ns)
        c = ns[name]
    return c

STYLES = ['dataclass', 'init', 'slots']
def klass(r, depth, styles=STYLES, spec_=None):
    used = set()
    n = r.randrange(1, 4)
    fields = []
    spec_ = spec_ or spec
    for _ in range(n):
        s = spec_(r, depth - 1)
        fields.append((identifier(r, used), s))
    nd = r.randrange(n + 1) if r.random() < .3 else 0
    fields = [(a, s, i >= n - nd, s.make(r) if i >= n - nd else None) for i, (a, s) in enumerate(fields)]
    style = r.choice(styles)
    c = mk_class(r, fields, style)
    if style == 'namedtuple': mk = lambda r: c(*[s.make(r) for _, s, _, _ in fields])
    else: mk = lambda r: c(**{n: s.make(r) for n, s, _, _ in fields})
    sp = Spec(c, mk, style, style == 'namedtuple' and all(s.hashable for _, s, _, _ in fields), subs=tuple(s for _, s, _, _ in fields))
    sp.fields = fields
    return sp

def some(r, lo=0, hi=4): return r.choice([0, 1, 2, 3, hi]) if lo == 0 else r.randrange(lo, hi + 1)

def spec(r, depth=2, hashable=False, unions=True):
    """a random type whose values load back equal to what was dumped (strict or not)"""
    if depth <= 0 or r.random() < .25: return scalar(r)
    k = r.choice(['list', 'tuple', 'vtuple', 'set', 'frozenset', 'deque', 'dict', 'dictint', 'mapping', 'ordereddict', 'defaultdict', 'optional', 'class', 'class', 'namedtuple', 'sequence', 'blist', 'bdict'])
    if hashable: k = r.choice(['tuple', 'vtuple', 'frozenset', 'namedtuple', 'optional'])
    sub = lambda h=False: spec(r, depth - 1, h or hashable, unions)
    if k == 'list': s = sub(); return Spec(List[s.t], lambda r: [s.make(r) for _ in range(some(r))], k, subs=(s,))
    if k == 'blist': s = sub(); return Spec(list[s.t], lambda r: [s.make(r) for _ in range(some(r))], k, subs=(s,))
    if k == 'sequence': s = sub(); return Spec(Sequence[s.t], lambda r: [s.make(r) for _ in range(some(r))], k, subs=(s,))
    if k == 'tuple':
        ss = tuple(sub() for _ in range(r.randrange(1, 4)))
        return Spec(Tuple[tuple(s.t for s in ss)], lambda r: tuple(s.make(r) for s in ss), k, all(s.hashable for s in ss), subs=ss)
    if k == 'vtuple': s = sub(); return Spec(Tuple[s.t, ...], lambda r: tuple(s.make(r) for _ in range(some(r))), k, s.hashable, subs=(s,))
    if k == 'set':
        s = spec(r, depth - 1, True, unions)
        return Spec(Set[s.t], lambda r: {s.make(r) for _ in range(some(r))}, k, subs=(s,))
    if k == 'frozenset':
        s = spec(r, depth - 1, True, unions)
        return Spec(FrozenSet[s.t], lambda r: frozenset(s.make(r) for _ in range(some(r))), k, True, subs=(s,))
    if k == 'deque': s = sub(); return Spec(Deque[s.t], lambda r: collections.deque(s.make(r) for _ in range(some(r))), k, subs=(s,))
    if k == 'dict': s = sub(); return Spec(Dict[str, s.t], lambda r: {word(r): s.make(r) for _ in range(some(r))}, k, subs=(s,))
    if k == 'bdict': s = sub(); return Spec(dict[str, s.t], lambda r: {word(r): s.make(r) for _ in range(some(r))}, k, subs=(s,))
    if k == 'dictint': s = sub(); return Spec(Dict[int, s.t], lambda r: {integer(r): s.make(r) for _ in range(some(r))}, k, subs=(s,))
    if k == 'mapping': s = sub(); return Spec(Mapping[str, s.t], lambda r: {word(r): s.make(r) for _ in range(some(r))}, k, subs=(s,))
    if k == 'ordereddict': s = sub(); return Spec(collections.OrderedDict, lambda r: collections.OrderedDict((word(r), integer(r)) for _ in range(some(r))), k)
    if k == 'defaultdict': s = sub(); return Spec(DefaultDict[str, s.t], lambda r: collections.defaultdict(s.t, {word(r): s.make(r) for _ in range(some(r))}), k, subs=(s,))
    if k == 'optional':
        s = sub(); h = s
        if s.optional: return s
        return Spec(Optional[s.t], lambda r: None if r.random() < .3 else s.make(r), k, s.hashable, True, subs=(s,))
    if k == 'namedtuple': return klass(r, depth, ['namedtuple'], lambda r, d: spec(r, d, hashable, unions))
    return klass(r, depth, STYLES, lambda r, d: spec(r, d, hashable, unions))

# ---- JSON values -----------------------------------------------------------
def jscalar(r): return r.choice([lambda: None, lambda: boolean(r), lambda: integer(r), lambda: floating(r), lambda: text(r)])()
def jvalue(r, depth=3, keys=None):
    c = r.random()
    if depth <= 0 or c < .45: return jscalar(r)
    if c < .7: return [jvalue(r, depth - 1, keys) for _ in range(r.randrange(4))]
    k = keys or (lambda: r.choice(WORDS) if r.random() < .85 else r.choice(NASTY_KEYS))
    return {k(): jvalue(r, depth - 1, keys) for _ in range(r.randrange(4))}

def freeze(x):
    """a deep, comparable image of any value (for before/after comparisons and distinctness keys)"""
    return _fr(x, set())
def _fr(x, seen):
    if x is None or isinstance(x, (bool, int, str, bytes)): return (type(x).__name__, x)
    if isinstance(x, float): return ('float', repr(x))
    if id(x) in seen: return ('rec',)
    seen = seen | {id(x)}
    if isinstance(x, collections.defaultdict): return (type(x).__name__, id(x), repr(x.default_factory), tuple((_fr(k, seen), _fr(v, seen)) for k, v in x.items()))
    if isinstance(x, (dict,)): return (type(x).__name__, id(x), tuple((_fr(k, seen), _fr(v, seen)) for k, v in x.items()))
    if isinstance(x, (list, tuple, collections.deque)): return (type(x).__name__, id(x), tuple(_fr(v, seen) for v in x))
    if isinstance(x, (set, frozenset)): return (type(x).__name__, id(x), tuple(sorted(map(repr, (_fr(v, seen) for v in x)))))
    if isinstance(x, (enum.Enum, type)): return ('id', id(x))
    d = getattr(x, '__dict__', None)
    sl = [(n, _fr(getattr(x, n), seen)) for n in getattr(type(x), '__slots__', ()) if isinstance(getattr(type(x), '__slots__', None), (tuple, list)) and isinstance(n, str) and not n.startswith('__') and hasattr(x, n) ]
    if d is not None or sl: return (type(x).__name__, id(x), tuple((k, _fr(v, seen)) for k, v in sorted((d or {}).items())), tuple(sl))
    return (type(x).__name__, repr(x))

def same(a, b):
    """equality, with equal types all the way down"""
    if type(a) is not type(b): return False
    if isinstance(a, float): return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple, collections.deque)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, dt.datetime) : return a == b and a.utcoffset() == b.utcoffset()
    return a == b
