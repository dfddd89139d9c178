"""C04, C05, C06, C08, C23: collections."""
import pathlib
import datetime as dt, json, enum, uuid, decimal, collections, itertools, copy, re, time, threading, dataclasses
from multiprocessing import Process
from typing import *
import jsons
from jsons import JsonsError, DeserializationError, SerializationError
from lib import *
from gen import *
import gen

CAMEL, SNAKE = jsons.KEY_TRANSFORMER_CAMELCASE, jsons.KEY_TRANSFORMER_SNAKECASE
def strs(f):
    """a transformer that leaves other than string keys alone"""
    return lambda k: f(k) if isinstance(k, str) else k
def eq(a, b): return same(a, b) or (type(a) is type(b) and a == b)

# ---------------------------------------------------------------- C04
SEQS = [(lambda t: List[t], list, True), (lambda t: list[t], list, True), (lambda t: Sequence[t], list, True), (lambda t: Deque[t], collections.deque, True), (lambda t: Tuple[t, ...], tuple, False),
        (lambda t: tuple[t, ...], tuple, False), (lambda t: Set[t], set, True), (lambda t: FrozenSet[t], frozenset, True), (lambda t: collections.deque[t], collections.deque, True), (lambda t: MutableSequence[t], list, True), (lambda t: Iterable[t], list, True), (lambda t: Collection[t], list, True)]

def elements(r, s, damage):
    js = []
    for _ in range(some(r, 0, 6)):
        v = s.make(r)
        js.append(jsons.dump(v, s.t))
    if damage and js and r.random() < .5:
        for i in r.sample(range(len(js)), min(len(js), r.randrange(1, 3))): js[i] = jvalue(r, 1)
    if r.random() < .15 and js: js.append(copy.deepcopy(js[0]))      # duplicates
    return js

def load_each(js, t, o): return [fails(jsons.load, copy.deepcopy(j), t, **o) for j in js]

@check('C04', 4)
def sequences_load_elementwise(r):
    mk, naked, listy = r.choice(SEQS)
    hashed = naked in (set, frozenset)
    s = spec(r, 2, hashable=hashed)
    js = elements(r, s, True)
    o = {}
    if r.random() < .3: o['strict'] = True
    if r.random() < .2: o['key_transformer'] = SNAKE
    T = mk(s.t)
    each = load_each(js, s.t, o)
    wf = listy and r.random() < .35
    if wf: o2 = {**o, 'warn_on_fail': True}
    else: o2 = o
    if any(isinstance(e, Exception) and not isinstance(e, DeserializationError) for _, e in each): raise Skip()
    x, e = fails(jsons.load, copy.deepcopy(js), T, **o2)
    what = 'load(%s, %s, **%s)' % (short(js), T, o2)
    bad = [i for i, (_, er) in enumerate(each) if er is not None]
    good = [v for v, er in each if er is None]
    if wf and any(k == 'list' or 'List' in repr(s.t) or 'Sequence' in repr(s.t) or 'Deque' in repr(s.t) or 'deque' in repr(s.t) or 'Set' in repr(s.t) for k in [s.kind]) and bad: raise Skip()   # nested lists have their own leniency
    if bad and not wf:
        require(isinstance(e, JsonsError), '%s gave %s although element %d cannot be loaded', what, short(x), bad[0])
        if listy: require(re.search(r'(?<!\d)%d(?!\d)' % bad[0], str(e)) and isinstance(e, DeserializationError), '%s: the error does not name index %d: %s', what, bad[0], short(e))
        return (repr(js), str(T))
    require(e is None, '%s raised %s', what, short(e))
    require(type(x) is naked, '%s is a %s', what, type(x).__name__)
    if hashed: require(x == naked(good), '%s = %s, expected %s', what, short(x), short(good))
    else: require(len(x) == len(good) and all(eq(a, b) for a, b in zip(x, good)), '%s = %s, expected the elements %s', what, short(x), short(good))
    return (repr(js), str(T))

@check('C04', 2)
def fixed_tuples(r):
    ss = [spec(r, 2) for _ in range(r.randrange(1, 5))]
    js = [jsons.dump(s.make(r), s.t) for s in ss]
    if r.random() < .2: js[r.randrange(len(js))] = jvalue(r, 1)
    o = {'strict': True} if r.random() < .3 else {}
    T = Tuple[tuple(s.t for s in ss)] if r.random() < .7 else tuple[tuple(s.t for s in ss)]
    each = [fails(jsons.load, copy.deepcopy(j), s.t, **o) for j, s in zip(js, ss)]
    x, e = fails(jsons.load, copy.deepcopy(js), T, **o)
    what = 'load(%s, %s, **%s)' % (short(js), T, o)
    if any(er is not None for _, er in each): require(isinstance(e, JsonsError), '%s gave %s although an element cannot be loaded', what, short(x))
    else:
        require(e is None, '%s raised %s', what, short(e))
        require(type(x) is tuple and len(x) == len(js) and all(eq(a, b) for a, (b, _) in zip(x, each)), '%s = %s, expected %s', what, short(x), short([v for v, _ in each]))
        y, e = fails(jsons.load, copy.deepcopy(js) + [1], T, **o)
        require(e is not None or len(y) == len(js) + 1, '%s with a surplus element silently gave %s', what, short(y))
    return (repr(js), str(T))

@check('C04', 1.5)
def untyped(r):
    js = jvalue(r, 3, lambda: word(r))
    if not isinstance(js, (list, dict)): js = [js]
    o = {'strict': True} if r.random() < .4 else {}
    x, e = fails(jsons.load, copy.deepcopy(js), **o)
    require(e is None, 'load(%s) raised %s', short(js), short(e))
    if isinstance(js, list): require(type(x) is list and len(x) == len(js) and all(eq(a, jsons.load(b, **o)) for a, b in zip(x, js)), 'load(%s, **%s) = %s', short(js), o, short(x))
    else: require(type(x) is dict and list(x) == list(js) and all(eq(x[k], jsons.load(js[k], **o)) for k in js), 'load(%s, **%s) = %s', short(js), o, short(x))
    for T in (tuple, set, frozenset, collections.deque):
        if not isinstance(js, list): continue
        want, e1 = fails(lambda: T([jsons.load(b, **o) for b in js]))
        x, e = fails(jsons.load, copy.deepcopy(js), T, **o)
        if e1 is None: require(e is None and type(x) is T and x == want, 'load(%s, %s, **%s) = %s / %s, expected %s', short(js), T, o, short(x), short(e), short(want))
    return repr(js)

MAPS = [(lambda k, v: Dict[k, v], dict), (lambda k, v: dict[k, v], dict), (lambda k, v: Mapping[k, v], dict), (lambda k, v: MutableMapping[k, v], dict), (lambda k, v: DefaultDict[k, v], collections.defaultdict),
        (lambda k, v: collections.OrderedDict[k, v], collections.OrderedDict), (lambda k, v: OrderedDict[k, v], collections.OrderedDict)]
KEYS = [(str, word), (str, text), (int, integer), (uuid.UUID, uuid_), (dt.datetime, datetime_), (gen.Color, lambda r: r.choice(list(gen.Color))), (float, lambda r: float(r.randrange(50))), (decimal.Decimal, lambda r: decimal.Decimal(r.randrange(99)))]

@check('C04', 3)
def mappings_load_elementwise(r):
    mk, naked = r.choice(MAPS)
    s = spec(r, 2)
    kt, kmk = r.choice(KEYS) if r.random() < .5 else (str, word)
    ks = list({kmk(r): 0 for _ in range(some(r, 0, 5))})
    o = {}
    if r.random() < .3: o['strict'] = True
    js = {jsons.dump(k): jsons.dump(s.make(r), s.t) for k in ks}
    if r.random() < .25: js = json.loads(json.dumps(js))                 # string keys only
    if js and r.random() < .2: js[r.choice(list(js))] = jvalue(r, 1)
    tr = r.random() < .3 and kt is str
    if tr: o['key_transformer'] = CAMEL
    if tr and len({CAMEL(k) for k in js}) < len(js): raise Skip()
    if '-keys' in js or '-meta' in js: raise Skip()
    T = mk(kt, s.t)
    each = {}
    for k, v in js.items():
        kk, e1 = fails(jsons.load, CAMEL(k) if tr else k, kt, **o)
        vv, e2 = fails(jsons.load, copy.deepcopy(v), s.t, **o)
        if e1 or e2: each = None; break
        each[kk] = vv
    x, e = fails(jsons.load, copy.deepcopy(js), T, **o)
    what = 'load(%s, %s, **%s)' % (short(js), T, o)
    if each is None: require(isinstance(e, JsonsError), '%s gave %s although an entry cannot be loaded', what, short(x)); return (repr(js), str(T))
    require(e is None, '%s raised %s', what, short(e))
    require(type(x) is naked, '%s is a %s', what, type(x).__name__)
    require(list(x) == list(each) and all(type(a) is type(b) for a, b in zip(x, each)) and all(eq(x[k], each[k]) for k in each), '%s = %s, expected %s', what, short(x), short(each))
    return (repr(js), str(T))

@check('C04', 1)
def named_tuples(r):
    s = klass(r, 2, ['namedtuple'])
    v = s.make(r)
    names = [n for n, *_ in s.fields]
    d = jsons.dump(v, s.t)
    o = {'strict': True} if r.random() < .3 else {}
    x, e = fails(jsons.load, copy.deepcopy(d), s.t, **o)
    require(e is None and type(x) is s.t, 'load(%s, %s) gave %s / %s', short(d), s.t, short(x), short(e))
    for (n, fs, *_), got in zip(s.fields, x):
        want = jsons.load(copy.deepcopy(d[n]), fs.t, **o)
        require(eq(got, want), 'field %s of load(%s) is %s, expected %s', n, short(d), short(got), short(want))
    lst = [d[n] for n in names]
    y, e = fails(jsons.load, copy.deepcopy(lst), s.t, **o)
    require(e is None and type(y) is s.t and all(eq(a, b) for a, b in zip(x, y)), 'load(%s, %s) gave %s / %s', short(lst), s.t, short(y), short(e))
    if any(CAMEL(n) != n for n in names):
        dd = {CAMEL(n): d[n] for n in names}
        y, e = fails(jsons.load, copy.deepcopy(dd), s.t, key_transformer=SNAKE)
        if len(dd) == len(names) and all(SNAKE(CAMEL(n)) == n for n in names) and all(f.flat for _, f, *_ in s.fields):
            require(e is None and all(eq(a, b) for a, b in zip(x, y)), 'load(%s, %s, snake) gave %s / %s', short(dd), s.t, short(y), short(e))
    rd = dict(reversed(list(d.items())))       # the order of the keys does not matter
    y, e = fails(jsons.load, copy.deepcopy(rd), s.t, **o)
    require(e is None and all(eq(a, b) for a, b in zip(x, y)), 'load(%s, %s) gave %s / %s', short(rd), s.t, short(y), short(e))
    return (repr(d), str(s.t))

# ---------------------------------------------------------------- C05
class Bag:
    """an iterable of its own"""
    def __init__(self, xs): self.xs = list(xs)
    def __iter__(self): return iter(self.xs)
    def __len__(self): return len(self.xs)
class GBag(Bag):
    def __getitem__(self, i): return self.xs[i]
ITERS = [list, tuple, collections.deque, Bag, GBag, set, frozenset, lambda xs: {i: x for i, x in enumerate(xs)}.values()]

@check('C05', 3)
def iterables_dump_elementwise(r):
    mk = r.choice(ITERS)
    s = spec(r, 2, hashable=mk in (set, frozenset))
    n = some(r, 0, 6)
    if r.random() < .7: xs = [s.make(r) for _ in range(n)]
    else: xs = [spec(r, 1, hashable=mk in (set, frozenset)).make(r) for _ in range(n)]
    if r.random() < .2: xs = xs + [None, None]
    if r.random() < .2: xs = xs + xs[:1]
    v = mk(xs)
    order = list(v)
    o = {}
    if r.random() < .4: o['strict'] = True
    if r.random() < .3: o['strip_nulls'] = True
    if r.random() < .3: o['key_transformer'] = strs(CAMEL)
    x, e = fails(jsons.dump, v, **o)
    require(e is None, 'dump(%s, **%s) raised %s', short(v), o, short(e))
    want = [jsons.dump(q, **o) for q in order]
    require(type(x) is list and len(x) == len(want) and all(eq(a, b) for a, b in zip(x, want)), 'dump(%s, **%s) = %s, expected %s', short(v), o, short(x), short(want))
    return (repr(order), str(o), str(mk))

@check('C05', 2)
def typed_iterables(r):
    mk, T1, naked = r.choice([(lambda t: List[t], 1, list), (lambda t: list[t], 1, list), (lambda t: Tuple[t, ...], 1, tuple), (lambda t: Sequence[t], 1, list), (lambda t: Deque[t], 1, collections.deque), (lambda t: Set[t], 1, set)])
    s = spec(r, 2, hashable=naked is set)
    v = naked([s.make(r) for _ in range(some(r, 0, 5))])
    o = {'strict': True} if r.random() < .6 else {}
    x, e = fails(jsons.dump, v, mk(s.t), **o)
    require(e is None, 'dump(%s, %s, **%s) raised %s', short(v), mk(s.t), o, short(e))
    want = [jsons.dump(q, s.t, **o) for q in v]
    require(type(x) is list and len(x) == len(want) and all(eq(a, b) for a, b in zip(x, want)), 'dump(%s, %s, **%s) = %s, expected %s', short(v), mk(s.t), o, short(x), short(want))
    return (repr(v), str(mk(s.t)), str(o))

@check('C05', 1.5)
def number_of_types(r):
    ss = [spec(r, 1) for _ in range(r.randrange(2, 5))]
    v = [s.make(r) for s in ss]
    k = r.choice([-1, 0, 0, 1, 2])
    w = v + [1] * k if k >= 0 else v[:k]
    T = Tuple[tuple(s.t for s in ss)]
    x, e = fails(jsons.dump, tuple(w), T, strict=True)
    if k == 0: require(e is None and type(x) is list and len(x) == len(w) and all(eq(a, jsons.dump(b, s.t, strict=True)) for a, b, s in zip(x, w, ss)), 'dump(%s, %s, strict) = %s / %s', short(w), T, short(x), short(e))
    else: require(isinstance(e, SerializationError), 'dump(%s, %s, strict) = %s although the number of types does not match', short(w), T, short(x))
    x, e = fails(jsons.dump, tuple(w), T)
    require(e is not None or len(x) == len(w), 'dump(%s, %s) silently has %d elements', short(w), T, len(x or ()))
    return (repr(w), str(T))

@check('C05', 2.5)
def mappings_dump_elementwise(r):
    s = spec(r, 2)
    o = {}
    if r.random() < .4: o['strict'] = True
    if r.random() < .3: o['strip_nulls'] = True
    tr = r.random() < .3
    if tr: o['key_transformer'] = strs(r.choice([CAMEL, jsons.pascalcase, jsons.lispcase, SNAKE]))
    kt, kmk = (str, r.choice([word, text])) if tr or r.random() < .5 else r.choice(KEYS + [(bool, boolean), (type(None), lambda r: None)])
    d = {kmk(r): (None if r.random() < .2 else s.make(r)) for _ in range(some(r, 0, 5))}
    mk = r.choice([dict, collections.OrderedDict, lambda d: collections.defaultdict(int, d), lambda d: collections.ChainMap(d)])
    v = mk(d)
    f = o.get('key_transformer') or (lambda k: k)
    ks = list(v)
    if len({f(jsons.dump(k)) for k in ks}) < len(ks): raise Skip()
    x, e = fails(jsons.dump, v, **o)
    require(e is None, 'dump(%s, **%s) raised %s', short(v), o, short(e))
    want = {}
    for k in ks:
        q = jsons.dump(v[k], **o)
        if q is None and o.get('strip_nulls'): continue
        want[f(jsons.dump(k) if not isinstance(k, (str, int, float, bool, type(None))) else k)] = q
    require(type(x) is dict and list(x) == list(want) and all(eq(x[k], want[k]) for k in want), 'dump(%s, **%s) = %s, expected %s', short(v), o, short(x), short(want))
    return (repr(d), str(o))

@check('C05', 1)
def named_tuples_dump(r):
    s = klass(r, 2, ['namedtuple'])
    v = s.make(r)
    o = {'strict': True} if r.random() < .5 else {}
    x, e = fails(jsons.dump, v, r.choice([None, s.t]), **o)
    want = {n: jsons.dump(getattr(v, n), **o) for n, *_ in s.fields}
    require(e is None and type(x) is dict and list(x) == list(want) and all(eq(x[k], want[k]) for k in want), 'dump(%s, **%s) = %s / %s, expected %s', short(v), o, short(x), short(e), short(want))
    return repr(v)

# ---------------------------------------------------------------- C06
class Sub(int): pass
class SubS(str): pass
class SubD(dt.datetime): pass
class WithProps:
    cv = [1, (2, 3)]
    _priv = dt.date(2020, 1, 1)
    def __init__(self, a, **k): self.a = a; self.__dict__.update(k)
    @property
    def p(self): return {dt.date(2020, 1, 1): (1, 2)}
    def meth(self): return 1
class Hashy:
    def __init__(self, h, v=0): self.h, self.v = h, v
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Hashy) and (o.h, o.v) == (self.h, self.v)
def anything(r, depth=3):
    c = r.random()
    if depth <= 0 or c < .15: return r.choice([lambda: jscalar(r), lambda: scalar(r).make(r), lambda: Sub(5), lambda: SubS('x'), lambda: SubD(2020, 1, 1, tzinfo=dt.timezone.utc), lambda: b'ab', lambda: range(3), lambda: None,
                                               lambda: tzone(r), lambda: dt.datetime(2020, 1, 1, 5), lambda: 1e400, lambda: gen.Num.ONE])()
    if c < .35: return spec(r, depth).make(r)
    sub = lambda: anything(r, depth - 1)
    k = r.choice(['list', 'tuple', 'dict', 'dictany', 'obj', 'bag', 'deque', 'chain', 'counter'])
    if k == 'list': return [sub() for _ in range(some(r))]
    if k == 'tuple': return tuple(sub() for _ in range(some(r)))
    if k == 'dict': return {text(r): sub() for _ in range(some(r))}
    if k == 'dictany': return {anykey(r): sub() for _ in range(some(r))}
    if k == 'obj': return WithProps(sub(), **{identifier(r, {'a'}): sub() for _ in range(some(r))})
    if k == 'bag': return Bag([sub() for _ in range(some(r))])
    if k == 'deque': return collections.deque([sub() for _ in range(some(r))])
    if k == 'chain': return collections.ChainMap({word(r): sub()}, {word(r): sub()})
    return collections.Counter(word(r) for _ in range(4))
def anykey(r):
    return r.choice([lambda: jscalar(r), lambda: spec(r, 2, hashable=True).make(r), lambda: Hashy(r.randrange(3), r.randrange(3)), lambda: (1, 'a', None), lambda: frozenset([1, 2]), lambda: gen.Color.RED, lambda: dt.date(2020, 1, 1), lambda: Sub(3), lambda: b'x'])()

def only_json(x, path='$'):
    if x is None or isinstance(x, (bool, int, float, str)) and not isinstance(x, enum.Enum): return
    if type(x) is list:
        for i, y in enumerate(x): only_json(y, '%s[%d]' % (path, i))
        return
    if type(x) is dict:
        for k, y in x.items():
            require(k is None or isinstance(k, (str, int, float, bool)), 'the key %s at %s of the dump is a %s', short(k), path, type(k).__name__)
            only_json(y, '%s[%s]' % (path, short(k, 30)))
        return
    raise Fail('the dump holds a %s at %s: %s' % (type(x).__name__, path, short(x)))

@check('C06', 4)
def json_types_only(r):
    v = anything(r, 3)
    o = {}
    for n in ('strict', 'strip_nulls', 'strip_privates', 'strip_properties', 'strip_class_variables', 'strip_microseconds', 'verbose'):
        if r.random() < .25: o[n] = True
    if r.random() < .2: o['verbose'] = r.choice([jsons.Verbosity.WITH_CLASS_INFO, jsons.Verbosity.WITH_DUMP_TIME, jsons.Verbosity.WITH_EVERYTHING])
    if r.random() < .2: o['use_enum_name'] = True
    if r.random() < .2: o['strip_attr'] = r.choice(['a', ('a', 'name'), ['p']])
    x, e = fails(jsons.dump, v, **o)
    if e is not None:
        require(isinstance(e, SerializationError), 'dump(%s, **%s) raised %s', short(v), o, short(e))
        return None
    try: only_json(x)
    except Fail as q: raise Fail('dump(%s, **%s): %s' % (short(v), o, q))
    y, e = fails(json.dumps, x)
    require(e is None, 'the dump of %s (options %s) cannot be encoded: %s', short(v), o, short(e))
    y, e = fails(jsons.dumps, v, **o)
    require(e is None, 'dumps(%s, **%s) raised %s', short(v), o, short(e))
    return (repr(v), str(o))

@check('C06', 2)
def json_types_only_with_cls(r):
    s = spec(r, 3); v = s.make(r)
    o = {}
    for n in ('strict', 'strip_nulls', 'strip_microseconds', 'verbose'):
        if r.random() < .3: o[n] = True
    if r.random() < .2: o['key_transformer'] = CAMEL
    x, e = fails(jsons.dump, v, s.t, **o)
    if e is not None: return None
    try: only_json(x)
    except Fail as q: raise Fail('dump(%s, %s, **%s): %s' % (short(v), s.t, o, q))
    y, e = fails(json.dumps, x)
    require(e is None, 'the dump of %s (options %s) cannot be encoded: %s', short(v), o, short(e))
    return (repr(v), str(s.t), str(o))

# ---------------------------------------------------------------- C08
class Item:
    def __init__(self, i: int): self.i = i
    def __eq__(self, o): return isinstance(o, Item) and o.i == self.i
    def __repr__(self): return 'Item(%r)' % self.i
_log = []
_lock = threading.Lock()
def _slow(r):
    if r: time.sleep(0.0005 * (r % 3))

@check('C08', 4)
def threads_load_like_one(r):
    n, tasks = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 16, r.randrange(30)]), r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, r.randrange(1, 40)])
    f = jsons.fork()
    log = []
    delays = [r.randrange(4) for _ in range(n)]
    def des(obj, cls=None, **kw):
        _slow(delays[obj['i']])
        with _lock: log.append(obj['i'])
        return Item(obj['i'])
    jsons.set_deserializer(des, Item, fork_inst=f)
    js = [{'i': i} for i in range(n)]
    T = r.choice([List[Item], list[Item], Sequence[Item], Deque[Item], Iterable[Item]])
    one = jsons.load(js, T, fork_inst=f, tasks=1)
    log.clear()
    x, e = fails(jsons.load, js, T, fork_inst=f, tasks=tasks, task_type=threading.Thread)
    what = 'load of %d elements into %s with tasks=%d (threads)' % (n, T, tasks)
    require(e is None, '%s raised %s', what, short(e))
    require(type(x) is type(one) and list(x) == list(one), '%s gave %s', what, short(x))
    require(sorted(log) == list(range(n)), '%s processed the elements %s', what, sorted(log))
    return (n, tasks, str(T))

@check('C08', 4)
def threads_dump_like_one(r):
    n, tasks = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 16, r.randrange(30)]), r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, r.randrange(1, 40), 0, -1])
    f = jsons.fork()
    log = []
    delays = [r.randrange(4) for _ in range(n)]
    def ser(obj, cls=None, **kw):
        _slow(delays[obj.i])
        with _lock: log.append(obj.i)
        return {'i': obj.i}
    jsons.set_serializer(ser, Item, fork_inst=f)
    mk = r.choice([list, tuple, collections.deque, Bag])
    v = mk([Item(i) for i in range(n)])
    o = {'strict': True} if r.random() < .4 else {}
    one = jsons.dump(v, fork_inst=f, **o)
    log.clear()
    x, e = fails(jsons.dump, v, fork_inst=f, tasks=tasks, task_type=threading.Thread, **o)
    what = 'dump of %d elements (%s) with tasks=%d (threads), %s' % (n, mk.__name__, tasks, o)
    require(e is None, '%s raised %s', what, short(e))
    require(x == one, '%s gave %s', what, short(x))
    require(sorted(log) == list(range(n)), '%s processed the elements %s', what, sorted(log))
    return (n, tasks, str(mk))

@check('C08', 1.5)
def failing_elements_fail_all(r):
    n, tasks = r.randrange(1, 12), r.choice([2, 3, 4, 8, 20])
    bad = set(r.sample(range(n), r.randrange(1, min(n, 3) + 1)))
    js = ['x' if i in bad else i for i in range(n)]
    x, e = fails(jsons.load, js, List[int], tasks=tasks, task_type=threading.Thread)
    require(isinstance(e, JsonsError), 'load(%s, List[int], tasks=%d) = %s', js, tasks, short(x))
    class B:
        @property
        def p(self): raise ValueError(1)
    f = jsons.fork()
    def ser(o, cls=None, **k): raise ValueError('no')
    jsons.set_serializer(ser, Item, fork_inst=f)
    v = tuple(Item(i) if i in bad else i for i in range(n))
    x, e = fails(jsons.dump, v, tasks=tasks, task_type=threading.Thread, fork_inst=f)
    require(isinstance(e, SerializationError), 'dump(%s, tasks=%d) = %s', short(v), tasks, short(x))
    return (n, tasks, sorted(bad))

@table('C08', [(n, t) for n in range(0, 12) for t in range(1, 14)])
def every_small_pair(case, r):
    n, tasks = case
    js = [str(i) for i in range(n)]
    x, e = fails(jsons.load, js, List[int], tasks=tasks, task_type=threading.Thread)
    require(e is None and x == list(range(n)), 'load of %d elements with %d tasks gave %s / %s', n, tasks, short(x), short(e))
    v = tuple(dt.timedelta(seconds=i) for i in range(n))
    x, e = fails(jsons.dump, v, tasks=tasks, task_type=threading.Thread)
    require(e is None and x == [float(i) for i in range(n)], 'dump of %d elements with %d tasks gave %s / %s', n, tasks, short(x), short(e))
    return case

class Worker(Process): pass
@check('C08', 3, n=40)
def processes_like_one(r):
    n, tasks = r.choice([0, 1, 3, 5, 8]), r.choice([2, 3, 4])
    js = [{'i': i} for i in range(n)]
    o = r.choice([{}, {'task_type': Process}, {'task_type': Worker}])
    x, e = fails(jsons.load, js, List[Item], tasks=tasks, **o)
    require(e is None and x == [Item(i) for i in range(n)], 'load of %d elements with %d processes gave %s / %s', n, tasks, short(x), short(e))
    x, e = fails(jsons.dump, tuple(Item(i) for i in range(n)), tasks=tasks, **o)
    require(e is None and x == js, 'dump of %d elements with %d processes gave %s / %s', n, tasks, short(x), short(e))
    return (n, tasks)

@check('C08', 1)
def invalid_number_of_tasks(r):
    t = r.choice([0, -1, -2, -r.randrange(1, 99)])
    x, e = fails(jsons.load, [1] * r.randrange(4), List[int], tasks=t, task_type=threading.Thread)
    require(isinstance(e, JsonsError), 'load with tasks=%d gave %s', t, short(x))
    return t

@check('C08', 2, n=24)
def nested_lists(r):
    n, m, tasks = r.randrange(1, 6), r.randrange(1, 6), r.choice([2, 3, 5, 8, 12])
    js = [[str(i * 10 + j) for j in range(m)] for i in range(n)]
    x, e = fails(jsons.load, js, List[List[int]], tasks=tasks, task_type=threading.Thread)
    require(e is None and x == [[i * 10 + j for j in range(m)] for i in range(n)], 'nested load, %d x %d, %d tasks: %s / %s', n, m, tasks, short(x), short(e))
    v = tuple(tuple(dt.timedelta(seconds=i * 10 + j) for j in range(m)) for i in range(n))
    x, e = fails(jsons.dump, v, tasks=tasks, task_type=threading.Thread)
    require(e is None and x == [[float(i * 10 + j) for j in range(m)] for i in range(n)], 'nested dump, %d x %d, %d tasks: %s / %s', n, m, tasks, short(x), short(e))
    return (n, m, tasks)

# ---------------------------------------------------------------- C23
@dataclasses.dataclass(frozen=True)
class Key:
    a: int
    b: str = 'x'
    def __hash__(self): return self.a % 3
@dataclasses.dataclass(frozen=True)
class Plain2:
    n: int
KEY_KINDS = [(Key, lambda r: Key(r.randrange(6), r.choice('xyz'))), (Tuple[int, int], lambda r: (r.randrange(3), r.randrange(3))), (Tuple[int, ...], lambda r: tuple(r.randrange(3) for _ in range(r.randrange(3)))),
             (FrozenSet[int], lambda r: frozenset(r.randrange(4) for _ in range(r.randrange(3)))), (Plain2, lambda r: Plain2(r.randrange(9))), (complex, lambda r: complex(r.randrange(3), r.randrange(3))),
             (dt.timezone, lambda r: dt.timezone(dt.timedelta(minutes=r.randrange(-99, 99)))), (Tuple[str, dt.date], lambda r: (word(r), date_(r))), (Tuple[Key, Key], lambda r: (Key(r.randrange(3)), Key(r.randrange(3)))),
             (uuid.UUID, uuid_), (dt.datetime, datetime_), (gen.Color, lambda r: r.choice(list(gen.Color))), (int, integer), (str, word), (dt.timedelta, lambda r: dt.timedelta(seconds=r.randrange(50))), (Tuple[Tuple[int, ...], str], lambda r: (tuple(r.randrange(2) for _ in range(r.randrange(3))), word(r)))]

@check('C23', 4)
def hashed_keys_round_trip(r):
    kt, kmk = r.choice(KEY_KINDS)
    s = spec(r, 2)
    d = {kmk(r): s.make(r) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))}
    o = {'strict': True} if r.random() < .3 else {}
    x, e = fails(jsons.dump, d, **o)
    require(e is None, 'dump(%s, **%s) raised %s', short(d), o, short(e))
    require(len([k for k in x if k != '-keys']) == len(d), 'the dump of %s has %d entries: %s', short(d), len([k for k in x if k != '-keys']), short(x))
    if '-keys' in x:
        require(all(k in x for k in x['-keys']) , 'the key section %s of %s names no entry', short(x['-keys']), short(x))
    T = r.choice([lambda: Dict[kt, s.t], lambda: dict[kt, s.t], lambda: Mapping[kt, s.t], lambda: DefaultDict[kt, s.t]])()
    y, e = fails(jsons.load, x, T, **o)
    require(e is None, 'load(%s, %s) raised %s', short(x), T, short(e))
    require(len(y) == len(d) and all(k in y and eq(y[k], d[k]) for k in d) and '-keys' not in y, 'load(dump(%s), %s) = %s', short(d), T, short(y))
    require({(type(k)) for k in y} <= {type(k) for k in d}, 'load(dump(%s), %s) has keys of types %s', short(d), T, {type(k) for k in y})
    z, e = fails(jsons.load, [x, x], List[T], **o)
    require(e is None and all(len(q) == len(d) and all(k in q and eq(q[k], d[k]) for k in d) for q in z), 'loading the dump of %s twice in a list gives %s / %s', short(d), short(z), short(e))
    return (repr(d), str(T))

@check('C23', 2)
def mixed_keys_lose_nothing(r):
    d = {}
    for _ in range(r.randrange(1, 9)):
        k = r.choice([lambda: r.randrange(-3, 6), lambda: Key(r.randrange(6), r.choice('xy')), lambda: (r.randrange(3), r.randrange(3)), lambda: word(r), lambda: frozenset([r.randrange(3)]),
                      lambda: hash((r.randrange(3), r.randrange(3))), lambda: Hashy(r.randrange(3), r.randrange(3)), lambda: None, lambda: r.choice(list(gen.Color)), lambda: hash(Key(r.randrange(6)))])()
        d[k] = r.randrange(1000)
    ks = [jsons.dump(k) for k in d if not isinstance(k, (int, str, float, bool, type(None))) ]
    js = [k for k in d if isinstance(k, (int, str, float, bool, type(None)))] + [k for k in ks if isinstance(k, (int, str, float, bool, type(None)))]
    if len(set(js)) < len(js): raise Skip()
    x, e = fails(jsons.dump, d)
    require(e is None, 'dump(%s) raised %s', short(d), short(e))
    ent = {k: v for k, v in x.items() if k != '-keys'}
    require(len(ent) == len(d) and sorted(ent.values()) == sorted(d.values()), 'the dump of %s holds %s', short(d), short(x))
    sect = x.get('-keys', {})
    for k, v in d.items():
        dk = k if isinstance(k, (int, str, float, bool, type(None))) else jsons.dump(k)
        if isinstance(dk, (int, str, float, bool, type(None))): require(dk in ent and ent[dk] == v, 'key %s of %s: dump is %s', short(k), short(d), short(x))
        else:
            hit = [h for h, q in sect.items() if q == dk and ent.get(h) == v]
            require(hit, 'key %s of %s has no entry in the key section: %s', short(k), short(d), short(x))
    require(len(sect) == sum(1 for k in d if not isinstance(k, (int, str, float, bool, type(None))) and not isinstance(jsons.dump(k), (int, str, float, bool, type(None)))), 'key section of %s: %s', short(d), short(sect))
    return repr(d)

@check('C23', 1)
def keys_named_like_the_section(r):
    P = pathlib.PurePosixPath
    ks = [P('-keys')] + [(r.randrange(3), r.randrange(3)) for _ in range(r.randrange(3))] + [P(word(r)) for _ in range(r.randrange(2))]
    r.shuffle(ks)
    d = {k: r.randrange(1000) for k in ks}
    x, e = fails(jsons.dump, d)
    require(e is None, 'dump(%s) raised %s', short(d), short(e))
    require(sorted(v for k, v in x.items() if k != '-keys') == sorted(d.values()), 'the dump of %s holds %s', short(d), short(x))
    T = Dict[P, int] if all(isinstance(k, P) for k in ks) else Dict[Union[Tuple[int, int], P], int]
    y, e = fails(jsons.load, x, T)
    require(e is None and y == d, 'load(dump(%s), %s) = %s / %s', short(d), T, short(y), short(e))
    return repr(d)

@check('C23', 1)
def attributes_with_hashed_keys(r):
    kt, kmk = r.choice(KEY_KINDS)
    d = {kmk(r): r.randrange(9) for _ in range(r.randrange(1, 5))}
    class H:
        m: Dict[kt, int]
        def __init__(self, m: Dict[kt, int]): self.m = m
    x = jsons.dump(H(d))
    y, e = fails(jsons.load, x, H)
    require(e is None and y.m == d, 'round trip of %s as an attribute gives %s / %s', short(d), short(y and y.m), short(e))
    class H2:
        m: Dict[kt, int]
    h = H2(); h.m = d
    y, e = fails(jsons.load, jsons.dump(h), H2)
    require(e is None and y.m == d, 'round trip of %s as a class-annotated attribute gives %s / %s', short(d), short(y and y.m), short(e))
    return repr(d)

class Low(enum.Enum):
    A = 0
    B = 1
    C = 2
    def __hash__(self): return 99

class Eq:
    def __init__(self, x: int): self.x = x
    def __hash__(self): return self.x % 3
    def __eq__(self, o): return isinstance(o, Eq) and o.x == self.x
    def __repr__(self): return 'Eq(%d)' % self.x

@check('C23', 2)
def keys_of_several_kinds_round_trip(r):
    kinds = [(uuid.UUID, lambda: uuid.UUID(int=r.randrange(5))), (Tuple[int, int], lambda: (r.randrange(3), r.randrange(3))), (dt.date, lambda: dt.date(2020, 1, r.randrange(1, 9)))]
    kinds = r.sample(kinds, 2) if r.random() < .6 else [(Low, lambda: r.choice(list(Low))), (Eq, lambda: Eq(r.randrange(9)))]
    d = {}
    for _ in range(r.randrange(1, 7)): d[r.choice(kinds)[1]()] = r.randrange(1000)
    o = {'use_enum_name': False} if kinds[0][0] is Low else {}
    x, e = fails(jsons.dump, d, **o)
    require(e is None, 'dump(%s) raised %s', short(d), short(e))
    require(len([k for k in x if k != '-keys']) == len(d), 'the dump of %s holds %s', short(d), short(x))
    T = Dict[Union[kinds[0][0], kinds[1][0]], int]
    y, e = fails(jsons.load, x, T, **o)
    require(e is None and y == d, 'load(dump(%s), %s) = %s / %s', short(d), T, short(y), short(e))
    return repr(d)
