"""C15, C17, C18, C20, C21, C22: unions, dates and times, key transformers, decorators, variants, scalars."""
import asyncio, json, re, datetime as dt, decimal, uuid, enum, pathlib, inspect, copy, math, string, itertools
from typing import *
import jsons
import jsons.decorators as decorators
from jsons import JsonsError, DeserializationError, SerializationError, JsonSerializable
from jsons.exceptions import InvalidDecorationError, DecodeError
from lib import *
from gen import *
import gen

# ---------------------------------------------------------------- C15
class Picky:
    """an alternative whose (de)serializer is registered by the check"""
def alternatives(r):
    """[(type, loads: value -> (ok, result) or None when the library's own (de)serializer decides)]"""
    n = r.randrange(2, 5)
    pool = [int, float, bool, str, List[int], List[str], Dict[str, int], Tuple[int, str], Color, Num, dt.date, dt.datetime, uuid.UUID, decimal.Decimal, complex, Set[int], 'P', 'P', 'P']
    out = []
    for i in range(n):
        c = r.choice(pool)
        if c == 'P':
            c = type('Alt%d' % next(gen._n), (), {})
        out.append(c)
    return out
def usame(a, b): return same(a, b)

def raising(r):
    return r.choice([ValueError('no'), KeyError('k'), TypeError(), JsonsError('j'), DeserializationError('d', 1, int), SerializationError('s'), RuntimeError('x'), AttributeError('a'), ZeroDivisionError(), StopIteration(), AssertionError()])

@check('C15', 3)
def the_first_alternative_that_loads(r):
    alts = alternatives(r)
    if r.random() < .4: alts.insert(r.randrange(len(alts) + 1), type(None))
    U = Union[tuple(alts)]
    params = getattr(U, '__args__', None)
    if params is None or get_origin(U) is not Union: raise Skip
    f = jsons.fork()
    calls = []
    outcome = {}
    for c in params:
        if isinstance(c, type) and c.__name__.startswith('Alt'):
            e = raising(r) if r.random() < .6 else None
            outcome[c] = e
            def des(obj, cls=None, _c=c, _e=e, **kw):
                calls.append(_c)
                if _e is not None: raise _e
                return ('loaded as', _c, obj)
            jsons.set_deserializer(des, c, fork_inst=f)
    o = r.choice([{}, {}, {'strict': True}, {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}])
    v = r.choice([lambda: jvalue(r, 2), lambda: jscalar(r), lambda: r.choice(['1', '1.5', 'true', 'RED', 'green', 1, 0, 2.0, '2020-01-01', [1, 'a'], ['1'], {'a': 1}, {'a': 'x'}, str(uuid.UUID(int=5)), {'real': 1, 'imag': 2}]), lambda: None])()
    vc = copy.deepcopy(v)
    want = None
    if v is None: want = ('ok', None) if type(None) in params else None
    else:
        for c in params:
            y, e = fails(jsons.load, copy.deepcopy(v), c, fork_inst=f, **o)
            if e is None: want = ('ok', y); break
    del calls[:]
    y, e = fails(jsons.load, v, U, fork_inst=f, **o)
    what = 'load(%s, %s, **%s) with failing %s' % (short(vc), U, o, [c.__name__ for c, e_ in outcome.items() if e_ is not None])
    if want is None:
        require(isinstance(e, DeserializationError), '%s gave %s instead of a DeserializationError', what, short(y if e is None else e))
        return repr((vc, U))
    require(e is None, '%s raised %s although an alternative accepts the value (as %s)', what, short(e), short(want[1]))
    require(usame(y, want[1]), '%s gave %s, the first alternative that works gives %s', what, short(y), short(want[1]))
    for i, c in enumerate(calls):
        require(calls.count(c) == 1, '%s tried %s more than once', what, c.__name__)
    return repr((vc, U, o))

@check('C15', 3)
def the_first_alternative_that_dumps(r):
    alts = alternatives(r)
    if r.random() < .4: alts.insert(r.randrange(len(alts) + 1), type(None))
    U = Union[tuple(alts)]
    params = getattr(U, '__args__', None)
    if params is None or get_origin(U) is not Union: raise Skip
    f = jsons.fork()
    for c in params:
        if isinstance(c, type) and c.__name__.startswith('Alt'):
            e = raising(r) if r.random() < .6 else None
            def ser(obj, cls=None, _c=c, _e=e, **kw):
                if _e is not None: raise _e
                return 'dumped as %s' % _c.__name__
            jsons.set_serializer(ser, c, fork_inst=f)
    o = r.choice([{}, {}, {'strict': True}, {'strip_nulls': True}])
    v = r.choice([lambda: scalar(r).make(r), lambda: spec(r, 2).make(r), lambda: jvalue(r, 2), lambda: None, lambda: text(r)])()
    want = None
    if v is None and type(None) in params: want = ('ok', None)
    else:
        for c in params:
            y, e = fails(jsons.dump, v, c, fork_inst=f, **o)
            if e is None: want = ('ok', y); break
    y, e = fails(jsons.dump, v, U, fork_inst=f, **o)
    what = 'dump(%s, %s, **%s)' % (short(v), U, o)
    if want is None:
        require(isinstance(e, SerializationError), '%s gave %s instead of a SerializationError', what, short(y if e is None else e))
    else:
        require(e is None, '%s raised %s although an alternative accepts the value', what, short(e))
        require(usame(y, want[1]), '%s gave %s, the first alternative that works gives %s', what, short(y), short(want[1]))
    return repr((v, U, o))

@check('C15', 1)
def nested_unions(r):
    """inside of containers and objects"""
    a, b = r.choice([(int, str), (float, str), (bool, int), (int, List[int]), (Color, str), (dt.date, str)])
    U = r.choice([Union[a, b], Union[a, b, None], Optional[a]])
    v = [r.choice([1, '1', 'x', None, '2020-01-01', 'RED', [1], 2.5, True]) for _ in range(r.randrange(3))]
    def each(x): return jsons.load(x, U)
    want = []
    bad = False
    for x in v:
        y, e = fails(each, x)
        if e is not None: bad = True
        want.append(y)
    for T, j, pick in ((List[U], v, lambda y: y), (Dict[str, U], {str(i): x for i, x in enumerate(v)}, lambda y: list(y.values())), (Tuple[U, ...], v, list)):
        y, e = fails(jsons.load, j, T)
        if bad: require(isinstance(e, DeserializationError), 'load(%s, %s) gave %s although an element matches no alternative', j, T, short(y if e is None else e))
        else:
            require(e is None, 'load(%s, %s) raised %s', j, T, short(e))
            require(usame(pick(y), want), 'load(%s, %s) gave %s, the elements load to %s', j, T, short(y), short(want))
    return repr((U, v))

@table('C15', list(itertools.product([int, str, float, bool, Color, Any, object, List[int]], [str, int, dt.datetime, Any, object, Dict[str, int]], [True, False], [0, 1, 2])), .3)
def none_and_unions(case, r):
    a, b, wn, pos = case
    ps = [a, b]
    if wn: ps.insert(pos, type(None))
    U = Union[tuple(ps)]
    if get_origin(U) is not Union: raise Skip
    admits = any(p in (type(None), Any, object) for p in U.__args__)
    y, e = fails(jsons.load, None, U)
    if admits: require(e is None and y is None, 'load(None, %s) gave %s', U, short(y if e is None else e))
    else: require(isinstance(e, DeserializationError), 'load(None, %s) gave %s', U, short(y))
    if type(None) in U.__args__:
        y, e = fails(jsons.dump, None, U)
        require(e is None and y is None, 'dump(None, %s) gave %s', U, short(y if e is None else e))
    return repr(case)

# ---------------------------------------------------------------- C17
RFC = re.compile(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d{6})?(Z|[+-]\d\d:\d\d)$')
class Odd(dt.tzinfo):
    """a tzinfo whose offset depends on the datetime"""
    def __init__(self, a, b): self.a, self.b = a, b
    def utcoffset(self, d): return None if d is None else (self.a if d.month < 7 else self.b)
    def dst(self, d): return None
    def tzname(self, d): return None if d is None else 'ODD'
def aware(r):
    d = datetime_(r)
    if r.random() < .15: d = d.replace(tzinfo=Odd(offset(r), offset(r)))
    return d
@check('C17', 3)
def aware_datetimes(r):
    d = aware(r)
    sm = r.random() < .25
    o = {'strip_microseconds': True} if sm else r.choice([{}, {'strip_microseconds': False}])
    x, e = fails(jsons.dump, d, **o)
    require(e is None and type(x) is str, 'dump(%r, **%s) gave %s', d, o, short(x if e is None else e))
    m = RFC.match(x)
    require(m, 'dump(%r) is %r, not RFC3339', d, x)
    off = d.utcoffset()
    mins = int(off.total_seconds() // 60)
    if m.group(8) == 'Z': require(mins == 0, 'dump(%r) is %r but its offset is not zero', d, x)
    else: require(m.group(8) == '%s%02d:%02d' % ('-' if mins < 0 else '+', abs(mins) // 60, abs(mins) % 60), 'dump(%r) is %r, with the wrong offset', d, x)
    require((m.group(7) is None) == (sm or d.microsecond == 0), 'dump(%r, **%s) is %r: microseconds', d, o, x)
    require(m.groups()[:6] == ('%04d' % d.year, '%02d' % d.month, '%02d' % d.day, '%02d' % d.hour, '%02d' % d.minute, '%02d' % d.second), 'dump(%r) is %r: digits', d, x)
    for f in (lambda: jsons.load(x, dt.datetime), lambda: jsons.load(x, dt.datetime, strict=True), lambda: jsons.load([x])[0], lambda: jsons.loads(jsons.dumps(d, **o), dt.datetime), lambda: jsons.load([x], List[dt.datetime])[0]):
        y, e = fails(f)
        require(e is None and type(y) is dt.datetime, 'dump(%r) is %r and loads to %s', d, x, short(y if e is None else e))
        z = d.replace(microsecond=0) if sm else d
        require(y.replace(tzinfo=None) == z.replace(tzinfo=None) and y.utcoffset() == off, 'dump(%r, **%s) is %r and loads to %r', d, o, x, y)
    return x

@check('C17', 2)
def dates_times_zones_deltas(r):
    k = r.randrange(4)
    if k == 0: v, t = date_(r), dt.date
    elif k == 1: v, t = time_(r), dt.time
    elif k == 2: v, t = tzone(r), dt.timezone
    else:
        t = dt.timedelta
        v = r.choice([lambda: timedelta_(r), lambda: dt.timedelta(microseconds=r.randrange(-2**52, 2**52)), lambda: dt.timedelta(days=r.randrange(-98000, 98000), seconds=r.randrange(86400), microseconds=r.randrange(10**6))])()
    x, e = fails(jsons.dump, v)
    require(e is None, 'dump(%r) raised %s', v, short(e))
    if k == 0: require(x == '%04d-%02d-%02d' % (v.year, v.month, v.day), 'dump(%r) is %r', v, x)
    if k == 1: require(x == '%02d:%02d:%02d' % (v.hour, v.minute, v.second) + ('.%06d' % v.microsecond if v.microsecond else ''), 'dump(%r) is %r', v, x)
    for f in (lambda: jsons.load(x, t), lambda: jsons.load(x, t, strict=True), lambda: jsons.loads(jsons.dumps(v), t), lambda: jsons.load(jsons.dump({'k': v}), Dict[str, t])['k'], lambda: jsons.load(jsons.dump(v, t), t)):
        y, e = fails(f)
        require(e is None and type(y) is t and y == v, 'dump(%r) is %r and loads to %s', v, x, short(y if e is None else e))
        if k == 2: require(y.utcoffset(None) == v.utcoffset(None), 'timezone %r loads to %r', v, y)
    return repr(v)

@table('C17', range(-1439, 1440), 1)
def every_whole_minute_offset(m, r):
    for tz in (dt.timezone(dt.timedelta(minutes=m)), dt.timezone(dt.timedelta(minutes=m), r.choice(['UTC', 'X', 'CET', '']))):
        for d in (dt.datetime(2020, 2, 29, 23, 59, 59, 999999, tz), dt.datetime(r.choice([1, 999, 9999]), 6, 15, 0, 0, 0, r.choice([0, 1]), tz)):
            x = jsons.dump(d)
            y = jsons.load(x, dt.datetime)
            require(y.replace(tzinfo=None) == d.replace(tzinfo=None) and y.utcoffset() == d.utcoffset(), 'dump(%r) is %r and loads to %r', d, x, y)
            require(x.endswith('Z') <= (m == 0), 'dump(%r) is %r', d, x)
        y = jsons.load(jsons.dump(tz), dt.timezone)
        require(y.utcoffset(None) == tz.utcoffset(None), 'timezone %r loads to %r', tz, y)
    return m

@check('C17', .5)
def fractions_of_any_length(r):
    n = r.randrange(1, 10)
    frac = ''.join(r.choice(string.digits) for _ in range(n))
    tail = r.choice(['Z', '+00:00', '-00:30', '+05:45', '-12:00'])
    s = '2021-03-04T05:06:07.%s%s' % (frac, tail)
    y, e = fails(jsons.load, s, dt.datetime)
    want = int((frac + '000000')[:6])
    require(e is None and y.microsecond == want, 'load(%r) gave %s', s, short(y if e is None else e))
    return s

# ---------------------------------------------------------------- C18
KT = dict(camel=jsons.KEY_TRANSFORMER_CAMELCASE, snake=jsons.KEY_TRANSFORMER_SNAKECASE, pascal=jsons.KEY_TRANSFORMER_PASCALCASE, lisp=jsons.KEY_TRANSFORMER_LISPCASE)
SEPS = dict(camel='-_', pascal='-_', snake='-', lisp='_')
def chk_transform(s, ascii_):
    out = {}
    for n, f in KT.items():
        y, e = fails(f, s)
        require(e is None and type(y) is str, '%scase(%r) gave %s', n, s, short(y if e is None else e))
        for c in SEPS[n]: require(c not in y, '%scase(%r) is %r and contains %r', n, s, y, c)
        out[n] = y
        if ascii_:
            z = f(y)
            require(z == y, '%scase(%r) is %r, but %scase of that is %r', n, s, y, n, z)
    if ascii_: require(out['pascal'][:1].lower() + out['pascal'][1:] == out['camel'] and out['pascal'][:1] == out['pascal'][:1].upper() , 'pascalcase(%r) is %r and camelcase %r', s, out['pascal'], out['camel'])
    else: require(out['pascal'] == out['camel'][:1].upper() + out['camel'][1:], 'pascalcase(%r) is %r and camelcase %r', s, out['pascal'], out['camel'])
    require(out['lisp'] == out['snake'].replace('_', '-'), 'lispcase(%r) is %r and snakecase %r', s, out['lisp'], out['snake'])
ALPHA = 'aB_-1 '
@table('C18', [''.join(t) for n in range(0, 7) for t in itertools.product('aB_-', repeat=n)] + [''.join(t) for n in range(1, 5) for t in itertools.product('aZ_-1 .', repeat=n)], 1)
def all_short_strings(s, r):
    chk_transform(s, True)
    return s
@check('C18', 1)
def any_string(r):
    asc = r.random() < .6
    al = string.ascii_letters + string.digits + '____----' + string.punctuation + ' \t' if asc else string.ascii_letters + '__--éßÀİıſǆΣς\u0345中\U0001F600\ud800\x00'
    s = ''.join(r.choice(al) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20])))
    chk_transform(s, asc)
    return s
@check('C18', 1)
def names_come_back(r):
    ws = [''.join(r.choice(string.ascii_lowercase) for _ in range(r.randrange(2, 8))) for _ in range(r.randrange(1, 6))]
    n = '_'.join(ws)
    for k in ('camel', 'pascal', 'lisp', 'snake'):
        y = KT[k](n)
        require(KT['snake'](y) == n, 'snakecase(%scase(%r)) is %r', k, n, KT['snake'](y))
    want = ''.join(w.title() for w in ws)
    require(KT['pascal'](n) == want and KT['camel'](n) == want[0].lower() + want[1:] and KT['lisp'](n) == '-'.join(ws), 'the transformations of %r are %s', n, {k: f(n) for k, f in KT.items()})
    return n

# ---------------------------------------------------------------- C20
class Arg:
    def __init__(self, v: int = 0): self.v = v
    def __eq__(self, o): return type(o) is type(self) and o.v == self.v
    __hash__ = None
    def __repr__(self): return 'Arg(%r)' % (self.v,)
ARGS = [(int, lambda r: r.choice(['5', 5, 7.0])), (str, lambda r: r.choice(['x', 5])), (dt.datetime, lambda r: '2020-01-01T10:00:00Z'), (dt.date, lambda r: '2020-01-01'),
        (List[int], lambda r: ['1', 2]), (Arg, lambda r: {'v': 3}), (Optional[int], lambda r: r.choice([None, '4'])), (Dict[str, int], lambda r: {'k': '1'}), (None, lambda r: r.choice(['q', {'a': [1]}, 3])),
        (Union[int, str], lambda r: r.choice(['z', 1])), (Color, lambda r: 'RED')]
DARGS = [(int, lambda r: integer(r)), (dt.datetime, datetime_), (Arg, lambda r: Arg(integer(r))), (None, lambda r: r.choice([Arg(1), [Arg(2)], {'k': dt.date(2020, 1, 1)}, 5])), (List[Arg], lambda r: [Arg(1), Arg(2)]), (Optional[Arg], lambda r: r.choice([None, Arg(3)])), (str, text), (Color, lambda r: Color.GREEN)]

def mk_fn(r, pool, kind, is_async):
    n = r.randrange(0, 5)
    ps = [r.choice(pool) for _ in range(n)]
    names = ['p%d' % i for i in range(n)]
    if kind == 'plain' and n and r.random() < .35: names[r.choice([0, 0, n - 1])] = r.choice(['self', 'cls'])
    ret = r.choice(pool)
    T, D = [], []
    parts, star = [], False
    for nm, (t, mk) in zip(names, ps):
        s = nm
        if t is not None: s += ': __T[%d]' % len(T); T.append(t)
        parts.append(s)
    kwo = r.random() < .4
    if kwo: parts += ['*', 'kw: int = 9']
    if r.random() < .3: parts.append('**rest')
    first = {'method': ['self'], 'classmethod': ['cls']}.get(kind, [])
    src = '%sdef fn(%s)%s:\n    __calls.append((%s))\n    return __ret[0]\n' % ('async ' if is_async else '', ', '.join(first + parts), ' -> __T[%d]' % len(T) if ret[0] is not None else '', ''.join(x + ', ' for x in first + names + (['kw'] if kwo else [])))
    if ret[0] is not None: T.append(ret[0])
    calls, retv = [], [None]
    ns = {'__T': T, '__calls': calls, '__ret': retv}
    exec(src, ns)
    return ns['fn'], ps, ret, calls, retv, kwo

def norm(x):
    if isinstance(x, (list, tuple)): return [norm(v) for v in x]
    return x

@check('C20', 4)
def arguments_and_result_are_converted(r):
    load_ = r.random() < .5
    pool = ARGS if load_ else DARGS
    kind = r.choice(['plain', 'plain', 'method', 'classmethod'])
    is_async = r.random() < .25
    fn, ps, ret, calls, retv, kwo = mk_fn(r, pool, kind, is_async)
    var = r.choice(['obj', 'obj', 's', 'b'])
    base = {('obj', True): jsons.load, ('s', True): jsons.loads, ('b', True): jsons.loadb, ('obj', False): jsons.dump, ('s', False): jsons.dumps, ('b', False): jsons.dumpb}[(var, load_)]
    enc = (lambda v: v) if not load_ or var == 'obj' else (lambda v: json.dumps(v)) if var == 's' else (lambda v: json.dumps(v).encode())
    f = r.choice([None, jsons.fork()])
    o = {} if f is None else {'fork_inst': f}
    if f is not None:
        if load_: jsons.set_deserializer(lambda obj, cls=None, **kw: ('marked', kw.get('mark')), Arg, fork_inst=f)
        else: jsons.set_serializer(lambda obj, cls=None, **kw: ['marked', kw.get('mark')], Arg, fork_inst=f)
        o['mark'] = 7
    if r.random() < .2: o['strict'] = True
    pr, rv = r.choice([(True, True), (True, True), (False, True), (True, False), (False, False)])
    if not pr: o2 = dict(o, parameters=False)
    else: o2 = dict(o)
    if not rv: o2['returnvalue'] = False
    if load_: deco = decorators.loaded(**o2, **({} if var == 'obj' else {'loader': base}))
    else: deco = decorators.dumped(**o2, **({} if var == 'obj' else {'dumper': base}))
    conv = lambda v, t: base(v, cls=t, **{'fork_inst': JsonSerializable, **o})
    g = deco(fn)
    require(not calls, 'decorating calls the function')
    vals = [enc(mk(r)) for _, mk in ps]
    k = r.randrange(0, 3)
    retv[0] = enc(ret[1](r))
    want_args, bad = [], None
    for v, (t, _) in zip(vals, ps):
        if not pr: want_args.append(v); continue
        w, e = fails(conv, v, t)
        if e is not None: bad = e; break
        want_args.append(w)
    want_ret, bad_ret = (retv[0], None) if not rv else fails(conv, retv[0], ret[0])
    kws = {'kw': '3'} if kwo and r.random() < .5 else {}
    if kind == 'method':
        C = type('C', (), {'fn': g}); first = [C()]; call = first[0].fn
    elif kind == 'classmethod':
        C = type('C', (), {'fn': classmethod(g)}); first = [C]; call = C.fn
    else: first, call = [], g
    what = '%s-decorated %s%s called with %s (options %s)' % ('loaded' if load_ else 'dumped', kind, inspect.signature(fn), short(vals), o2)
    y, e = fails((lambda *a, **kw: asyncio.run(call(*a, **kw))) if is_async else call, *vals, **kws)
    if bad is not None:
        require(e is not None and type(e) is type(bad) and not calls, '%s: an argument cannot be converted (%s) but got %s', what, short(bad), short(y if e is None else e))
        return None
    require(len(calls) == 1, '%s: the function was called %d times%s', what, len(calls), '' if e is None else ' (%s)' % short(e))
    got = list(calls[0])
    if first: require(got[0] is first[0], '%s: self/cls became %s', what, short(got[0])); got = got[1:]
    if kwo: require(got[-1] == kws.get('kw', 9), '%s: the keyword argument became %s', what, short(got[-1])); got = got[:-1]
    require(len(got) == len(want_args) and all(same(norm(a), norm(b)) for a, b in zip(got, want_args)), '%s: the function received %s instead of %s', what, short(got), short(want_args))
    if bad_ret is not None:
        require(e is not None and type(e) is type(bad_ret), '%s: the result cannot be converted but got %s', what, short(y if e is None else e)); return None
    require(e is None and same(norm(y), norm(want_ret)), '%s: the result was %s instead of %s (returned: %s)', what, short(y if e is None else e), short(want_ret), short(retv[0]))
    return what

@check('C20', .3, 200)
def what_cannot_be_decorated(r):
    for d in (decorators.loaded, decorators.dumped):
        o = r.choice([{}, {'parameters': False}, {'returnvalue': False}, {'fork_inst': jsons.fork()}])
        for x in (Arg, type('T', (), {}), staticmethod(lambda a: a), enum.Enum, int):
            y, e = fails(d(**o), x)
            require(isinstance(e, InvalidDecorationError), 'decorating %r gave %s', x, short(y if e is None else e))
    for m in r.sample([json.loads, jsons.dump, jsons.dumps, jsons.dumpb, lambda x, **k: x, None, 'load', int, jsons.transform], 4):
        y, e = fails(decorators.loaded, loader=m)
        require(isinstance(e, InvalidDecorationError), 'loaded(loader=%r) gave %s', m, short(y if e is None else e))
    for m in r.sample([json.dumps, jsons.load, jsons.loads, jsons.loadb, lambda x, **k: x, None, 'dump', int], 4):
        y, e = fails(decorators.dumped, dumper=m)
        require(isinstance(e, InvalidDecorationError), 'dumped(dumper=%r) gave %s', m, short(y if e is None else e))
    return None

# ---------------------------------------------------------------- C21
DOPTS = [{}, {}, {'strip_nulls': True}, {'strict': True}, {'key_transformer': jsons.KEY_TRANSFORMER_CAMELCASE}, {'strip_privates': True}, {'verbose': False}, {'strip_microseconds': True}, {'use_enum_name': False}]
LOPTS = [{}, {}, {'strict': True}, {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}, {'use_enum_name': True}, {'use_enum_name': False}]
JD = [{}, {}, {'indent': 2}, {'sort_keys': True}, {'ensure_ascii': False}, {'separators': (',', ':')}]
def agree(a, b, what):
    (y, e), (z, g) = a, b
    if g is not None: require(e is not None and type(e) is type(g), '%s gave %s, expected %s', what, short(y if e is None else e), short(g))
    else: require(e is None and (same(y, z) or repr(y) == repr(z) or (type(y) is type(z) and hasattr(y, '__dict__') and vars(y) == vars(z))), '%s gave %s instead of %s', what, short(y if e is None else e), short(z))

@check('C21', 2)
def strings_and_bytes(r):
    s = spec(r, 2)
    v = s.make(r) if r.random() < .8 else jvalue(r, 2)
    f = r.choice([None, jsons.fork()])
    fo = {} if f is None else {'fork_inst': f}
    cl = r.choice([{}, {'cls': s.t}])
    o, jd = r.choice(DOPTS), r.choice(JD)
    jk = {'jdkwargs': jd} if jd else {}
    jc = dict(jd)
    want = fails(lambda: json.dumps(jsons.dump(v, **cl, **o, **fo), **jd))
    what = '(%s, %s, %s)' % (short(v), cl, {**o, **jk})
    agree(fails(jsons.dumps, v, **jk, **cl, **o, **fo), want, 'dumps' + what)
    enc = r.choice(['utf-8', 'utf-8', 'utf-16', 'latin-1', 'ascii'])
    ek = {} if enc == 'utf-8' and r.random() < .5 else {'encoding': enc}
    agree(fails(jsons.dumpb, v, **ek, **jk, **cl, **o, **fo), fails(lambda: json.dumps(jsons.dump(v, **cl, **o, **fo), **jd).encode(enc)), 'dumpb(encoding=%s)%s' % (enc, what))
    require(jd == jc, 'jdkwargs were modified')
    # loading
    x, e = fails(lambda: json.dumps(jsons.dump(v, **cl)))
    if e is not None or r.random() < .2: x = json.dumps(jvalue(r, 2))
    lo = r.choice(LOPTS)
    jl = r.choice([{}, {}, {'jdkwargs': {'parse_float': decimal.Decimal}} if r.random() < .2 else {}, {'jdkwargs': {'parse_int': float}}])
    cls = r.choice([None, s.t])
    ck = r.choice([(), (cls,)]) if cls is None else (cls,)
    want = fails(lambda: jsons.load(json.loads(x, **jl.get('jdkwargs', {})), *ck, **lo, **fo))
    what = '(%s, %s, **%s)' % (short(x), cls, {**lo, **jl})
    agree(fails(jsons.loads, x, *ck, **jl, **lo, **fo), want, 'loads' + what)
    b = x.encode(enc, 'replace')
    agree(fails(jsons.loadb, b, *ck, **ek, **jl, **lo, **fo), fails(lambda: jsons.loads(b.decode(enc), *ck, **jl, **lo, **fo)), 'loadb(encoding=%s)%s' % (enc, what))
    return what

class T1:
    def __init__(self, a: int, b_c: Optional[str] = None): self.a, self.b_c = a, b_c
class T2:
    def __init__(self, a: str, b_c: Optional[str] = None, extra: int = 3): self.a, self.b_c, self.extra = a, b_c, extra
@check('C21', 1)
def transform_is_load_of_dump(r):
    s = spec(r, 2)
    v, t = (s.make(r), s.t) if r.random() < .5 else (T1(integer(r), r.choice([None, text(r)])), r.choice([T2, T1, dict]))
    seen = []
    def m(d):
        seen.append(copy.deepcopy(d))
        if isinstance(d, dict): d = {**d, 'extra': 8}
        return d
    mapper = r.choice([None, None, m])
    dk = r.choice([{}, {'strip_nulls': True}, {'key_transformer': jsons.KEY_TRANSFORMER_CAMELCASE}])
    dc = r.choice([{}, {}, {'dump_cls': type(v)} if not isinstance(v, (list, dict, tuple, set, frozenset)) else {}])
    lo = r.choice([{}, {}, {'strict': True}, {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}])
    f = r.choice([None, jsons.fork()])
    if f is not None: lo = {**lo, 'fork_inst': f}; dk = {**dk, 'fork_inst': f}
    def ref():
        d = jsons.dump(v, dc.get('dump_cls'), **dk)
        return jsons.load(m(d) if mapper else d, t, **lo)
    want = fails(ref)
    n = len(seen); del seen[:]
    got = fails(jsons.transform, v, t, **({'mapper': mapper} if mapper else {}), **dc, **({'dump_kwargs': dk} if dk else {}), **lo)
    agree(got, want, 'transform(%s, %s, %s, %s, %s)' % (short(v), t, dc, dk, lo))
    if mapper: require(len(seen) == n, 'transform applied the mapper %d times', len(seen))
    return repr((v, t, dk, lo))

def mk_serializable(r, base):
    class Pers(base):
        def __init__(self, my_name: str, my_age: Optional[int] = None, when: Optional[dt.datetime] = None, kid: Optional[T1] = None):
            self.my_name, self.my_age, self.when, self.kid = my_name, my_age, when, kid
    return Pers
def kid_eq(a, b): return (a is None and b is None) or (type(a) is type(b) and vars(a) == vars(b))
def peq(a, b): return type(a) is type(b) and all(kid_eq(getattr(a, n), getattr(b, n)) if n == 'kid' else getattr(a, n) == getattr(b, n) for n in ('my_name', 'my_age', 'when', 'kid'))
@check('C21', 3)
def methods_of_serializable_classes(r):
    base = r.choice([JsonSerializable, JsonSerializable.fork(), JsonSerializable.fork('named%d' % next(gen._n))])
    forked = base is not JsonSerializable
    pd = pl = None
    if r.random() < .5:
        pd = r.choice([{'key_transformer': jsons.KEY_TRANSFORMER_CAMELCASE}, {'strip_nulls': True}, {'strict': True, 'strip_nulls': True}, {'key_transformer': jsons.KEY_TRANSFORMER_LISPCASE, 'strip_microseconds': True}])
        base = base.with_dump(fork=True, **pd)
    if r.random() < .5:
        pl = r.choice([{'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}, {'strict': True}, {'strict': True, 'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}])
        base = base.with_load(fork=True, **pl)
    P = mk_serializable(r, base)
    if r.random() < .5:
        P.set_serializer(lambda o, **k: 'S' + o, str)
    if r.random() < .4:
        P.set_deserializer(lambda o, cls=str, **k: 'D' + str(o), str)
    if r.random() < .3: P.set_serializer(lambda o, **k: {'kid': o.a}, T1)
    p = P(word(r), r.choice([None, 5]), r.choice([None, datetime_(r)]), r.choice([None, T1(1, 'q')]))
    o = r.choice([{}, {}, {'strip_nulls': True}, {'key_transformer': jsons.KEY_TRANSFORMER_PASCALCASE}, {'strip_privates': True}])
    dref = lambda **o: jsons.dump(p, **{'fork_inst': P, **o, **(pd or {})})
    agree(fails(p.dump, **o), fails(dref, **o), 'p.dump(**%s) with preset %s' % (o, pd))
    agree(fails(lambda: p.json), fails(dref), 'p.json with preset %s' % pd)
    plain = lambda **o: jsons.dump(p, fork_inst=P, **o)
    jd = r.choice(JD); jk = {'jdkwargs': jd} if jd else {}
    agree(fails(p.dumps, **jk, **o), fails(lambda: json.dumps(plain(**o), **jd)), 'p.dumps(**%s)' % o)
    agree(fails(p.dumpb, **jk, **o), fails(lambda: json.dumps(plain(**o), **jd).encode()), 'p.dumpb(**%s)' % o)
    agree(fails(str, p), fails(lambda: json.dumps(plain())), 'str(p)')
    x = plain()
    if r.random() < .3: x = {k: v for k, v in x.items() if r.random() < .8}
    if r.random() < .2: x['left_over'] = 1
    if r.random() < .3: x = {jsons.KEY_TRANSFORMER_CAMELCASE(k): v for k, v in x.items()}
    lo = r.choice([{}, {}, {'strict': True}, {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}])
    for nm, f, ps, ref in (('load', P.load, pl or {}, lambda **o: jsons.load(x, P, fork_inst=P, **o)), ('from_json', P.from_json, pl or {}, lambda **o: jsons.load(x, P, fork_inst=P, **o)),
                           ('loads', lambda x, **o: P.loads(json.dumps(x), **o), {}, lambda **o: jsons.loads(json.dumps(x), P, fork_inst=P, **o)), ('loadb', lambda x, **o: P.loadb(json.dumps(x).encode(), **o), {}, lambda **o: jsons.loadb(json.dumps(x).encode(), P, fork_inst=P, **o))):
        y, e = fails(f, x, **lo)
        z, g = fails(ref, **{**lo, **ps})
        what = 'P.%s(%s, **%s) with preset %s' % (nm, short(x), lo, ps)
        if g is not None: require(e is not None and type(e) is type(g), '%s gave %s, expected %s', what, short(y if e is None else e), short(g))
        else: require(e is None and peq(y, z), '%s gave %s instead of %s', what, short(vars(y) if e is None else e), short(vars(z)))
    return repr((pd, pl, o, lo, vars(p)))

# ---------------------------------------------------------------- C22
PRIM = [int, float, bool, str]
class SubInt(int): pass
class SubStr(str): pass
NEWTYPES = {(t, 0): NewType('N' + t.__name__, t) for t in (int, float, bool)}
NEWTYPES.update({(t, 1): NewType('NN' + t.__name__, NEWTYPES[t, 0]) for t in (int, float, bool)})
@check('C22', 3)
def primitives_conform(r):
    t = r.choice(PRIM); T = NEWTYPES.get((t, r.randrange(6)), t)
    v = r.choice([lambda: jvalue(r, 1), lambda: jscalar(r), lambda: text(r), lambda: r.choice(['2020-01-01T00:00:00Z', '1e5', ' 12 ', '0x1', 'nan', '-1', 'True', '', '１２', True, False, 0, 1.5, float('inf'), -0.0, [], {}, [1], {'a': 1}])])()
    o = r.choice([{}, {}, {'strict': True}, {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}])
    fs = [('load', lambda: jsons.load(v, T, **o)), ('list', lambda: jsons.load([v], List[T], **o)[0]), ('dict', lambda: jsons.load({'k': v}, Dict[str, T], **o)['k']), ('tuple', lambda: jsons.load([v], Tuple[T], **o)[0])]
    for n, f in fs:
        y, e = fails(f)
        if e is not None: require(isinstance(e, DeserializationError), '%s of %s into %s raised %s', n, short(v), t.__name__, short(e))
        else:
            require(isinstance(y, t), '%s of %s into %s gave %s', n, short(v), t.__name__, short(y))
            if isinstance(v, t): require(type(y) is type(v) and same(y, v) or y == v and t is str, '%s of %s into %s gave %s', n, short(v), t.__name__, short(y))
        if isinstance(v, t): require(e is None, '%s of %s into %s failed: %s', n, short(v), t.__name__, short(e))
    # dumping
    x, e = fails(jsons.dump, v, T)
    if e is not None: require(isinstance(e, SerializationError), 'dump(%s, %s) raised %s', short(v), t.__name__, short(e))
    elif v is not None:
        require(isinstance(x, t), 'dump(%s, %s) gave %s', short(v), t.__name__, short(x))
        want, g = fails(t, v)
        if not isinstance(v, t): require(g is None and same(x, want), 'dump(%s, %s) gave %s', short(v), t.__name__, short(x))
        else: require(same(x, v), 'dump(%s, %s) gave %s', short(v), t.__name__, short(x))
    want, g = fails(t, v)
    if v is not None and g is None: require(e is None, 'dump(%s, %s) raised %s', short(v), t.__name__, short(e))
    if v is not None and g is not None: require(e is not None, 'dump(%s, %s) gave %s but %s', short(v), t.__name__, short(x), short(g))
    return repr((v, T, o))

class Flag_(enum.Flag):
    R = 1
    W = 2
class StrE(str, enum.Enum):
    ONE = 'one'
    TWO = 'ONE'
class TupE(enum.Enum):
    P = (1, 2)
    Q = 2.5
    R = None
ENUMS = [Color, Swap, Num, StrE, enum.Enum('Dyn', 'x y z')]
@check('C22', 3)
def scalars_round_trip(r):
    k = r.randrange(8)
    do, lo = {}, {}
    if k <= 2:
        E = r.choice(ENUMS)
        v, t = r.choice(list(E)), E
        c = r.randrange(4)
        if c == 0: do, lo = {'use_enum_name': True}, {'use_enum_name': True}
        elif c == 1: do, lo = {'use_enum_name': False}, {'use_enum_name': False}
        elif c == 2: do, lo = {}, {'use_enum_name': True}
        x = jsons.dump(v, **do)
        require(x == (v.value if c == 1 else v.name), 'dump(%s, **%s) is %s', v, do, short(x))
        if c == 3:     # either: a name or a value that is no name
            if r.random() < .5 and v.value not in E.__members__: do = {'use_enum_name': False}
    elif k == 3: v, t = uuid_(r), uuid.UUID
    elif k == 4: v, t = decimal_(r), decimal.Decimal
    elif k == 5: v, t = r.choice([complex_(r), complex(0, -0.0), complex(-0.0, 1e-300), complex(float('inf'), 1)]), complex
    elif k == 6: v, t = path_(r), r.choice([pathlib.PurePosixPath, pathlib.PurePath])
    else: s = scalar(r); v, t = s.make(r), s.t
    if r.random() < .3: do = {**do, 'strict': True}
    if r.random() < .3: lo = {**lo, 'strict': True}
    x, e = fails(jsons.dump, v, **do)
    require(e is None, 'dump(%r, **%s) raised %s', v, do, short(e))
    for n, f in (('load', lambda: jsons.load(x, t, **lo)), ('text', lambda: jsons.loads(jsons.dumps(v, **do), t, **lo)), ('list', lambda: jsons.load(jsons.dump([v], **do), List[t], **lo)[0]), ('typed', lambda: jsons.load(jsons.dump(v, t, **do), t, **lo)), ('optional', lambda: jsons.load(jsons.dump(v, Optional[t], **do), Optional[t], **lo))):
        y, e = fails(f)
        require(e is None and type(y) is type(v) and (y == v and str(y) == str(v)), '%r dumps to %s and loads (%s, %s) to %s', v, short(x), n, lo, short(y if e is None else e))
        if isinstance(v, enum.Enum): require(y is v, '%r loads to another member', v)
    return repr((v, do, lo))

@check('C22', 1)
def enum_settings(r):
    E = r.choice(ENUMS)
    u = r.choice([True, False, None])
    v = r.choice([r.choice(list(E)).name, r.choice(list(E)).value, text(r), 99])
    names, values = {m: E[m] for m in E.__members__}, {}
    for m in E: values[m.value] = m
    byname = names.get(v) if isinstance(v, str) else None
    byval = values.get(v) if v in values else None
    want = byname if u else byval if u is False else (byname if byname is not None else byval)
    y, e = fails(jsons.load, v, E, **({} if u is None else {'use_enum_name': u}))
    if want is None: require(isinstance(e, DeserializationError), 'load(%r, %s, use_enum_name=%s) gave %s', v, E, u, short(y if e is None else e))
    else: require(e is None and y is want, 'load(%r, %s, use_enum_name=%s) gave %s', v, E, u, short(y if e is None else e))
    return repr((E, v, u))
