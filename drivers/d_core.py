"""C01, C02, C03, C12: errors, containment, no mutation, validators."""
import datetime as dt, json, enum, uuid, decimal, collections, itertools, copy
from typing import *
import jsons
from jsons import JsonsError, DeserializationError, SerializationError, ValidationError, DecodeError, UnfulfilledArgumentError
from jsons.exceptions import UnknownClassError
from lib import *
from gen import *
import gen

def any_type(r, depth=2):
    c = r.random()
    if c < .6: return spec(r, depth).t
    return r.choice([None, object, Any, list, dict, tuple, set, frozenset, collections.deque, List, Dict, Tuple, Set, Mapping, Iterable,
                     Union[int, str], Union[List[int], Dict[str, int]], Optional[Dict[str, Any]], NewType('NT', int), bytes, type(None),
                     collections.Counter, collections.OrderedDict, DefaultDict, DefaultDict[str, int], range, complex, type, gen.Color,
                     'int', 'gen.Color', 'no.such.Thing', '', 'builtins', 'List', 'typing.List', 'datetime.datetime'])

def options(r, load=True):
    o = {}
    if r.random() < .3: o['strict'] = True
    if r.random() < .3: o['key_transformer'] = r.choice([jsons.KEY_TRANSFORMER_SNAKECASE, jsons.KEY_TRANSFORMER_CAMELCASE, jsons.KEY_TRANSFORMER_PASCALCASE, jsons.KEY_TRANSFORMER_LISPCASE])
    if load:
        if r.random() < .2: o['use_enum_name'] = r.choice([True, False, None])
        if r.random() < .1: o['warn_on_fail'] = r.choice([True, False])
    else:
        if r.random() < .2: o['use_enum_name'] = True
        for n in ('strip_nulls', 'strip_privates', 'strip_properties', 'strip_class_variables', 'verbose', 'strip_microseconds'):
            if r.random() < .15: o[n] = True
        if r.random() < .1: o['verbose'] = r.choice([jsons.Verbosity.WITH_NOTHING, jsons.Verbosity.WITH_CLASS_INFO, jsons.Verbosity.WITH_DUMP_TIME, jsons.Verbosity.WITH_EVERYTHING])
        if r.random() < .1: o['strip_attr'] = r.choice(['name', ('a', 'b'), ['x']])
    return o

class Odd(Exception): pass
class OddArgs(Exception):
    def __init__(self, a, b): super().__init__(a, b)
class OddStr(Exception):
    def __str__(self): return 'odd {} %s {0}'
class OddAttrs(Exception):
    source, target, message, argument, cause = 'other source', bytes, 'other message', 'other', 5
EXCS = [OddAttrs('x'), ValueError('x'), TypeError('y'), KeyError('k'), KeyError(), IndexError(3), AttributeError('a'), Odd(), Odd('m', 2), OddArgs(1, 2), OddStr('q'),
        ZeroDivisionError(), RuntimeError('r'), StopIteration(), StopIteration(4), OSError(2, 'x'), LookupError(), AssertionError('as'), UnicodeDecodeError('utf8', b'x', 0, 1, 'r'),
        ImportError('i'), NameError('n'), OverflowError(), ArithmeticError('t'), NotImplementedError(), MemoryError('m'), EOFError(), BufferError(), ExceptionGroup('g', [ValueError(1)]), RecursionError('deep'),
        json.JSONDecodeError('m', 'doc', 0), Warning('w'), Exception(None), Exception({'a': 1})]
JEXCS = [JsonsError('j'), DeserializationError('d', 1, int), SerializationError('s'), ValidationError('v'), UnfulfilledArgumentError('u', 'a', {}, int), UnknownClassError('c', 1, 'x')]

def fresh_exc(r, js=.25):
    e = r.choice(JEXCS if r.random() < js else EXCS)
    e.__traceback__ = None; e.__cause__ = None; e.__context__ = None
    return e

# ---------------------------------------------------------------- C01
@check('C01', 4)
def only_jsons_errors(r):
    t, v, o = any_type(r), jvalue(r, 3), options(r)
    if r.random() < .1 and isinstance(v, dict): v['-meta'] = bad_meta(r)
    if r.random() < .1 and isinstance(v, dict): v['-keys'] = jvalue(r, 2)
    x, e = fails(jsons.load, v, t, **o)
    if e is not None:
        require(isinstance(e, JsonsError), 'load(%s, %s, **%s) raised %s: %s', short(v), t, o, type(e).__name__, short(e))
    return (repr(v), str(t), e is None)

@check('C01', 2)
def near_misses(r):
    """valid JSON for the type with one part damaged"""
    s = spec(r, 3); v = s.make(r)
    d, e = fails(jsons.dump, v, s.t)
    if e: raise Skip()
    d = copy.deepcopy(d)
    spots = []
    def walk(x, put):
        spots.append((x, put))
        if isinstance(x, list):
            for i in range(len(x)): walk(x[i], lambda n, i=i, x=x: x.__setitem__(i, n))
        elif isinstance(x, dict):
            for k in list(x): walk(x[k], lambda n, k=k, x=x: x.__setitem__(k, n))
    box = [d]; walk(d, lambda n: box.__setitem__(0, n))
    for _ in range(r.choice([1, 1, 2])):
        x, put = r.choice(spots)
        c = r.random()
        if isinstance(x, dict) and c < .4 and x:
            k = r.choice(list(x))
            if r.random() < .5: del x[k]
            else: x[r.choice(NASTY_KEYS)] = x.pop(k)
        elif isinstance(x, str) and c < .5: put(x[:-1] if r.random() < .5 else x + 'Z')
        else: put(jvalue(r, 1))
    o = options(r)
    x, e = fails(jsons.load, box[0], s.t, **o)
    if e is not None: require(isinstance(e, JsonsError), 'load(%s, %s, **%s) raised %s: %s', short(box[0]), s.t, o, type(e).__name__, short(e))
    return (repr(box[0]), str(s.t))

SAFE_NAMES = ['int', 'str', 'list', 'dict', 'float', 'bool', 'NoneType', 'datetime.datetime', 'gen.Color', 'gen.Num', 'typing.List', 'typing.Dict[str, int]', 'List[int]',
              'Union', 'typing.Union', 'typing.Optional', 'uuid.UUID', 'no.such.Class', 'nosuch', '', '.', '..', '[', ']', '[]', 'a[b', 'List[', 'dict[str', 'typing.List[int][str]',
              'gen', 'gen.', '.gen', 'gen.Color.RED', 'gen.Color[RED]', 'typing.List[nosuch]', 'int[str]', 'len', 'print', 'sys.path', 'math.pi', 'é', '\x00', 'a b', '/', 'gen.NoSuch', 'typing.Any', 'object', 'type', 'gen.Swap[A]',
              'collections.OrderedDict', 'builtins.int', 'typing', 'json', 'typing.Dict', 'Dict[str,int]', 'enum.Enum']
def bad_meta(r):
    c = r.random()
    if c < .2: return jvalue(r, 2)
    if c < .35: return {'classes': jvalue(r, 2)}
    if c < .45: return {}
    cl = {}
    for _ in range(r.randrange(1, 3)):
        cl[r.choice(['/', '/', '/a', '/name', '', 'x', '/a/b', '/-meta'])] = r.choice(SAFE_NAMES) if r.random() < .8 else jvalue(r, 1)
    return {'classes': cl}

@check('C01', 3)
def meta_is_rejected_or_used(r):
    v = jvalue(r, 2, lambda: r.choice(WORDS[:4]))
    if not isinstance(v, dict): v = {'a': v}
    v['-meta'] = bad_meta(r)
    t = r.choice([None, None, object, dict, Dict[str, Any], gen.Color, int, List[int]]) if r.random() < .7 else any_type(r)
    w = v if r.random() < .6 else [v] if r.random() < .5 else {'k': v}
    o = options(r)
    x, e = fails(jsons.load, w, t, **o)
    if e is not None: require(isinstance(e, JsonsError), 'load(%s, %s, **%s) raised %s: %s', short(w), t, o, type(e).__name__, short(e))
    return (repr(w), str(t))

@check('C01', 1)
def unknown_class_is_an_error(r):
    name = r.choice(['no.such.Class', 'nosuch', 'gen.NoSuch', 'a.b.c', 'NoneSuch', 'jsons.NoSuchThing'])
    v = {'a': 1, '-meta': {'classes': {'/': name}}}
    x, e = fails(jsons.load, v, **options(r))
    require(isinstance(e, JsonsError), 'load(%s) gave %s / %s although the class is unknown', v, short(x), short(e))
    x, e = fails(jsons.load, {'a': 1}, name)
    require(isinstance(e, JsonsError), 'load({}, %r) gave %s / %s although the class is unknown', name, short(x), short(e))
    bad = r.choice([5, 'x', None, [], [['/', 'int']], 1.5, True])
    v = {'a': 1, '-meta': r.choice([bad, {'classes': bad}]) if bad is not None else 5}
    x, e = fails(jsons.load, v)
    require(isinstance(e, JsonsError), 'load(%s) gave %s / %s although the meta info is malformed', v, short(x), short(e))
    v = {'a': 1, '-meta': {'classes': {'/': r.choice([5, None, [], {}, 1.5])}}}
    x, e = fails(jsons.load, v)
    require(isinstance(e, JsonsError), 'load(%s) gave %s / %s although the meta info is malformed', v, short(x), short(e))
    return repr(v)

def check_wrapped(e, exc, src, tgt, what):
    if isinstance(exc, JsonsError):
        require(e is exc, '%s: the error of the library %s did not pass unchanged: %s', what, short(exc), short(e))
    else:
        require(type(e) is DeserializationError, '%s: %s surfaced as %s', what, short(exc), short(e))
        require(e.__cause__ is exc, '%s: cause is %s, not %s', what, short(e.__cause__), short(exc))
        require(e.source is src and e.target is tgt, '%s: source/target %s/%s', what, short(e.source), short(e.target))

@check('C01', 2)
def raising_deserializers(r):
    class K: pass
    exc = fresh_exc(r)
    def des(obj, cls=None, **kw): raise exc
    f = jsons.fork()
    t = r.choice([K, int, str, dt.datetime, gen.Color, list, uuid.UUID])
    jsons.set_deserializer(des, t, fork_inst=f)
    src = r.choice([{'a': 1}, [1], 'x', 1.5, {}, [], (1, 2), {1, 2}])
    o = options(r)
    x, e = fails(jsons.load, src, t, fork_inst=f, **{**o, 'strict': True})
    check_wrapped(e, exc, src, t, 'load(%s, %s)' % (short(src), t))
    # nested: the innermost offending value and type are reported by the error of that level
    class C:
        def __init__(self, a: t): self.a = a
    x, e = fails(jsons.load, {'a': src}, C, fork_inst=f, strict=True)
    check_wrapped(e, exc, src, t, 'load({a: %s}, C with a: %s)' % (short(src), t))
    x, e = fails(jsons.load, [src], List[t], fork_inst=f, strict=True)
    require(isinstance(e, JsonsError), 'load([x], List[%s]) with a deserializer raising %s raised %s', t, short(exc), short(e))
    return (repr(exc), str(t))

@check('C01', 1)
def raising_constructors(r):
    exc = fresh_exc(r)
    class K:
        def __init__(self, a): raise exc
    src = {'a': 1}
    x, e = fails(jsons.load, src, K)
    check_wrapped(e, exc, src, K, 'load into a class whose constructor raises')
    class P:
        def __init__(self): pass
        @property
        def p(self): return 1
        @p.setter
        def p(self, v): raise exc
    src = {'p': 1}
    x, e = fails(jsons.load, src, P)
    if e is not None: check_wrapped(e, exc, src, P, 'load into a class whose property setter raises')
    else: require(isinstance(exc, AttributeError), 'an exception of a property setter was swallowed: %s', short(exc))
    def getter(): raise exc
    x, e = fails(jsons.load, {}, K, attr_getters={'a': getter})
    require(isinstance(e, JsonsError), 'load with a raising attr_getter raised %s', short(e))
    return repr(exc)

@check('C01', 1)
def text_that_is_not_json(r):
    s = r.choice(['{', '[1,', '', 'nul', "{'a': 1}", '{"a" 1}', '1 2', 'a', '"', '\x00', '[1]]', '{"a":1,}', word(r) + '{', 'é'])
    t = r.choice([None, int, dict, List[int], gen.Color])
    x, e = fails(jsons.loads, s, t)
    require(isinstance(e, DecodeError), 'loads(%r, %s) raised %s', s, t, short(e))
    require(e.source == s and e.target is t, 'DecodeError of loads(%r, %s) carries %s / %s', s, t, short(e.source), short(e.target))
    enc = r.choice(['utf-8', 'latin-1', 'utf-16'])
    x, e = fails(jsons.loadb, s.encode(enc), t, encoding=enc)
    require(isinstance(e, DecodeError) and e.source == s and e.target is t, 'loadb of %r raised %s', s, short(e))
    class S(jsons.JsonSerializable): pass
    x, e = fails(S.loads, s)
    require(isinstance(e, DecodeError) and e.source == s and e.target is S, 'S.loads of %r raised %s', s, short(e))
    nb = r.choice(['abc', 1, None, [1], {}, bytearray(b'1'), 1.5, 'null'])
    x, e = fails(jsons.loadb, nb, t)
    require(isinstance(e, DeserializationError) and e.source is nb and e.target is t, 'loadb(%r) gave %s / %s', nb, short(x), short(e))
    x, e = fails(jsons.loadb, b'\xff\xfe\xfd"', t)
    require(isinstance(e, JsonsError), 'loadb of undecodable bytes raised %s', short(e))
    return (s, str(t))

NONE_OK = [None, Any, type(None), Optional[int], Optional[str], Union[int, None], Optional[List[int]], Union[str, int, None], Optional[gen.Color], Optional[Dict[str, int]]]
class Plain:
    def __init__(self, a=1): self.a = a
class UnionLike: pass
UnionLike.__name__ = 'MyUnion'
NONE_BAD = [int, str, float, bool, list, dict, tuple, set, List[int], List[Optional[int]], Dict[str, int], Tuple[int, None], Union[int, str], Union[List[int], str], gen.Color, dt.datetime,
            uuid.UUID, decimal.Decimal, complex, Plain, UnionLike, collections.OrderedDict, Dict[str, Optional[int]], List[Union[int, None]], Tuple[Optional[int], ...], dt.timedelta, dt.date, FrozenSet[int], NewType('NI', int), list[int], dict[str, int]]
@table('C01', [(t, True) for t in NONE_OK] + [(t, False) for t in NONE_BAD])
def none_is_rejected(case, r):
    t, ok = case
    for o in ({}, {'strict': True}):
        x, e = fails(jsons.load, None, t, **o)
        if ok: require(e is None and x is None, 'load(None, %s, **%s) gave %s / %s', t, o, short(x), short(e))
        else: require(isinstance(e, DeserializationError), 'load(None, %s, **%s) gave %s / %s', t, o, short(x), short(e))
    class C:
        def __init__(self, a: t): self.a = a
    if t is None or isinstance(t, str): return str(t)
    x, e = fails(jsons.load, {'a': None}, C)
    if ok: require(e is None and x.a is None, 'load({a: None}) into a: %s gave %s / %s', t, short(x), short(e))
    else: require(isinstance(e, JsonsError), 'load({a: None}) into a: %s gave %s', t, short(x and x.__dict__))
    x, e = fails(jsons.load, [None], List[t])
    if ok: require(e is None and x == [None], 'load([None], List[%s]) gave %s / %s', t, short(x), short(e))
    else: require(isinstance(e, JsonsError), 'load([None], List[%s]) gave %s / %s', t, short(x), short(e))
    return str(t)

# ---------------------------------------------------------------- C02
@check('C02', 2)
def raising_serializers(r):
    class K:
        def __iter__(self): return iter(())
    exc = fresh_exc(r)
    def ser(obj, cls=None, **kw): raise exc
    f = jsons.fork()
    t, v = r.choice([(K, K()), (int, 3), (str, 'x'), (dt.datetime, datetime_(r)), (gen.Color, gen.Color.RED), (list, [1]), (type(None), None), (dict, {}), (float, 1.5), (tuple, (1,)), (dt.timezone, dt.timezone.utc)])
    jsons.set_serializer(ser, t if t is not type(None) else None, fork_inst=f)
    o = options(r, False)
    for c in (None, t):
        x, e = fails(jsons.dump, v, c, fork_inst=f, **o)
        require(isinstance(e, SerializationError), 'dump(%s, %s) with a serializer raising %s gave %s / %s', short(v), c, short(exc), short(x), short(e))
        require(e is exc or e.__cause__ is exc or (isinstance(exc, SerializationError) and e is exc), 'dump(%s): the cause of %s is %s, not %s', short(v), short(e), short(e.__cause__), short(exc))
        x, e = fails(jsons.dumps, v, None, c, fork_inst=f, **o)
        require(isinstance(e, SerializationError), 'dumps(%s) gave %s / %s', short(v), short(x), short(e))
    for nest in ([v], (v,), {'a': v}):
        if t in (list, tuple, dict) : continue
        x, e = fails(jsons.dump, nest, fork_inst=f, **o)
        require(isinstance(e, SerializationError), 'dump(%s) with a serializer of the element raising %s gave %s / %s', short(nest), short(exc), short(x), short(e))
    return (repr(exc), str(t))

@check('C02', 1)
def returned_as_it_is(r):
    class K: pass
    out = r.choice([None, 0, '', [], object(), {'a': 1}, 5, K])
    seen = []
    def ser(obj, cls=None, **kw): seen.append((obj, cls, kw)); return out
    f = jsons.fork()
    jsons.set_serializer(ser, K, fork_inst=f)
    v = K()
    x = jsons.dump(v, fork_inst=f, **options(r, False))
    require(x is out and len(seen) == 1 and seen[0][0] is v, 'dump returned %s instead of what the serializer returned (%s)', short(x), short(out))
    return repr(out)

@check('C02', 2)
def only_serialization_errors(r):
    s, s2 = spec(r, 3), spec(r, 2)
    v = s.make(r)
    c = r.choice([None, s.t, s2.t, int, str, list, dict, List[int], Dict[str, int], Tuple[int, int], Union[int, str], tuple, 'int', gen.Color, 5, (), ''])
    o = options(r, False)
    if r.random() < .2: o['strict'] = True
    x, e = fails(jsons.dump, v, c, **o)
    if e is not None: require(isinstance(e, SerializationError), 'dump(%s, %s, **%s) raised %s: %s', short(v), c, o, type(e).__name__, short(e))
    return (repr(v), str(c))

@check('C02', 1)
def raising_attributes(r):
    exc = fresh_exc(r)
    class K:
        @property
        def p(self): raise exc
    if isinstance(exc, AttributeError): raise Skip()
    x, e = fails(jsons.dump, K(), **r.choice([{}, {'strict': True}, {'strip_properties': False}]))
    require(e is None or isinstance(e, SerializationError), 'dump of an object with a property raising %s raised %s', short(exc), short(e))
    x, e = fails(jsons.dump, [K()], strict=True)
    require(e is None or isinstance(e, SerializationError), 'dump of [K()] with a property raising %s raised %s', short(exc), short(e))
    return repr(exc)

# ---------------------------------------------------------------- C03
@check('C03', 3)
def load_does_not_write(r):
    s = spec(r, 3); v = s.make(r)
    o = options(r)
    verbose = r.random() < .3
    d, e = fails(jsons.dump, v, s.t, verbose=verbose)
    if e: raise Skip()
    if r.random() < .3: d = jvalue(r, 3)
    getters = {'a': lambda: 1, 'zz': lambda: 'q', 'name': lambda: None}
    if r.random() < .3: o['attr_getters'] = getters
    before, gb, kb = freeze(d), freeze(getters), list(o.items())
    x, e = fails(jsons.load, d, s.t if r.random() < .8 else None, **o)
    require(freeze(d) == before, 'load modified its argument: %s (type %s, options %s)', short(d), s.t, o)
    require(list(getters) == ['a', 'zz', 'name'], 'load modified the attr_getters of the caller: %s', short(getters))
    x2, e2 = fails(jsons.load, d, s.t, **{k: w for k, w in o.items() if k != 'attr_getters'})
    x3, e3 = fails(jsons.load, d, s.t, **{k: w for k, w in o.items() if k != 'attr_getters'})
    require((e2 is None) == (e3 is None) and (e2 is not None or same(x2, x3) or x2 == x3 or repr(x2) == repr(x3)), 'loading %s into %s twice gives %s and then %s', short(d), s.t, short(x2 if e2 is None else e2), short(x3 if e3 is None else e3))
    require(freeze(d) == before, 'load modified its argument: %s (type %s)', short(d), s.t)
    return (repr(d), str(s.t))

@check('C03', 3)
def dump_does_not_write(r):
    s = spec(r, 3); v = s.make(r)
    o = options(r, False)
    before = freeze(v)
    c = s.t if r.random() < .6 else None
    sa = ['x', 'a']
    if r.random() < .3: o['strip_attr'] = sa
    x, e = fails(jsons.dump, v, c, **o)
    require(freeze(v) == before, 'dump modified the object: %s (options %s)', short(v), o)
    require(sa == ['x', 'a'], 'dump modified strip_attr: %s', sa)
    # writing to the dump does not reach the object, and dumping again gives the same
    if e is None and 'verbose' not in o:
        y, e2 = fails(jsons.dump, v, c, **o)
        require(e2 is None and (same(x, y) or x == y), 'dumping %s twice gives %s and then %s', short(v), short(x), short(y if e2 is None else e2))
    return (repr(v), str(o))

@check('C03', 1)
def special_sections_stay(r):
    K = Dict[Tuple[int, int], int]
    d = {(r.randrange(3), r.randrange(3)): r.randrange(9) for _ in range(r.randrange(1, 4))}
    j = jsons.dump(d)
    class H:
        m: K
        def __init__(self, m: K): self.m = m
    for val, t in ((j, K), ({'m': j}, H), ([j], List[K]), ({'m': j, 'extra': {'q': [j]}}, H)):
        before = copy.deepcopy(val); bf = freeze(val)
        x, e = fails(jsons.load, val, t)
        require(val == before and freeze(val) == bf, 'load modified its argument %s -> %s', short(before), short(val))
        x2, e2 = fails(jsons.load, val, t)
        require((e is None) == (e2 is None), 'the second load of %s differs: %s / %s', short(val), short(e), short(e2))
    v = jsons.dump(H({}), verbose=True); v['m'] = {'k': {'a': 1}}
    before = freeze(v); fails(jsons.load, v, H); fails(jsons.load, v)
    require(freeze(v) == before, 'load modified a verbose dump: %s', short(v))
    return repr(d)

# ---------------------------------------------------------------- C12
class VA:
    def __init__(self, x: int = 0): self.x = x
class VB(VA): pass
class VC:
    def __init__(self, a: VA, n: int): self.a, self.n = a, n

class Verdict:
    """truthy or falsy results of all kinds"""
TRUE = [True, 1, 'x', [0], object()]
FALSE = [False, 0, '', None, [], 0.0, {}]

@check('C12', 4)
def validators_decide(r):
    f = jsons.fork() if r.random() < .7 else jsons._common_impl.StateHolder
    t, src = r.choice([(int, 5), (int, '5'), (str, 'x'), (str, 5), (float, 1.5), (float, 2), (bool, True), (list, [1, 2]), (dict, {'a': 1}), (VA, {'x': 3}), (VB, {'x': 3}), (dt.datetime, '2020-01-01T00:00:00Z'),
                       (gen.Color, 'RED'), (List[int], [1, 2]), (tuple, [1, 2]), (uuid.UUID, str(uuid_(r))), (Set[int], [1, 2]), (Tuple[int, ...], [1, 2]), (dt.timedelta, 5.0), (type(None), None), (Dict[str, int], {'a': 1}), (decimal.Decimal, '1.0'), (Any, 5), (Any, {'a': 1}), (Any, '2020-01-01')])
    mode = r.choice(['true', 'false', 'raise', 'raise0'])
    ret = r.choice(TRUE if mode == 'true' else FALSE)
    exc = r.choice([ValueError('the message'), AssertionError('the message'), Odd('the message', 3), KeyError('the message'), ValidationError('the message')]) if mode == 'raise' else r.choice([ValueError(), AssertionError()])
    seen = []
    def val(x):
        seen.append(x)
        if mode.startswith('raise'): raise exc
        return ret
    reg = t if not hasattr(t, '__args__') else t.__origin__
    if t is VB and r.random() < .5: reg = VA
    other = []
    class Unrelated: pass
    def ov(x): other.append(x); return False
    jsons.set_validator(ov, Unrelated, fork_inst=f)
    if r.random() < .5: fails(jsons.load, src, t, fork_inst=f)       # any history before the registration
    jsons.set_validator(val, reg if r.random() < .7 else [reg], fork_inst=f)
    o = r.choice([{}, {}, {'strict': True}])
    x, e = fails(jsons.load, src, t, fork_inst=f, **o)
    what = 'load(%s, %s, **%s) with a validator on %s (%s)' % (short(src), t, o, reg, mode)
    require(not other, '%s consulted the validator of an unrelated type', what)
    if mode == 'true':
        require(e is None, '%s raised %s', what, short(e))
        require(seen and seen[-1] is x, '%s: the validator was not applied to the returned value', what)
    else:
        require(isinstance(e, ValidationError), '%s gave %s / %s', what, short(x), short(e))
        if mode == 'raise': require(str(e.message) == 'the message', '%s: message %r', what, e.message)
    # nested positions
    for T2, s2, get in ((List[t], [src], lambda y: y[0]), (Dict[str, t], {'k': src}, lambda y: y['k']), (Tuple[t, int], [src, 1], lambda y: y[0]), (Optional[t], src, lambda y: y)):
        if t is type(None) or (T2 == Optional[t] and False): continue
        if get_origin(T2) in (list, dict, tuple) and reg in (list, dict, tuple, set): continue
        seen.clear()
        x, e = fails(jsons.load, s2, T2, fork_inst=f, **o)
        w2 = 'load(%s, %s, **%s) with a validator on %s (%s)' % (short(s2), T2, o, reg, mode)
        if mode == 'true':
            require(e is None, '%s raised %s', w2, short(e)); require(any(z is get(x) for z in seen), '%s: the nested value was not validated', w2)
        else: require(isinstance(e, JsonsError), '%s gave %s', w2, short(x))
    # objects
    class Holder:
        def __init__(self, a: t): self.a = a
    seen.clear()
    x, e = fails(jsons.load, {'a': src}, Holder, fork_inst=f, **o)
    if mode == 'true': require(e is None and any(z is x.a for z in seen), 'attribute %s not validated (%s)', t, short(e))
    else: require(isinstance(e, ValidationError), 'an attribute rejected by its validator was accepted: %s / %s', short(x), short(e))
    return (str(t), mode, repr(src), str(o))

@check('C12', 1)
def validate_function(r):
    f = jsons.fork()
    t, v = r.choice([(int, 5), (str, 'x'), (VA, VA(1)), (VB, VB(1)), (list, [1]), (dict, {}), (type(None), None), (bool, False), (gen.Color, gen.Color.RED)])
    want = r.random() < .5
    jsons.set_validator(lambda x: want, t, fork_inst=f)
    x, e = fails(jsons.validate, v, t, f)
    if want: require(e is None, 'validate raised %s', short(e))
    else: require(isinstance(e, ValidationError), 'validate(%s, %s) accepted a rejected value (%s)', short(v), t, short(e))
    x, e = fails(jsons.validate, v, t)      # not registered in the default fork
    require(e is None, 'a validator of one fork was used in another: %s', short(e))
    return (str(t), want)

@check('C12', 1)
def warn_does_not_let_through(r):
    f = jsons.fork()
    bad = set(r.sample(range(6), r.randrange(4)))
    jsons.set_validator(lambda x: x not in bad, int, fork_inst=f)
    x, e = fails(jsons.load, list(range(6)), List[int], fork_inst=f, **r.choice([{}, {'tasks': 2, 'task_type': threading.Thread}]))
    if bad: require(isinstance(e, JsonsError), 'rejected elements were accepted: %s', short(x))
    else: require(e is None and x == list(range(6)), '%s %s', x, short(e))
    x, e = fails(jsons.load, {str(i): i for i in range(6)}, Dict[str, int], fork_inst=f)
    if bad: require(isinstance(e, JsonsError), 'rejected dict values were accepted: %s', short(x))
    x, e = fails(jsons.load, list(range(6)), Tuple[int, ...], fork_inst=f)
    if bad: require(isinstance(e, JsonsError), 'rejected tuple elements were accepted: %s', short(x))
    return sorted(bad)
