"""C07, C09, C10, C11: options and registrations."""
import collections, dataclasses, itertools, warnings, threading, copy
from typing import *
import jsons
from jsons import JsonsError, DeserializationError, SerializationError, ValidationError, JsonSerializable
from jsons.classes.verbosity import Verbosity
from lib import *
from gen import *
import gen

# ---------------------------------------------------------------- C07
class Leaf:
    def __init__(self, n=0): self.n = n
    def __eq__(self, o): return isinstance(o, Leaf)
    def __hash__(self): return 7
    def __repr__(self): return 'Leaf()'
class Other:
    """an alternative of unions that always fails"""
def KT(k): return k
KT2 = lambda k: k

class Node:
    def __init__(self, t, value, js, leaves): self.t, self.value, self.js, self.leaves = t, value, js, leaves

def node(r, depth, dump=True):
    if depth <= 0 or r.random() < .12: return Node(Leaf, lambda: Leaf(), lambda: 'leaf', 1)
    k = r.choice(['list', 'tuple', 'vtuple', 'deque', 'dict', 'dictint', 'mapping', 'defaultdict', 'optional', 'union', 'class', 'class', 'attr', 'namedtuple', 'set', 'frozenset', 'naked', 'hashed'])
    sub = lambda: node(r, depth - 1, dump)
    if k in ('list', 'vtuple', 'deque', 'naked'):
        s = sub(); n = r.randrange(1, 4)
        if k == 'naked' and not dump: k = 'list'
        T, f = {'list': (lambda t: List[t], list), 'vtuple': (lambda t: Tuple[t, ...], tuple), 'deque': (lambda t: Deque[t], collections.deque), 'naked': (lambda t: list, list)}[k]
        return Node(T(s.t), lambda: f(s.value() for _ in range(n)), lambda: [s.js() for _ in range(n)], n * s.leaves)
    if k in ('set', 'frozenset'):
        return Node(Set[Leaf] if k == 'set' else FrozenSet[Leaf], lambda: {Leaf()} if k == 'set' else frozenset([Leaf()]), lambda: ['leaf'], 1)
    if k == 'tuple':
        ss = [sub() for _ in range(r.randrange(1, 4))]
        return Node(Tuple[tuple(s.t for s in ss)], lambda: tuple(s.value() for s in ss), lambda: [s.js() for s in ss], sum(s.leaves for s in ss))
    if k in ('dict', 'mapping', 'defaultdict', 'dictint'):
        s = sub(); n = r.randrange(1, 4); ks = ['k%d' % i for i in range(n)]
        if k == 'dictint': return Node(Dict[int, s.t], lambda: {i: s.value() for i in range(n)}, lambda: {str(i): s.js() for i in range(n)}, n * s.leaves)
        T, f = {'dict': (Dict[str, s.t], dict), 'mapping': (Mapping[str, s.t], dict), 'defaultdict': (DefaultDict[str, s.t], lambda d: collections.defaultdict(s.t, d))}[k]
        return Node(T, lambda: f({q: s.value() for q in ks}), lambda: {q: s.js() for q in ks}, n * s.leaves)
    if k == 'hashed':
        if not dump: return sub()
        s = sub()
        return Node(Dict[Tuple[int, int], s.t], lambda: {(1, 2): s.value()}, None, s.leaves)
    if k == 'optional':
        s = sub(); return Node(Optional[s.t], s.value, s.js, s.leaves)
    if k == 'union':
        s = sub(); return Node(Union[Other, s.t], s.value, s.js, s.leaves)
    used = set()
    if k == 'namedtuple':
        fs = [(identifier(r, used), sub()) for _ in range(r.randrange(1, 3))]
        c = NamedTuple('N%d' % next(gen._n), [(a, s.t) for a, s in fs])
        return Node(c, lambda: c(*[s.value() for _, s in fs]), lambda: {a: s.js() for a, s in fs}, sum(s.leaves for _, s in fs))
    fs = [(identifier(r, used), sub()) for _ in range(r.randrange(1, 3))]
    if k == 'attr':     # attributes that are not constructor parameters
        c = type('T%d' % next(gen._n), (), {'__annotations__': {a: s.t for a, s in fs}})
        def mk():
            o = c()
            for a, s in fs: setattr(o, a, s.value())
            return o
        n = Node(c, mk, lambda: {a: s.js() for a, s in fs}, sum(s.leaves for _, s in fs)); n.attr = True
        return n
    c = mk_class(r, [(a, Spec(s.t, None, ''), False, None) for a, s in fs], r.choice(['dataclass', 'init']))
    return Node(c, lambda: c(**{a: s.value() for a, s in fs}), lambda: {a: s.js() for a, s in fs}, sum(s.leaves for _, s in fs))

def recording_fork(r):
    f = jsons.fork() if r.random() < .7 else JsonSerializable.fork()
    seen = []
    lock = threading.Lock()
    def ser(obj, cls=None, **kw):
        with lock: seen.append(kw)
        return 'leaf'
    def des(obj, cls=None, **kw):
        with lock: seen.append(kw)
        if obj != 'leaf': raise ValueError('not a leaf')
        return Leaf()
    def no(*a, **kw): raise ValueError('never')
    jsons.set_serializer(ser, Leaf, fork_inst=f); jsons.set_deserializer(des, Leaf, fork_inst=f)
    jsons.set_serializer(no, Other, fork_inst=f); jsons.set_deserializer(no, Other, fork_inst=f)
    return f, seen

def norm(n, v):
    if n == 'verbose': return Verbosity.from_value(v)
    if n == 'strip_attr': return tuple(v) if isinstance(v, (list, tuple)) else (v,) if v else ()
    if n in ('strict', 'strip_nulls', 'strip_privates', 'strip_properties', 'strip_class_variables', 'strip_microseconds'): return bool(v)
    return v
def is_default(n, v):
    if n == 'key_transformer': return v is None or not v or (callable(v) and v is not KT and v is not KT2 and v('some_Key-x') == 'some_Key-x')
    if n == 'fork_inst': return False
    if n == 'verbose': return Verbosity.from_value(v) == Verbosity.WITH_NOTHING
    return not v

NAMES_D = ['strict', 'key_transformer', 'strip_nulls', 'strip_privates', 'strip_properties', 'strip_class_variables', 'strip_microseconds', 'strip_attr', 'verbose', 'use_enum_name', 'my_option', 'other_option']
NAMES_L = ['strict', 'key_transformer', 'use_enum_name', 'my_option', 'other_option']
def pick(r, names):
    o = {}
    for n in names:
        if r.random() < .35:
            o[n] = {'key_transformer': r.choice([KT, KT2]), 'strip_attr': r.choice(['zzz', ('zzz', 'yyy')]), 'my_option': ('marker', 1), 'other_option': 'x',
                    'verbose': r.choice([True, Verbosity.WITH_CLASS_INFO, Verbosity.WITH_DUMP_TIME])}.get(n, True)
    return o

def check_leaves(seen, names, o, f, count, what):
    require(len(seen) >= count, '%s: %d of %d leaves were processed by the fork\'s own function', what, len(seen), count)
    for kw in seen:
        require(kw.get('fork_inst') is f, '%s: a leaf was processed with fork %s', what, kw.get('fork_inst'))
        for n in names:
            if n == 'warn_on_fail': continue
            if n in o: require(n in kw and norm(n, kw[n]) == norm(n, o[n]), '%s: a leaf was processed with %s=%s', what, n, short(kw.get(n, '<missing>')))
            else: require(n not in kw or is_default(n, kw[n]), '%s: a leaf was processed with %s=%s, which the caller did not give', what, n, short(kw.get(n)))

@check('C07', 4)
def options_reach_every_dumped_leaf(r):
    s = node(r, 3)
    f, seen = recording_fork(r)
    o = pick(r, NAMES_D)
    v = s.value()
    typed = r.random() < .5
    args = (v, s.t) if typed else (v,)
    x, e = fails(jsons.dump, *args, fork_inst=f, **o)
    what = 'dump(%s%s, **%s)' % (short(v, 120), ', ' + str(s.t) if typed else '', o)
    if e is not None: raise Skip()
    n = s.leaves if not (o.get('strict')) else 0
    check_leaves(seen, NAMES_D, o, f, n, what)
    del seen[:]
    fails(jsons.dump, *args, fork_inst=f)
    check_leaves(seen, NAMES_D, {}, f, 0, 'after that, dump(%s)' % short(v, 120))
    return (str(s.t), str(o), typed) if s.leaves > 1 else None

@check('C07', 4)
def options_reach_every_loaded_leaf(r):
    s = node(r, 3, dump=False)
    f, seen = recording_fork(r)
    o = pick(r, NAMES_L)
    js = s.js()
    x, e = fails(jsons.load, js, s.t, fork_inst=f, **o)
    what = 'load(%s, %s, **%s)' % (short(js, 120), s.t, o)
    if e is not None: raise Skip()
    check_leaves(seen, NAMES_L, o, f, s.leaves, what)
    del seen[:]
    fails(jsons.load, js, s.t, fork_inst=f)
    check_leaves(seen, NAMES_L, {}, f, 0, 'after that, load(%s)' % short(js, 120))
    return (str(s.t), str(o)) if s.leaves > 1 else None

@check('C07', 1)
def options_reach_parallel_leaves(r):
    f, seen = recording_fork(r)
    n = r.randrange(1, 6)
    o = pick(r, ['strict', 'key_transformer', 'my_option', 'other_option'])
    if r.random() < .5:
        x, e = fails(jsons.dump, [Leaf() for _ in range(n)], fork_inst=f, tasks=r.randrange(1, 4), task_type=threading.Thread, **o)
        names = NAMES_D
    else:
        x, e = fails(jsons.load, ['leaf'] * n, List[Leaf], fork_inst=f, tasks=r.randrange(1, 4), task_type=threading.Thread, **o)
        names = NAMES_L
    require(e is None, 'parallel call failed: %s', short(e))
    check_leaves(seen, names, o, f, n, 'with threads, options %s' % o)
    return (n, str(o))

@check('C07', 1)
def options_reach_every_dict_key(r):
    """keys of a dict are loaded and dumped with the options too"""
    f, seen = recording_fork(r)
    o = pick(r, ['strict', 'my_option', 'other_option'])
    if r.random() < .5:
        x, e = fails(jsons.dump, {Leaf(): 1}, Dict[Leaf, int] if r.random() < .5 else None, fork_inst=f, **o)
        require(e is None, 'dump failed: %s', short(e)); check_leaves(seen, NAMES_D, o, f, 1, 'dump of a dict with Leaf keys, options %s' % o)
    else:
        x, e = fails(jsons.load, {'leaf': 1}, Dict[Leaf, int], fork_inst=f, **o)
        require(e is None, 'load failed: %s', short(e)); check_leaves(seen, NAMES_L, o, f, 1, 'load of a dict with Leaf keys, options %s' % o)
    return str(o)

class HashedKey:
    def __init__(self, name, q=None): self.name, self._private, self.nothing, self.q = name, 1, None, q
    def __hash__(self): return len(self.name)
    def __eq__(self, o): return self is o
    @property
    def prop(self): return 3
@check('C07', 1)
def options_reach_hashed_keys(r):
    """a key that is no JSON key is in the key section as it is dumped with the options"""
    o = {n: True for n in ('strip_privates', 'strip_nulls', 'strip_properties') if r.random() < .5}
    if r.random() < .3: o['strip_attr'] = r.choice(['name', ('name', 'q')])
    ks = [HashedKey('x' * r.randrange(3), r.choice([None, HashedKey('y')])) for _ in range(r.randrange(1, 4))]
    d = {k: i for i, k in enumerate(ks)}
    w = r.random()
    root, pre = (d, lambda x: x) if w < .5 else ([d], lambda x: x[0]) if w < .75 else ({'a': d}, lambda x: x['a'])
    x, e = fails(jsons.dump, root, **o)
    require(e is None, 'dump(%s, **%s) raised %s', short(root), o, short(e))
    x = pre(x)
    for h, k in x['-keys'].items():
        want = jsons.dump(ks[x[h]], **o)
        require(k == want, 'a key of dump(%s, **%s) is %s, its own dump is %s', short(root), o, short(k), short(want))
    return repr((sorted(o), len(ks)))

# ---------------------------------------------------------------- C09, C10, C11
class A: pass
class B(A): pass
class C(B): pass
class D: pass
class E(D, A): pass
class F(C, D): pass
class L(list): pass
class M(L): pass
NB = NewType('NB', B)
NC = NewType('NC', NB)
ND = NewType('ND', D)
KLS = [A, B, C, D, E, F, L, M]
TARGETS = KLS + [NB, NC, ND]
def instance(c): return getattr(c, '__supertype__', c)() if getattr(c, '__supertype__', None) in KLS or c in KLS else B()

_mk = itertools.count()
def mkser(n):
    def user_serializer(obj, cls=None, **kw): return 'S%d' % n
    return user_serializer
def mkdes(n):
    def user_deserializer(obj, cls=None, **kw): return ('D', n)
    return user_deserializer
def mkval(n):
    def user_validator(obj): return obj != ('D', -1) and n % 3 != 0
    user_validator.n = n
    return user_validator

class Kind:
    """the model of one registry of one fork: types in priority order, and the latest function per type"""
    def __init__(self, order, funcs): self.order, self.funcs = list(order), dict(funcs)
    def copy(self): return Kind(self.order, self.funcs)
    def add(self, f, c, high):
        self.order.insert(0 if high else len(self.order), c); self.funcs[c] = f
    def find(self, c):
        if c in self.funcs: return self.funcs[c]
        n = getattr(c, '__origin__', c)
        for k in self.order:
            try:
                if issubclass(n, k): return self.funcs[k]
            except (TypeError, AttributeError): pass
        if hasattr(c, '__supertype__'): return self.find(c.__supertype__)
        return None

def base_kind(which):
    sh = jsons._common_impl.StateHolder
    try:
        order = getattr(sh, '_classes_' + which); get = jsons.get_serializer if which == 'serializers' else jsons.get_deserializer
    except AttributeError: raise Skip()
    return Kind(order, {c: get(c) for c in order})

class Model:
    def __init__(self, ser, des, val, ann, all_, some):
        self.ser, self.des, self.val, self.ann, self.all, self.some = ser, des, val, dict(ann), all_, set(some)
    def copy(self): return Model(self.ser.copy(), self.des.copy(), self.val.copy(), self.ann, self.all, self.some)

def warns(f, code):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        f._warn('msg', code)
    return bool(w)

def check_fork(f, m, where, hist, what=('ser', 'des', 'val', 'ann', 'warn')):
    h = '; '.join(hist[-14:])
    for c in TARGETS:
        if 'ser' in what:
            require(jsons.get_serializer(c, f) is m.ser.find(c), '%s: the serializer of %s is %s, expected %s (history: %s)', where, c, short(jsons.get_serializer(c, f)), short(m.ser.find(c)), h)
        if 'des' in what:
            require(jsons.get_deserializer(c, f) is m.des.find(c), '%s: the deserializer of %s is %s, expected %s (history: %s)', where, c, short(jsons.get_deserializer(c, f)), short(m.des.find(c)), h)
        if 'val' in what:
            require(jsons.get_validator(c, f) is m.val.find(c), '%s: the validator of %s is %s, expected %s (history: %s)', where, c, short(jsons.get_validator(c, f)), short(m.val.find(c)), h)
    if 'ann' in what:
        for n in ('ann1', 'ann2'):
            x, e = fails(jsons.load, {'-meta': {'classes': {'/': n}}}, fork_inst=f)
            exp = m.ann.get(n)
            if exp is None: require(isinstance(e, jsons.exceptions.UnknownClassError), '%s: the name %s was not announced here but loads to %s (history: %s)', where, n, short(x if e is None else e), h)
            else:
                d = m.des.find(exp); v = m.val.find(exp)
                if getattr(d, '__name__', '') == 'user_deserializer': require(e is not None and v is not None or x == d(None), '%s: name %s: got %s (history: %s)', where, n, short(x), h)
                elif v is None and exp not in (L, M): require(e is None and type(x) is exp, '%s: the name %s loads to %s, expected a %s (history: %s)', where, n, short(x if e is None else e), exp.__name__, h)
    if 'warn' in what:
        for code in ('code1', 'code2', 'code3'):
            require(warns(f, code) == (not m.all and code not in m.some), '%s: warning %s is%s emitted (history: %s)', where, code, '' if warns(f, code) else ' not', h)

def behave(r, f, m, where, hist):
    """what dump and load do agrees with the registrations"""
    c = r.choice(TARGETS); h = '; '.join(hist[-14:])
    s = m.ser.find(c)
    if getattr(s, '__name__', '') == 'user_serializer':
        for got in (lambda: jsons.dump(instance(c), c, fork_inst=f), lambda: jsons.dump([instance(c)], List[c], fork_inst=f)[0]):
            x, e = fails(got)
            require(e is None and x == s(None), '%s: dumping as %s gives %s instead of %s (history: %s)', where, c, short(x if e is None else e), s(None), h)
    d = m.des.find(c); v = m.val.find(c)
    if getattr(d, '__name__', '') == 'user_deserializer':
        for got in (lambda: jsons.load({'q': 1}, c, fork_inst=f), lambda: jsons.load([{'q': 1}], List[c], fork_inst=f)[0], lambda: jsons.load({'a': {'q': 1}}, Dict[str, c], fork_inst=f)['a']):
            x, e = fails(got)
            if v is not None and v.n % 3 == 0: require(isinstance(e, ValidationError) or isinstance(e, DeserializationError), '%s: a rejected %s was loaded: %s (history: %s)', where, c, short(x), h)
            else: require(e is None and x == d(None), '%s: loading as %s gives %s instead of %s (history: %s)', where, c, short(x if e is None else e), d(None), h)
    elif d is not None and v is not None and c in KLS and c not in (L, M):
        x, e = fails(jsons.load, {}, c, fork_inst=f)
        require(isinstance(e, ValidationError) if v.n % 3 == 0 else e is None, '%s: loading a %s with validator %d gave %s (history: %s)', where, c, v.n, short(x if e is None else e), h)

def noise(r, f, hist):
    """operations that must not matter"""
    k = r.randrange(7); c = r.choice(TARGETS)
    hist.append('%s(%s)' % (['dump', 'load', 'failing load', 'failing dump', 'lookup', 'nested', 'validate'][k], getattr(c, '__name__', c)))
    if k == 0: fails(jsons.dump, instance(c), c, fork_inst=f)
    elif k == 1: fails(jsons.load, {}, c, fork_inst=f)
    elif k == 2: fails(jsons.load, 'x', int, fork_inst=f); fails(jsons.load, None, c, fork_inst=f)
    elif k == 3: fails(jsons.dump, object(), Tuple[int], fork_inst=f)
    elif k == 4: jsons.get_serializer(c, f); jsons.get_deserializer(c, f); jsons.get_validator(c, f)
    elif k == 5: fails(jsons.load, [{}], List[c], fork_inst=f); fails(jsons.dump, {'a': instance(c)}, fork_inst=f)
    else: fails(jsons.validate, instance(c), c, f)

def bare_fork(r, lists=True):
    """a fork without any default (de)serializer"""
    f = jsons.fork()
    try:
        for n in ('_classes_serializers', '_classes_deserializers', '_serializers', '_deserializers'): getattr(f, n).clear()
    except AttributeError: raise Skip()
    return f

def one_op(r, f, m, hist, name):
    k = r.choice(['ser', 'ser', 'des', 'des', 'val'])
    n = next(_mk)
    cs = r.sample(KLS + [NB] * (r.random() < .3), r.randrange(1, 4)) if r.random() < .2 else [r.choice(TARGETS if r.random() < .2 else KLS)]
    arg = cs[0] if len(cs) == 1 else (tuple(cs) if r.random() < .5 else list(cs))
    if k == 'val':
        v = mkval(n)
        jsons.set_validator(v, arg, fork_inst=f)
        for c in cs: m.val.add(v, c, False)
        hist.append('%s.set_validator(%d, %s)' % (name, n, [getattr(c, '__name__', c) for c in cs]))
    else:
        high = r.random() < .65
        fn = (mkser if k == 'ser' else mkdes)(n)
        put = jsons.set_serializer if k == 'ser' else jsons.set_deserializer
        if high and r.random() < .5: put(fn, arg, fork_inst=f)
        elif r.random() < .3 and issubclass(f, JsonSerializable): getattr(f, 'set_serializer' if k == 'ser' else 'set_deserializer')(fn, arg, high)
        else: put(fn, arg, high, f)
        for c in cs: getattr(m, k).add(fn, c, high)
        hist.append('%s.set_%s(%d, %s, high=%s)' % (name, k, n, [getattr(c, '__name__', c) for c in cs], high))

@check('C09', 3)
def forks_copy_and_stay_isolated(r):
    root = JsonSerializable.fork() if r.random() < .4 else jsons.fork()
    sh = jsons._common_impl.StateHolder
    forks = [('f0', root, Model(base_kind('serializers'), base_kind('deserializers'), Kind([], {}), {}, False, ()))]
    hist = []
    for _ in range(r.randrange(4, 18)):
        name, f, m = r.choice(forks)
        k = r.random()
        if k < .25 and len(forks) < 5:
            g = jsons.fork(f) if r.random() < .7 or not issubclass(f, JsonSerializable) else f.fork()
            if r.random() < .15: g2 = jsons.fork(f, 'named')
            forks.append(('f%d' % len(forks), g, m.copy())); hist.append('%s=fork(%s)' % (forks[-1][0], name))
        elif k < .6: one_op(r, f, m, hist, name)
        elif k < .7:
            c = r.choice(KLS); n = r.choice(['ann1', 'ann2'])
            jsons.announce_class(c, n, f); m.ann[n] = c; hist.append('%s.announce(%s,%s)' % (name, c.__name__, n))
        elif k < .78:
            code = r.choice(['code1', 'code2']); jsons.suppress_warning(code, f); m.some.add(code); hist.append('%s.suppress(%s)' % (name, code))
        elif k < .84:
            b = r.random() < .6; jsons.suppress_warnings(b, f); m.all = b; hist.append('%s.suppress_all(%s)' % (name, b))
        else: noise(r, f, hist)
    for name, f, m in forks: check_fork(f, m, name, hist)
    for name, f, m in forks: behave(r, f, m, name, hist)
    # the default configuration and siblings made later are untouched
    for c in TARGETS:
        for g in (jsons.get_serializer, jsons.get_deserializer, jsons.get_validator):
            require('user_' not in getattr(g(c), '__name__', ''), 'a registration on a fork leaked into the defaults: %s -> %s (history: %s)', c, g(c), '; '.join(hist))
    return tuple(hist) if len(forks) > 1 else None

@check('C09', 1)
def forks_do_not_leak_upwards(r):
    """registrations on the default configuration do not reach forks made before"""
    f = jsons.fork(); g = JsonSerializable.fork()
    m = Model(base_kind('serializers'), base_kind('deserializers'), Kind([], {}), {}, False, ())
    d = m.copy(); hist = []
    sh = jsons._common_impl.StateHolder
    for _ in range(r.randrange(1, 5)): one_op(r, sh, d, hist, 'default')
    jsons.announce_class(A, 'ann1'); d.ann['ann1'] = A
    jsons.suppress_warning('code1'); d.some.add('code1')
    if r.random() < .3: jsons.suppress_warnings(True); d.all = True
    check_fork(f, m, 'a fork made before', hist); check_fork(g, m, 'a fork of JsonSerializable made before', hist)
    check_fork(jsons.fork(), d, 'a fork made afterwards', hist)
    check_fork(sh, d, 'the default configuration', hist)
    return tuple(hist)

@check('C10', 4)
def registrations_take_effect_at_once(r):
    f = r.choice([jsons.fork(), JsonSerializable.fork(), jsons._common_impl.StateHolder])
    m = Model(base_kind('serializers'), base_kind('deserializers'), Kind([], {}), {}, False, ())
    hist = []
    for _ in range(r.randrange(1, 8)):
        for _ in range(r.randrange(0, 4)): noise(r, f, hist)
        one_op(r, f, m, hist, 'f')
        if r.random() < .5: behave(r, f, m, 'f', hist)
        else: check_fork(f, m, 'f', hist, ('ser', 'des', 'val'))
    return tuple(hist)

@check('C10', 2)
def registrations_inside_a_call(r):
    """a registration made by a (de)serializer or validator that is running takes effect for what follows"""
    f = jsons.fork(); n = next(_mk)
    a, b = mkser(n), mkser(n + 1000000)
    da, db = mkdes(n), mkdes(n + 1000000)
    log = []
    which = r.randrange(4)
    if which == 0:
        jsons.set_serializer(a, A, fork_inst=f)
        def change(obj, **kw): jsons.set_serializer(b, A, fork_inst=f); return 'x'
        jsons.set_serializer(change, D, fork_inst=f)
        x = jsons.dump([A(), A(), D(), A()], fork_inst=f)
        require(x == [a(0), a(0), 'x', b(0)], 'a serializer set in the middle of a dump: %s', x)
        require(jsons.dump(A(), fork_inst=f) == b(0), 'the serializer set during a dump is forgotten')
    elif which == 1:
        jsons.set_deserializer(da, A, fork_inst=f)
        def change(obj, cls=None, **kw): jsons.set_deserializer(db, A, fork_inst=f); return D()
        jsons.set_deserializer(change, D, fork_inst=f)
        x = jsons.load([1, 2, 3], Tuple[A, D, A], fork_inst=f)
        require(x[0] == da(0) and x[2] == db(0), 'a deserializer set in the middle of a load: %s', x)
        require(jsons.load(1, A, fork_inst=f) == db(0), 'the deserializer set during a load is forgotten')
    elif which == 2:
        # a failing first call, then a registration
        def boom(obj, cls=None, **kw): raise r.choice([ValueError, KeyError, TypeError, AttributeError])('boom')
        jsons.set_deserializer(boom, A, fork_inst=f); jsons.set_serializer(boom, A, fork_inst=f)
        for _ in range(r.randrange(1, 3)): fails(jsons.load, [1], List[A], fork_inst=f); fails(jsons.dump, [A()], fork_inst=f)
        jsons.set_deserializer(da, A, fork_inst=f); jsons.set_serializer(a, A, fork_inst=f)
        require(jsons.load([1], List[A], fork_inst=f) == [da(0)] and jsons.dump([A()], fork_inst=f) == [a(0)], 'a registration after a failing call is not used')
    else:
        ok = lambda o: True
        bad = lambda o: False
        jsons.set_deserializer(da, A, fork_inst=f)
        seq = [r.random() < .5 for _ in range(4)]
        for s in seq:
            jsons.set_validator(ok if s else bad, r.choice([A, [A]]), fork_inst=f)
            x, e = fails(jsons.load, 1, A, fork_inst=f)
            require((e is None) == s, 'a validator that %s was set, the load %s', 'accepts' if s else 'rejects', 'succeeded' if e is None else 'failed')
    return (which, n)

@check('C10', 1)
def caching_never_changes_a_result(r):
    """the same calls in any order give the same results as each call on its own"""
    f = jsons.fork()
    calls = []
    us = [Union[int, str], Union[str, int], Union[float, str], Optional[int], Union[int, str, None], Union[bool, int], Union[int, bool]]
    for _ in range(r.randrange(2, 7)):
        k = r.randrange(4)
        if k == 0: t, v = r.choice(us), r.choice(['1', 1, True, '1.5', 'x']); calls.append(('load %r as %s' % (v, t), lambda t=t, v=v: jsons.load(v, t, fork_inst=f)))
        elif k == 1: t, v = r.choice(us), r.choice(['1', 1, True, '1.5', 'x']); calls.append(('dump %r as %s' % (v, t), lambda t=t, v=v: jsons.dump(v, t, fork_inst=f)))
        elif k == 2:
            c1, c2 = r.choice(KLS), r.choice(['q1', 'q2'])
            calls.append(('announce %s as %s' % (c1.__name__, c2), lambda c1=c1, c2=c2: (jsons.announce_class(c1, c2, f), type(jsons.load({'-meta': {'classes': {'/': c2}}}, fork_inst=f)).__name__)[1]))
        else:
            s = r.choice([('a',), ('b',), 'a', ['a'], None]); st = r.random() < .5
            calls.append(('dump stripping %s strict=%s' % (s, st), lambda s=s, st=st: jsons.dump(Two(), Two, strip_attr=s, strict=st, fork_inst=f)))
    def alone(c):
        jsons._cache.clear(); return fails(c)
    # announcements are state: run in order once, clearing every cache in between
    exp = [alone(c) for _, c in calls]
    class Both(Exception): pass
    for _, c in calls: pass
    def run():
        return [fails(c) for _, c in calls]
    got = run()
    for (n, c), x, y in zip(calls, exp, got):
        require(same(x[0], y[0]) and type(x[1]) is type(y[1]), 'with caches left by other calls, %s gives %s instead of %s (calls: %s)', n, short(y), short(x), [q for q, _ in calls])
    return tuple(n for n, _ in calls)

class Two:
    a: int
    b: int
    def __init__(self, a: int = 1, b: int = 2): self.a, self.b = a, b

class AltA:
    def __init__(self, x: Union[int, str], y: Union[str, int]): self.x, self.y = x, y
@check('C10', .5)
def caches_inside_one_call(r):
    """within one call the caches are warm: alternatives of equal unions keep their own order"""
    a, b = r.sample([int, str, float], 2) if r.random() < .7 else (int, bool)
    u, w = Union[a, b], Union[b, a]
    c = mk_class(r, [('x', Spec(u, None, ''), False, None), ('y', Spec(w, None, ''), False, None)], 'init')
    v = r.choice(['1', 1, '2', True, 0])
    o = jsons.load({'x': v, 'y': v}, c)
    jsons._cache.clear(); e1 = jsons.load(v, u)
    jsons._cache.clear(); e2 = jsons.load(v, w)
    require(same(o.x, e1) and same(o.y, e2), 'load(%r) into attributes of type %s and %s gives %r and %r; alone: %r and %r', v, u, w, o.x, o.y, e1, e2)
    return (v, str(u))

@check('C11', 4)
def lookup_order(r):
    if r.random() < .5:
        f = bare_fork(r); m = Model(Kind([], {}), Kind([], {}), Kind([], {}), {}, False, ())
    else:
        f = jsons.fork(); m = Model(base_kind('serializers'), base_kind('deserializers'), Kind([], {}), {}, False, ())
    hist = []
    for _ in range(r.randrange(1, 9)): one_op(r, f, m, hist, 'f')
    check_fork(f, m, 'f', hist, ('ser', 'des', 'val'))
    return tuple(hist)

@check('C11', 1)
def sequences_register_each(r):
    f = jsons.fork()
    n = next(_mk)
    cs = [r.sample(KLS, r.randrange(1, 4)) if r.random() < .4 else r.choice(KLS) for _ in range(r.randrange(1, 4))]     # nested sequences too
    flat = [x for c in cs for x in (c if isinstance(c, list) else [c])]
    rest = [c for c in KLS if not any(issubclass(c, x) for x in flat)]
    high = r.random() < .6
    for put, get, fn in ((jsons.set_serializer, jsons.get_serializer, mkser(n)), (jsons.set_deserializer, jsons.get_deserializer, mkdes(n))):
        before = {c: get(c, f) for c in rest}
        put(fn, tuple(cs) if r.random() < .5 else cs, high, f)
        for c in flat: require(get(c, f) is fn, '%s(fn, %s): %s is not registered', put.__name__, cs, c)
        for c in rest: require(get(c, f) is before[c], '%s(fn, %s) changed the unrelated type %s', put.__name__, cs, c)
    v = mkval(n)
    jsons.set_validator(v, cs, fork_inst=f)
    for c in flat: require(jsons.get_validator(c, f) is v, 'set_validator(fn, %s): %s is not registered', cs, c)
    for c in rest: require(jsons.get_validator(c, f) is None, 'set_validator(fn, %s) affects the unrelated type %s', cs, c)
    return str(cs)

@check('C11', .5)
def none_registers_for_nonetype(r):
    f = jsons.fork(); n = next(_mk)
    s, d = mkser(n), mkdes(n)
    jsons.set_serializer(s, r.choice([None, type(None)]), fork_inst=f)
    jsons.set_deserializer(d, r.choice([None, type(None)]), fork_inst=f)
    require(jsons.dump(None, fork_inst=f) == s(0), 'a serializer set for None is not used')
    require(jsons.load(None, type(None), fork_inst=f, strict=True) == d(0), 'a deserializer set for None is not used')
    require(jsons.dump(1, fork_inst=f) == 1 and jsons.load(1, int, fork_inst=f) == 1, 'a registration for None affects int')
    return n
