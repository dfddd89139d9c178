"""C13, C14, C16, C19: objects."""
import collections, dataclasses, itertools, warnings, copy, inspect, re, json, datetime as dt
from typing import *
import jsons
from jsons import JsonsError, DeserializationError, SerializationError, JsonSerializable
from jsons.exceptions import UnfulfilledArgumentError, SignatureMismatchError
from jsons.classes.verbosity import Verbosity
from lib import *
from gen import *
import gen

CAMEL, SNAKE = jsons.KEY_TRANSFORMER_CAMELCASE, jsons.KEY_TRANSFORMER_SNAKECASE
def eq(a, b): return same(a, b) or (type(a) is type(b) and (a == b or type(a) is object))
def img(x):
    """comparable image of loaded values, also of objects without equality"""
    if isinstance(x, dict): return (type(x).__name__, tuple(sorted((repr(k), img(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)): return (type(x).__name__, tuple(map(img, x)))
    if isinstance(x, (set, frozenset)): return (type(x).__name__, tuple(sorted(repr(img(v)) for v in x)))
    if hasattr(x, '__dict__') and not isinstance(x, (type, Enum_)): return (type(x).__name__, id(type(x)), tuple(sorted((k, img(v)) for k, v in x.__dict__.items() if k != '_got')))
    return (type(x).__name__, repr(x) if type(x) is not object else '')
import enum
Enum_ = enum.Enum

# ---------------------------------------------------------------- C13
class Sub:
    def __init__(self, v: int = 0): self.v = v
    def __eq__(self, o): return type(o) is type(self) and o.v == self.v
    __hash__ = None
class SubSub(Sub): pass
MISSING = object()

def param_type(r):
    """(annotation or None if there is none, a maker of JSON values for it, admits None)"""
    k = r.randrange(9)
    if k == 0: return None, lambda r: jvalue(r, 2), True
    if k == 1: return Sub, lambda r: r.choice([{'v': integer(r)}, {}]), False
    if k == 2: return Any, lambda r: jvalue(r, 1), True
    if k == 3: return object, lambda r: r.choice([{'v': 1}, {}]), True
    s = spec(r, 1)
    if k in (4, 5): return Optional[s.t], lambda r: None if r.random() < .3 else jsons.dump(s.make(r), s.t), True
    if k == 6: return r.choice([Union[int, None, str], Union[None, int]]), lambda r: r.choice([1, None, '2']), True
    return s.t, lambda r: jsons.dump(s.make(r), s.t), s.optional

class P: pass
def mk_ctor(r):
    n = r.randrange(1, 6)
    used = {'self'}
    ps, seen_default, kwonly = [], False, False
    star = r.random() < .3
    for i in range(n):
        p = P(); p.name = identifier(r, used); p.t, p.js, p.none = param_type(r)
        p.default = MISSING
        if (seen_default and not kwonly) or r.random() < .3: p.default = r.choice([None, 5, 'dflt', [1]]); seen_default = True
        p.kind = 'kw' if kwonly else 'pos'
        ps.append(p)
        if not kwonly and i < n - 1 and r.random() < .25: kwonly = True; p.star = True
        else: p.star = False
    va = r.choice(['args', 'rest', None]) if (star or kwonly) else None
    vk = r.choice(['kwargs', 'options', None, None])
    parts, T, Dv = [], [], []
    starred = False
    for p in ps:
        s = p.name
        if p.t is not None: s += ': __T[%d]' % len(T); T.append(p.t)
        if p.default is not MISSING: s += ' = __D[%d]' % len(Dv); Dv.append(p.default)
        parts.append(s)
        if p.star: parts.append('*' + (va or '')); starred = True
    if va and not starred: parts.append('*' + va)
    if vk: parts.append('**' + vk)
    body = 'object.__setattr__(self, "_got", {%s}); self._va = %s; self._vk = %s; type(self)._calls.append(1)' % (', '.join('%r: %s' % (p.name, p.name) for p in ps), va or '()', vk or '{}')
    name = 'Q%d' % next(gen._n)
    ns = {'__T': T, '__D': Dv, '__name__': gen.__name__}
    for k in list(ns):
        if k in ('__T', '__D'): ns['_%s%s' % (name, k)] = ns[k]
    exec('class %s:\n    _calls = []\n    def __init__(self, %s):\n        %s\n' % (name, ', '.join(parts), body), ns)
    c = ns[name]; c.__module__ = gen.__name__
    return c, ps, va, vk, 'def __init__(self, %s)' % ', '.join(parts)

def sub_load(js, t, **o):
    return fails(jsons.load, copy.deepcopy(js), t, **o)

@check('C13', 5)
def arguments_come_from_the_right_source(r):
    c, ps, va, vk, sig = mk_ctor(r)
    obj, getters, o = {}, {}, {}
    if r.random() < .2: o['key_transformer'] = lambda k: k
    for p in ps:
        if r.random() < .55: obj[p.name] = p.js(r)
        if r.random() < .25: getters[p.name] = (lambda v: lambda: v)(('getter', p.name))
    if r.random() < .2 and va: obj[va] = r.choice([1, [1, 2]])
    if r.random() < .2 and vk: obj[vk] = r.choice([1, {'a': 1}])
    if r.random() < .2: obj['extra_key'] = 1
    if r.random() < .1: obj['self'] = 3
    keys = list(obj); r.shuffle(keys); obj = {k: obj[k] for k in keys}
    # meta information for some of the parameters
    meta = {}
    for p in ps:
        if p.name in obj and isinstance(obj[p.name], dict) and r.random() < .25 and p.t in (Sub, object, None, Any) and set(obj[p.name]) <= {'v'} and not isinstance(obj[p.name].get('v'), (list, dict, str)):
            meta['/' + p.name] = 'ann_' + r.choice(['Sub', 'SubSub'])
    f = jsons.fork()
    jsons.announce_class(Sub, 'ann_Sub', f); jsons.announce_class(SubSub, 'ann_SubSub', f)
    if meta: obj['-meta'] = {'classes': {**meta, **({'/': 'ann_Sub'} if r.random() < .3 else {})}}
    named = {p.name: p for p in ps}
    exp, missing, failing = {}, [], []
    for p in ps:
        if p.name in obj:
            t = p.t
            if '/' + p.name in meta: t = SubSub if meta['/' + p.name].endswith('SubSub') else Sub
            v, e = sub_load(obj[p.name], t if t is not None else None, fork_inst=f, _inferred_cls=True, **o)
            if e is not None: failing.append(p.name)
            exp[p.name] = ('loaded', v)
        elif p.name in getters: exp[p.name] = ('is', getters[p.name]())
        elif p.default is not MISSING: exp[p.name] = ('is', p.default)
        elif p.none: exp[p.name] = ('is', None)
        else: missing.append(p.name)
    x, e = fails(jsons.load, copy.deepcopy(obj), c, attr_getters=dict(getters) or None, fork_inst=f, **o)
    what = 'load(%s, <class with %s>, getters %s)' % (short(obj), sig, sorted(getters))
    if missing or failing:
        require(isinstance(e, DeserializationError), '%s gave %s, expected an error about %s', what, short(x if e is None else e), missing or failing)
        if missing and not failing:
            require(isinstance(e, UnfulfilledArgumentError) and e.argument in missing and e.argument in str(e), '%s raised %s, expected one naming a parameter of %s', what, short(e), missing)
        return (sig, repr(obj))
    require(e is None, '%s raised %s', what, short(e))
    require(type(x) is c and len(c._calls) == 1, '%s: the constructor was called %d times', what, len(c._calls))
    for n, (k, v) in exp.items():
        g = x._got[n]
        ok = g is v or g == v and type(g) is type(v) if k == 'is' else eq(g, v) or img(g) == img(v)
        require(ok, '%s: the parameter %s received %s, expected %s', what, n, short(g), short(v))
    require(x._va == () if 'extra' not in repr(va) and not isinstance(obj.get(va), list) or va not in obj else True, '%s: *%s received %s', what, va, short(x._va))
    require('_got' in x.__dict__ and not [k for k in x._vk if k in obj] , '%s: **%s received %s', what, vk, short(x._vk))
    return (sig, repr(obj))

@check('C13', 2)
def arguments_through_key_transformers(r):
    """keys of another casing fill the parameters they transform to"""
    used = set()
    names = [identifier(r, used) for _ in range(r.randrange(1, 4))]
    names = [n for n in names if SNAKE(CAMEL(n)) == n]
    if not names: raise Skip()
    c = mk_class(r, [(n, Spec(int, None, ''), False, None) for n in names], r.choice(['init', 'dataclass']))
    x, e = fails(jsons.load, {CAMEL(n): i for i, n in enumerate(names)}, c, key_transformer=SNAKE, strict=r.random() < .5)
    require(e is None and all(getattr(x, n) == i for i, n in enumerate(names)), 'camelCase keys of %s load to %s', names, short(vars(x) if e is None else e))
    return tuple(names)

@check('C13', 1)
def inherited_and_generated_constructors(r):
    used = set()
    fs = [(identifier(r, used), spec(r, 1)) for _ in range(r.randrange(1, 3))]
    base = mk_class(r, [(a, s, False, None) for a, s in fs], r.choice(['init', 'dataclass']))
    c = type('Child%d' % next(gen._n), (base,), {})
    v = {a: s.make(r) for a, s in fs}
    js = {a: jsons.dump(v[a], s.t) for a, s in fs}
    x, e = fails(jsons.load, js, c)
    require(e is None and type(x) is c and all(eq(getattr(x, a), v[a]) for a in v), 'load(%s, %s) gave %s', short(js), c, short(vars(x) if e is None and hasattr(x, '__dict__') else e))
    js.pop(fs[-1][0])
    if not fs[-1][1].optional:
        x, e = fails(jsons.load, js, c)
        require(isinstance(e, UnfulfilledArgumentError) and e.argument == fs[-1][0], 'without %s: %s', fs[-1][0], short(e))
    return repr(js)

# ---------------------------------------------------------------- C14
def wrapper(r, inner_t, inner_js):
    """the object at some depth: (type, json, path from the result to it)"""
    k = r.randrange(7)
    if k == 0: return inner_t, inner_js, lambda x: x
    if k == 1: return List[inner_t], [inner_js], lambda x: x[0]
    if k == 2: return Dict[str, inner_t], {'q': inner_js}, lambda x: x['q']
    if k == 3: return Tuple[int, inner_t], [1, inner_js], lambda x: x[1]
    if k == 4: return Tuple[inner_t, ...], [inner_js], lambda x: x[0]
    if k == 5: return Mapping[str, inner_t], {'q': inner_js}, lambda x: x['q']
    c = mk_class(r, [('inner', Spec(inner_t, None, ''), False, None)], 'init')
    return c, {'inner': inner_js}, lambda x: x.inner

EXTRA = ['extra', 'other_key', 'Zz', 'k1', 'x y', '0', '', '-keys', 'meta', '_private']
@check('C14', 4)
def leftovers(r):
    used = set()
    fs = [(identifier(r, used), scalar(r)) for _ in range(r.randrange(0, 3))]
    c = mk_class(r, [(a, s, False, None) for a, s in fs], r.choice(['init', 'dataclass']))
    ann = {}
    obj = {a: jsons.dump(s.make(r), s.t) for a, s in fs}
    extras = {}
    for _ in range(r.randrange(0, 4)):
        k = r.choice(EXTRA)
        if k in obj or k in extras: continue
        if r.random() < .3 and k.isidentifier():
            s = spec(r, 1); ann[k] = s.t; extras[k] = jsons.dump(s.make(r), s.t)
        else: extras[k] = jvalue(r, 2, lambda: r.choice(WORDS))
    if ann: c.__annotations__ = {**getattr(c, '__annotations__', {}), **ann}
    full = list({**obj, **extras}.items()); r.shuffle(full); full = dict(full)
    if r.random() < .2: full['-meta'] = {'dump_time': '2020-01-01T00:00:00Z'}
    T, js, get = wrapper(r, c, full)
    if r.random() < .4:
        T2, js, g2 = wrapper(r, T, js); T, get = T2, (lambda x, g=get, h=g2: g(h(x)))
    f = jsons.fork()
    o = {}
    if r.random() < .15: o['key_transformer'] = lambda k: k
    x, e = fails(jsons.load, copy.deepcopy(js), T, strict=True, fork_inst=f, **o)
    what = 'load(%s, %s%s)' % (short(js), T, ', with a key transformer' if o else '')
    if extras:
        require(isinstance(e, DeserializationError), '%s, strict=True gave %s despite the keys %s', what, short(x), sorted(extras))
        require(any(k in str(e) for k in extras), '%s, strict=True: the error names none of %s: %s', what, sorted(extras), short(e))
        if type(e) is SignatureMismatchError: require(e.argument in extras, '%s, strict=True: the error names %s', what, e.argument)
    else: require(e is None, '%s, strict=True raised %s', what, short(e))
    x, e = fails(jsons.load, copy.deepcopy(js), T, fork_inst=f, **o)
    exp = {}
    for k, v in extras.items():
        lv, le = fails(jsons.load, copy.deepcopy(v), ann.get(k) or type(v), fork_inst=f, **o)
        if le is not None: raise Skip()
        exp[k] = lv
    require(e is None, '%s, without strict, raised %s', what, short(e))
    x = get(x)
    require(type(x) is c, '%s gave a %s', what, type(x).__name__)
    got = dict(vars(x))
    require(set(got) == {a for a, _ in fs} | set(extras), '%s: the attributes are %s', what, sorted(got))
    for k, v in exp.items(): require(eq(got[k], v) or img(got[k]) == img(v), '%s: the attribute %s is %s, expected %s', what, k, short(got[k]), short(v))
    return repr(js) if extras else None

@check('C14', 1)
def strict_mode_always_processes(r):
    """a value of exactly the asked type is handed to the deserializer in strict mode, and returned as it is otherwise"""
    f = jsons.fork()
    t = r.choice([int, float, str, bool, list, dict, dt.datetime])
    v = {int: 1, float: 1.5, str: 's', bool: True, list: [1], dict: {'a': 1}, dt.datetime: dt.datetime.now(dt.timezone.utc)}[t]
    def des(obj, cls=None, **kw): return 'processed'
    jsons.set_deserializer(des, t, fork_inst=f)
    if t is not dt.datetime:
        x, e = fails(jsons.load, v, t, strict=True, fork_inst=f)
        require(e is None and x == 'processed', 'load(%r, %s, strict=True) gave %s although a deserializer is registered', v, t.__name__, short(x if e is None else e))
    x, e = fails(jsons.load, v, t, fork_inst=f)
    require(e is None and x is v, 'load(%r, %s) gave %s', v, t.__name__, short(x if e is None else e))
    x, e = fails(jsons.load, [v], List[t], strict=True, fork_inst=f) if t is not dt.datetime else (['processed'], None)
    require(e is None and x == ['processed'], 'load([%r], List[%s], strict=True) gave %s', v, t.__name__, short(x if e is None else e))
    return (repr(v)[:6], t.__name__)

@check('C14', 1)
def leftovers_after_transformed_keys(r):
    c = mk_class(r, [('my_name', Spec(str, None, ''), False, None)], 'init')
    extra = r.choice(['otherKey', 'AnotherOne', 'myName2'])
    js = {'myName': 'x', extra: 1}
    x, e = fails(jsons.load, js, c, key_transformer=SNAKE)
    require(e is None and x.my_name == 'x' and vars(x) == {'my_name': 'x', SNAKE(extra): 1}, 'load(%s) with a key transformer gave %s', js, short(vars(x) if e is None else e))
    x, e = fails(jsons.load, js, c, key_transformer=SNAKE, strict=True)
    require(isinstance(e, SignatureMismatchError) and e.argument in (extra, SNAKE(extra)), 'strict with a key transformer: %s', short(e))
    x, e = fails(jsons.load, {'myName': 'x'}, c, key_transformer=SNAKE, strict=True)
    require(e is None, 'strict with a key transformer rejects a consumed key: %s', short(e))
    return extra

# ---------------------------------------------------------------- C16
class Bad:
    pass
def attr_value(r):
    k = r.randrange(8)
    if k == 0: return None
    if k == 1: return [1, None, 'x']
    if k == 2: return {'a': None, 'b_c': 1}
    if k == 3: return datetime_(r)
    return jscalar(r)

PUBLIC = ['a', 'b', 'my_name', 'load', 'dump', 'json', 'fork', 'loads', 'from_json', 'name', 'value', 'x_', 'i__j', 'keys', 'items']
PRIVATE = ['_p', '_private', '_Z', '_x__y']

def mk_object(r, strict=False):
    """an object with all sorts of attributes; returns (object, {name: kind}) with the expected kinds"""
    kinds, ns, inst = {}, {}, {}
    n = 'O%d' % next(gen._n)
    pool = PUBLIC[:] + PRIVATE[:]
    r.shuffle(pool)
    take = lambda: pool.pop()
    ns['__module__'] = gen.__name__
    for _ in range(r.randrange(1, 4)): k = take(); inst[k] = attr_value(r); kinds[k] = 'inst'
    for _ in range(r.randrange(0, 2)): k = take(); ns[k] = attr_value(r); kinds[k] = 'classvar'
    for _ in range(r.randrange(0, 2)): k = take(); v = attr_value(r); ns[k] = property(lambda self, v=v: v); kinds[k] = 'prop'
    for _ in range(r.randrange(0, 2)):
        k = take(); f = lambda self: 1
        ns[k] = r.choice([f, classmethod(f), staticmethod(f)]); kinds[k] = 'method'
    if r.random() < .3:
        k = take(); ns[k] = type(k, (), {'__qualname__': '%s.%s' % (n, k), '__module__': gen.__name__}); kinds[k] = 'inner'
    if r.random() < .2: ns['__dunder_var__'] = 1
    bad = None
    if r.random() < .3: k = take(); inst[k] = Bad(); kinds[k] = 'bad'
    ns['__qualname__'] = n
    if r.random() < .35: ns['__annotations__'] = {k: Any for k in kinds if kinds[k] in ('inst', 'classvar', 'prop') and r.random() < .6}
    slots = r.random() < .15
    if slots: ns['__slots__'] = tuple(inst)
    c = type(n, (), ns)
    if not slots and r.random() < .4:
        # inherited members, some overridden
        over = {}
        for k in list(kinds):
            if kinds[k] in ('classvar', 'prop', 'method') and r.random() < .3:
                kinds[k] = r.choice(['classvar', 'prop', 'method']); v = attr_value(r)
                over[k] = v if kinds[k] == 'classvar' else property(lambda self, v=v: v) if kinds[k] == 'prop' else (lambda self: 1)
        c = type(n + 'Child', (c,), {**over, '__module__': gen.__name__, '__qualname__': n + 'Child'})
    o = c()
    for k, v in inst.items(): setattr(o, k, v)
    if r.random() < .1 and not slots: o.__dict__['__dunder__'] = 5
    return o, kinds

def opts(r):
    o = {}
    if r.random() < .3: o['strip_privates'] = True
    if r.random() < .3: o['strip_properties'] = True
    if r.random() < .3: o['strip_class_variables'] = True
    if r.random() < .3: o['strip_nulls'] = True
    if r.random() < .35: o['strip_attr'] = r.choice(['a', ('a', 'b'), ['name', '_p'], 'keys', ('load',), '_private', ()])
    if r.random() < .15: o['key_transformer'] = r.choice([CAMEL, lambda k: 'T' + k])
    return o

@check('C16', 5)
def exactly_the_attributes_asked_for(r):
    obj, kinds = mk_object(r)
    o = opts(r)
    f = jsons.fork()
    def no(obj, **kw): raise r.choice([ValueError('v'), KeyError('k'), SerializationError('s')])
    jsons.set_serializer(no, Bad, fork_inst=f)
    wrap = r.random() < .3
    what = 'dump of an object with %s, options %s' % (kinds, o)
    sa = o.get('strip_attr') or ()
    sa = (sa,) if isinstance(sa, str) else tuple(sa)
    exp = {}
    for k, kind in kinds.items():
        if kind in ('method', 'inner') or k in sa: continue
        if o.get('strip_privates') and k.startswith('_'): continue
        if o.get('strip_properties') and kind == 'prop': continue
        if o.get('strip_class_variables') and kind == 'classvar': continue
        v = getattr(obj, k)
        if kind == 'bad': continue
        if o.get('strip_nulls') and v is None: continue
        inner = {q: w for q, w in o.items()}
        exp[o['key_transformer'](k) if o.get('key_transformer') else k] = jsons.dump(v, fork_inst=f, **inner)
    if len(exp) < len([k for k in kinds]) and o.get('key_transformer') is CAMEL and len({CAMEL(k) for k in kinds}) < len(kinds): raise Skip()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        x, e = fails(jsons.dump, [obj] if wrap else obj, fork_inst=f, **o)
    require(e is None, '%s raised %s', what, short(e))
    if wrap: x = x[0]
    require(isinstance(x, dict) and set(x) == set(exp), '%s holds %s, expected %s', what, sorted(x), sorted(exp))
    for k in exp: require(x[k] == exp[k], '%s: attribute %s is %s, expected %s', what, k, short(x[k]), short(exp[k]))
    bad = [k for k, q in kinds.items() if q == 'bad' and k not in sa and not (o.get('strip_privates') and k.startswith('_'))]
    require(len([q for q in w if issubclass(q.category, UserWarning)]) >= len(bad) and (bad or not [q for q in w if 'dump attribute' in str(q.message)]), '%s: %d warnings for the failing attributes %s', what, len(w), bad)
    if bad:
        x, e = fails(jsons.dump, obj, fork_inst=f, strict=True, **o)
        require(isinstance(e, SerializationError), '%s: strict mode returned %s although %s fails', what, short(x), bad)
    return (repr(sorted(kinds.items())), repr(o))

@check('C16', 2)
def as_a_class_in_strict_mode(r):
    """strict with a class: only what that class declares"""
    used = set()
    fs = [(identifier(r, used), scalar(r)) for _ in range(r.randrange(1, 4))]
    fs = [(('_' + a if r.random() < .3 else a), s) for a, s in fs]
    more = [(identifier(r, used), scalar(r)) for _ in range(r.randrange(0, 3))]
    style = r.choice(['slots', 'ann', 'init'])
    name = 'W%d' % next(gen._n)
    if style == 'slots': base = type(name, (), {'__slots__': tuple(a for a, _ in fs), '__module__': gen.__name__})
    elif style == 'ann': base = type(name, (), {'__annotations__': {a: s.t for a, s in fs}, '__module__': gen.__name__})
    else: base = mk_class(r, [(a, s, False, None) for a, s in fs], 'init')
    c = type(name + 'Child', (base,), {'__init__': lambda self: None, '__module__': gen.__name__})
    obj = c()
    vals = {}
    for a, s in fs + more: vals[a] = s.make(r); setattr(obj, a, vals[a])
    o = opts(r); o.pop('key_transformer', None)
    x, e = fails(jsons.dump, obj, base, strict=True, **o)
    sa = o.get('strip_attr') or (); sa = (sa,) if isinstance(sa, str) else tuple(sa)
    exp = {a: jsons.dump(vals[a]) for a, s in fs if a not in sa and not (o.get('strip_privates') and a.startswith('_'))}
    what = 'strict dump of an object with %s as a class declaring %s (%s), options %s' % (sorted(vals), [a for a, _ in fs], style, o)
    require(e is None, '%s raised %s', what, short(e))
    require(x == exp, '%s gave %s, expected %s', what, short(x), short(exp))
    return (style, repr(sorted(vals)), repr(o))

@check('C16', 1)
def nested_objects_obey_the_options_too(r):
    obj, kinds = mk_object(r); o = opts(r)
    f = jsons.fork()
    def no(obj, **kw): raise ValueError('v')
    jsons.set_serializer(no, Bad, fork_inst=f)
    class Outer: pass
    out = Outer(); out.inner = obj; out.other = [obj]; out.third = {'k': obj}
    x, e = fails(jsons.dump, obj, fork_inst=f, **o)
    y, e2 = fails(jsons.dump, out, fork_inst=f, **o)
    if e is not None or e2 is not None: raise Skip()
    k = o.get('key_transformer') or (lambda q: q)
    require(y == {k('inner'): x, k('other'): [x], k('third'): {k('k'): x}}, 'nested in another object, dict and list, the dump of an object with %s (options %s) is %s instead of %s', kinds, o, short(y), short(x))
    return (repr(sorted(kinds.items())), repr(o))

# ---------------------------------------------------------------- C19
def tree_classes(r):
    """a handful of classes, related by inheritance, with children as constructor parameters"""
    out = []
    for i in range(r.randrange(2, 5)):
        out.append(i)
    return out

class TNode:
    """a random object: class with constructor parameters; children are scalars, objects, dicts of objects"""
_base = None
class Base:
    def __eq__(self, o): return type(o) is type(self) and vars(o) == vars(self)
    __hash__ = None
    def __repr__(self): return '%s(%s)' % (type(self).__name__, vars(self))

def mk_tree(r, depth, decl):
    """(object, {path: class}) - nested objects are held through constructor parameters and dicts in them"""
    used = set()
    name = 'V%d' % next(gen._n)
    vals, types, paths = {}, {}, {}
    for _ in range(r.randrange(1, 4)):
        a = identifier(r, used)
        k = r.random()
        if depth > 0 and k < .4:
            v, ps = mk_tree(r, depth - 1, decl); vals[a] = v
            types[a] = r.choice([Base, type(v), None, object, Optional[Base], Any])
            paths['/' + a] = type(v)
            paths.update({'/' + a + p: c for p, c in ps.items() if p != '/'})
        elif depth > 0 and k < .6:
            d = {}
            for q in r.sample(['k', 'key_two', 'z', 'a b', ''], r.randrange(0, 3)):
                d[q] = r.choice([1, None, 'x', 2.5, [1], {'y': 'z'}])
            vals[a] = d
            types[a] = r.choice([None, dict, Any, object])
        elif depth > 0 and k < .75:
            vals[a] = [mk_tree(r, depth - 1, decl)[0] for _ in range(r.randrange(0, 3))]
            types[a] = List[Base]
        else:
            s = r.choice([(int, integer), (bool, boolean), (float, floating), (str, word)])
            vals[a] = s[1](r); types[a] = s[0]
    nd = r.choice([0, 0, 1, len(vals)])     # how many of the parameters have a default
    order = list(vals)
    ps_ = ['%s%s%s' % (a, ': __T[%d]' % i if types[a] is not None else '', ' = None' if i >= len(order) - nd else '') for i, a in enumerate(order)]
    if r.random() < .2: ps_.insert(r.randrange(len(ps_)), '*')
    params = ', '.join(ps_)
    ns = {'__T': [types[a] for a in vals], '_%s__T' % name: [types[a] for a in vals], 'Base': Base, '__name__': gen.__name__}
    exec('class %s(Base):\n    def __init__(self, %s):\n%s\n' % (name, params, '\n'.join('        self.%s = %s' % (a, a) for a in vals)), ns)
    c = ns[name]
    paths['/'] = c
    return c(**vals), paths

def objects(x):
    """all objects of the library-independent classes: their classes are not importable, so they are announced"""
    if isinstance(x, Base):
        yield x
        for v in vars(x).values(): yield from objects(v)
    elif isinstance(x, dict):
        for v in x.values(): yield from objects(v)
    elif isinstance(x, list):
        for v in x: yield from objects(v)

def strip_meta(x):
    if isinstance(x, dict): return {k: strip_meta(v) for k, v in x.items() if k != '-meta'}
    if isinstance(x, list): return [strip_meta(v) for v in x]
    return x
def markers(x, path='$'):
    if isinstance(x, dict):
        if '-cls' in x: return path
        for k, v in x.items():
            m = markers(v, path + '/' + str(k)) if k != '-meta' else None
            if m: return m
    if isinstance(x, list):
        for i, v in enumerate(x):
            m = markers(v, path + '/%d' % i)
            if m: return m
VERB = [True, Verbosity.WITH_EVERYTHING, Verbosity.WITH_CLASS_INFO, Verbosity.WITH_DUMP_TIME, Verbosity.WITH_NOTHING, False, None, Verbosity.WITH_CLASS_INFO | Verbosity.WITH_DUMP_TIME]

@check('C19', 5)
def verbose_dumps_carry_the_types(r):
    obj, paths = mk_tree(r, r.randrange(0, 4), None)
    f = jsons.fork() if r.random() < .7 else JsonSerializable.fork()
    v = r.choice(VERB)
    o = {'strict': True} if r.random() < .15 else {}
    wrapk = r.randrange(5)
    if wrapk == 0: root, pre = [obj], lambda d: d[0]
    elif wrapk == 1: root, pre = (obj, 1), lambda d: d[0]
    else: root, pre = obj, lambda d: d
    x, e = fails(jsons.dump, root, verbose=v, fork_inst=f, **o)
    what = 'dump(%s, verbose=%s, **%s)' % (short(root), v, o)
    require(e is None, '%s raised %s', what, short(e))
    plain = jsons.dump(root, fork_inst=f, **o)
    require(strip_meta(x) == plain, '%s differs from the plain dump: %s', what, short(x))
    require(markers(x) is None, '%s leaves a type marker at %s', what, markers(x))
    d = pre(x)
    vv = Verbosity.from_value(v)
    wc, wt = Verbosity.WITH_CLASS_INFO in vv and bool(vv.value & 10), bool(vv.value & 20)
    if not wc and not wt: require('-meta' not in d, '%s has a meta section', what); return None
    require(list(d).count('-meta') == 1 and ('classes' in d['-meta']) == wc and ('dump_time' in d['-meta']) == wt, '%s: the meta section is %s', what, short(d.get('-meta')))
    if wt: require(re.match(r'^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(Z|[+-]\d\d:\d\d)$', d['-meta']['dump_time']), '%s: dump_time is %s', what, d['-meta']['dump_time'])
    if not wc: return None
    cl = d['-meta']['classes']
    def held(x, p):
        for k in p.strip('/').split('/') if p != '/' else []:
            if not isinstance(x, dict) or k not in x: return False
            x = x[k]
        return True
    for p, c in paths.items():
        if o and not held(pre(plain), p): continue       # strict mode leaves out what the declared class does not know
        require(cl.get(p) == '%s.%s' % (c.__module__, c.__name__), '%s: the class at %s is recorded as %s (recorded: %s)', what, p, cl.get(p), short(cl))
    if o: return repr(obj)
    for q in objects(obj): jsons.announce_class(type(q), fork_inst=f)
    y, e = fails(jsons.load, copy.deepcopy(d), fork_inst=f)
    require(e is None and type(y) is type(obj), '%s loads to %s', what, short(y if e is None else e))
    require(y == obj, '%s loads to %s', what, short(y))
    if v is True or Verbosity.WITH_CLASS_INFO in vv:
        y, e = fails(jsons.load, [copy.deepcopy(d)], List[r.choice([Base, object])], fork_inst=f)
        require(e is None and y == [obj], 'as an element of a more general type, %s loads to %s', what, short(y if e is None else e))
        y, e = fails(jsons.load, copy.deepcopy(d), type(obj), fork_inst=f)
        require(e is None and y == obj, 'with its class named, %s loads to %s', what, short(y if e is None else e))
    return repr(obj)

def structure(r, depth):
    """an object, or a list, tuple or dict of such, held in one another"""
    k = r.random()
    if depth == 0 or k < .1: return r.choice([1, 'x', None, 2.5])
    if k < .5: return mk_holder(r, depth)
    if k < .65: return [structure(r, depth - 1) for _ in range(r.randrange(3))]
    if k < .75: return tuple(structure(r, depth - 1) for _ in range(r.randrange(1, 3)))
    return {r.choice(['a', 'b c', 'd', 'q', '']): structure(r, depth - 1) for _ in range(r.randrange(3))}
class Holder1(Base): pass
class Holder2(Base): pass
def mk_holder(r, depth):
    h = r.choice([Holder1, Holder2])()
    for n in r.sample(['a', 'q', 'child', 'kids'], r.randrange(0, 3)): setattr(h, n, structure(r, depth - 1))
    return h
@check('C19', 2)
def no_marks_remain_in_any_structure(r):
    root = mk_holder(r, r.randrange(1, 5)) if r.random() < .8 else structure(r, r.randrange(1, 5))
    v = r.choice(VERB)
    o = {n: True for n in ('strip_nulls', 'strip_privates') if r.random() < .2}
    x, e = fails(jsons.dump, root, verbose=v, **o)
    require(e is None, 'dump(%s, verbose=%s, **%s) raised %s', short(root), v, o, short(e))
    require(markers(x) is None, 'dump(%s, verbose=%s, **%s) leaves a type marker at %s: %s', short(root), v, o, markers(x), short(x))
    require(strip_meta(x) == jsons.dump(root, **o), 'dump(%s, verbose=%s, **%s) differs from the plain dump: %s', short(root), v, o, short(x))
    return repr(root)

class Explicit(Base):
    def __init__(self, **kw): pass
@check('C19', 1)
def an_explicit_class_wins_at_the_root(r):
    obj, paths = mk_tree(r, 1, None)
    f = jsons.fork()
    for q in objects(obj): jsons.announce_class(type(q), fork_inst=f)
    x = jsons.dump(obj, verbose=True, fork_inst=f)
    y, e = fails(jsons.load, x, Explicit, fork_inst=f)
    require(e is None and type(y) is Explicit, 'load(<verbose dump of %s>, Explicit) gave %s', short(obj), short(y if e is None else e))
    y, e = fails(jsons.load, x, dict, fork_inst=f, strict=True)
    require(e is None and type(y) is dict, 'load(<verbose dump>, dict) gave %s', short(y if e is None else e))
    return repr(obj)

VS = [Verbosity.WITH_NOTHING, Verbosity.WITH_CLASS_INFO, Verbosity.WITH_DUMP_TIME, Verbosity.WITH_EVERYTHING]
@check('C19', .1, 60)
def verbosity_combines(r):
    a, b = r.choice(VS), r.choice(VS)
    c = a | b
    class X:
        def __init__(self, q: int): self.q = q
    d = jsons.dump(X(1), verbose=c)
    want = (a.value | b.value)
    m = d.get('-meta', {})
    require(('classes' in m) == bool(want & 10) and ('dump_time' in m) == bool(want & 20) and ('-meta' in d) == bool(want), 'verbose=%s|%s gives %s', a, b, d)
    return (a, b)
