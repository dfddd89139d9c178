"""Contracts on the (de)serializers of dates and times (C17), over models of the classes of the standard library.

Assumed of the datetime module: strftime writes %m %d %H %M %S as two digits and %f as six (nothing is assumed of %Y), strptime reads back exactly the
digits of each directive and refuses what does not match or is out of range; date(), time(), combine, replace(tzinfo=) and the constructors keep their
fields; timezone(d).utcoffset is d and timezone refuses offsets of a day or more; total_seconds of whole minutes is exact, and so is the float arithmetic on it.
"""
from contracts.common import *
from contracts.c_load import term
from jsons import _datetime_impl
from jsons.serializers.default_date import default_date_serializer
from jsons.serializers.default_time import default_time_serializer
from jsons.serializers.default_datetime import default_datetime_serializer
from jsons.serializers.default_timedelta import default_timedelta_serializer
from jsons.serializers.default_timezone import default_timezone_serializer
from jsons.deserializers.default_date import default_date_deserializer
from jsons.deserializers.default_time import default_time_deserializer
from jsons.deserializers.default_datetime import default_datetime_deserializer
from jsons.deserializers.default_timedelta import default_timedelta_deserializer
from jsons.deserializers.default_timezone import default_timezone_deserializer
from pyvc.values import InstC, Rope
from pyvc.engine import PyRaise
from pyvc.models import rope_chars, rope_from
from datetime import datetime, date, time, timedelta, timezone, tzinfo
import re

DATEOK = uf('valid_date', Int, Int, Int, z3.BoolSort())
WIDTH = {'m': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2, 'f': 6}
FIELD = {'Y': 'year', 'm': 'month', 'd': 'day', 'H': 'hour', 'M': 'minute', 'S': 'second', 'f': 'microsecond'}
RANGE = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59), 'microsecond': (0, 999999)}
DATE, TIME = ('year', 'month', 'day'), ('hour', 'minute', 'second', 'microsecond')
DAY = 1440

def inst(eng, cls, **at): return eng.alloc(InstC(cls, at))
def attrs(eng, r): return eng.get(r).attrs
def I_(x): return z3.IntVal(x) if isinstance(x, int) else x.t
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def delta(eng, minutes): return inst(eng, timedelta, minutes=I(minutes) if isinstance(minutes, z3.ExprRef) else minutes)

def strftime(eng, o, args, kw):
    a, pat = attrs(eng, o), args[0]
    segs, out = ([pat] if isinstance(pat, str) else pat.segs if isinstance(pat, Rope) else None), []
    if segs is None: raise Unsupported('strftime of a pattern that is not known')
    for s in segs:
        if not isinstance(s, str): out.append(s); continue
        i = 0
        while i < len(s):
            if s[i] != '%': out.append(s[i]); i += 1; continue
            d = s[i + 1:i + 2]; i += 2
            if d == '%': out.append('%'); continue
            if d not in WIDTH: raise Unsupported('strftime of %%%s' % d)
            x = a.get(FIELD[d], 0 if FIELD[d] in TIME else None)
            if x is None: raise Unsupported('strftime of %%%s of a time' % d)
            out.append('%0*d' % (WIDTH[d], x) if isinstance(x, int) else ('d', WIDTH[d], x.t))
    r = []
    for s in out:
        if isinstance(s, str) and r and isinstance(r[-1], str): r[-1] += s
        else: r.append(s)
    return ''.join(r) if all(isinstance(s, str) for s in r) else Rope(r)

def number(eng, ch):
    r = rope_from(ch)
    return eng.call(int, [r], DictC())

def strptime(eng, o, args, kw):
    text, pat = args
    if not isinstance(pat, str) or not isinstance(text, (str, Rope)): raise Unsupported('strptime of this shape')
    ch = rope_chars(text) if isinstance(text, Rope) else list(text)
    f, i, k = dict(year=1900, month=1, day=1, hour=0, minute=0, second=0, microsecond=0), 0, 0
    digit = lambda c: not isinstance(c, str) or c.isdigit()
    def no(): eng.raise_(ValueError, 'time data does not match format')
    while k < len(pat):
        if pat[k] != '%':
            if i >= len(ch) or ch[i] != pat[k]: no()
            i += 1; k += 1; continue
        d = pat[k + 1]; k += 2
        if d not in FIELD: raise Unsupported('strptime of %%%s' % d)
        n = 0
        while n < (4 if d == 'Y' else WIDTH[d]) and i + n < len(ch) and digit(ch[i + n]): n += 1
        if not n or (d == 'Y' and n < 4): no()
        if n < (4 if d == 'Y' else WIDTH[d]) and d != 'f': raise Unsupported('strptime of fewer digits than were written')
        x = number(eng, ch[i:i + n])
        if d == 'f': x = eng.mknum(eng.num(x) * 10 ** (6 - n))
        lo, hi = RANGE[FIELD[d]]
        if not eng.branch(z3.And(I_(x) >= lo, I_(x) <= hi) if not isinstance(x, int) else lo <= x <= hi): no()
        f[FIELD[d]] = x; i += n
    if i != len(ch): no()
    if not eng.branch(z3.Or(DATEOK(*[I_(f[n]) for n in DATE]), z3.BoolVal(all(isinstance(f[n], int) for n in DATE)))): no()
    return inst(eng, datetime, tzinfo=None, **f)

def m_time(eng, args, kw):
    d = dict(zip(('hour', 'minute', 'second', 'microsecond'), args))
    for n in TIME:
        x = eng.dict_find(kw, n)
        if x is not None: d[n] = x
        d.setdefault(n, 0)
    for n in TIME:
        lo, hi = RANGE[n]; x = d[n]
        if not isinstance(x, (int, I)): raise Unsupported('time() of this shape')
        if not eng.branch(z3.And(I_(x) >= lo, I_(x) <= hi)): eng.raise_(ValueError, n + ' must be in range')
    return inst(eng, time, tzinfo=None, **d)

def m_timedelta(eng, args, kw):
    names = [k for k in ('days', 'hours', 'minutes', 'seconds') if eng.dict_find(kw, k) is not None]
    if args: raise Unsupported('timedelta() of this shape')
    m = z3.IntVal(0)
    for n in names:
        x = eng.dict_find(kw, n)
        if n == 'seconds':
            if isinstance(x, T) and x.t.eq(SECONDS) and names == ['seconds']: return inst(eng, timedelta, seconds=x)
            x = eng.num(x)
            if isinstance(x, z3.ExprRef) and not eng.entails(x % 60 == 0) or isinstance(x, int) and x % 60: raise Unsupported('timedelta of seconds')
            m = m + x / 60
            continue
        x = eng.num(x)
        m = m + x * {'days': DAY, 'hours': 60, 'minutes': 1}[n]
    return delta(eng, z3.simplify(m))

SECONDS = z3.Const('seconds', Val)
def total_seconds(eng, o, args, kw):
    a = attrs(eng, o)
    if 'seconds' in a: return a['seconds']
    return eng.mknum(I_(a['minutes']) * 60)

def m_timezone(eng, args, kw):
    off = args[0] if args else eng.dict_find(kw, 'offset')
    nm = args[1] if len(args) > 1 else eng.dict_find(kw, 'name')
    m = I_(attrs(eng, off)['minutes'])
    if not eng.branch(z3.And(m > -DAY, m < DAY)): eng.raise_(ValueError, 'offset must be strictly between -24 h and 24 h')
    return inst(eng, timezone, minutes=I(m), name=nm)

def utcoffset(eng, o, args, kw):
    a = attrs(eng, o)
    return delta(eng, a['minutes'].t)

def zone_utcoffset(eng, o, args, kw):
    """some tzinfo: it may not know its offset without a datetime; if it does, it is a fixed one"""
    a = attrs(eng, o)
    if args and args[0] is None and eng.branch(z3.Not(a['fixed'].t)): return None
    return delta(eng, a['minutes'].t)

def tzname(eng, o, args, kw):
    n = attrs(eng, o)['name']
    if isinstance(n, B): return None if eng.branch(n.t) else St(z3.String('tzname'))
    return n

def keep(cls, names):
    def h(eng, o, args, kw): return inst(eng, cls, **dict({n: attrs(eng, o)[n] for n in names}, **({'tzinfo': None} if cls is time else {})))
    return h
def combine(eng, o, args, kw):
    d, t = attrs(eng, args[0]), attrs(eng, args[1])
    return inst(eng, datetime, tzinfo=None, **{n: (d if n in DATE else t)[n] for n in DATE + TIME})
def replace(eng, o, args, kw):
    d = dict(attrs(eng, o))
    ks = [k for k, _ in kw.log] if kw.base is None else None
    if args or ks is None: raise Unsupported('replace of this shape')
    for k, v in kw.log:
        if k not in d: raise Unsupported('replace of %s' % (k,))
        d[k] = v
    return inst(eng, datetime, **d)

def search(eng, o, args, kw):
    if o.pattern not in (r'(\.[0-9]+)', r'\.[0-9]+', r'\.\d+', r'(\.\d+)') or not isinstance(args[0], (str, Rope)): raise Unsupported('this search')
    ch = rope_chars(args[0]) if isinstance(args[0], Rope) else list(args[0])
    digit = lambda c: not isinstance(c, str) or c.isdigit()
    for i, c in enumerate(ch):
        if c == '.' and i + 1 < len(ch) and digit(ch[i + 1]):
            j = i + 1
            while j < len(ch) and digit(ch[j]): j += 1
            return inst(eng, re.Match, text=rope_from(ch[i:j]))
    return None

def install(eng):
    M = eng.method_models
    for c in (datetime, date, time): M[(c, 'strftime')] = strftime
    M['strptime@datetime'] = strptime
    M['combine@datetime'] = combine
    M[(datetime, 'date')] = keep(date, DATE); M[(datetime, 'time')] = keep(time, TIME)
    M[(datetime, 'replace')] = replace
    M[(timedelta, 'total_seconds')] = total_seconds
    M[(timedelta, '__bool__')] = lambda e, o, a, k: B(I_(attrs(e, o)['minutes']) != 0)
    M[(timezone, 'utcoffset')] = utcoffset; M[(timezone, 'tzname')] = tzname
    M[(tzinfo, 'utcoffset')] = zone_utcoffset; M[(tzinfo, 'tzname')] = tzname
    M['utcoffset@timezone'] = lambda e, o, a, k: delta(e, z3.IntVal(0)) if o is timezone.utc else NotImplemented
    M['tzname@timezone'] = lambda e, o, a, k: 'UTC' if o is timezone.utc else NotImplemented
    M['search@Pattern'] = search
    M[(re.Match, 'group')] = lambda e, o, a, k: attrs(e, o)['text']

def models():
    S = base_summaries()
    S[id(time)] = m_time; S[id(timedelta)] = m_timedelta; S[id(timezone)] = m_timezone
    return S

def fields(eng, names):
    out = {}
    for n in names:
        x = z3.Int(n); out[n] = I(x)
        lo, hi = RANGE[n]; eng.assume(z3.And(x >= lo, x <= hi))
    if 'year' in names: eng.assume(DATEOK(*[z3.Int(n) for n in DATE]))
    return out

def zone(eng, kind):
    m = z3.Int('offset'); eng.assume(z3.And(m > -DAY, m < DAY))
    nm = z3.String('tzname')
    named = lambda: z3.Or(nm == z3.StringVal('UTC'), nm == z3.StringVal('UTC+00:00'))
    if kind == 'utc': eng.assume(m == 0); return timezone.utc
    if kind == 'timezone': return inst(eng, timezone, minutes=I(m), name=St(nm))
    eng.assume(z3.Implies(z3.And(z3.Not(z3.Bool('nameless')), named(), z3.Not(z3.Bool('fixed'))), m == 0))   # assumed: what calls itself UTC and is not fixed is UTC
    return inst(eng, tzinfo, minutes=I(m), name=B(z3.Bool('nameless')), fixed=B(z3.Bool('fixed')))

def minutes_of(p, z):
    if z is timezone.utc: return z3.IntVal(0)
    if isinstance(z, Ref) and 'minutes' in p.heap[z.id].attrs: return I_(p.heap[z.id].attrs['minutes'])
    return None

def same_fields(ctx, p, label, v, cls, names, want=lambda n: z3.Int(n)):
    c = p.heap.get(v.id) if isinstance(v, Ref) else None
    if not ctx.check('%s: it loads back as a %s' % (label, cls.__name__), p, c is not None and getattr(c, 'cls', None) is cls): return None
    for n in names: ctx.prove('%s: with the same %s' % (label, n), p, I_(c.attrs[n]) == zi(want(n)))
    return c

def expected(p, parts):
    """the text as a formatted string"""
    r = []
    for x in parts:
        if isinstance(x, str) and r and isinstance(r[-1], str): r[-1] += x
        else: r.append(x)
    return Rope(r)

def same_text(p, w, parts):
    if not isinstance(w, (str, Rope)): return z3.BoolVal(False)
    return zz(p.eng.rope_eq(w if isinstance(w, Rope) else Rope([w]), expected(p, parts)))

def num(n, w): return ('d', w, n if isinstance(n, z3.ExprRef) else z3.Int(n))
YMD = [num('year', 4), '-', num('month', 2), '-', num('day', 2)]
HMS = [num('hour', 2), ':', num('minute', 2), ':', num('second', 2)]
FRAC = ['.', num('microsecond', 6)]

def trip(ser, deser, make, kw=lambda eng: []):
    def thunk(eng):
        install(eng)
        o, f = make(eng), warnable(eng, fork_value(eng))
        more = [('fork_inst', f)] + kw(eng)
        w = run_fn(eng, ser, [o], DictC(options(without=('obj', 'cls') + tuple(k for k, _ in more)), more))
        eng.data['wire'] = w
        return run_fn(eng, deser, [w], DictC(options(without=('obj', 'cls') + tuple(k for k, _ in more)), more))
    return thunk

def dt_paths(ctx, kind):
    return ctx.paths(trip(default_datetime_serializer, default_datetime_deserializer,
                          lambda eng: inst(eng, datetime, tzinfo=zone(eng, kind), **fields(eng, DATE + TIME)),
                          lambda eng: [('strip_microseconds', B(z3.Bool('strip')))]), models())

def c17_datetime(ctx, kind):
    us, off, strip = z3.Int('microsecond'), z3.Int('offset'), z3.Bool('strip')
    a = z3.If(off >= 0, off, -off)
    hh, mm = z3.Int('hh'), z3.Int('mm')
    split = [hh == a / 60, mm == a % 60]
    ps = dt_paths(ctx, kind)
    for q, p in enumerate(ps):
        L = 'path %d' % q
        if not ctx.check(L + ': it loads back without an error', p, p.kind == 'ret'): continue
        c = same_fields(ctx, p, L, p.value, datetime, DATE + TIME, lambda n: z3.If(strip, 0, us) if n == 'microsecond' else z3.Int(n))
        if c is None: continue
        m = minutes_of(p, c.attrs['tzinfo'])
        if m is None: ctx.check(L + ': it has a timezone', p, False); continue
        ctx.prove(L + ': with the same offset', p, m == off)
        w = p.data['wire']
        def text(frac, tail): return same_text(p, w, YMD + ['T'] + HMS + (FRAC if frac else []) + tail)
        alts = []
        for frac in (False, True):
            g = z3.And(us != 0, z3.Not(strip)) if frac else z3.Or(us == 0, strip)
            alts += [z3.And(g, off == 0, text(frac, ['Z'])), z3.And(g, off >= 0, text(frac, ['+', num(hh, 2), ':', num(mm, 2)])), z3.And(g, off < 0, text(frac, ['-', num(hh, 2), ':', num(mm, 2)]))]
        ctx.prove(L + ': the text is RFC3339, with Z for UTC only', p, z3.Or(alts), split)
        if kind == 'utc': ctx.prove(L + ': UTC is written as Z', p, z3.Or([x for i, x in enumerate(alts) if i % 3 == 0]), split)
    ctx.cover('stripped', ps, lambda p: z3.And(strip, us > 0) if p.kind == 'ret' else False)
    ctx.cover('with microseconds', ps, lambda p: z3.And(z3.Not(strip), us > 0) if p.kind == 'ret' else False)
    if kind != 'utc': ctx.cover('less than an hour behind UTC', ps, lambda p: z3.And(off < 0, off > -60) if p.kind == 'ret' else False)

for _k, _t in (('utc', 'timezone.utc'), ('timezone', 'a timezone, of any offset and name'), ('zone', 'any other tzinfo')):
    contract('C17', 'a datetime with %s loads back as it was, from RFC3339 text' % _t)(lambda ctx, k=_k: c17_datetime(ctx, k))

@contract('C17', 'a date loads back as it was')
def c17_date(ctx):
    ps = ctx.paths(trip(default_date_serializer, default_date_deserializer, lambda eng: inst(eng, date, **fields(eng, DATE))), models())
    for q, p in enumerate(ps):
        if not ctx.check('it loads back without an error [%d]' % q, p, p.kind == 'ret'): continue
        same_fields(ctx, p, 'path %d' % q, p.value, date, DATE)
        ctx.prove('the text is RFC3339 [%d]' % q, p, same_text(p, p.data['wire'], YMD))
    ctx.cover('a date', ps, lambda p: p.kind == 'ret')

@contract('C17', 'a naive time loads back as it was')
def c17_time(ctx):
    us = z3.Int('microsecond')
    ps = ctx.paths(trip(default_time_serializer, default_time_deserializer, lambda eng: inst(eng, time, tzinfo=None, **fields(eng, TIME))), models())
    for q, p in enumerate(ps):
        if not ctx.check('it loads back without an error [%d]' % q, p, p.kind == 'ret'): continue
        same_fields(ctx, p, 'path %d' % q, p.value, time, TIME)
        ctx.prove('the text is RFC3339 [%d]' % q, p, z3.Or(z3.And(us == 0, same_text(p, p.data['wire'], HMS)), z3.And(us != 0, same_text(p, p.data['wire'], HMS + FRAC))))
    ctx.cover('a time with microseconds', ps, lambda p: us > 0 if p.kind == 'ret' else False)

@contract('C17', 'a duration loads back as it was')
def c17_delta(ctx):
    # assumed of timedelta: timedelta(seconds=d.total_seconds()) == d, for durations of less than 270 years
    ps = ctx.paths(trip(default_timedelta_serializer, default_timedelta_deserializer, lambda eng: inst(eng, timedelta, seconds=T(SECONDS))), models())
    for q, p in enumerate(ps):
        if not ctx.check('it loads back without an error [%d]' % q, p, p.kind == 'ret'): continue
        c = p.heap.get(p.value.id) if isinstance(p.value, Ref) else None
        ctx.check('it loads back as the timedelta of as many seconds [%d]' % q, p, c is not None and c.cls is timedelta and isinstance(c.attrs.get('seconds'), T) and c.attrs['seconds'].t.eq(SECONDS))
    ctx.cover('a duration', ps, lambda p: p.kind == 'ret')

@contract('C17', 'a timezone loads back as it was')
def c17_zone(ctx):
    class Wire: pass
    def d(eng, args, kw):
        """contract of dump: a timedelta becomes something that loads back as the same timedelta (the contract above)"""
        return inst(eng, Wire, of=args[0])
    def l(eng, args, kw):
        o, c = args[0], args[1] if len(args) > 1 else eng.dict_find(kw, 'cls')
        if not (isinstance(o, Ref) and eng.get(o).cls is Wire and c is timedelta): raise Unsupported('load of something else')
        return attrs(eng, o)['of']
    S = models(); S[id(dump)] = d; S[id(load)] = l
    for kind in ('timezone',):
        ps = ctx.paths(trip(default_timezone_serializer, default_timezone_deserializer, lambda eng: zone(eng, kind)), S)
        for q, p in enumerate(ps):
            if not ctx.check('it loads back without an error [%d]' % q, p, p.kind == 'ret'): continue
            m = minutes_of(p, p.value)
            if m is None: ctx.check('it loads back as a timezone [%d]' % q, p, False); continue
            ctx.prove('with the same offset [%d]' % q, p, m == z3.Int('offset'))
            n = p.heap[p.value.id].attrs['name'] if isinstance(p.value, Ref) else None
            ctx.check('with the same name [%d]' % q, p, isinstance(n, St) and n.t.eq(z3.String('tzname')))
        ctx.cover('a timezone', ps, lambda p: p.kind == 'ret')
