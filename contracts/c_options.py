"""Contracts on how the (de)serializers hand the caller's options on (C07)."""
from contracts.common import *
from contracts import c_coll, c_dump, c_load
from contracts.c_coll import cached_paths, dlist, diter, dtuple, ddict, dmap, ddefault
from contracts.c_load import evs, lizer_calls
from pyvc.spec import has_quantifier

# what is meant for a single level, or says what to convert and into what
SINGLE = ('obj', 'json_obj', 'cls', 'tasks', 'task_type', 'warn_on_fail', 'attr_getters', 'types', '_store_cls', '_inferred_cls', 'meta_hints')
# passing an option with its documented default is passing nothing
DOCUMENTED = (('strict', False), ('strip_nulls', False), ('strip_privates', False), ('strip_properties', False), ('strip_class_variables', False),
              ('strip_attr', None), ('key_transformer', None), ('fork_inst', StateHolder))

def given(p, fork=True, extra=()):
    a = p.data['kw']
    if fork: a = z3.Store(a, kstr('fork_inst'), p.data['in'][2].t)
    for k, v in extra: a = z3.Store(a, kstr(k), v)
    return with_defaults(a, DOCUMENTED)

keep = []        # terms of which the identity is used stay alive
def options_reach(ctx, ps, kind, but=lambda p, e: (), extra=lambda p: (), what='element'):
    """every nested load or dump of the paths has every option of the caller"""
    n, done = 0, set()
    for q, p in enumerate(ps):
        want = given(p, extra=extra(p))
        few = [x for x in p.pc if z3.is_eq(x) and (x.arg(1).eq(Val.absent) or x.arg(0).eq(Val.absent))]
        for e, h in nested(p, kind, 'call'):
            if e[0] == 'call':
                t = e[1]
                if not (z3.is_app(t) and t.decl().eq(LOOKUP['serializer' if kind == 'dump' else 'deserializer'])): continue
                a = e[5]
            else: a = e[3]
            goal = reaches(with_defaults(a, DOCUMENTED), want, SINGLE + tuple(but(p, e)))
            n += 1
            if goal.get_id() in done: continue          # the same goal was discharged without any hypothesis
            if ctx.query([], goal)[0] == 'discharged':
                done.add(goal.get_id())
                ctx.lemma('every option of the caller reaches the %s [%d]' % (what, len(done)), [], goal)
                continue
            # discharged under few hypotheses, that may hold on other paths as well: that the caller gave no such option
            k = (goal.get_id(), tuple(x.get_id() for x in few))
            if k in done: continue
            if few and ctx.query(few, goal, 1000)[0] == 'discharged':
                done.add(k); keep.append((goal, few))
                ctx.lemma('every option of the caller reaches the %s [%d]' % (what, len(done)), few, goal); continue
            k = (goal.get_id(), tuple(x.get_id() for x in h))
            if k in done: continue                      # discharged under hypotheses that hold here as well
            ground = [x for x in h if not has_quantifier(x)]
            if h and ctx.query(ground, goal, 1500)[0] == 'discharged':
                done.add(k); keep.append((goal, h))
                ctx.lemma('every option of the caller reaches the %s [%d]' % (what, len(done)), ground, goal)
            else:
                k = (k, tuple(x.get_id() for x in p.pc))
                if k in done: continue
                done.add(k); keep.append((goal, h, p))
                ctx.prove('every option of the caller reaches the %s [%d: %d]' % (what, q, n), p, goal, h)
    if not n: ctx.add('reachable: an %s' % what, 'undecided')

# ------------------------------------------------------------------ load
@contract('C07', 'load a list: the options reach every element')
def o_list(ctx): options_reach(ctx, c_coll.list_paths(ctx), 'load')
@contract('C07', 'load an iterable: the options reach every element')
def o_iter(ctx): options_reach(ctx, c_coll.iter_paths(ctx), 'load')
@contract('C07', 'load a tuple: the options reach every element')
def o_tuple(ctx): options_reach(ctx, c_coll.tuple_paths(ctx), 'load')
@contract('C07', 'load a named tuple: the options reach every field')
def o_named(ctx):
    for kind in (list, dict): options_reach(ctx, c_coll.named(ctx, kind), 'load', what='field')

def dict_but(p, e):
    # no transformer given: the identity may be handed on instead (C04: then the keys stay as they are); keys hold no keys
    value = z3.is_app(e[1]) and e[1].decl().kind() == z3.Z3_OP_SELECT or e[1].eq(p.data['in'][0].t)
    return () if 'ktv' in p.data and value else ('key_transformer',)
def dict_extra(p): return (('key_transformer', z3.Const('kt', Val)),)
def dict_reach(ctx, fn):
    for tr in (False, True):
        ps = c_coll.dict_paths(ctx, tr, fn)
        for p in ps:
            if tr: p.data['ktv'] = True
        options_reach(ctx, ps, 'load', dict_but, dict_extra if tr else lambda p: (), 'entry')
@contract('C07', 'load a dict: the options reach every entry')
def o_dict(ctx): dict_reach(ctx, ddict)
@contract('C07', 'load a mapping: the options reach every entry')
def o_map(ctx): dict_reach(ctx, dmap)
@contract('C07', 'load a defaultdict: the options reach every entry')
def o_default(ctx): dict_reach(ctx, ddefault)

# ------------------------------------------------------------------ dump
D = c_dump
@contract('C07', 'dump a list: the options reach every element')
def o_dlist(ctx):
    for typed in (False, True): options_reach(ctx, c_dump.list_paths(ctx, typed), 'dump')
@contract('C07', 'dump an iterable: the options reach every element')
def o_diter(ctx):
    for typed, kind in ((False, list), (True, list), (True, set)): options_reach(ctx, c_dump.iter_paths(ctx, typed, kind), 'dump')
@contract('C07', 'dump a tuple: the options reach every element')
def o_dtuple(ctx):
    for typed in (False, True): options_reach(ctx, c_dump.tuple_paths(ctx, typed), 'dump')
@contract('C07', 'dump a named tuple: the options reach every field')
def o_dnamed(ctx): options_reach(ctx, c_dump.named_paths(ctx), 'dump', what='field')
@contract('C07', 'dump a dict: the options reach every value')
def o_ddict(ctx):
    options_reach(ctx, c_dump.dict_paths(ctx, False), 'dump', what='entry')
    options_reach(ctx, c_dump.dict_paths(ctx, True), 'dump', extra=dict_extra, what='entry')

# ------------------------------------------------------------------ dumping an object
from contracts import c_attrs
def object_extra(tr, st):
    def f(p):
        out = [('strict', Val.boolv(z3.BoolVal(st)))] + [(n, Val.boolv(z3.Const(n, Bool))) for n in c_attrs.SETTINGS]
        if tr: out.append(('key_transformer', z3.Const('kt', Val)))
        return out
    return f
def o_object(ctx, tr, st):
    ps = c_attrs.dump_paths(ctx, tr, st)
    # strip_attr is handed on as a tuple of the same names; verbose, that was not given, as Verbosity.WITH_NOTHING
    options_reach(ctx, ps, 'dump', lambda p, e: ('strip_attr', 'verbose'), object_extra(tr, st), 'attribute')
    sa = z3.Const('strip_attr', Val)
    done = set()
    for q, p in enumerate(ps):
        for e, h in nested(p, 'call'):
            if not (z3.is_app(e[1]) and e[1].decl().eq(LOOKUP['serializer'])): continue
            x = z3.simplify(z3.Select(e[5], kstr('strip_attr')))
            k = (x.get_id(), p.kind)
            if k in done: continue
            done.add(k)
            ctx.prove('strip_attr reaches the attribute [%d]' % len(done), p, z3.Or(x == sa, x == uf('tuple:s', Val, Val)(sa), z3.And(LEN_U(sa) == 0, x == const_term(()))), h)
for _tr in (False, True):
    for _st in (False, True):
        contract('C07', 'dump an object%s%s: the options reach every attribute' % (', strictly' if _st else '', ', with a key transformer' if _tr else ''))(lambda ctx, tr=_tr, st=_st: o_object(ctx, tr, st))
