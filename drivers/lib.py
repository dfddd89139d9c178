"""Runtime-contract drivers: each registered check evaluates the executable form of a property's
contract on the real library, on one pseudo-random (or enumerated) case."""
import sys, os, random, signal, time, traceback, warnings, json, importlib, copy, threading
import jsons

CHECKS = {}

class Fail(AssertionError): pass
class Skip(Exception): pass
class Hang(BaseException): pass

class Check:
    def __init__(self, prop, fn, cases, weight, n):
        self.prop, self.fn, self.cases, self.weight, self.n = prop, fn, cases, weight, n
        self.name = fn.__name__

def check(prop, weight=1.0, n=None):
    def d(fn):
        CHECKS.setdefault(prop, []).append(Check(prop, fn, None, weight, n)); return fn
    return d

def table(prop, cases, weight=1.0):
    """enumerated cases: fn(case, rnd)"""
    cases = list(cases)
    def d(fn):
        CHECKS.setdefault(prop, []).append(Check(prop, fn, cases, weight, len(cases))); return fn
    return d

def require(cond, msg, *a):
    if not cond: raise Fail(msg % a if a else msg)

def fails(f, *a, **k):
    """(value, None) or (None, exception)"""
    try: return f(*a, **k), None
    except Exception as e: return None, e

def short(x, n=300):
    try: s = repr(x)
    except Exception as e: s = '<repr failed: %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...'

# ---- isolation between cases -------------------------------------------------
def holders():
    hs = [jsons._common_impl.StateHolder, jsons.JsonSerializable]
    return hs
def snapshot():
    out = []
    for h in holders():
        d = {}
        for k, v in list(vars(h).items()):
            if isinstance(v, (list, dict, set, bool, int)) and not k.startswith('__'):
                d[k] = v.copy() if isinstance(v, (list, dict, set)) else v
        out.append((h, d))
    return out
def restore(s):
    for h, d in s:
        for k, v in d.items():
            cur = vars(h).get(k)
            nv = v.copy() if isinstance(v, (list, dict, set)) else v
            if type(cur) is type(nv) and isinstance(cur, (list, dict, set)):
                if cur != nv or (isinstance(cur, (list, dict)) and list(cur) != list(nv)): setattr(h, k, nv)
            elif cur != nv: setattr(h, k, nv)
    try: jsons._cache.clear()
    except Exception: pass

def _alarm(*_): raise Hang()

def run_case(c, seed, i, limit=20):
    """None if the contract held, ('fail', message) otherwise; second item: description of the case"""
    rnd = random.Random('%s/%s/%s/%d' % (seed, c.prop, c.name, i))
    snap = snapshot()
    signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            key = c.fn(c.cases[i % len(c.cases)], rnd) if c.cases is not None else c.fn(rnd)
        return None, key
    except Skip: return None, None
    except Fail as e: return ('fail', str(e)), str(e)
    except Hang: return ('fail', 'the call did not return within %d s' % limit), 'hang'
    except RecursionError as e:
        return ('fail', 'unexpected RecursionError\n' + traceback.format_exc()[-1500:]), 'rec'
    except Exception as e:
        return ('fail', 'unexpected %s: %s\n%s' % (type(e).__name__, short(e), traceback.format_exc()[-2500:])), 'exc'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        restore(snap)

def load_props(prop):
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith('d_') and f.endswith('.py'):
            with open(os.path.join(here, f)) as h: txt = h.read()
            if "'%s'" % prop in txt: importlib.import_module(f[:-3])
    return CHECKS.get(prop, [])
