"""Concrete contract harness: runs the postconditions of a property on the real code of /repo.
Run with /opt/venv/bin/python (numpy, scipy, spglib).  Every case is reproducible from
(property, case name, seed, index)."""
import os, sys, time, json, signal, zlib, traceback, io, contextlib, tempfile, shutil, warnings
ROOT = os.environ.get('VERIF_REPO', '/repo')
for p in (os.path.join(ROOT, 'irreptables'), ROOT):
    if p not in sys.path: sys.path.insert(0, p)
import numpy as np
warnings.simplefilter('ignore')

class Fail(Exception): pass
class Missing(Exception): pass
class Skip(Exception): pass          # a generated input outside the precondition

CASES = []
class Case:
    def __init__(self, fn, quick, thorough, limit): self.fn, self.name, self.quick, self.thorough, self.limit = fn, fn.__name__, quick, thorough, limit
def case(quick=200, thorough=None, limit=60):
    def d(fn):
        CASES.append(Case(fn, quick, thorough or 10 * quick, limit)); return fn
    return d

def target(mod, *names):
    import importlib
    try: o = importlib.import_module(mod)
    except ImportError as e: raise Missing('%s: %s' % (mod, e))
    for n in names:
        if not hasattr(o, n): raise Missing('%s.%s' % (mod, '.'.join(names)))
        o = getattr(o, n)
    return o

INPUT = [None]
INDEX = [0]
def given(**kw):
    """record the input of the running case for the replay file"""
    INPUT[0] = kw
def ok(c, msg, *a):
    if not c: raise Fail(msg % a if a else msg)
def close(x, y, msg, tol=1e-9):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape: raise Fail('%s: shape %s instead of %s' % (msg, x.shape, y.shape))
    if x.size == 0: return
    d = np.abs(x - y)
    if not np.all(d <= tol * (1 + np.abs(y))):
        i = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape) if d.shape else ()
        raise Fail('%s: got %s expected %s at index %s' % (msg, x[i], y[i], tuple(map(int, i))))
def raises(f, *a, exc=Exception, **k):
    """the exception f raises, or None"""
    try: r = f(*a, **k)
    except AlarmError: raise
    except exc as e: return e
    except SystemExit as e: return e
    return None

class AlarmError(BaseException): pass
def _alarm(*a): raise AlarmError()

def describe(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size > 60: return 'array%s %s' % (x.shape, x.dtype)
        if np.iscomplexobj(x): return [str(v) for v in x.ravel()[:60]]
        return x.tolist()
    if isinstance(x, dict): return {str(k): describe(v, depth + 1) for k, v in list(x.items())[:30]}
    if isinstance(x, (list, tuple)): return [describe(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    if isinstance(x, (np.integer, np.floating)): return x.item()
    return str(x)[:300]

def rng_for(seed, name, i): return np.random.default_rng([seed & 0xffffffff, zlib.crc32(name.encode()), i])

def run_one(c, seed, i):
    """-> (status, message, key)"""
    INPUT[0] = None; INDEX[0] = i
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(c.limit)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            key = c.fn(rng_for(seed, c.name, i))
        return 'ok', '', key
    except Fail as e: return 'fail', str(e), None
    except Missing as e: return 'missing', str(e), None
    except Skip as e: return 'skip', str(e), None
    except AlarmError: return 'fail', 'no result within %d s' % c.limit, None
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = [f for f in tb if f.filename.startswith(ROOT)]
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        # an exception that comes out of the code under test on a valid input breaks its contract
        return ('fail' if inrepo else 'error'), 'unexpected %s: %s @ %s' % (type(e).__name__, str(e)[:300], where), None
    finally: signal.alarm(0)

def run_all(seed, tier, budget):
    res = dict(evaluations=0, distinct=0, cases={}, failures=[], missing=[], errors=[], samples=[])
    t0 = time.time()
    keys = set()
    todo = list(CASES)
    for ci, c in enumerate(todo):
        n = c.quick if tier == 'quick' else c.thorough
        share = (budget - (time.time() - t0)) / (len(todo) - ci)
        t1 = time.time(); done = 0; skipped = 0
        for i in range(n):
            if time.time() - t1 > max(share, 1.0) and i > 0: break
            st, msg, key = run_one(c, seed, i)
            if st == 'missing': res['missing'].append('%s: %s' % (c.name, msg)); break
            if st == 'error':
                res['errors'].append('%s[%d]: %s' % (c.name, i, msg)); break
            if st == 'skip': skipped += 1; continue
            res['evaluations'] += 1; done += 1
            if st == 'fail':
                res['failures'].append(dict(case=c.name, seed=seed, index=i, message=msg, input=describe(INPUT[0])))
                if len(res['failures']) > 20: return res
                break
            if key is not None: keys.add((c.name, key if isinstance(key, (str, int, tuple)) else repr(key)))
            if i == 0 and INPUT[0] is not None and len(res['samples']) < 6: res['samples'].append(dict(case=c.name, index=i, input=describe(INPUT[0])))
        res['cases'][c.name] = dict(requested=n, done=done, skipped=skipped, seconds=round(time.time() - t1, 2))
    res['distinct'] = len(keys)
    return res

@contextlib.contextmanager
def scratch():
    """a scratch directory; the working directory while inside"""
    d = tempfile.mkdtemp(prefix='verif_'); old = os.getcwd()
    try:
        os.chdir(d); yield d
    finally:
        os.chdir(old); shutil.rmtree(d, ignore_errors=True)
