"""Helpers for writing contracts: symbolic inputs, goals, running a contract."""
import z3, time, traceback
from .core import *
from . import ring, prove as PV, npmodel, interp as IP
from .ring import canon
from .binders import *
from .arr import *
from . import arr as A
from .values import *
from .ctx import *
from .interp import Interp, MissingTarget, CONTRACTS, OVERRIDES, CALLED

def imat(name, *shape):
    """integer array of uninterpreted entries; concrete dims give constants"""
    return sym_arr(name, shape, 'i')
def rmat(name, *shape): return sym_arr(name, shape, 'f')
def cmat(name, *shape): return sym_arr(name, shape, 'c')
def bmat(name, *shape): return sym_arr(name, shape, 'b')
SORT = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}
def sym_arr(name, shape, kind):
    if kind == 'c':
        a, b = sym_arr(name + '.re', shape, 'f'), sym_arr(name + '.im', shape, 'f')
        return Arr(shape, 'c', lambda idx: Cx(a.get(idx), b.get(idx)))
    symb = [i for i, d in enumerate(shape) if is_z(d)]
    def fn(idx):
        # concrete axes select a separate symbol when the index is concrete
        def go(i, tag, args):
            if i == len(shape):
                nm = name + ''.join('_%d' % t for t in tag)
                if not args: return z3.Const(nm, SORT[kind])
                return z3.Function(nm, *([z3.IntSort()] * len(args)), SORT[kind])(*[zi(a) for a in args])
            if i in symb: return go(i + 1, tag, args + [idx[i]])
            if isinstance(idx[i], int): return go(i + 1, tag + [idx[i]], args)
            return pick(idx[i], [go(i + 1, tag + [t], args) for t in range(shape[i])])
        return go(0, [], [])
    return Arr(shape, kind, fn)
def nat(name, lo=0):
    n = z3.Int(name); cur().assume(n >= lo); return n
def real(name): return z3.Real(name)
def const(rows, kind=None):
    def g(r):
        return from_nested([g(x) for x in r]) if isinstance(r, (list, tuple)) else (asarr(r) if not isinstance(r, Arr) else r)
    a = g(rows)
    return astype(a, kind) if kind else a

def post(name, cond):
    """a goal of the contract, to be proved from the path condition"""
    c = cur()
    if isinstance(cond, Arr): cond = unwrap(A.a_all(cond))
    if isinstance(cond, NV) or isinstance(cond, Cx): raise Unsupported("goal type")
    if isinstance(cond, bool): cond = z3.BoolVal(cond)
    o = Oblig(name, c.facts, len(c.facts), c.schemas, len(c.schemas), canon(zb(cond)), list(c.extra), 'post')
    o.hints = list(c.hints)
    c.oblig.append(o)

def eq(a, b):
    """equality of scalars as a condition"""
    return s_cmp('==', unwrap(a) if isinstance(a, Arr) else a, unwrap(b) if isinstance(b, Arr) else b)
def rng(j, n, lo=0):
    """assume lo <= j < n for a skolem index"""
    cur().assume(s_and(s_cmp('>=', j, lo), s_cmp('<', j, n)))
def sk(name, n=None, lo=0):
    j = PV.skolem(name); cur().hints.append(j)
    if n is not None: rng(j, n, lo)
    return j
def shape_is(name, a, shp):
    post(name + ': dimensions', isinstance(a, Arr) and len(a.shape) == len(shp) and s_and(*[s_cmp('==', x, y) for x, y in zip(a.shape, shp)]))
def forall(n, fn):
    """hypothesis: forall 0<=j<n. fn(j)  (schema)"""
    b = PV.skolem('q')
    cur().assume_forall([b], s_implies(s_and(b >= 0, s_cmp('<', b, n)), fn(b)))
def forall2(n, m, fn):
    b, d = PV.skolem('q'), PV.skolem('q')
    cur().assume_forall([b, d], s_implies(s_and(b >= 0, s_cmp('<', b, n), d >= 0, s_cmp('<', d, m)), fn(b, d)))

def inverse_pair(Ai, Bi):
    """declare integer matrices A, B with A B = B A = 1 (unimodular); inv(A) is then B"""
    c = cur()
    n = 3
    g = lambda M, i, j: M.get((i, j))
    for X, Y in ((Ai, Bi), (Bi, Ai)):
        for i in range(n):
            for j in range(n):
                c.assume(eq(PV_sum([s_mul(g(X, i, k), g(Y, k, j)) for k in range(n)]), 1 if i == j else 0))
    ma = [[g(Ai, i, j) for j in range(n)] for i in range(n)]; mb = [[g(Bi, i, j) for j in range(n)] for i in range(n)]
    c.known_inv = list(c.known_inv) + [(mat_key(ma), [[zr(x) for x in r] for r in mb]), (mat_key(mb), [[zr(x) for x in r] for r in ma])]
def PV_sum(xs):
    r = 0
    for x in xs: r = s_add(r, x)
    return r

class Raised:
    def __init__(self, exc): self.exc = exc; self.names = exc.names
    def isa(self, n): return n in self.names

def call(ip, qual, args=(), kw=None):
    """run a function of the program; a Python exception is returned as Raised"""
    f = ip.func(qual) if isinstance(qual, str) else qual
    try: return ip.call(f, list(args), kw or {})
    except PyRaise as e: return Raised(e.exc)

class ContractRun:
    def __init__(self, name): self.name = name; self.results = []; self.paths = 0; self.errors = []; self.tainted = []; self.time = 0; self.called = {}; self.vacuous = []; self.missing = None; self.infeasible = 0

def run_contract(name, fn, ctxs=None, pv_timeout=None, overrides=None, contracts=None, vac=True, max_paths=200):
    """fn(ip) builds the inputs in the current context, runs the code and states the goals"""
    import sys
    sys.setrecursionlimit(20000)
    R = ContractRun(name); t0 = time.time()
    CONTRACTS.clear(); OVERRIDES.clear(); CALLED.clear(); IP.loops.CANDIDATES.clear()
    if overrides: OVERRIDES.update(overrides)
    if contracts: CONTRACTS.update(contracts)
    paths = []
    def run(c):
        PV._sk[0] = 0
        ip = Interp()
        fn(ip)
        return None
    try:
        paths = explore(run, max_paths=max_paths)
    except MissingTarget as e: R.missing = str(e)
    except Unsupported as e: R.errors.append('unsupported: %s @ %s' % (e, _where()))
    except RecursionError: R.errors.append('unsupported: recursion')
    except ring.TooBig: R.errors.append('unsupported: expression too large')
    except PyRaise as e: R.errors.append('unhandled exception in contract: %r @ %s' % (e.exc, _where()))
    except Exception as e: R.errors.append('internal: %s: %s @ %s' % (type(e).__name__, e, _where()))
    R.paths = len(paths)
    R.called = dict(CALLED)
    live = []
    for c, _ in paths:
        old = CTX[0]; CTX[0] = c
        try:
            for w in c.tainted:
                if w not in R.tainted: R.tainted.append(w)
            if vac and not PV.consistent(c.facts, c.schemas, c.hints): R.infeasible += 1; continue
            live.append(c)
        finally: CTX[0] = old
    # the same condition on several paths: try once with the hypotheses the paths share
    groups = {}
    for c in live:
        for ob in c.oblig: groups.setdefault((ob.name, ob.cond.get_id()), []).append((c, ob))
    def attempt(c, ob):
        old = CTX[0]; CTX[0] = c
        try: return PV.prove(ob, pv_timeout)
        except (Unsupported, ring.TooBig, RecursionError) as e: return [PV.Result(ob.name, 'unknown', '-', 0, 0, 'error: %s' % e)]
        finally: CTX[0] = old
    skey = lambda s: (tuple(v.get_id() for v in s.vars), s.body.get_id())
    for key, obs in groups.items():
        uniq = {}
        for c, ob in obs:
            k2 = (tuple(f.get_id() for f in ob.hyps()), tuple(skey(s) for s in ob.schs()))
            uniq.setdefault(k2, (c, ob))
        if len(uniq) > 1 and not stop(R, t0):
            fs = set.intersection(*[set(k[0]) for k in uniq]); ss = set.intersection(*[set(k[1]) for k in uniq])
            c, ob = obs[0]
            hy = [f for f in ob.hyps() if f.get_id() in fs]; sc = [s for s in ob.schs() if skey(s) in ss]
            o2 = Oblig(ob.name, hy, len(hy), sc, len(sc), ob.cond, [], ob.kind); o2.hints = ob.hints
            rs = attempt(c, o2)
            if all(r.status == 'proved' for r in rs): R.results += rs; continue
        for c, ob in uniq.values():
            if stop(R, t0): R.results.append(PV.Result(ob.name, 'unknown', '-', 0, 0, 'not attempted')); continue
            R.results += attempt(c, ob)
    if paths and R.infeasible == len(paths): R.vacuous.append(name)
    R.time = time.time() - t0
    return R

MAXFAIL = 4      # after so many undischarged obligations the rest of the contract is not attempted
def nfail(R): return sum(r.status != 'proved' for r in R.results)

def stop(R, t0): return nfail(R) >= MAXFAIL or nfail(R) >= 1 and time.time() - t0 > 120

def _where():
    import sys
    tb = sys.exc_info()[2]
    fs = traceback.extract_tb(tb)
    return ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(fs[-4:]))

def show(R):
    from collections import Counter
    print('==', R.name, 'paths', R.paths, 'time %.1f' % R.time, dict(Counter(r.status for r in R.results)), dict(Counter(r.backend for r in R.results)))
    if R.missing: print('   MISSING', R.missing)
    for e in R.errors: print('   ERR', e)
    for e in R.tainted: print('   TAINT', e)
    for e in R.vacuous: print('   VACUOUS', e)
    for r in R.results:
        if r.status != 'proved': print('   ', r.status, r.name, r.backend, '%.2f' % r.time, r.instances, r.why)
