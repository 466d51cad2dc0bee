"""Path context: facts, schemas, decisions, fresh symbols, obligations."""
import z3, itertools
from .core import *
from . import ring

CTX = [None]
def cur(): return CTX[0]

def lz(f):
    from . import prove
    return prove.linz(f)[0]

class Schema:
    """for all integer vars: body  (body: z3 Bool over the bound constants)"""
    __slots__ = ('vars', 'body', 'name', 'cache')
    def __init__(self, vars, body, name=''):
        self.vars, self.body, self.name = list(vars), body, name
        self.cache = {}
    def inst(self, vals):
        key = tuple(v.get_id() for v in vals)
        r = self.cache.get(key)
        if r is None:
            r = (z3.substitute(self.body, *zip(self.vars, vals)), vals)
            self.cache[key] = r
        return r[0]

class Stats:
    def __init__(self):
        self.feas = 0; self.solver_time = 0.0
STATS = Stats()

class Abort(Exception): pass

class Oblig:
    """condition to be proved from a prefix of the path facts"""
    __slots__ = ('name', 'facts', 'nf', 'schemas', 'ns', 'cond', 'extra', 'hints', 'kind')
    def __init__(self, name, facts, nf, schemas, ns, cond, extra=(), kind='safety'):
        self.name, self.facts, self.nf, self.schemas, self.ns, self.cond, self.extra = name, facts, nf, schemas, ns, cond, list(extra)
        self.hints = []; self.kind = kind
    def hyps(self): return self.facts[:self.nf] + self.extra
    def schs(self): return self.schemas[:self.ns]

class Ctx:
    """One path of the (re-executed) exploration."""
    def __init__(self, decisions, parent=None, timeout=400):
        self.decisions = list(decisions)   # list of (kind,value)
        self.pos = 0
        self.alts = []                     # newly opened alternatives (decision prefixes)
        self.facts = []                    # ground z3 Bool facts
        self.schemas = []
        self.counter = 0
        self.generics = []                 # active generic loop indices (z3 Int constants)
        self.oblig = []                    # soft safety obligations: (name, nfacts, nschemas, cond)
        self.tainted = []                  # reasons
        self.parent = parent
        self.timeout = timeout
        self._solver = None; self._solver_n = 0
        self.log = []
        self.depth = 0
        self.hints = []
        self.pre = False
        self.extra = []
        self.conds = []
        self.known_inv = []
        self._deep = {}; self._dkeep = []
        if parent is not None:
            self.facts = list(parent.facts); self.schemas = list(parent.schemas)
            self.counter = parent.counter; self.generics = list(parent.generics)
            self.known_inv = parent.known_inv; self.timeout = parent.timeout
    # ---- fresh symbols
    def uid(self):
        self.counter += 1
        return self.counter
    def fresh(self, base, sort='i'):
        """fresh constant, or fresh function of the active generic loop indices"""
        n = "%s~%d" % (base, self.uid())
        S = {'i': z3.IntSort(), 'r': z3.RealSort(), 'b': z3.BoolSort()}[sort]
        if not self.generics: return z3.Const(n, S)
        f = z3.Function(n, *([z3.IntSort()] * len(self.generics)), S)
        return f(*self.generics)
    def fresh_fn(self, base, nargs, sort='i'):
        """fresh function of nargs integer arguments (plus the active generic indices)"""
        n = "%s~%d" % (base, self.uid())
        S = {'i': z3.IntSort(), 'r': z3.RealSort(), 'b': z3.BoolSort()}[sort]
        gs = list(self.generics)
        f = z3.Function(n, *([z3.IntSort()] * (len(gs) + nargs)), S)
        if len(gs) + nargs == 0: f = z3.Const(n, S); return lambda *a: f
        return lambda *a: f(*(gs + [zi(x) for x in a]))
    def generic(self, base):
        return z3.Int("!%s%d" % (base, self.uid()))
    # ---- facts
    def assume(self, c):
        if isinstance(c, Schema): self.schemas.append(c); return
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        c = ring.canon(zb(c))
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        self.facts.append(c)
    def assume_forall(self, vars, body):
        body = zb(body) if not isinstance(body, bool) else z3.BoolVal(body)
        if z3.is_true(body): return
        self.schemas.append(Schema(vars, body))
    # ---- quick entailment
    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver(); self._solver.set('timeout', self.timeout)
            self._solver.set('random_seed', 7)
            self._solver.add(PI > 3, 7 * PI < 22)
            self._solver_n = 0
            self._seen = set()
        while self._solver_n < len(self.facts):
            f = self.facts[self._solver_n]
            self._solver.add(lz(f)); self._solver_n += 1
            self._axioms(f)
        return self._solver
    def _axioms(self, f):
        from . import binders
        for ax in binders.cheap_axioms(f, self._seen): self._solver.add(lz(ax))
    def check(self, c):
        import time
        s = self.solver()
        self._axioms(c)
        t = time.time()
        s.push(); s.add(lz(c))
        r = s.check()
        s.pop()
        STATS.feas += 1; STATS.solver_time += time.time() - t
        return r
    def feasible(self, c):
        c = ring.canon(zb(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(c) != z3.unsat
    def entails(self, c):
        if isinstance(c, bool): return c
        c = ring.canon(zb(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(z3.Not(c)) == z3.unsat
    def entails_all(self, vs, hyp, goal):
        """for all values of the integer constants vs: hyp implies goal (instances of the quantified hypotheses included)"""
        from . import prove; import time
        sub = [(v, prove.skolem('a')) for v in vs]
        h = z3.substitute(zb(hyp), *sub); g = ring.canon(z3.substitute(zb(goal), *sub))
        try: return prove.prove_atomic1('', list(self.facts) + list(self.extra) + [h], self.schemas, g, [b for _, b in sub], 3000, 3, time.time() + 12).status == 'proved'
        except Unsupported: return False
    def entails_deep(self, c):
        """as entails, with instances of the quantified hypotheses"""
        if self.entails(c): return True
        if not self.schemas: return False
        c = ring.canon(zb(c))
        k = (c.get_id(), len(self.facts), len(self.schemas))
        h = self._deep.get(k)
        if h is None:
            from . import prove; import time
            try: h = prove.prove_atomic1('', self.facts, self.schemas, c, [], 1500, 2, time.time() + 3).status == 'proved'
            except Exception: h = False
            self._deep[k] = h; self._dkeep.append(c)
        return h
    # ---- decisions
    def branch(self, cond):
        if not is_z(cond):
            if isinstance(cond, (bool, int, Fraction, float)): return bool(cond)
            raise Unsupported("branch on %r" % (cond,))
        c = ring.canon(zb(cond))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        self.empty_facts(c)
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]; self.pos += 1
            self.facts.append(c if v else ring.canon(z3.Not(c))); self.conds.append(self.facts[-1])
            return v
        t = self.check(c) != z3.unsat
        f = self.check(z3.Not(c)) != z3.unsat
        if not t and not f: raise Infeasible()
        if t and f:
            # a case distinction about a bound variable would hold for one value of it only
            from .binders import generic_consts
            if any(x.decl().name().startswith('!b') for x in generic_consts(c)): raise Unsupported("case distinction under a binder")
            self.alts.append(self.decisions[:self.pos] + [False])
            v = True
        else: v = t
        self.decisions.append(v); self.pos += 1
        self.facts.append(c if v else ring.canon(z3.Not(c)))
        if t and f: self.conds.append(self.facts[-1])
        return v
    def empty_facts(self, c):
        """a filtered list compared with a fixed length: it is empty iff no element passes the filter"""
        from . import binders as bi
        while z3.is_not(c): c = c.arg(0)
        if c.num_args() != 2: return
        a = [x for x in c.children() if not (z3.is_int_value(x) or z3.is_rational_value(x))]
        if len(a) != 1 or not z3.is_app(a[0]) or a[0].decl().name() not in bi.DECL: return
        d, role = bi.DECL[a[0].decl().name()]
        if d.kind != 'CAT' or role != 'off': return
        ps = a[0].children()[1:]; n = ring.canon(bi.inst(d, d.exprs[0], ps))
        if not a[0].arg(0).eq(n): return
        L = lambda j: bi.inst(d, d.exprs[1], ps, (zi(j),))
        T = a[0]; w = bi.app(d, 'dj', (z3.IntVal(0),), ps)
        self.assume(s_or(T >= 1, bi.mk_all(conc(n), lambda j: s_cmp('<', conc(ring.canon(L(j))), 1))))
        self.assume(s_or(T < 1, z3.And(0 <= w, w < n, L(w) >= 1)))
    def choose(self, n):
        """nondeterministic choice among n alternatives (each taken on its own path)"""
        if n == 1: return 0
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]; self.pos += 1
            return v
        for k in range(1, n): self.alts.append(self.decisions[:self.pos] + [k])
        self.decisions.append(0); self.pos += 1
        return 0
    def safety(self, name, cond, exc=None):
        if isinstance(cond, bool) and cond: return
        if exc is not None and any(n in CATCH for n in EXC_BASES.get(exc, [exc, 'Exception', 'BaseException'])):
            # inside a try that catches the error: the two outcomes are two paths
            if not self.branch(cond): py_raise(exc)
            return
        if isinstance(cond, bool): cond = z3.BoolVal(cond)
        c = ring.canon(zb(cond))
        if z3.is_true(c): return
        o = Oblig(name, self.facts, len(self.facts), self.schemas, len(self.schemas), c, list(self.extra))
        o.hints = list(self.hints)
        self.oblig.append(o)
    def taint(self, why):
        if why not in self.tainted: self.tainted.append(why)

CATCH = []       # names of the exceptions caught by the enclosing try statements
MAX_PATHS = 400
def explore(run, on_path=None, max_paths=MAX_PATHS):
    """run(ctx) is re-executed for every decision prefix; returns list of (ctx, result)"""
    work = [[]]; CATCH.clear()
    out = []
    while work:
        dec = work.pop()
        c = Ctx(dec)
        old = CTX[0]; CTX[0] = c
        try:
            r = run(c)
            out.append((c, r))
        except Infeasible:
            pass
        finally:
            CTX[0] = old
        work.extend(c.alts)
        if len(out) > max_paths: raise Unsupported("too many paths")
    return out
