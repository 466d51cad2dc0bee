"""Discharging obligations: polynomial identities first, then SMT with ground instances of
the operator definitions, the lifted iteration facts and the hypotheses quantified over
indices.  Every instance added is a consequence of the hypotheses, so `unsat` is a proof.
`sat` means: no proof with the instances generated (a candidate counterexample);
`unknown` means a resource limit."""
import z3, time, os
from .core import *
from . import ring
from .ring import canon
from .binders import *
from .binders import DECL, inst, app, renorm
from .ctx import *

class Result:
    __slots__ = ('name', 'status', 'backend', 'time', 'instances', 'why', 'model')
    def __init__(self, name, status, backend, t=0.0, n=0, why='', model=None):
        self.name, self.status, self.backend, self.time, self.instances, self.why, self.model = name, status, backend, t, n, why, model

TIMEOUT = int(os.environ.get('VC_TIMEOUT', '8000'))
MAXINST = 6000
_sk = [0]
def skolem(base='s'):
    _sk[0] += 1
    return z3.Int('!%s%d' % (base, _sk[0]))
_pk = [0]
def goal_skolem():
    _pk[0] += 1
    return z3.Int('!goal%d' % _pk[0])

def split(cond, hyps, depth=0):
    """list of (extra hypotheses, atomic goal)"""
    cond = canon(cond)
    if z3.is_true(cond): return []
    if z3.is_and(cond):
        out = []
        for c in cond.children(): out += split(c, hyps, depth)
        return out
    if z3.is_or(cond):
        # (not a) or (not b) or g : move all literals but a splittable one to the hypotheses
        ch = cond.children()
        target = None
        for c in ch:
            if z3.is_and(c) or is_all(c): target = c
        if target is not None and depth < 6:
            rest = [canon(z3.Not(c)) for c in ch if c is not target]
            return split(target, hyps + rest, depth + 1)
        eqs = [c for c in ch if z3.is_eq(c) and isinstance(c.arg(0), z3.ArithRef)]
        if eqs:
            g = eqs[-1]
            rest = [canon(z3.Not(c)) for c in ch if c is not g]
            return [(hyps + rest, g)]
        return [(hyps, cond)]
    if is_all(cond):
        d, role = DECL[cond.decl().name()]
        ps = cond.children()
        n = inst(d, d.exprs[0], ps)
        j = goal_skolem()
        body = renorm(inst(d, d.exprs[1], ps, (j,)))
        return split(toz(body), hyps + [j >= 0, j < n], depth)
    if z3.is_app(cond) and cond.decl().kind() == z3.Z3_OP_ITE and isinstance(cond, z3.BoolRef):
        c, a, b = cond.children()
        return split(a, hyps + [c], depth + 1) + split(b, hyps + [canon(z3.Not(c))], depth + 1)
    return [(hyps, cond)]

def is_all(c):
    if not z3.is_app(c): return False
    h = DECL.get(c.decl().name())
    return h is not None and h[0].kind == 'ALL' and h[1] == 'a'

def ring_goal(g):
    if z3.is_eq(g) and isinstance(g.arg(0), z3.ArithRef):
        a, b = g.arg(0), g.arg(1)
        if ring.ring_zero(a - b): return True
        ra, rb = toz(renorm(a)), toz(renorm(b))
        if ring.ring_zero(ra - rb): return True
    return False

# ------------------------------------------------------------------ instantiation
def deep_apps(body, vars, depth=2):
    """applications in body and in the definitions of the operators applied to the variables"""
    xs = list(uf_apps(body).values()); out = list(xs)
    if depth:
        names = set(v.decl().name() for v in vars)
        for x in xs:
            h = DECL.get(x.decl().name())
            if h is None or h[0].kind not in ('ALL', 'FST', 'MAX', 'MIN', 'SUM', 'CAT', 'DEF'): continue
            d = h[0]; ps = x.children()[x.num_args() - len(d.P):] if d.P else []
            isdef = d.kind == 'DEF'
            if not any(any(n in free_consts(p) for n in names) for p in (x.children() if isdef else ps)): continue
            bs = x.children()[:len(d.B)] if isdef else [z3.Const('?n%d' % i, b.sort()) for i, b in enumerate(d.B)]
            for e in d.exprs:
                out += deep_apps(z3.substitute(e, *(list(zip(d.P, ps)) + list(zip(d.B, bs)))), vars, depth - 1)
    return out

def var_triggers(body, vars):
    """[(decl, argpos, var index, rest)] : applications whose argument is var + rest"""
    out = {v.get_id(): [] for v in vars}
    ids = set(out)
    for x in deep_apps(body, vars):
        for i, a in enumerate(x.children()):
            if not isinstance(a, z3.ArithRef) or not a.is_int(): continue
            if a.get_id() in ids:
                out[a.get_id()].append((x.decl(), i, None)); continue
            fc = free_consts(a)
            vs = [v for v in vars if v.decl().name() in fc]
            if len(vs) != 1: continue
            try: p = ring.to_poly(a)
            except ring.TooBig: continue
            va = [m for m in p if any(ring.ATOMS[t].eq(vs[0]) for t, _ in m)]
            if len(va) == 1 and len(va[0]) == 1 and va[0][0][1] == 1 and p[va[0]] == 1:
                q = dict(p); q.pop(va[0])
                rest = ring.from_poly(q, None)
                if vs[0].decl().name() not in free_consts(rest):
                    out[vs[0].get_id()].append((x.decl(), i, rest))
    return out

_TRIG = {}
def triggers(s):
    k = id(s)
    h = _TRIG.get(k)
    if h is None:
        h = (s, var_triggers(s.body, s.vars)); _TRIG[k] = h
    return h[1]

def trivial_arg(x):
    d, role = DECL[x.decl().name()]
    if d.kind != 'CAT': return False
    a = x.arg(0)
    return z3.is_int_value(a) and a.as_long() == 0 or a.eq(canon(inst(d, d.exprs[0], x.children()[1:])))

def last_term(n):
    """is the bound of the form t + c with c >= 1 and t not a constant"""
    if z3.is_int_value(n): return False
    try: p = ring.to_poly(n)
    except ring.TooBig: return False
    return p.get((), 0) >= 1
_SHAPE = {}
def consts(e):
    """fixed sizes added in an integer term"""
    try: p = ring.to_poly(e)
    except ring.TooBig: return ''
    return '+'.join(sorted(str(ring.ATOMS[m[0][0]]) for m in p if len(m) == 1 and ring.ATOMS[m[0][0]].num_args() == 0 and str(ring.ATOMS[m[0][0]])[:1] not in '!' and str(ring.ATOMS[m[0][0]])[:2] not in ('P?', 'B?')))
def shape(e, fine=False):
    """skeleton of a term: functions applied, integer arguments forgotten"""
    h = _SHAPE.get((e.get_id(), fine))
    if h is None:
        k = DECL.get(e.decl().name()) if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
        if isinstance(e, z3.BoolRef): s = 'b'
        elif k is not None and k[0].kind == 'SUM': s = 'S(' + shape(k[0].exprs[1], fine) + ')'
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and num(e.arg(2)) and ring.to_poly(e.arg(2)) == {}: s = shape(e.arg(1), fine)
        elif isinstance(e, z3.ArithRef) and e.is_int() and not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE): s = 'i' + (consts(e) if fine else '')
        elif z3.is_app(e) and e.num_args():
            cs = [shape(c, fine) for c in e.children()]
            if e.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_ADD): cs.sort()
            s = e.decl().name() + '(' + ','.join(cs) + ')'
        elif z3.is_app(e): s = str(e)
        else: s = '?'
        h = (e, s); _SHAPE[(e.get_id(), fine)] = h
    return h[1]

class Inst:
    def __init__(self, hyps, schemas, goal, hints, deep=False):
        self.deep = deep
        self.ground = []        # added formulas
        self.seen = set()
        self.schemas = schemas
        self.hints = list(hints)
        self.apps = {}          # decl name -> list of applications
        self.sub = set()
        self.bapps = []
        self.keep = []
        self.done = set()
        self.truncated = False
        self.hint_terms = []
        self.n = 0
        self.hyps = hyps
        for f in hyps: self.add(f)
        self.ngoal = canon(z3.Not(goal))
        self.add(self.ngoal)
        if PI.get_id() in self.sub: self.add(z3.And(PI > 3, 7 * PI < 22))
    def add(self, f):
        if z3.is_true(f): return
        if f.get_id() in self.seen: return
        self.seen.add(f.get_id()); self.keep.append(f)
        self.ground.append(f)
        self.add_term(f)
    def add_term(self, f):
        stack = [f]; seen = self.sub
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if not z3.is_app(x): continue
            n = x.num_args()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if n: self.apps.setdefault(nm, []).append(x); self.keep.append(x)
                if nm in DECL: self.bapps.append(x); self.keep.append(x)
            if n: stack.extend(x.children())
    def intterms(self):
        out = {}
        for h in self.hints: out[h.get_id()] = h
        for h in self.hint_terms: out[h.get_id()] = h
        for f in (self.ngoal,):
            for x in generic_consts(f):
                if x.is_int(): out[x.get_id()] = x
        return out
    def inverse_hints(self, base):
        """mention off(h) / q(h) / q(off(h)) for the skolem constants h (existential witnesses)"""
        hs = [h for h in base.values() if z3.is_const(h)][:4]
        cats, perms = {}, {}
        for x in self.bapps:
            d, role = DECL[x.decl().name()]
            if d.kind == 'CAT': cats[(d.id, tuple(c.get_id() for c in x.children()[1:]))] = (d, x.children()[1:])
            if d.kind == 'PERM': perms[(d.id, tuple(c.get_id() for c in x.children()[1:]))] = (d, x.children()[1:])
        out = []
        terms = list(hs)
        if self.deep:
            # a filter of a filter: positions through both
            for d, ps in cats.values():
                for h in hs:
                    for d2, ps2 in cats.values():
                        if d2 is not d and d2.id > d.id: terms.append(app(d2, 'off', (app(d, 'off', (h,), ps),), ps2))
        else:
            for d, ps in cats.values():
                for h in hs: terms.append(app(d, 'off', (h,), ps))
        qs = []
        for d, ps in perms.values():
            for t in terms[len(hs):] if self.deep else terms: qs.append(app(d, 'q', (t,), ps))
        for t in terms[len(hs):] + qs:
            if any(t.eq(o) for o in self.hint_terms): continue
            self.keep.append(t)
            self.hint_terms.append(t)
        for t in self.hint_terms: base[t.get_id()] = t
        return out
    def cands(self, trig, limit):
        out = {}
        for (decl, pos, rest) in trig:
            for x in self.apps.get(decl.name(), []):
                t = x.arg(pos)
                if rest is not None: t = canon(t - rest)
                if not t.is_int(): continue
                out[t.get_id()] = t
        return out
    def sum_pairs(self, fine):
        """sums of the goal with the same bound are equal or differ in a term"""
        out, groups = [], {}
        if not hasattr(self, 'sum_roots'): self.sum_roots = [self.ngoal] + [h for h in self.hyps if z3.is_not(h) and z3.is_eq(h.arg(0))]   # a disjunction is proved from the negation of its other parts
        st, seen = list(self.sum_roots), set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); st.extend(x.children())
            h = DECL.get(x.decl().name()) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if h is None or h[0].kind != 'SUM': continue
            d = h[0]; n = canon(inst(d, d.exprs[0], x.children()))
            groups.setdefault((n.get_id(), shape(d.exprs[1], fine)), []).append((x, d, n))
            if last_term(n) and ('u', x.get_id()) not in self.done:
                # sum of t+1 terms = sum of t terms + the last one
                self.done.add(('u', x.get_id())); self.keep.append(x)
                m = conc(canon(n - 1)); f = lambda j: inst(d, d.exprs[1], x.children(), (zi(j),))
                r = toz(s_add(mk_sum(0, m, f), f(m)))
                if x.is_real() and r.is_int(): r = z3.ToReal(r)
                out.append(canon(z3.Implies(n >= 1, x == r)))
        for xs in groups.values():
            for i in range(min(len(xs), 6)):
                for j in range(i + 1, min(len(xs), 6)):
                    (x, d, n), (y, e, _) = xs[i], xs[j]
                    key = ('x', x.get_id(), y.get_id())
                    if key in self.done: continue
                    self.done.add(key); self.keep += [x, y]
                    w = z3.Int('!diff%d.%d' % (x.get_id(), y.get_id()))
                    bx, by = inst(d, d.exprs[1], x.children(), (w,)), inst(e, e.exprs[1], y.children(), (w,))
                    f = canon(z3.Or(x == y, z3.And(w >= 0, w < n, bx != by)))
                    self.sum_roots.append(f); out.append(f)
        return out
    def round(self, ri):
        # operator axioms
        new = []
        for x in list(self.bapps):
            key = ('s', x.get_id())
            if key not in self.done and not (ri < 2 and DECL[x.decl().name()][0].kind == 'DEF'):
                self.done.add(key)
                new += [canon(a) for a in single_axioms(x)]
        for nm in ('RNDEVEN', SQRT.name()):
            for x in list(self.apps.get(nm, [])):
                key = ('f', x.get_id())
                if key in self.done: continue
                self.done.add(key); a = x.arg(0)
                if nm == 'RNDEVEN': new += [canon(2 * z3.ToReal(x) <= 2 * a + 1), canon(2 * z3.ToReal(x) >= 2 * a - 1)]
                else: new += [canon(x >= 0), canon(z3.Implies(a > 0, x > 0)), canon(z3.Implies(a == 0, x == 0))]
        groups = {}
        for x in self.bapps:
            g = pair_group(x)
            if g and not trivial_arg(x): groups.setdefault(g, []).append(x)
        for g, xs in groups.items():
            if len(xs) > 24: xs = xs[:24]; self.truncated = True
            for i in range(len(xs)):
                for j in range(i + 1, len(xs)):
                    key = ('p', xs[i].get_id(), xs[j].get_id())
                    if key in self.done: continue
                    self.done.add(key)
                    new += [canon(a) for a in pair_axioms(xs[i], xs[j])]
        base = self.intterms()
        if ri <= 2: new += self.sum_pairs(ri <= 1)
        if ri <= 1: self.inverse_hints(base)
        for x in list(self.bapps):
            d, role = DECL[x.decl().name()]
            if d.kind in ('ALL', 'FST', 'LW', 'MAX', 'MIN', 'SUM'):
                if d.kind == 'SUM': continue
                cs = dict(base)
                ch = x.children()
                if d.kind == 'LW': ps = ch[1 + len(d.B) - 1:]; ex = d.exprs[0]
                else: ps = ch; ex = d.exprs[1]
                b = z3.Int('!trig')
                body = z3.substitute(ex, *([(d.B[0], b)] + list(zip(d.P, ps)))) if d.B else ex
                tr = var_triggers(body, [b])[b.get_id()]
                for t in self.cands(tr, 60).values(): cs[t.get_id()] = t
                cl = [c for c in cs.values()]
                for c in cl:
                    key = ('i', x.get_id(), c.get_id())
                    if key in self.done: continue
                    self.done.add(key); self.keep.append(c)
                    new += [canon(a) for a in index_axioms(x, [c])]
                    if len(new) > MAXINST: self.truncated = True; break
        for s in self.schemas:
            tr = triggers(s)
            per = []
            for v in s.vars:
                cs = dict(base)
                for t in self.cands(tr[v.get_id()], 60).values(): cs[t.get_id()] = t
                per.append(list(cs.values()))
            import itertools
            cnt = 0
            for vals in itertools.product(*per):
                key = ('h', id(s)) + tuple(v.get_id() for v in vals)
                if key in self.done: continue
                self.done.add(key)
                cnt += 1
                if cnt > 600: self.truncated = True; break
                self.keep.extend(vals)
                new.append(canon(s.inst(list(vals))))
        c0 = len(self.ground)
        for t in list(self.hint_terms): self.add_term(t)
        for a in new:
            if len(self.ground) > MAXINST: self.truncated = True; break
            self.add(a)
        return len(self.ground) > c0

MULI = z3.Function('MUL*i', z3.IntSort(), z3.IntSort(), z3.IntSort())
MULR = z3.Function('MUL*r', z3.RealSort(), z3.RealSort(), z3.RealSort())
DIVR = z3.Function('DIV*r', z3.RealSort(), z3.RealSort(), z3.RealSort())
DIVI = z3.Function('DIV*i', z3.IntSort(), z3.IntSort(), z3.IntSort())
MODI = z3.Function('MOD*i', z3.IntSort(), z3.IntSort(), z3.IntSort())
_LZ = {}
def linz(f):
    """linear abstraction: products of non-numerals become applications of an uninterpreted
    function (weaker hypotheses: unsat remains a proof).  Returns (formula, was it changed)"""
    i = f.get_id()
    h = _LZ.get(i)
    if h is not None: return h[1]
    r = _linz(f)
    _LZ[i] = (f, r)
    return r
def num(a): return z3.is_int_value(a) or z3.is_rational_value(a)
def _linz(f):
    if not z3.is_app(f) or f.num_args() == 0: return f, False
    ch = [linz(c) for c in f.children()]
    chg = any(c[1] for c in ch)
    k = f.decl().kind()
    if k == z3.Z3_OP_MUL:
        cs = [c[0] for c in ch]
        nums = [c for c in cs if num(c)]; rest = sorted([c for c in cs if not num(c)], key=lambda c: (c.decl().name(), c.get_id()))
        if len(rest) > 1:
            M = MULI if f.is_int() else MULR
            t = rest[0]
            for c in rest[1:]: t = M(t, c)
            for n in nums: t = n * t
            return t, True
    elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not num(ch[1][0]):
        F = {z3.Z3_OP_DIV: DIVR, z3.Z3_OP_IDIV: DIVI, z3.Z3_OP_MOD: MODI}[k]
        return F(ch[0][0], ch[1][0]), True
    if not chg: return f, False
    return rebuild(f, [c[0] for c in ch]), True
def rebuild(f, cs):
    k = f.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(*cs)
    if k == z3.Z3_OP_OR: return z3.Or(*cs)
    if k == z3.Z3_OP_ADD: return z3.Sum(*cs)
    if k == z3.Z3_OP_MUL: return z3.Product(*cs)
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*cs)
    return f.decl()(*cs)

def solve(fs, timeout, exact=True):
    lin = [linz(f) for f in fs]
    chg = any(c for _, c in lin)
    s = z3.Solver(); s.set('timeout', timeout); s.set('random_seed', 3)
    s.add(*[f for f, _ in lin])
    r = s.check()
    if r == z3.unsat: return 'unsat', s
    if not chg: return ('sat' if r == z3.sat else 'unknown'), s
    if not exact: return 'unknown', s
    s = z3.Solver(); s.set('timeout', timeout); s.set('random_seed', 3)
    s.add(*fs)
    r = s.check()
    return ('unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'), s

def solve_cvc5(fs, timeout):
    try: import cvc5
    except ImportError: return 'unknown'
    s = z3.Solver(); s.add(*fs)
    txt = s.to_smt2()
    try:
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = p.nextCommand()
            if cmd.isNull(): break
            o = cmd.invoke(slv, sm).strip()
            if o in ('sat', 'unsat', 'unknown'): res = o
        return res
    except Exception as e:
        return 'unknown'

BUDGET = float(os.environ.get('VC_BUDGET', '25'))
def prove_atomic(name, hyps, schemas, goal, hints, timeout=None, rounds=4):
    own = set(x.get_id() for x in generic_consts(canon(goal)) if x.is_int())
    t0 = time.time()
    first = None
    if any(h.get_id() not in own for h in hints) and not (z3.is_true(goal) or ring_goal(goal)):
        r = prove_atomic1(name, hyps, schemas, goal, [h for h in hints if h.get_id() in own], timeout, 3, t0 + BUDGET / 4)
        if r.status == 'proved': return r
        first = r
    try: q = prove_cases(name, [canon(h) for h in hyps], schemas, goal, hints, timeout, time.time() + BUDGET) if first is not None else None
    except (ring.TooBig, Unsupported): q = None
    if q: r = q
    else:
        r = prove_atomic1(name, hyps, schemas, goal, hints, timeout, rounds, time.time() + BUDGET)
        if r.status != 'proved' and first is None:
            try: q = prove_cases(name, [canon(h) for h in hyps], schemas, goal, hints, timeout, time.time() + BUDGET)
            except (ring.TooBig, Unsupported): q = None
            if q: r = q
        if r.status != 'proved':
            q = prove_atomic1(name, hyps, schemas, goal, [h for h in hints if h.get_id() in own], timeout, 3, time.time() + BUDGET / 2, True)
            if q.status == 'proved': r = q
    r.time = time.time() - t0
    return r

# ------------------------------------------------------------------ case distinction on the conditions of the goal
def goal_conds(e, out, seen, depth=3):
    """conditions of conditional terms in e, also inside the operators it applies (not under their bound variable)"""
    if e.get_id() in seen or not z3.is_app(e): return
    seen.add(e.get_id())
    h = DECL.get(e.decl().name()) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    if h is not None and h[0].kind in ('SUM', 'ALL') and depth:
        d = h[0]
        for x in d.exprs: goal_conds(canon(inst(d, x, e.children())), out, seen, depth - 1)
    if e.decl().kind() == z3.Z3_OP_ITE:
        c = e.arg(0)
        if not any('B?' in n for n in const_names(c)): out.setdefault(c.get_id(), c)
    for a in e.children(): goal_conds(a, out, seen, depth)
def const_names(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x.decl().name())
        st.extend(x.children())
    return out
def simplify_under(e, pairs, memo):
    """e with the conditions in pairs replaced by their truth values, also inside SUM and ALL"""
    h = memo.get(e.get_id())
    if h is not None: return h[1]
    for c, v in pairs:
        if e.eq(c): return v
    r = e
    if z3.is_app(e):
        h = DECL.get(e.decl().name()) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
        if h is not None and h[0].kind in ('SUM', 'ALL') and h[1] in ('s', 'a'):
            d = h[0]; ps = [simplify_under(c, pairs, memo) for c in e.children()]
            n = conc(canon(simplify_under(canon(inst(d, d.exprs[0], ps)), pairs, memo)))
            f = lambda j: simplify_under(canon(inst(d, d.exprs[1], ps, (zi(j),))), pairs, {})
            r = toz((mk_sum if d.kind == 'SUM' else mk_all)(0, n, f))
            if d.kind == 'SUM' and e.is_real() and r.is_int(): r = z3.ToReal(r)
        elif e.decl().kind() == z3.Z3_OP_ITE and (z3.is_true(canon(simplify_under(e.arg(0), pairs, memo))) or z3.is_false(canon(simplify_under(e.arg(0), pairs, memo)))):
            r = simplify_under(e.arg(1 if z3.is_true(canon(simplify_under(e.arg(0), pairs, memo))) else 2), pairs, memo)
        elif e.num_args():
            cs = [simplify_under(c, pairs, memo) for c in e.children()]
            if any(not a.eq(b) for a, b in zip(cs, e.children())): r = canon(rebuild(e, cs))
    memo[e.get_id()] = (e, r)
    return r

def prove_cases(name, hyps, schemas, goal, hints, timeout, deadline, depth=3):
    goal = canon(goal); conds = {}
    goal_conds(goal, conds, set())
    if not conds or len(conds) > 24 or time.time() > deadline: return None
    own = set(x.get_id() for x in generic_consts(goal) if x.is_int())
    I = Inst(hyps, schemas, goal, [h for h in hints if h.get_id() in own])
    for ri in range(2): I.round(ri)
    s = z3.Solver(); s.set('timeout', 1000); s.set('random_seed', 3)
    s.add(*[linz(f)[0] for f in I.ground])
    pairs, open_ = [], None
    for c in conds.values():
        lc = linz(c)[0]
        if s.check(lc) == z3.unsat: pairs.append((c, z3.BoolVal(False))); continue
        if s.check(z3.Not(lc)) == z3.unsat: pairs.append((c, z3.BoolVal(True))); continue
        if open_ is None: open_ = c
    if open_ is not None:
        if not depth: return None
        n = 0
        for c in (open_, canon(z3.Not(open_))):
            r = prove_cases(name, hyps + [c], schemas, goal, hints, timeout, deadline, depth - 1)
            if r is None or r.status != 'proved': return None
            n += r.instances
        return Result(name, 'proved', 'z3', 0, n)
    g = canon(simplify_under(goal, pairs, {}))
    extra = [c if z3.is_true(v) else canon(z3.Not(c)) for c, v in pairs]
    if ring_goal(g): return Result(name, 'proved', 'ring', 0, len(I.ground))
    r = prove_atomic1(name, hyps + extra, schemas, g, [h for h in hints if h.get_id() in own], timeout, 3, deadline)
    return r if r.status == 'proved' else None

def prove_atomic1(name, hyps, schemas, goal, hints, timeout, rounds, deadline, deep=False):
    t0 = time.time()
    timeout = timeout or TIMEOUT
    if z3.is_true(goal): return Result(name, 'proved', 'normal form', time.time() - t0)
    if ring_goal(goal): return Result(name, 'proved', 'ring', time.time() - t0)
    hyps = [canon(h) for h in hyps]
    I = Inst(hyps, schemas, goal, hints, deep)
    status = 'unknown'
    grew = True
    for ri in range(rounds + 1):
        # renormalise nested operators in hypotheses is not needed: definitions are by content
        r, s = solve(I.ground, 1500 if ri < rounds else timeout, ri >= 1)
        if r == 'unsat': return Result(name, 'proved', 'z3', time.time() - t0, len(I.ground))
        status = r
        if ri == rounds: break
        if time.time() > deadline: I.truncated = True; break
        try: grew = I.round(ri)
        except ring.TooBig: return Result(name, 'unknown', 'ring', time.time() - t0, len(I.ground), 'expression too large')
        if not grew:
            if r == 'unknown': r, s = solve(I.ground, timeout)
            status = r
            if r == 'unsat': return Result(name, 'proved', 'z3', time.time() - t0, len(I.ground))
            break
    if status == 'unknown' and time.time() < deadline:
        r = solve_cvc5(I.ground, timeout)
        if r == 'unsat': return Result(name, 'proved', 'cvc5', time.time() - t0, len(I.ground))
        if r == 'sat': status = 'sat'
    mdl = None
    if status == 'sat':
        r, s = solve(I.ground, timeout)
        if r == 'sat': mdl = str(s.model())[:6000]
        if grew or I.truncated: status = 'unknown'
    return Result(name, status, 'z3', time.time() - t0, len(I.ground), 'truncated' if I.truncated else '', mdl)

def prove(ob, timeout=None):
    """Oblig -> list of Result (one per conjunct)"""
    hyps = [h for h in ob.hyps()]
    out = []
    for i, (ex, g) in enumerate(split(ob.cond, [])):
        nm = ob.name if i == 0 else '%s #%d' % (ob.name, i + 1)
        out.append(prove_atomic(nm, hyps + ex, ob.schs(), g, ob.hints, timeout))
    if not out: out.append(Result(ob.name, 'proved', 'normal form'))
    return out

def consistent(facts, schemas, hints=(), rounds=1, timeout=2000):
    """vacuity guard: False is not provable from the hypotheses (with the instances tried)"""
    I = Inst([canon(f) for f in facts], schemas, z3.BoolVal(False), hints)
    for ri in range(rounds + 1):
        r, _ = solve(I.ground, timeout, False)
        if r == 'unsat': return False
        if ri < rounds and not I.round(ri): break
    return True
