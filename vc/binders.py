"""Binding operators over symbolic ranges, represented by uninterpreted functions that
are canonicalised by content: SUM, ALL, MAX, MIN, enumerations (concatenations of
segments of given lengths; filters are the 0/1 case), argsort permutations, inverses.

Every operator is *defined* by its content; `axioms` returns sound instances of the
defining facts for applications that occur in a proof problem.
"""
import z3, itertools
from .core import *
from . import ring
from .ring import canon, to_poly, from_poly, p_add, p_scale, p_mul, p_const, ATOMS

DEFS = {}
DECL = {}      # decl name -> (Def, role)
KEEP = []

class Def:
    __slots__ = ('id', 'kind', 'P', 'B', 'exprs', 'decls', 'extra')

def is_generic(c): return c.decl().name().startswith('!')

_GC = {}
def generic_consts(e):
    """ordered list of generic constants in e"""
    i = e.get_id()
    h = _GC.get(i)
    if h is not None: return h[1]
    out, seen = [], set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and is_generic(x): out.append(x)
        else: stack.extend(reversed(x.children()))
    _GC[i] = (e, out)
    return out

def abstract(kind, exprs, bvars, roles):
    """returns (Def, actual params).  roles: dict role -> (arg sorts before the params, range sort)"""
    exprs = [canon(toz(e)) for e in exprs]
    params, seen = [], set(b.get_id() for b in bvars)
    for e in exprs:
        for c in generic_consts(e):
            if c.get_id() not in seen:
                seen.add(c.get_id()); params.append(c)
    B = [z3.Const('B?%d' % i, b.sort()) for i, b in enumerate(bvars)]
    def content(params):
        P = [z3.Const('P?%d' % i, p.sort()) for i, p in enumerate(params)]
        pairs = list(zip(params, P)) + list(zip(bvars, B))
        ex = [canon(z3.substitute(e, *pairs)) if pairs else e for e in exprs]
        return P, ex, (kind, tuple(e.get_id() for e in ex), len(P), tuple(p.sort().name() for p in P))
    P, ex, key = content(params)
    d = DEFS.get(key)
    if d is None and 2 <= len(params) <= 4:
        # the order in which the parameters are found is arbitrary: look for the same content under another order
        KEEP.extend(ex)
        for q in itertools.islice(itertools.permutations(params), 1, None):
            q = list(q); _, ex2, k2 = content(q); KEEP.extend(ex2)
            if k2 in DEFS: d, params = DEFS[k2], q; break
    if d is None:
        d = Def(); d.id = len(DEFS); d.kind = kind; d.P = P; d.B = B; d.exprs = ex; d.decls = {}; d.extra = None
        for r, (args, rng) in roles.items():
            n = "%s.%s#%d" % (kind, r, d.id)
            sorts = list(args) + [p.sort() for p in P]
            d.decls[r] = z3.Function(n, *sorts, rng) if sorts else z3.Const(n, rng)
            DECL[n] = (d, r)
        DEFS[key] = d; KEEP.extend(ex)
    return d, params

def app(d, role, args, params):
    f = d.decls[role]
    a = list(args) + list(params)
    return f(*a) if a else f

def inst(d, e, params, bvals=()):
    pairs = list(zip(d.P, params)) + list(zip(d.B, [zi(v) if not is_z(v) else v for v in bvals]))
    return z3.substitute(e, *pairs) if pairs else e

_bcount = [0]
def bvar():
    """globally unique bound variable (generic, so that nested operators treat it as a parameter)"""
    _bcount[0] += 1
    return z3.Int('!b%d' % _bcount[0])

I, R, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()

def dimsub(hi, lo):
    return canon(zi(s_sub(hi, lo))) if is_z(hi) or is_z(lo) else hi - lo

# ------------------------------------------------------------------ SUM
def mk_sum(lo, hi, fn, ctx=None):
    """sum of fn(j), lo <= j < hi"""
    n = conc(dimsub(hi, lo))
    if isinstance(n, int):
        if n <= 0: return 0
        if n <= 40:
            r = 0
            for j in range(n): r = s_add(r, fn(s_add(lo, j)))
            return r
    b = bvar()
    body = fn(s_add(b, lo) if not (isinstance(lo, int) and lo == 0) else b)
    return _sum_body(n, b, body)

def _sum_body(n, b, body):
    if isinstance(body, Cx): return Cx(_sum_body(n, b, body.re), _sum_body(n, b, body.im))
    if is_z(n) and z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE and n.is_int() and conc(n.arg(2)) == 0:
        # a range of max(m, 0) terms
        r = solve_nonneg(n.arg(0), n.arg(1))
        if r: n = conc(n.arg(1))
    if isinstance(body, NV):
        return NV(_sum_body(n, b, body.val), mk_any(n, lambda j: subst_expr(body.nan, [(b, zi(j))])))
    if is_num(body):
        if body == 0: return body
        return s_mul(body, _count(n))
    if is_bool_sort(body): body = zi(body)
    isint = is_int_sort(body)
    sp = split_range(n, b, body)
    if sp is not None:
        at, lo, hi = sp
        return norm_keep(s_add(_sum_body(at, b, lo), _sum_body(dimsub(n, at), b, hi)), isint)
    p = to_poly(body)
    out = 0 if isint else Fraction(0)
    for m, c in p.items():
        inner, outer = [], []
        for a, e in m:
            t = ATOMS[a]
            (inner if depends(t, b) else outer).append((a, e))
        o = from_poly({tuple(outer): c}, not (isint and c.denominator == 1) or None) if outer or True else None
        o = conc(o)
        if not inner: s = _count(n)
        else:
            t = from_poly({tuple(inner): Fraction(1)}, None)
            if t.is_int() and not isint: pass
            s = delta_sum(n, b, t)
            if s is None: s = filter_sum(n, b, t)
            if s is None: s = guarded_sum(n, b, t, inner)
            if s is None:
                d, params = abstract('SUM', [zi(n), t], [b], {'s': ((), t.sort())})
                d.extra = 'n'
                s = app(d, 's', (), params)
        out = s_add(out, s_mul(o, s))
    return norm_keep(out, isint)

def subterms(e, pred):
    out, stack, seen = [], [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if pred(x): out.append(x)
        stack.extend(x.children())
    return out

def solve_for(c, b):
    """(operator, e) with c <=> b operator e and e free of b; None if c is not of this form"""
    c = canon(c); neg = False
    if z3.is_not(c): c = c.arg(0); neg = True
    k = c.decl().kind() if z3.is_app(c) else None
    op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_EQ: '=='}.get(k)
    if op is None or not isinstance(c.arg(0), z3.ArithRef) or not c.arg(0).is_int(): return None
    try: p = p_add(to_poly(c.arg(0)), to_poly(c.arg(1)), -1)
    except ring.TooBig: return None
    co = None; rest = {}
    for m, q in p.items():
        if any(depends(ATOMS[a], b) for a, _ in m):
            if len(m) != 1 or m[0][1] != 1 or not ATOMS[m[0][0]].eq(b): return None
            co = q
        else: rest[m] = q
    if co not in (1, -1): return None
    if co == -1: op = {'<=': '>=', '>=': '<=', '==': '=='}[op]
    e = conc(from_poly(p_scale(rest, -co), None))
    if is_z(e) and not e.is_int(): return None
    if neg:
        if op == '==': return None
        op, e = ('>=', s_add(e, 1)) if op == '<=' else ('<=', s_sub(e, 1))
    return op, e

def solve_nonneg(c, m):
    """is c the condition 0 <= m or 0 < m"""
    return canon(c).eq(canon(m >= 0)) or canon(c).eq(canon(m > 0))

def is_cat(t, role='off'):
    h = DECL.get(t.decl().name()) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    return h is not None and h[0].kind == 'CAT' and h[1] == role

def split_range(n, b, body):
    """(e, body below e, body from e on, shifted) for a case distinction b < e in the body, e a total of a concatenation"""
    if isinstance(n, int): return None
    cond = subterms(body, lambda x: z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and depends(x.arg(0), b))
    if not cond: return None
    from .ctx import cur
    for x in cond:
        r = solve_for(x.arg(0), b)
        if r is None or r[0] == '==': continue
        at, first = (s_add(r[1], 1), True) if r[0] == '<=' else (r[1], False)
        if not is_z(at) or not subterms(at, is_cat): continue
        c = cur()
        if c is None or not c.entails(z3.And(zi(at) >= 0, zi(at) <= zi(n))): continue
        sub1, sub2 = [], []
        for y in cond:
            q = solve_for(y.arg(0), b)
            if q is None or q[0] == '==': continue
            a2, f2 = (s_add(q[1], 1), True) if q[0] == '<=' else (q[1], False)
            if is_z(a2) and canon(a2).eq(canon(at)):
                sub1.append((y.arg(0), z3.BoolVal(f2))); sub2.append((y.arg(0), z3.BoolVal(not f2)))
        lo = canon(z3.substitute(body, *sub1)); hi = canon(z3.substitute(z3.substitute(body, *sub2), (b, b + zi(at))))
        return conc(canon(zi(at))), lo, hi
    return None

def delta_sum(n, b, t):
    """sum of a term that vanishes unless b == e"""
    for c in subterms(t, lambda x: z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EQ and depends(x, b)):
        r = solve_for(c, b)
        if r is None or r[0] != '==': continue
        z = canon(z3.substitute(t, (c, z3.BoolVal(False))))
        if not (is_num(conc(z)) and conc(z) == 0): continue
        e = zi(r[1])
        v = canon(z3.substitute(z3.substitute(t, (c, z3.BoolVal(True))), (b, e)))
        return s_ite(s_and(s_cmp('<=', 0, r[1]), s_cmp('<', r[1], n)), conc(v), Fraction(0) if not t.is_int() else 0)
    return None

def guarded_sum(n, b, t, inner):
    """sum of ITE(c, p1 + p2 + ..., 0) * rest = sum of ITE(c, p1 * rest, 0) + ...; None if there is nothing to distribute"""
    zero = lambda e: is_num(conc(e)) and conc(e) == 0
    for a, e in inner:
        x = ATOMS[a]
        if not (e == 1 and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE): continue
        if zero(x.arg(2)): c, v = x.arg(0), x.arg(1)
        elif zero(x.arg(1)): c, v = canon(z3.Not(x.arg(0))), x.arg(2)
        else: continue
        rest = {tuple(q for q in inner if q[0] != a): Fraction(1)}
        try: p = p_mul(to_poly(v), rest)
        except ring.TooBig: continue
        if len(p) == 1 and len(inner) == 1 and list(p.values())[0] == 1 and depends(c, b) and zero(x.arg(2)) and not any(not depends(ATOMS[q], b) for q, _ in list(p)[0]): return None
        out = 0 if t.is_int() else Fraction(0)
        for m, k in p.items():
            i2 = tuple(q for q in m if depends(ATOMS[q[0]], b)) if depends(c, b) else m
            o2 = tuple(q for q in m if q not in i2)
            if depends(c, b):
                u = from_poly({i2: Fraction(1)}, not t.is_int() or None)
                w = z3.If(c, toz(u), z3.RealVal(0) if not toz(u).is_int() else z3.IntVal(0))
                w = canon(w); 
                d, params = abstract('SUM', [zi(n), w], [b], {'s': ((), w.sort())}); d.extra = 'n'
                s = app(d, 's', (), params)
            else:
                s = s_ite(c, _sum_body(n, b, from_poly({i2: Fraction(1)}, not t.is_int() or None)), 0)
            out = s_add(out, s_mul(conc(from_poly({o2: k}, not t.is_int() or None)), s))
        return out
    return None

def scatter_sum(dims, fn):
    """sum over a grid of terms that vanish except where an entry was written by i -> cell(i), i < m (injective, inside the grid):
    the sum over i of the terms at cell(i); None if the rule does not apply"""
    from .ctx import cur
    if any(isinstance(d, int) for d in dims) or cur() is None: return None
    xs = [bvar() for _ in dims]
    body = fn(xs)
    comps = [body.re, body.im] if isinstance(body, Cx) else [body]
    if any(isinstance(q, NV) for q in comps) or not any(is_z(q) for q in comps): return None
    apps = {}
    for q in comps:
        if is_z(q):
            for a in binder_apps(canon(q)):
                if DECL[a.decl().name()][0].kind == 'LW': apps[a.get_id()] = a
    comps = [canon(q) if is_z(q) else q for q in comps]
    zero = lambda e: is_num(conc(e)) and conc(e) == 0
    for a in apps.values():
        d = DECL[a.decl().name()][0]; nx = len(d.B) - 1; ch = a.children()
        m, args, ps = ch[0], ch[1:1 + nx], ch[1 + nx:]
        if any(depends(m, x) for x in xs) or any(depends(q, x) for q in ps for x in xs): continue
        if not all(zero(canon(z3.substitute(q, (a, z3.IntVal(-1))))) if is_z(q) else zero(q) for q in comps): continue
        i = bvar()
        w = canon(inst(d, d.exprs[0], ps, [i] + args))
        conj = list(w.children()) if z3.is_and(w) else [w]
        cell, guard = {}, []
        for c in conj:
            dep = [k for k, x in enumerate(xs) if depends(c, x)]
            if not dep: guard.append(c); continue
            r = solve_for(c, xs[dep[0]]) if len(dep) == 1 and dep[0] not in cell else None
            if r is None or r[0] != '==': guard = None; break
            cell[dep[0]] = zi(r[1])
        if guard is None or len(cell) != len(xs): continue
        g = z3.And(i >= 0, i < m, *guard)
        i2 = bvar(); at2 = lambda e: z3.substitute(e, (i, i2))
        inside = z3.And(*[z3.And(cell[k] >= 0, cell[k] < zi(dims[k])) for k in cell])
        if not cur().entails_all([i], g, inside): continue
        if not cur().entails_all([i, i2], z3.And(g, at2(g), *[cell[k] == at2(cell[k]) for k in cell]), i == i2): continue
        out = []
        for q in comps:
            if not is_z(q): out.append(q); continue
            v = canon(z3.substitute(z3.substitute(q, (a, i)), *[(xs[k], cell[k]) for k in cell]))
            v = canon(z3.substitute(v, (canon(i >= 0), z3.BoolVal(True))))
            if guard: v = s_ite(z3.And(*guard), v, Fraction(0) if not v.is_int() else 0)
            out.append(_sum_body(conc(m), i, v))
        return Cx(*out) if isinstance(body, Cx) else out[0]
    return None

def filter_sum(n, b, t):
    """sum over the positions of a filtered sequence = sum over the sequence of the terms that pass"""
    if not (is_z(n) and is_cat(n)): return None
    d, _ = DECL[n.decl().name()]; ps = n.children()[1:]
    if not canon(n.arg(0)).eq(canon(inst(d, d.exprs[0], ps))): return None
    g = bvar(); L = canon(inst(d, d.exprs[1], ps, (g,)))
    if not (z3.is_app(L) and L.decl().kind() == z3.Z3_OP_ITE): return None
    x, y = conc(L.arg(1)), conc(L.arg(2))
    if (x, y) == (1, 0): c = L.arg(0)
    elif (x, y) == (0, 1): c = z3.Not(L.arg(0))
    else: return None
    dj = app(d, 'dj', (b,), ps)
    u = canon(z3.substitute(t, (dj, g)))
    if depends(u, b): return None
    return _sum_body(inst(d, d.exprs[0], ps), g, s_ite(c, u, Fraction(0) if not u.is_int() else 0))

def norm_keep(e, isint):
    if is_z(e):
        e = conc(canon(e))
        if is_z(e) and not isint and e.is_int(): e = z3.ToReal(e)
    return e

def _count(n):
    if isinstance(n, int): return max(0, n)
    from .ctx import cur
    c = cur()
    if c is not None and c.entails(n >= 0): return n
    return z3.If(n >= 0, n, z3.IntVal(0))

_DEP = {}
def depends(t, b):
    k = (t.get_id(), b.get_id())
    h = _DEP.get(k)
    if h is None:
        h = any(c.eq(b) for c in generic_consts(t))
        _DEP[k] = h; KEEP.append(t)
    return h

# SUM is parameterised by its upper bound n: exprs = [n, body]; lower bound 0
# ------------------------------------------------------------------ ALL / ANY
def mk_all(n, fn):
    """forall 0<=j<n: fn(j)"""
    n = conc(n)
    if isinstance(n, int) and n <= 40:
        return s_and(*[fn(j) for j in range(n)])
    b = bvar()
    body = fn(b)
    if isinstance(body, bool):
        return True if body else (n <= 0)
    body = canon(zb(body))
    if z3.is_true(body): return True
    if z3.is_and(body):
        return s_and(*[mk_all(n, (lambda c: lambda j: z3.substitute(c, (b, zi(j))))(c)) for c in body.children()])
    if not depends(body, b): return s_or(body, n <= 0)
    d, params = abstract('ALL', [zi(n), body], [b], {'a': ((), Bo), 'w': ((), I)})
    return app(d, 'a', (), params)

def mk_any(n, fn):
    return s_not(mk_all(n, lambda j: s_not(fn(j))))

# ------------------------------------------------------------------ MAX / MIN (value), ARG
def mk_ext(kind, n, fn):
    """kind 'MAX' or 'MIN' over 0<=j<n (n>0)"""
    n = conc(n)
    if isinstance(n, int) and n <= 40:
        r = fn(0)
        for j in range(1, n): r = (s_max if kind == 'MAX' else s_min)(r, fn(j))
        return r
    b = bvar()
    body = fn(b)
    if isinstance(body, NV): raise Unsupported("max/min of possibly NaN values")
    if isinstance(body, Cx): raise Unsupported("max of complex")
    if is_num(body): return body
    if not depends(toz(body), b): return body
    t = canon(body)
    d, params = abstract(kind, [zi(n), t], [b], {'m': ((), t.sort()), 'w': ((), I)})
    return app(d, 'm', (), params)

def mk_arg(kind, n, fn):
    """first index attaining the max/min"""
    n = conc(n)
    if isinstance(n, int) and n <= 40:
        bi, bv = 0, fn(0)
        for j in range(1, n):
            v = fn(j)
            c = s_cmp('<' if kind == 'MIN' else '>', v, bv)
            bi, bv = s_ite(c, j, bi), s_ite(c, v, bv)
        return bi
    m = mk_ext(kind, n, fn)
    raise Unsupported("argmin over symbolic range")

# ------------------------------------------------------------------ concatenation / filter
class Concat:
    """positions 0..T-1 of the concatenation of segments j=0..n-1 of lengths len(j)>=0"""
    def __init__(self, n, lenfn):
        self.n = conc(n)
        b = bvar()
        L = lenfn(b)
        L = conc(canon(zi(L))) if is_z(L) else L
        self.const = None
        if isinstance(L, int):
            self.const = L
            self.T = s_mul(self.n, L)
            return
        d, params = abstract('CAT', [zi(self.n), L], [b], {'off': ((I,), I), 'dj': ((I,), I)})
        self.d, self.params = d, params
        self.T = self.off(self.n)
    def off(self, j):
        if self.const is not None: return s_mul(j, self.const)
        if isinstance(j, int) and j == 0: return 0
        return app(self.d, 'off', (zi(j),), self.params)
    def seg(self, i):
        """segment index of position i"""
        if self.const is not None:
            return i if self.const == 1 else s_floordiv(i, self.const)
        return app(self.d, 'dj', (zi(i),), self.params)
    def local(self, i):
        if self.const is not None:
            return 0 if self.const == 1 else s_mod(i, self.const)
        return s_sub(i, self.off(self.seg(i)))

def mk_filter(n, condfn):
    return Concat(n, lambda j: s_ite(condfn(j), 1, 0))

# ------------------------------------------------------------------ first / last index
def mk_first(n, fn):
    """smallest j in 0..n-1 with fn(j), n (or any value >= n) if there is none"""
    b = bvar()
    body = fn(b)
    d, params = abstract('FST', [zi(n), zb(body)], [b], {'f': ((), I)})
    return app(d, 'f', (), params)

class LastWriter:
    """at(m, x): largest j < m (0 <= j) with w(j, x), else -1"""
    def __init__(self, nx, wfn):
        b = bvar(); xs = [bvar() for _ in range(nx)]
        self.d, self.params = abstract('LW', [zb(wfn(b, xs))], [b] + xs, {'l': ((I,) * (1 + nx), I)})
    def at(self, m, xs): return app(self.d, 'l', [zi(m)] + [zi(x) for x in xs], self.params)

# ------------------------------------------------------------------ argsort
class Perm:
    def __init__(self, n, keyfn):
        self.n = conc(n)
        b = bvar()
        k = keyfn(b)
        if isinstance(k, NV): raise Unsupported("argsort of NaN")
        ks = [k.re, k.im] if isinstance(k, Cx) else [k]
        self.d, self.params = abstract('PERM', [zi(self.n)] + [toz(x) if not is_bool_sort(x) else zi(x) for x in ks], [b],
                                       {'p': ((I,), I), 'q': ((I,), I)})
    def at(self, i): return app(self.d, 'p', (zi(i),), self.params)
    def inv(self, i): return app(self.d, 'q', (zi(i),), self.params)

# ------------------------------------------------------------------ matrix inverse (3x3 / 2x2 real)
def det_expr(m):
    n = len(m)
    if n == 1: return m[0][0]
    if n == 2: return s_sub(s_mul(m[0][0], m[1][1]), s_mul(m[0][1], m[1][0]))
    r = 0
    for j in range(n):
        minor = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = s_mul(m[0][j], det_expr(minor))
        r = s_add(r, t) if j % 2 == 0 else s_sub(r, t)
    return r

def cofactor(m, i, j):
    n = len(m)
    minor = [[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i]
    d = det_expr(minor)
    return d if (i + j) % 2 == 0 else s_neg(d)

KNOWN_INV = {}    # content key -> matrix  (for preconditions such as "A is unimodular")

def mat_key(m):
    es = [canon(zr(x)) for r in m for x in r]
    KEEP.extend(es)
    return tuple(e.get_id() for e in es)

def mk_inv(m):
    n = len(m)
    if any(isinstance(x, Cx) for r in m for x in r):
        d = det_expr(m)
        return [[s_div(cofactor(m, j, i), d) for j in range(n)] for i in range(n)]
    if all(is_num(x) for r in m for x in r):
        d = det_expr(m)
        if d == 0: py_raise('LinAlgError', 'Singular matrix')
        return [[Fraction(cofactor(m, j, i)) / Fraction(d) for j in range(n)] for i in range(n)]
    from .ctx import cur
    for (kk, mat) in getattr(cur(), 'known_inv', []) if cur() else []:
        if kk == mat_key(m): return [list(r) for r in mat]
    mt = [[m[j][i] for j in range(n)] for i in range(n)]
    for (kk, mat) in getattr(cur(), 'known_inv', []) if cur() else []:
        if kk == mat_key(mt): return [[mat[j][i] for j in range(n)] for i in range(n)]
    # is m itself an opaque inverse (or the transpose of one)?
    for mm, tr in ((m, False), (mt, True)):
        src = inverse_source(mm)
        if src is not None:
            return [[src[j][i] for j in range(n)] for i in range(n)] if tr else src
    # compound index terms become parameters, so that inverses of equal matrices are congruent
    es = [canon(zr(x)) for r in m for x in r]; KEEP.extend(es)
    idx = {}
    for e in es: index_terms(e, idx)
    if 0 < len(idx) <= 4:
        sub = [(t, z3.Int('!ix%d' % q)) for q, t in enumerate(idx.values())]
        es = [z3.substitute(e, *sub) for e in es]
        m = [es[i * n:(i + 1) * n] for i in range(n)]; mt = [[m[j][i] for j in range(n)] for i in range(n)]
        back = {c.get_id(): t for t, c in sub}
    else: back = {}
    # orientation: canonical choice between m and its transpose
    k1, k2 = [canon(zr(x)).sexpr() for r in m for x in r], [canon(zr(x)).sexpr() for r in mt for x in r]
    tr = k2 < k1
    mm = mt if tr else m
    roles = {'x%d%d' % (i, j): ((), R) for i in range(n) for j in range(n)}
    d, params = abstract('INV', [zr(x) for r in mm for x in r], [], roles)
    params = [back.get(q.get_id(), q) for q in params]
    X = [[app(d, 'x%d%d' % (i, j), (), params) for j in range(n)] for i in range(n)]
    if tr: X = [[X[j][i] for j in range(n)] for i in range(n)]
    return X

def index_terms(e, out):
    """maximal integer arguments of uninterpreted functions in e (other than constants), in order of appearance"""
    if not z3.is_app(e): return
    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
        for a in e.children():
            if a.is_int() and generic_consts(a):
                out.setdefault(a.get_id(), a)
            else: index_terms(a, out)
        return
    for a in e.children(): index_terms(a, out)

def inverse_source(m):
    n = len(m)
    d0 = None; ps = None
    for i in range(n):
        for j in range(n):
            x = m[i][j]
            if not is_z(x): return None
            x = canon(zr(x))
            h = DECL.get(x.decl().name()) if z3.is_app(x) else None
            if h is None or h[0].kind != 'INV' or h[1] != 'x%d%d' % (i, j): return None
            if d0 is None: d0, ps = h[0], x.children()
            elif h[0] is not d0 or not all(a.eq(b) for a, b in zip(ps, x.children())): return None
    ex = [inst(d0, e, ps) for e in d0.exprs]
    if len(ex) != n * n: return None
    return [[ex[i * n + j] for j in range(n)] for i in range(n)]

def _inv_hook(t):
    """(numerator, denominator) of an inverse-element atom"""
    if not z3.is_app(t): return None
    h = DECL.get(t.decl().name())
    if h is None or h[0].kind != 'INV': return None
    d, role = h
    n = int(round(len(d.exprs) ** 0.5))
    ex = [inst(d, e, t.children()) for e in d.exprs]
    m = [[ex[i * n + j] for j in range(n)] for i in range(n)]
    i, j = int(role[1]), int(role[2])
    return (toz(cofactor(m, j, i)), zr(det_expr(m)))
ring.INV_HOOK = _inv_hook

# ------------------------------------------------------------------ re-normalisation of nested operators
_RN = {}
def renorm(e):
    """rebuild SUM/ALL applications from their definitions (after substitutions)"""
    if isinstance(e, Cx): return Cx(renorm(e.re), renorm(e.im))
    if not is_z(e): return e
    h = _RN.get(e.get_id())
    if h is not None: return h[1]
    r = _renorm(e)
    _RN[e.get_id()] = (e, r)
    return r

def _renorm(e):
    if e.num_args() == 0 and e.decl().name() not in DECL: return e
    h = DECL.get(e.decl().name()) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    if h is not None and h[0].kind in ('SUM', 'ALL'):
        d, role = h
        ps = [renorm(c) for c in e.children()]
        n = inst(d, d.exprs[0], ps); n = conc(canon(renorm(n)))
        def f(j):
            return renorm(inst(d, d.exprs[1], ps, (zi(j),)))
        if d.kind == 'SUM': r = mk_sum(0, n, f)
        elif role == 'a': r = mk_all(n, f)
        else: return e
        r = toz(r)
        if r.sort() != e.sort(): r = z3.ToReal(r) if e.sort() == R else r
        return r
    if h is not None and h[0].kind == 'DEF':
        d = h[0]; nb = len(d.B); ps = e.children()
        return renorm(inst(d, d.exprs[0], ps[nb:], ps[:nb]))
    if e.num_args() == 0: return e
    ch = [renorm(c) for c in e.children()]
    if all(a.eq(b) for a, b in zip(ch, e.children())): return e
    return z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if not a.eq(b)])

# ------------------------------------------------------------------ axioms
_BA = {}
def binder_apps(e, acc=None):
    """applications of registered operators in e"""
    h = _BA.get(e.get_id())
    if h is None:
        # bottom-up, remembered per subterm
        stack = [e]
        while stack:
            x = stack[-1]; i = x.get_id()
            if i in _BA: stack.pop(); continue
            ch = x.children() if z3.is_app(x) or z3.is_quantifier(x) else []
            todo = [c for c in ch if c.get_id() not in _BA]
            if todo: stack.extend(todo); continue
            stack.pop(); out = {}
            if z3.is_app(x) and ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in DECL: out[i] = x
            elif not ch and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in DECL: out[i] = x
            for c in ch:
                for y in _BA[c.get_id()][1]: out[y.get_id()] = y
            _BA[i] = (x, tuple(out.values()))
        h = _BA[e.get_id()]
    if acc is None: return list(h[1])
    acc.extend(h[1]); return acc

_SAX = {}
def single_axioms(x):
    """facts about a single application (no further instantiation candidates)"""
    k = x.get_id()
    h = _SAX.get(k)
    if h is not None: return h[1]
    r = _single(x)
    _SAX[k] = (x, r)
    return r

def _single(x):
    d, role = DECL[x.decl().name()]
    ch = x.children()
    k = d.kind
    out = []
    if k == 'SUM':
        n = inst(d, d.exprs[0], ch)
        out.append(z3.Implies(n <= 0, x == 0))
        out.append(z3.Implies(n == 1, x == inst(d, d.exprs[1], ch, (0,))))
        if nonneg(d.exprs[1]): out.append(x >= 0)
    elif k == 'DEF':
        nb = len(d.B)
        out.append(x == inst(d, d.exprs[0], ch[nb:], ch[:nb]))
        if sum_of_squares(d.exprs[0]): out.append(x >= 0)
    elif k == 'ALL':
        n = inst(d, d.exprs[0], ch)
        a, w = app(d, 'a', (), ch), app(d, 'w', (), ch)
        out.append(z3.Or(a, z3.And(0 <= w, w < n, z3.Not(inst(d, d.exprs[1], ch, (w,))))))
    elif k in ('MAX', 'MIN'):
        n = inst(d, d.exprs[0], ch)
        m, w = app(d, 'm', (), ch), app(d, 'w', (), ch)
        out.append(z3.Implies(n > 0, z3.And(0 <= w, w < n, m == inst(d, d.exprs[1], ch, (w,)))))
    elif k == 'CAT':
        ps = ch[1:]; a = ch[0]
        n = inst(d, d.exprs[0], ps)
        T = app(d, 'off', (n,), ps)
        L = lambda j: inst(d, d.exprs[1], ps, (j,))
        off = lambda j: app(d, 'off', (j,), ps)
        dj = lambda i: app(d, 'dj', (i,), ps)
        out.append(off(z3.IntVal(0)) == 0)
        out.append(T >= 0)
        if role == 'dj':
            j = x
            out.append(z3.Implies(z3.And(0 <= a, a < T), z3.And(0 <= j, j < n, off(j) <= a, a < off(j) + L(j), L(j) >= 1, off(j) + L(j) <= T)))
        else:
            out.append(z3.Implies(z3.And(0 <= a, a <= n), z3.And(0 <= x, x <= T)))
            out.append(z3.Implies(z3.And(0 <= a, a < n), z3.And(x + L(a) <= T, L(a) >= 0,
                       z3.Implies(L(a) >= 1, dj(x) == a))))
    elif k == 'PERM':
        ps = ch[1:]; a = ch[0]
        n = inst(d, d.exprs[0], ps)
        other = app(d, 'q' if role == 'p' else 'p', (x,), ps)
        out.append(z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= x, x < n, other == a)))
    elif k == 'FST':
        n = inst(d, d.exprs[0], ch)
        out.append(z3.And(x >= 0, z3.Or(x <= n, x <= 0)))
        out.append(z3.Implies(x < n, inst(d, d.exprs[1], ch, (x,))))
    elif k == 'LW':
        nx = len(d.B) - 1
        m, xs, ps = ch[0], ch[1:1 + nx], ch[1 + nx:]
        out.append(z3.And(x >= -1, z3.Or(x < m, x == -1)))
        out.append(z3.Implies(x >= 0, inst(d, d.exprs[0], ps, [x] + xs)))
    elif k == 'INV':
        nn = int(round(len(d.exprs) ** 0.5))
        ex = [inst(d, e, ch) for e in d.exprs]
        A = [[ex[i * nn + j] for j in range(nn)] for i in range(nn)]
        X = [[app(d, 'x%d%d' % (i, j), (), ch) for j in range(nn)] for i in range(nn)]
        for i in range(nn):
            for j in range(nn):
                out.append(z3.Sum(*[A[i][q] * X[q][j] for q in range(nn)]) == (1 if i == j else 0))
                out.append(z3.Sum(*[X[i][q] * A[q][j] for q in range(nn)]) == (1 if i == j else 0))
    return [z3.simplify(o) if k not in ('INV', 'DEF') else o for o in out]

def sum_of_squares(e):
    return False

def nonneg(e):
    """syntactically nonnegative integer/real"""
    if z3.is_int_value(e) or z3.is_rational_value(e): return conc(e) >= 0
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE: return nonneg(e.arg(1)) and nonneg(e.arg(2))
    if z3.is_app(e) and e.decl().eq(SQRT): return True
    return False

def cheap_axioms(f, seen):
    out = []
    for x in binder_apps(f):
        d, role = DECL[x.decl().name()]
        if d.kind in ('INV', 'DEF'): continue
        if x.get_id() in seen: continue
        seen.add(x.get_id()); KEEP.append(x)
        for ax in single_axioms(x):
            out.append(ax)
    return out

_PAX = {}
def pair_axioms(x, y):
    """facts about two applications of the same operator with the same parameters"""
    key = (x.get_id(), y.get_id())
    h = _PAX.get(key)
    if h is not None: return h[1]
    r = _pair(x, y)
    _PAX[key] = ((x, y), r)
    return r

def _pair(x, y):
    d, role = DECL[x.decl().name()]
    cx_, cy = x.children(), y.children()
    if d.kind == 'CAT' and role == 'off':
        ps = cx_[1:]
        n = inst(d, d.exprs[0], ps)
        L = lambda j: inst(d, d.exprs[1], ps, (j,))
        a, b = cx_[0], cy[0]
        out = []
        for (u, v, fu, fv) in ((a, b, x, y), (b, a, y, x)):
            out.append(z3.Implies(z3.And(0 <= u, u < v, v <= n), fu + L(u) <= fv))
            out.append(z3.Implies(z3.And(0 <= u, v == u + 1, v <= n), fu + L(u) == fv))
        return out
    if d.kind == 'PERM' and role == 'p':
        ps = cx_[1:]
        n = inst(d, d.exprs[0], ps)
        a, b = cx_[0], cy[0]
        keys = lambda p: [inst(d, e, ps, (p,)) for e in d.exprs[1:]]
        out = []
        for (u, v, fu, fv) in ((a, b, x, y), (b, a, y, x)):
            ku, kv = keys(fu), keys(fv)
            le = ku[0] <= kv[0] if len(ku) == 1 else z3.Or(ku[0] < kv[0], z3.And(ku[0] == kv[0], ku[1] <= kv[1]))
            out.append(z3.Implies(z3.And(0 <= u, u < v, v < n), le))
        return out
    return []

def pair_group(x):
    d, role = DECL[x.decl().name()]
    if (d.kind, role) in (('CAT', 'off'), ('PERM', 'p')):
        return (d.id, tuple(c.get_id() for c in x.children()[1:]))
    return None

def index_axioms(x, cands):
    """instances of bounded-quantifier operators at candidate integer terms"""
    d, role = DECL[x.decl().name()]
    out = []
    ch = x.children()
    if d.kind == 'ALL' and role == 'a':
        n = inst(d, d.exprs[0], ch)
        for c in cands:
            out.append(z3.Or(z3.Not(x), c < 0, c >= n, inst(d, d.exprs[1], ch, (c,))))
    elif d.kind == 'FST':
        for c in cands:
            out.append(z3.Or(c < 0, c >= x, z3.Not(inst(d, d.exprs[1], ch, (c,)))))
    elif d.kind == 'LW':
        nx = len(d.B) - 1
        m, xs, ps = ch[0], ch[1:1 + nx], ch[1 + nx:]
        for c in cands:
            out.append(z3.Or(c < 0, c <= x, c >= m, z3.Not(inst(d, d.exprs[0], ps, [c] + xs))))
    elif d.kind in ('MAX', 'MIN') and role == 'm':
        n = inst(d, d.exprs[0], ch)
        for c in cands:
            v = inst(d, d.exprs[1], ch, (c,))
            out.append(z3.Or(c < 0, c >= n, v <= x if d.kind == 'MAX' else v >= x))
    return out
