"""Polynomial normal form over opaque atoms; canonical rebuild of z3 terms.

to_poly(e): dict monomial -> Fraction, a monomial being a sorted tuple of
(atom id, exponent).  Atoms are canonicalised z3 terms, kept alive in ATOMS.
"""
import z3
from fractions import Fraction
from .core import SQRT, COS, SIN, EXP, RND, is_z, toz, PI, Cx, NV, zr

ATOMS = {}            # id -> canonical z3 expr
_POLY = {}            # expr id -> (expr, poly)
_CANON = {}           # expr id -> (expr, canonical)
INVDEF = {}           # atom name of an inverse element -> function returning (num poly expr, det expr)

def atom(e):
    i = e.get_id()
    ATOMS[i] = e
    return {((i, 1),): Fraction(1)}

def p_const(c): return {(): Fraction(c)} if c else {}

def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r

def _mono_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))

MAXMONO = 60000
class TooBig(Exception): pass

def p_mul(a, b):
    if not a or not b: return {}
    if len(a) * len(b) > MAXMONO: raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    return reduce_sq(r)

def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}

def reduce_sq(p):
    """SQRT(x)^2 -> x ; SIN(x)^2 -> 1 - COS(x)^2 ; inverse element * ... left alone"""
    todo = [m for m in p if any(e >= 2 for _, e in m)]
    if not todo: return p
    out = None
    for m in todo:
        for a, e in m:
            if e >= 2:
                t = ATOMS[a]
                if z3.is_app(t) and t.num_args() == 1:
                    d = t.decl()
                    rep = None
                    if d.eq(SQRT): rep = to_poly(t.arg(0))
                    elif d.eq(SIN):
                        c = COS(t.arg(0)); rep = p_add(p_const(1), p_mul(atom(canon(c)), atom(canon(c))), -1)
                    if rep is not None:
                        if out is None: out = dict(p)
                        c = out.pop(m)
                        rest = tuple(sorted([(x, y) for x, y in m if x != a] + ([(a, e - 2)] if e > 2 else [])))
                        out = p_add(out, p_mul({rest: c}, rep))
                        break
    return out if out is not None else p

def is_int_poly(p):
    return all(c.denominator == 1 and all(ATOMS[a].is_int() for a, _ in m) for m, c in p.items())

def to_poly(e):
    if isinstance(e, bool): e = int(e)
    if isinstance(e, (int, Fraction)): return p_const(e)
    if isinstance(e, float): raise TooBig()
    i = e.get_id()
    h = _POLY.get(i)
    if h is not None: return h[1]
    r = _to_poly(e)
    _POLY[i] = (e, r)
    return r

def _to_poly(e):
    k = e.decl().kind()
    if z3.is_int_value(e): return p_const(e.as_long())
    if z3.is_rational_value(e): return p_const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in e.children(): r = p_add(r, to_poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        ch = e.children(); r = to_poly(ch[0])
        for c in ch[1:]: r = p_add(r, to_poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS: return p_scale(to_poly(e.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = p_const(1)
        for c in e.children(): r = p_mul(r, to_poly(c))
        return r
    if k == z3.Z3_OP_TO_REAL: return to_poly(e.arg(0))
    if k == z3.Z3_OP_DIV:
        n, d = to_poly(e.arg(0)), to_poly(e.arg(1))
        if len(d) == 1 and () in d: return p_scale(n, 1 / d[()])
        if not d: return atom(canon_app(e))
        if not n: return {}
        if len(d) == 1 and False: pass
        return p_mul(n, recip(d))
    if k == z3.Z3_OP_TO_INT:
        p = to_poly(e.arg(0))
        if is_int_poly(p): return p
        # split off the integral part
        ip = {m: c for m, c in p.items() if c.denominator == 1 and all(ATOMS[a].is_int() for a, _ in m)}
        fp = {m: c for m, c in p.items() if m not in ip}
        if () in fp:
            import math
            fl = math.floor(fp[()])
            if fl: 
                ip = p_add(ip, p_const(fl)); v = fp[()] - fl
                if v: fp[()] = v
                else: fp.pop(())
        if not fp or set(fp) == {()}: return ip
        return p_add(ip, atom(z3.ToInt(from_poly(fp, True))))
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and e.decl().eq(RND):
        p = to_poly(e.arg(0))
        if is_int_poly(p): return p
        if p and p[min(p.keys(), key=mono_key)] < 0:      # rounding half to even is odd
            return p_scale(atom(RND(from_poly(p_scale(p, -1), True))), -1)
        return atom(RND(from_poly(p, True)))
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and (e.decl().eq(COS) or e.decl().eq(SIN)):
        p = to_poly(e.arg(0))
        if not p: return p_const(1 if e.decl().eq(COS) else 0)
        q = p_scale(p, -1)
        s1, s2 = from_poly(p, True), from_poly(q, True)
        lead = min(p.keys(), key=lambda m: mono_key(m))
        if p[lead] < 0:
            a = atom(e.decl()(s2))
            return a if e.decl().eq(COS) else p_scale(a, -1)
        return atom(e.decl()(s1))
    if k == z3.Z3_OP_ITE:
        c = canon(e.arg(0))
        if z3.is_true(c): return to_poly(e.arg(1))
        if z3.is_false(c): return to_poly(e.arg(2))
        a, b = to_poly(e.arg(1)), to_poly(e.arg(2))
        if a == b: return a
    return atom(canon_app(e))

_KEY = {}
def atom_key(i):
    k = _KEY.get(i)
    if k is None:
        k = ATOMS[i].sexpr() if ATOMS[i].num_args() < 8 else ATOMS[i].sexpr()[:400]
        _KEY[i] = k
    return k
def mono_key(m): return (len(m), tuple((atom_key(a), e) for a, e in m))

_RECIP = {}
def recip(d):
    """1/d for a polynomial d: reciprocal of each factor atom"""
    if len(d) == 1:
        (m, c), = d.items()
        r = p_const(1 / c)
        for a, e in m:
            t = ATOMS[a]
            inv = atom(z3.RealVal(1) / (z3.ToReal(t) if t.is_int() else t))
            for _ in range(e): r = p_mul(r, inv)
        return r
    # normalise scale
    lead = min(d.keys(), key=mono_key)
    c = d[lead]
    dn = p_scale(d, 1 / c)
    t = from_poly(dn, True)
    return p_scale(atom(z3.RealVal(1) / t), 1 / c)

def canon_app(e):
    """canonicalise the arguments of an application"""
    if e.num_args() == 0: return e
    ch = [canon(c) for c in e.children()]
    if all(a.eq(b) for a, b in zip(ch, e.children())): return e
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE: 
        a, b = ch[1], ch[2]
        if a.sort() != b.sort(): a, b = zr(a), zr(b)
        if a.eq(b): return a
        return z3.If(ch[0], a, b)
    args = []
    for i, c in enumerate(ch):
        s = e.decl().domain(i) if k == z3.Z3_OP_UNINTERPRETED else e.arg(i).sort()
        if c.sort() != s:
            c = z3.ToReal(c) if s == z3.RealSort() else z3.ToInt(c)
        args.append(c)
    return e.decl()(*args)

def canon(e):
    if not is_z(e): return toz(e)
    i = e.get_id()
    h = _CANON.get(i)
    if h is not None: return h[1]
    if isinstance(e, z3.ArithRef):
        try:
            r = from_poly(to_poly(e), e.is_real())
        except TooBig:
            r = e
    elif isinstance(e, z3.BoolRef):
        r = canon_bool(e)
    else:
        r = canon_app(e) if e.num_args() else e
    _CANON[i] = (e, r)
    return r

CMP = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}
def canon_bool(e):
    k = e.decl().kind() if z3.is_app(e) else None
    if k in CMP or (k == z3.Z3_OP_EQ and isinstance(e.arg(0), z3.ArithRef)):
        try:
            d = p_add(to_poly(e.arg(0)), to_poly(e.arg(1)), -1)
        except TooBig:
            return e
        if not d or (len(d) == 1 and () in d):
            c = d.get((), Fraction(0))
            return z3.BoolVal({'<=': c <= 0, '<': c < 0, '>=': c >= 0, '>': c > 0, '==': c == 0}[CMP.get(k, '==')])
        isint = all(all(ATOMS[a].is_int() for a, _ in m) for m in d)
        if isint:
            L = 1
            for c in d.values(): L = L * c.denominator // __import__('math').gcd(L, c.denominator)
            g = 0
            for m, c in d.items():
                if m: g = __import__('math').gcd(g, int(c * L))
            d = p_scale(d, Fraction(L, g or 1))
        const = d.pop((), Fraction(0))
        # lhs - rhs  op 0   with sign normalised so that leading coefficient positive
        lead = min(d.keys(), key=mono_key)
        op = CMP.get(k, '==')
        if d[lead] < 0:
            d = p_scale(d, -1); const = -const
            op = {'<=': '>=', '<': '>', '>=': '<=', '>': '<', '==': '=='}[op]
        s = from_poly(d, not isint); c = -const
        if isint:
            import math
            if op == '<': op, c = '<=', math.ceil(c) - 1
            elif op == '>': op, c = '>=', math.floor(c) + 1
            elif op == '<=': c = math.floor(c)
            elif op == '>=': c = math.ceil(c)
            elif c.denominator != 1: return z3.BoolVal(False)
            c = z3.IntVal(int(c))
        else:
            g = d[lead]; s = from_poly(p_scale(d, 1 / g), True); c = z3.Q((c / g).numerator, (c / g).denominator)
        return {'<=': s <= c, '<': z3.Not(s >= c), '>=': s >= c, '>': z3.Not(s <= c), '==': s == c}[op]
    if k == z3.Z3_OP_NOT:
        c = canon(e.arg(0))
        if z3.is_true(c): return z3.BoolVal(False)
        if z3.is_false(c): return z3.BoolVal(True)
        if c.decl().kind() == z3.Z3_OP_NOT: return c.arg(0)
        return z3.Not(c)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        out = []
        neutral = z3.is_true if k == z3.Z3_OP_AND else z3.is_false
        zero = z3.is_false if k == z3.Z3_OP_AND else z3.is_true
        for c in e.children():
            c = canon(c)
            if zero(c): return c
            if neutral(c) or any(c.eq(o) for o in out): continue
            out.append(c)
        if not out: return z3.BoolVal(k == z3.Z3_OP_AND)
        if len(out) == 1: return out[0]
        return z3.And(*out) if k == z3.Z3_OP_AND else z3.Or(*out)
    if k == z3.Z3_OP_IMPLIES:
        return canon(z3.Or(z3.Not(e.arg(0)), e.arg(1)))
    if k == z3.Z3_OP_ITE:
        c = canon(e.arg(0))
        if z3.is_true(c): return canon(e.arg(1))
        if z3.is_false(c): return canon(e.arg(2))
        return z3.If(c, canon(e.arg(1)), canon(e.arg(2)))
    if z3.is_app(e) and e.num_args(): return canon_app(e)
    return e

def from_poly(p, real=None):
    if not p: return z3.RealVal(0) if real else z3.IntVal(0)
    isint = all(c.denominator == 1 and all(ATOMS[a].is_int() for a, _ in m) for m, c in p.items())
    if real is None: real = not isint
    terms = []
    for m in sorted(p, key=mono_key):
        c = p[m]
        fs = []
        for a, e in m:
            t = ATOMS[a]
            if real and t.is_int(): t = z3.ToReal(t)
            fs += [t] * e
        cz = z3.Q(c.numerator, c.denominator) if real else z3.IntVal(int(c))
        if not fs: terms.append(cz)
        else:
            t = fs[0] if len(fs) == 1 else z3.Product(*fs)
            terms.append(t if c == 1 else cz * t)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)

def norm(e):
    """canonical scalar (python number when constant)"""
    if isinstance(e, Cx): return Cx(norm(e.re), norm(e.im))
    if isinstance(e, NV): return NV(norm(e.val), norm(e.nan))
    if not is_z(e): return e
    c = canon(e)
    from .core import conc
    return conc(c)

def ring_zero(e):
    """True when the polynomial normal form of e vanishes"""
    try:
        p = to_poly(e)
    except TooBig:
        return False
    if not p: return True
    if expand_inverse_used(p):
        try:
            return not clear_inverses(p)
        except TooBig:
            return False
    return False

# ---- inverse matrix elements: atom -> (cofactor expr, det expr)
INV_HOOK = None
class _Inv:
    """atom id -> (num expr, det expr), looked up through the operator registry"""
    def __init__(self): self.c = {}
    def __contains__(self, a):
        if a not in self.c:
            self.c[a] = INV_HOOK(ATOMS[a]) if INV_HOOK else None
        return self.c[a] is not None
    def __getitem__(self, a): return self.c[a]
INV = _Inv()
def expand_inverse_used(p):
    return any(a in INV or is_recip(ATOMS[a]) for m in p for a, _ in m)

def is_recip(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(0))

def clear_inverses(p, depth=0):
    """multiply p by the determinants / denominators until no inverse atom is left (they are nonzero)"""
    if depth > 6: raise TooBig()
    # choose an atom group (by determinant)
    dens = {}
    for m in p:
        for a, e in m:
            t = ATOMS[a]
            if a in INV: d = INV[a][1]
            elif is_recip(t): d = t.arg(1)
            else: continue
            d = canon(d)
            dens[d.get_id()] = d
    if not dens: return p
    # choose a denominator that does not occur inside others' numerators: just take them in turn
    did, d = sorted(dens.items())[-1]
    dp = to_poly(d)
    groups = {}
    for m, c in p.items():
        rest, k, num = [], 0, p_const(c)
        for a, e in m:
            t = ATOMS[a]
            if a in INV and canon(INV[a][1]).get_id() == did:
                n = to_poly(INV[a][0])
                for _ in range(e): num = p_mul(num, n)
                k += e
            elif is_recip(t) and canon(t.arg(1)).get_id() == did:
                k += e
            else: rest.append((a, e))
        num = p_mul(num, {tuple(rest): Fraction(1)})
        groups[k] = p_add(groups.get(k, {}), num)
    K = max(groups)
    tot = {}
    dpow = p_const(1)
    pows = [dpow]
    for _ in range(K): dpow = p_mul(dpow, dp); pows.append(dpow)
    for k, g in groups.items(): tot = p_add(tot, p_mul(g, pows[K - k]))
    if not tot: return tot
    return clear_inverses(tot, depth + 1)
