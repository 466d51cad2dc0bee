"""Core of the verifier: scalar values, path exploration, uninterpreted operators.

Machine integers and IEEE doubles are treated as mathematical integers and reals
(stated assumption).  Scalars are: python int / Fraction / bool (concrete), z3
Int/Real/Bool expressions (symbolic), Cx (pair of reals), NV (real that may be NaN).
"""
import z3, itertools
from fractions import Fraction

class Unsupported(Exception):
    """Construct outside the verified subset (never mapped to a violation)."""

class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, exc): self.exc = exc; super().__init__(str(exc))

class Infeasible(Exception):
    pass

class ExcVal:
    def __init__(self, names, args=()):
        self.names = list(names)      # class name followed by base names
        self.args = args
    def __repr__(self): return "%s%r" % (self.names[0], tuple(str(a)[:60] for a in self.args))

EXC_BASES = {}
def _fill():
    import builtins
    for n in dir(builtins):
        o = getattr(builtins, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            EXC_BASES[n] = [c.__name__ for c in o.__mro__ if issubclass(c, BaseException)]
_fill()
EXC_BASES['LinAlgError'] = ['LinAlgError', 'ValueError', 'Exception', 'BaseException']

def py_raise(name, *args):
    raise PyRaise(ExcVal(EXC_BASES.get(name, [name, 'Exception', 'BaseException']), args))

INF = float('inf')
NAN = float('nan')

class Cx:
    __slots__ = ('re', 'im')
    def __init__(self, re, im): self.re, self.im = re, im
    def __repr__(self): return "Cx(%s, %s)" % (self.re, self.im)

class NV:
    """real value that is NaN when `nan` holds"""
    __slots__ = ('val', 'nan')
    def __init__(self, val, nan): self.val, self.nan = val, nan
    def __repr__(self): return "NV(%s, %s)" % (self.val, self.nan)

PI = z3.Real('PI')

# --------------------------------------------------------------- number helpers
def is_z(x): return isinstance(x, z3.ExprRef)
def is_zb(x): return isinstance(x, z3.BoolRef)
def is_num(x): return isinstance(x, (bool, int, Fraction)) or (isinstance(x, float))
def is_scalar(x): return is_num(x) or is_z(x) or isinstance(x, (Cx, NV))
def is_int_sort(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ArithRef) and x.is_int())
def is_real_sort(x):
    return isinstance(x, (Fraction, float)) or (isinstance(x, z3.ArithRef) and x.is_real())
def is_bool_sort(x): return isinstance(x, (bool, z3.BoolRef))

def lit(x):
    """float literal -> exact decimal fraction"""
    if isinstance(x, float):
        if x != x or x in (INF, -INF): return x
        return Fraction(repr(x))
    if isinstance(x, complex):
        return Cx(lit(x.real), lit(x.imag))
    return x

def norm_num(x):
    if isinstance(x, Fraction) and x.denominator == 1 and False: return int(x)
    return x

def zr(x):
    """to z3 Real"""
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, Fraction): return z3.Q(x.numerator, x.denominator)
    if isinstance(x, float):
        f = lit(x)
        if isinstance(f, float): raise Unsupported("inf/nan in symbolic arithmetic")
        return zr(f)
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ArithRef): return z3.ToReal(x) if x.is_int() else x
    if isinstance(x, NV): raise Unsupported("possibly-NaN value in plain arithmetic")
    raise Unsupported("not a real scalar: %r" % type(x))

def zi(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction):
        if x.denominator == 1: return z3.IntVal(int(x))
        raise Unsupported("non-integer used as integer")
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        if x.is_int(): return x
        if x.decl().kind() == z3.Z3_OP_TO_REAL: return x.arg(0)
        return z3.ToInt(x)
    raise Unsupported("not an int scalar: %r" % (x,))

def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef): return x
    if isinstance(x, (int, Fraction)): return z3.BoolVal(x != 0)
    if isinstance(x, z3.ArithRef): return x != 0
    raise Unsupported("not a bool scalar: %r" % (x,))

def toz(x):
    if is_z(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return zr(x)

def conc(x):
    """z3 numeral -> python number when possible"""
    if isinstance(x, z3.ExprRef):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x

def simp(x):
    if isinstance(x, z3.ExprRef): return conc(z3.simplify(x))
    return x

def unbool(a):
    return int(a) if isinstance(a, bool) else a

def s_add(a, b):
    a, b = unbool(a), unbool(b)
    if is_num(a) and is_num(b): return lit(a + b) if isinstance(a + b, float) else a + b
    if isinstance(a, float) and a in (INF, -INF) or a != a if isinstance(a, float) else False: return a
    if isinstance(b, float) and b in (INF, -INF) or b != b if isinstance(b, float) else False: return b
    if isinstance(a, NV) or isinstance(b, NV): return nv2(s_add, a, b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b); return Cx(s_add(a.re, b.re), s_add(a.im, b.im))
    if is_num(a) and a == 0: return b if is_int_sort(a) or is_real_sort(b) else zr(b)
    if is_num(b) and b == 0: return a if is_int_sort(b) or is_real_sort(a) else zr(a)
    if is_bool_sort(a): a = zi(a)
    if is_bool_sort(b): b = zi(b)
    if is_int_sort(a) and is_int_sort(b): return conc_cheap(zi(a) + zi(b))
    return conc_cheap(zr(a) + zr(b))

def conc_cheap(e):
    return e

def s_neg(a):
    a = unbool(a)
    if is_num(a): return -a
    if isinstance(a, Cx): return Cx(s_neg(a.re), s_neg(a.im))
    if isinstance(a, NV): return NV(s_neg(a.val), a.nan)
    if is_bool_sort(a): a = zi(a)
    return -a

def s_sub(a, b):
    a, b = unbool(a), unbool(b)
    if is_num(a) and is_num(b): return lit(a - b) if isinstance(a - b, float) else a - b
    if isinstance(a, float): return a
    if isinstance(b, float): return -b
    if isinstance(a, NV) or isinstance(b, NV): return nv2(s_sub, a, b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b); return Cx(s_sub(a.re, b.re), s_sub(a.im, b.im))
    if is_num(b) and b == 0: return a if is_int_sort(b) or is_real_sort(a) else zr(a)
    if is_bool_sort(a): a = zi(a)
    if is_bool_sort(b): b = zi(b)
    if is_int_sort(a) and is_int_sort(b):
        if is_z(a) and is_z(b) and a.eq(b): return 0
        return zi(a) - zi(b)
    return zr(a) - zr(b)

def s_mul(a, b):
    a, b = unbool(a), unbool(b)
    if is_num(a) and is_num(b): return lit(a * b) if isinstance(a * b, float) else a * b
    if isinstance(a, NV) or isinstance(b, NV): return nv2(s_mul, a, b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        if isinstance(a, Cx) and not isinstance(b, Cx): return Cx(s_mul(a.re, b), s_mul(a.im, b))
        if isinstance(b, Cx) and not isinstance(a, Cx): return Cx(s_mul(a, b.re), s_mul(a, b.im))
        return Cx(s_sub(s_mul(a.re, b.re), s_mul(a.im, b.im)), s_add(s_mul(a.re, b.im), s_mul(a.im, b.re)))
    for p, q in ((a, b), (b, a)):
        if is_num(p):
            if p == 0: return 0 if is_int_sort(p) and is_int_sort(q) else Fraction(0)
            if p == 1 and (is_int_sort(p) or is_real_sort(q)): return q if not is_bool_sort(q) else zi(q)
            if p == 1: return zr(q)
    if is_bool_sort(a): a = zi(a)
    if is_bool_sort(b): b = zi(b)
    if is_int_sort(a) and is_int_sort(b): return zi(a) * zi(b)
    return zr(a) * zr(b)

def s_div(a, b):
    a, b = unbool(a), unbool(b)
    if isinstance(a, float) or isinstance(b, float):
        if is_num(a) and is_num(b):
            if b in (INF, -INF) and not isinstance(a, float): return Fraction(0)
            return a / b if not isinstance(b, Fraction) else float(a) / float(b)
        if isinstance(b, float) and b in (INF, -INF): return Fraction(0)
        raise Unsupported("inf in division")
    if is_num(a) and is_num(b):
        if b == 0: py_raise('ZeroDivisionError', 'division by zero')
        return Fraction(a) / Fraction(b)
    if isinstance(a, NV) or isinstance(b, NV): return nv2(s_div, a, b)
    if isinstance(b, Cx):
        a = cx(a)
        den = s_add(s_mul(b.re, b.re), s_mul(b.im, b.im))
        num = s_mul(a, Cx(b.re, s_neg(b.im)))
        return Cx(s_div(num.re, den), s_div(num.im, den))
    if isinstance(a, Cx): return Cx(s_div(a.re, b), s_div(a.im, b))
    if is_num(b): return s_mul(a, Fraction(1) / Fraction(b))
    if is_num(a) and a == 0: return Fraction(0)
    return zr(a) / zr(b)

def s_floor(a):
    """floor of a real scalar -> int"""
    a = unbool(a)
    if is_num(a):
        import math; return math.floor(a)
    if is_int_sort(a): return a
    return z3.ToInt(zr(a))

def s_mod(a, b):
    a, b = unbool(a), unbool(b)
    if is_num(a) and is_num(b):
        if b == 0: py_raise('ZeroDivisionError', 'modulo by zero')
        return a % b
    if isinstance(a, NV): return NV(s_mod(a.val, b), a.nan)
    if is_int_sort(a) and is_int_sort(b):
        a, b = zi(a), zi(b)
        if z3.is_int_value(b) and b.as_long() > 0: return a % b
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    q = s_div(a, b)
    return s_sub(a, s_mul(b, zr(s_floor(q))))

def s_floordiv(a, b):
    a, b = unbool(a), unbool(b)
    if is_num(a) and is_num(b):
        if b == 0: py_raise('ZeroDivisionError', 'division by zero')
        return a // b
    if is_int_sort(a) and is_int_sort(b):
        a, b = zi(a), zi(b)
        if z3.is_int_value(b) and b.as_long() > 0: return a / b
        return z3.If(b > 0, a / b, (-a) / (-b))
    return zr(s_floor(s_div(a, b)))

SQRT = z3.Function('SQRT', z3.RealSort(), z3.RealSort())
COS = z3.Function('COS', z3.RealSort(), z3.RealSort())
SIN = z3.Function('SIN', z3.RealSort(), z3.RealSort())
EXP = z3.Function('EXP', z3.RealSort(), z3.RealSort())
ATAN2 = z3.Function('ATAN2', z3.RealSort(), z3.RealSort(), z3.RealSort())

def s_sqrt(a):
    if is_num(a):
        import math
        f = Fraction(a)
        if f < 0: return NAN
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator: return Fraction(n, d)
    if isinstance(a, Cx): raise Unsupported("complex sqrt")
    return SQRT(zr(a))

def s_pow(a, b):
    if is_z(b): b = simp(b)
    if isinstance(b, Fraction) and b.denominator == 1: b = int(b)
    if isinstance(b, int) and not isinstance(b, bool):
        if is_num(a): return Fraction(a) ** b if b < 0 else a ** b
        if b == 0: return 1
        if is_z(a) and b == 2 and a.decl().eq(SQRT): return a.arg(0)
        if is_z(a) and b == 2 and a.decl().kind() == z3.Z3_OP_ITE and False: pass
        r = a
        for _ in range(abs(b) - 1): r = s_mul(r, a)
        return r if b > 0 else s_div(1, r)
    if b == Fraction(1, 2): return s_sqrt(a)
    if is_num(a) and is_z(b) and a == -1:
        return z3.If(zi(b) % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
    if is_num(a) and is_int_sort(b):
        f = z3.Function('POW_%s' % Fraction(a), z3.IntSort(), z3.RealSort())
        return f(zi(b))
    raise Unsupported("power")

def s_abs(a):
    a = unbool(a)
    if is_num(a): return abs(a)
    if isinstance(a, Cx): 
        if is_num(a.im) and a.im == 0: return s_abs(a.re)
        return s_sqrt(s_add(s_mul(a.re, a.re), s_mul(a.im, a.im)))
    if isinstance(a, NV): return NV(s_abs(a.val), a.nan)
    return z3.If(a >= 0, a, -a)

def cx(a):
    if isinstance(a, Cx): return a
    return Cx(a, Fraction(0))

def s_conj(a):
    if isinstance(a, Cx): return Cx(a.re, s_neg(a.im))
    return a

def s_re(a): return a.re if isinstance(a, Cx) else a
def s_im(a): return a.im if isinstance(a, Cx) else (0 if is_int_sort(a) else Fraction(0))

def nv2(op, a, b):
    an = a.nan if isinstance(a, NV) else False
    bn = b.nan if isinstance(b, NV) else False
    av = a.val if isinstance(a, NV) else a
    bv = b.val if isinstance(b, NV) else b
    return NV(op(av, bv), s_or(an, bn))

def s_exp(a):
    if isinstance(a, Cx):
        re, im = simp(a.re), a.im
        m = 1 if is_num(re) and re == 0 else s_exp(re)
        if is_num(im) and im == 0: return m
        im = poly(im)
        if is_num(im) and im == 0: return m
        c = Cx(COS(zr(im)), SIN(zr(im)))
        return s_mul(m, c) if m != 1 else c
    if is_num(a):
        if a == 0: return Fraction(1)
    return EXP(zr(a))

def poly(e):
    """polynomial normal form"""
    if not is_z(e): return e
    return conc(z3.simplify(e, som=True, push_to_real=True))

def s_not(a):
    if isinstance(a, bool): return not a
    return z3.Not(zb(a))

def s_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, (int, Fraction)) and not is_z(x):
            if not x: return False
            continue
        out.append(zb(x))
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def s_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (int, Fraction)) and not is_z(x):
            if x: return True
            continue
        out.append(zb(x))
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def s_implies(a, b): return s_or(s_not(a), b)

def s_cmp(op, a, b):
    """op in == != < <= > >="""
    a, b = unbool(a), unbool(b)
    if is_num(a) and is_num(b):
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinstance(a, NV) or isinstance(b, NV):
        an = a.nan if isinstance(a, NV) else False
        bn = b.nan if isinstance(b, NV) else False
        av = a.val if isinstance(a, NV) else a
        bv = b.val if isinstance(b, NV) else b
        r = s_cmp(op, av, bv)
        ok = s_not(s_or(an, bn))
        return s_or(s_not(ok), r) if op == '!=' else s_and(ok, r)
    if isinstance(a, float) or isinstance(b, float):      # inf / nan against a finite symbolic number
        f, flip = (a, False) if isinstance(a, float) else (b, True)
        if f != f: return op == '!='
        if op in ('==', '!='): return op == '!='
        big = (f > 0)
        if not flip: return {'<': not big, '<=': not big, '>': big, '>=': big}[op]
        return {'<': big, '<=': big, '>': not big, '>=': not big}[op]
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        if op == '==': return s_and(s_cmp('==', a.re, b.re), s_cmp('==', a.im, b.im))
        if op == '!=': return s_or(s_cmp('!=', a.re, b.re), s_cmp('!=', a.im, b.im))
        # numpy orders complex numbers lexicographically
        strict = {'<': '<', '<=': '<', '>': '>', '>=': '>'}[op]
        return s_or(s_cmp(strict, a.re, b.re), s_and(s_cmp('==', a.re, b.re), s_cmp(op, a.im, b.im)))
    if is_num(a) and is_z(b) and z3.is_app(b) and b.decl().eq(SQRT): a, b, op = b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
    if is_num(b) and is_z(a) and z3.is_app(a) and a.decl().eq(SQRT):      # a square root (of a non-negative number) against a constant
        c = Fraction(b)
        if c >= 0: return s_cmp(op, a.arg(0), c * c)
        return op in ('!=', '>', '>=')
    if is_bool_sort(a) and is_bool_sort(b) and op in ('==', '!='):
        e = zb(a) == zb(b)
        return e if op == '==' else z3.Not(e)
    if is_bool_sort(a): a = zi(a)
    if is_bool_sort(b): b = zi(b)
    if is_int_sort(a) and is_int_sort(b): a, b = zi(a), zi(b)
    else: a, b = zr(a), zr(b)
    return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

def s_ite(c, a, b):
    """generic scalar if-then-else"""
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if is_num(a) and is_num(b) and type(a) == type(b) and a == b: return a
    if isinstance(a, NV) or isinstance(b, NV):
        fa, fb = to_nv(a), to_nv(b)
        return NV(s_ite(c, fa.val, fb.val), s_ite(c, fa.nan, fb.nan))
    if isinstance(a, float) and a != a: return NV(b, c)
    if isinstance(b, float) and b != b: return NV(a, s_not(c))
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b); return Cx(s_ite(c, a.re, b.re), s_ite(c, a.im, b.im))
    if is_bool_sort(a) and is_bool_sort(b): return z3.If(c, zb(a), zb(b))
    if is_scalar(a) and is_scalar(b):
        if is_bool_sort(a): a = zi(a)
        if is_bool_sort(b): b = zi(b)
        if is_int_sort(a) and is_int_sort(b): a, b = zi(a), zi(b)
        else: a, b = zr(a), zr(b)
        if a.eq(b): return a
        return z3.If(c, a, b)
    raise Unsupported("cannot merge values %r / %r" % (type(a), type(b)))

def to_nv(a):
    if isinstance(a, NV): return a
    if isinstance(a, float) and a != a: return NV(Fraction(0), True)
    return NV(a, False)

def s_min(a, b):   # python/numpy min(a,b): a unless b<a
    if is_num(a) and is_num(b): return min(a, b)
    return s_ite2(s_cmp('<', b, a), b, a)
def s_max(a, b):
    if is_num(a) and is_num(b): return max(a, b)
    return s_ite2(s_cmp('>', b, a), b, a)
def s_ite2(c, a, b):
    return s_ite(c, a, b)

RND = z3.Function('RNDEVEN', z3.RealSort(), z3.IntSort())
def s_round_int(a):
    """nearest integer (ties as the runtime does) as an int"""
    a = unbool(a)
    if is_num(a): return round(Fraction(a)) if not isinstance(a, float) else round(a)
    if is_int_sort(a): return a
    a = poly(a)
    if is_num(a): return round(Fraction(a))
    return RND(zr(a))

def s_trunc(a):
    a = unbool(a)
    if is_num(a): return int(a)
    if isinstance(a, Cx): raise Unsupported("int of complex")
    if is_int_sort(a): return a
    if a.decl().kind() == z3.Z3_OP_TO_REAL: return a.arg(0)
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))

# --------------------------------------------------------------- term utilities
_fv_cache = {}
def free_consts(e):
    """set of (id -> expr) of uninterpreted constants in e"""
    out = {}
    stack = [e]; seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        elif z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return out

def uf_apps(e, acc=None):
    """all applications of uninterpreted functions of arity>0 in e: list"""
    out = {} if acc is None else acc
    stack = [e]; seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = x
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out

def subst_expr(e, pairs):
    """simultaneous substitution [(const, expr)] in a python/z3 scalar"""
    if isinstance(e, Cx): return Cx(subst_expr(e.re, pairs), subst_expr(e.im, pairs))
    if isinstance(e, NV): return NV(subst_expr(e.val, pairs), subst_expr(e.nan, pairs))
    if not is_z(e): return e
    ps = [(a, toz(b) if not (a.sort() == z3.RealSort()) else zr(b)) for a, b in pairs]
    return z3.substitute(e, *ps)
