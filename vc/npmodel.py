"""numpy / builtins namespace of the interpreted program (trusted models)."""
import ast, string, z3
from .core import *
from . import ring
from .binders import *
from .arr import *
from . import arr as A
from .values import *
from .ctx import *

USED = {}      # trusted library functions met during the run
def use(n): USED[n] = USED.get(n, 0) + 1

def B(name, fn):
    def g(ip, args, kw):
        use(name)
        return fn(ip, *args, **kw)
    return Builtin(name, g)

def dt_kind(ip, d):
    if d is None: return None
    if isinstance(d, Builtin): n = d.name
    elif isinstance(d, TypeVal): n = d.name
    elif isinstance(d, str): n = d
    elif isinstance(d, ModuleVal): n = d.name
    else: raise Unsupported("dtype %r" % (d,))
    n = n.split('.')[-1]
    if n.startswith('int') or n.startswith('uint') or n in ('i', 'i4', 'i8'): return 'i'
    if n.startswith('float') or n in ('double', 'f', 'f8', 'd'): return 'f'
    if n.startswith('complex'): return 'c'
    if n.startswith('bool'): return 'b'
    if n == 'object': return None
    raise Unsupported("dtype " + n)

def arg(ip, x):
    """array-like argument"""
    if isinstance(x, Arr): return x
    if isinstance(x, Opt): return arg(ip, ip.unopt(x))
    if isinstance(x, PList): return x.to_arr()
    if is_scalar(x): return asarr(x)
    if isinstance(x, (tuple, list)): return asarr(tuple(arg(ip, y) for y in x)) if x else asarr(PList())
    if x is None: py_raise('TypeError', 'None as array')
    from .interp import IterV
    if isinstance(x, RangeV):
        p = ip.to_plist(x); return p.to_arr()
    if isinstance(x, (IterV, PDict, PSet)): raise Unsupported("array of %r" % (x,))
    if isinstance(x, str): raise Unsupported("array of text")
    raise Unsupported("array from %r" % (x,))

def shape_arg(ip, s):
    if isinstance(s, (tuple, PList)):
        it = ip.iter_concrete(s)
        return tuple(dim(unwrap(x)) for x in it)
    if isinstance(s, Arr): return tuple(dim(s.get((i,))) for i in range(s.shape[0]))
    return (dim(s),)

def mk(kind_default, val):
    def f(ip, shape, dtype=None, order=None):
        k = dt_kind(ip, dtype) or kind_default
        sh = shape_arg(ip, shape)
        for d in sh:
            if is_z(d): cur().safety("nonnegative dimension", d >= 0)
            elif d < 0: py_raise('ValueError', 'negative dimensions are not allowed')
        return const_arr(sh, k, val)
    return f

def np_array(ip, x, dtype=None, copy=None, ndmin=0):
    if isinstance(x, PList):
        it = x.concrete()
        if it is not None and it and all(isinstance(v, str) for v in it):
            k = dt_kind(ip, dtype)
            if k is None: raise Unsupported("array of text")
            return from_nested([num_of_str(v, k) for v in it], k)
        if it is not None and it and all(isinstance(v, (str, SStr)) for v in it):
            k = dt_kind(ip, dtype)
            if k not in ('i', 'f'): raise Unsupported("array of text")
            return from_nested([num_of_str(v, k) if isinstance(v, str) else sstr_number(v, k) for v in it], k)
    if isinstance(x, (str, SStr)):
        raise Unsupported("array of text")
    a = arg(ip, x)
    k = dt_kind(ip, dtype)
    rd = a.frozen()
    r = Arr(a.shape, a.kind, rd)
    if k and k != a.kind: r = astype(r, k)
    return r

def num_of_str(v, k):
    if k == 'i':
        try: return int(v)
        except ValueError: py_raise('ValueError', 'invalid literal for int()')
    try: return lit(float(v)) if 'e' not in v.lower() and 'n' not in v.lower() else lit(float(v))
    except ValueError: py_raise('ValueError', 'could not convert string to float')

def np_eye(ip, n, dtype=None, M=None):
    k = dt_kind(ip, dtype) or 'f'
    n = dim(unwrap(n) if isinstance(n, Arr) else n)
    one, zero = (1, 0) if k == 'i' else (Fraction(1), Fraction(0))
    return Arr((n, n), k, lambda idx: coerce(s_ite(simp_bool(s_cmp('==', idx[0], idx[1])), one, zero), k))

def np_full(ip, shape, v, dtype=None):
    v = unwrap(arg(ip, v)); k = dt_kind(ip, dtype) or kind_of(v)
    return const_arr(shape_arg(ip, shape), k, v)

def like(kind, val):
    def f(ip, a, dtype=None):
        a = arg(ip, a); k = dt_kind(ip, dtype) or a.kind
        return const_arr(a.shape, k, val)
    return f

def un(fn, kind=None):
    def f(ip, x, dtype=None, out=None, where=None):
        if out is not None or where is not None: raise Unsupported("ufunc out/where")
        return ew(fn, arg(ip, x), kind=kind)
    return f
def bi(fn, kind=None):
    def f(ip, x, y, dtype=None): return ew(fn, arg(ip, x), arg(ip, y), kind=kind)
    return f

def f_exp(x): return s_exp(x)
def f_sqrt(x):
    return s_sqrt(x)
def f_div(x, y):
    return s_div(x, y)
def f_isnan(x):
    if isinstance(x, NV): return x.nan
    if isinstance(x, float): return x != x
    return False
def f_isinf(x):
    if isinstance(x, float): return x in (INF, -INF)
    return False
def f_cos(x):
    x = poly(x) if is_z(x) else x
    return Fraction(1) if is_num(x) and x == 0 else COS(zr(x))
def f_sin(x):
    x = poly(x) if is_z(x) else x
    return Fraction(0) if is_num(x) and x == 0 else SIN(zr(x))

def np_where(ip, c, a=None, b=None):
    c = arg(ip, c)
    if a is None:
        if c.ndim != 1: raise Unsupported("where on n-d")
        return (mask_to_index(astype(c, 'b')),)
    return A.where(c, arg(ip, a), arg(ip, b))

def np_dot(ip, a, b): return A.dot(arg(ip, a), arg(ip, b))
def np_einsum(ip, spec, *ops, optimize=None):
    if not isinstance(spec, str): raise Unsupported("einsum without subscripts")
    return A.einsum(spec, *[arg(ip, o) for o in ops])
def seqarg(ip, xs):
    it = ip.iter_concrete(xs)
    if it is None: return None
    return [arg(ip, x) for x in it]
def np_hstack(ip, xs):
    s = seqarg(ip, xs)
    if s is None: return cat_sym(ip, xs)
    return A.hstack(s)
def cat_sym(ip, xs):
    """concatenation of a symbolic number of arrays along axis 0"""
    n, fn0 = ip.sym_iter(xs)
    def fn(j):
        old = MERGE_DIMS[0]; MERGE_DIMS[0] = True
        try: return fn0(j)
        finally: MERGE_DIMS[0] = old
    g = cur().generic('h')
    p = arg(ip, fn(g))
    if p.ndim != 1: raise Unsupported("concatenation of symbolically many arrays")
    c = Concat(n, lambda j: arg(ip, fn(j)).shape[0])
    return Arr((c.T,), p.kind, lambda idx: arg(ip, fn(simpl(c.seg(idx[0])))).get((simpl(c.local(idx[0])),)))
def np_vstack(ip, xs):
    s = seqarg(ip, xs)
    if s is None: raise Unsupported("vstack of symbolic sequence")
    return A.vstack(s)
def np_concatenate(ip, xs, axis=0):
    s = seqarg(ip, xs)
    if s is None: return cat_sym(ip, xs)
    return A.concatenate(s, axis)
def np_stack(ip, xs, axis=0):
    s = seqarg(ip, xs)
    if s is None: return arg(ip, xs)
    return A.stack(s, axis)
def red(f):
    def g(ip, a, axis=None, dtype=None, keepdims=False, **kw):
        if kw or keepdims is not False: raise Unsupported("reduction keyword")
        return f(arg(ip, a), axis)
    return g
def np_round(ip, a, decimals=0): return A.a_round(arg(ip, a), decimals)
def np_allclose(ip, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8)): return simp_bool(A.allclose(arg(ip, a), arg(ip, b), rtol=rtol, atol=atol))
def np_isclose(ip, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8)): return A.isclose(arg(ip, a), arg(ip, b), rtol=rtol, atol=atol)
def np_roll(ip, a, shift, axis=None):
    a = arg(ip, a)
    if a.ndim == 1: return A.roll(a, shift)
    if axis is None: raise Unsupported("roll flattened")
    ax = norm_axis(axis, a.ndim); rd = a.frozen(); n = a.shape[ax]
    return Arr(a.shape, a.kind, lambda idx: rd(idx[:ax] + (simpl(s_mod(s_sub(idx[ax], shift), n)),) + idx[ax + 1:]))
def np_transpose(ip, a, axes=None): return A.transpose(arg(ip, a), tuple(axes) if axes is not None else None)
def np_norm(ip, a, ord=None, axis=None):
    if ord is not None: raise Unsupported("norm ord")
    return A.norm(arg(ip, a), axis)
def np_arange(ip, *args, dtype=None):
    r = A.arange(*[unwrap(x) if isinstance(x, Arr) else x for x in args])
    k = dt_kind(ip, dtype)
    return astype(r, k) if k and k != r.kind else r
def np_diff(ip, a, n=1, axis=-1):
    a = arg(ip, a)
    if a.ndim != 1 or n != 1: raise Unsupported("diff")
    return ew(s_sub, A.getitem(a, SliceV(1, None, None)), A.getitem(a, SliceV(None, -1, None)))
def np_nonzero(ip, c): return np_where(ip, c)
def np_flatnonzero(ip, c): return np_where(ip, c)[0]
def np_array_equal(ip, a, b):
    a, b = arg(ip, a), arg(ip, b)
    if a.ndim != b.ndim or not all(dim_eq(x, y) for x, y in zip(a.shape, b.shape)): return False
    return simp_bool(a_all(asarr(ew(lambda x, y: s_cmp('==', x, y), a, b, kind='b'))))
def np_ix(ip, *xs): raise Unsupported("ix_")
def np_argmin(ip, a, axis=None):
    a = arg(ip, a)
    if a.ndim != 1: raise Unsupported("argmin")
    rd = a.frozen(); return mk_arg('MIN', a.shape[0], lambda j: rd((j,)))
def np_argmax(ip, a, axis=None):
    a = arg(ip, a)
    if a.ndim != 1: raise Unsupported("argmax")
    rd = a.frozen(); return mk_arg('MAX', a.shape[0], lambda j: rd((j,)))
def np_linspace(ip, a, b, num=50, endpoint=True):
    n = dim(num)
    den = s_sub(n, 1) if endpoint else n
    return Arr((n,), 'f', lambda idx: s_add(a, s_mul(s_sub(b, a), s_div(idx[0], den))))
def np_outer(ip, a, b):
    a, b = arg(ip, a), arg(ip, b)
    return ew(s_mul, A.expand_dims(a, 1), A.expand_dims(b, 0))
def np_diag(ip, a):
    a = arg(ip, a); rd = a.frozen()
    if a.ndim == 2: return Arr((a.shape[0],), a.kind, lambda idx: rd((idx[0], idx[0])))
    n = a.shape[0]
    return Arr((n, n), a.kind, lambda idx: coerce(s_ite(simp_bool(s_cmp('==', idx[0], idx[1])), rd((idx[0],)), 0), a.kind))
def np_astype_scalar(kind):
    def f(ip, x=0):
        if isinstance(x, str): return num_of_str(x, kind)
        return ew(lambda v: coerce(v, kind), arg(ip, x), kind=kind)
    return f
def np_det(ip, a): return A.det(arg(ip, a))
def np_inv(ip, a): return A.inv(arg(ip, a))
def np_vdot(ip, a, b):
    a, b = arg(ip, a), arg(ip, b)
    return A.dot(ew(s_conj, a), b)
def np_mean(ip, a, axis=None): return A.a_mean(arg(ip, a), axis)
def np_cumsum(ip, a, axis=None): return A.cumsum(arg(ip, a))
def np_sort(ip, a, axis=-1): return A.sort(arg(ip, a))
def np_unique(ip, a, **k): raise Unsupported("unique")
def np_squeeze(ip, a):
    a = arg(ip, a); return A.getitem(a, tuple(0 if isinstance(d, int) and d == 1 else SliceV(None, None, None) for d in a.shape))
def np_append(ip, a, b, axis=None):
    a, b = arg(ip, a), arg(ip, b)
    if axis is None and a.ndim == 1 and b.ndim <= 1: return A.hstack([a, b])
    if axis is not None: return A.concatenate([a, b], axis)
    raise Unsupported("append")
def np_copy(ip, a):
    a = arg(ip, a); return Arr(a.shape, a.kind, a.frozen())
def np_prod(ip, a, axis=None): return A.a_prod(arg(ip, a), axis)
def np_clip(ip, a, lo, hi): return ew(lambda x: s_min(s_max(x, lo), hi), arg(ip, a))

NP = {}
def np_solve(ip, a, b):
    # A x = b has exactly one solution for a non-singular A: inv(A) b
    return A.dot(A.inv(arg(ip, a)), arg(ip, b))
def np_tensordot(ip, a, b, axes=2):
    a, b = arg(ip, a), arg(ip, b)
    if isinstance(axes, int): ax = list(range(a.ndim - axes, a.ndim)); bx = list(range(axes))
    else:
        ax, bx = [list(ip.iter_concrete(v)) if isinstance(v, (PList, tuple)) else [v] for v in ip.iter_concrete(axes)]
    if not all(isinstance(v, int) for v in list(ax) + list(bx)): raise Unsupported("tensordot axes")
    ax = [v % a.ndim for v in ax]; bx = [v % b.ndim for v in bx]
    let = iter('abcdefghijklmnopqrstuvwxyz')
    sa = [next(let) for _ in range(a.ndim)]; sb = [next(let) for _ in range(b.ndim)]
    for i, j in zip(ax, bx): sb[j] = sa[i]
    out = [c for i, c in enumerate(sa) if i not in ax] + [c for j, c in enumerate(sb) if j not in bx]
    return A.einsum('%s,%s->%s' % (''.join(sa), ''.join(sb), ''.join(out)), a, b)
def np_inner(ip, a, b):
    a, b = arg(ip, a), arg(ip, b)
    return A.dot(a, A.transpose(b, tuple(range(b.ndim - 2)) + (b.ndim - 1, b.ndim - 2)) if b.ndim > 1 else b)
def np_moveaxis(ip, a, s, d):
    a = arg(ip, a)
    if not (isinstance(s, int) and isinstance(d, int)): raise Unsupported("moveaxis of several axes")
    o = [i for i in range(a.ndim) if i != s % a.ndim]; o.insert(d % a.ndim, s % a.ndim)
    return A.transpose(a, tuple(o))
def np_swapaxes(ip, a, i, j):
    a = arg(ip, a); o = list(range(a.ndim)); o[i], o[j] = o[j], o[i]
    return A.transpose(a, tuple(o))
def np_count_nonzero(ip, a, axis=None): return A.a_sum(ew(lambda x: s_ite(coerce(x, 'b'), 1, 0), arg(ip, a)), axis)
def np_matpow(ip, a, n):
    if not isinstance(n, int) or n < 0: raise Unsupported("matrix_power with this exponent")
    a = arg(ip, a); r = np_eye(ip, a.shape[0])
    for _ in range(n): r = A.dot(r, a)
    return r
def np_full_like(ip, a, v, dtype=None): 
    a = arg(ip, a)
    return np_full(ip, tuple(a.shape), v, dtype if dtype is not None else a.kind)
def cmpf(op): return bi(lambda a, b: s_cmp(op, a, b), 'b')
def reg(name, fn): NP[name] = B('numpy.' + name, fn)
for n, f in dict(array=np_array, asarray=np_array, zeros=mk('f', 0), ones=mk('f', 1), empty=mk('f', 0), eye=np_eye, identity=np_eye,
    full=np_full, zeros_like=like('f', 0), ones_like=like('f', 1), abs=un(s_abs, 'abs'), absolute=un(s_abs, 'abs'), exp=un(f_exp, 'f+'), sqrt=un(f_sqrt, 'f+'),
    cos=un(f_cos, 'f'), sin=un(f_sin, 'f'), real=un(s_re), imag=un(s_im), conj=un(s_conj), conjugate=un(s_conj), angle=un(A.angle, 'f'),
    isnan=un(f_isnan, 'b'), isinf=un(f_isinf, 'b'), floor=un(lambda x: z3.ToReal(z3.ToInt(zr(x))) if is_z(x) else Fraction(s_floor(x)), 'f'),
    rint=lambda ip, a: A.a_round(arg(ip, a), 0), sign=un(lambda x: s_ite(simp_bool(s_cmp('>', x, 0)), 1, s_ite(simp_bool(s_cmp('<', x, 0)), -1, 0))),
    where=np_where, dot=np_dot, matmul=lambda ip, a, b: A.matmul(arg(ip, a), arg(ip, b)), einsum=np_einsum, hstack=np_hstack, vstack=np_vstack,
    concatenate=np_concatenate, stack=np_stack, sum=red(A.a_sum), all=red(A.a_all), any=red(A.a_any), max=red(lambda a, ax: A.a_ext(a, 'MAX', ax)),
    min=red(lambda a, ax: A.a_ext(a, 'MIN', ax)), amax=red(lambda a, ax: A.a_ext(a, 'MAX', ax)), amin=red(lambda a, ax: A.a_ext(a, 'MIN', ax)),
    mean=np_mean, round=np_round, around=np_round, allclose=np_allclose, isclose=np_isclose, roll=np_roll, transpose=np_transpose,
    argsort=lambda ip, a, axis=-1, kind=None: A.argsort(arg(ip, a)), sort=np_sort, arange=np_arange, diff=np_diff, nonzero=np_nonzero, flatnonzero=np_flatnonzero,
    array_equal=np_array_equal, cross=lambda ip, a, b: A.cross(arg(ip, a), arg(ip, b)), trace=lambda ip, a: A.a_trace(arg(ip, a)), cumsum=np_cumsum, prod=np_prod,
    argmin=np_argmin, argmax=np_argmax, linspace=np_linspace, outer=np_outer, diag=np_diag, diagonal=np_diag, vdot=np_vdot, copy=np_copy, squeeze=np_squeeze,
    append=np_append, mod=bi(s_mod), remainder=bi(s_mod), multiply=bi(s_mul), add=bi(s_add), subtract=bi(s_sub), divide=bi(s_div, 'f+'),
    minimum=bi(s_min), maximum=bi(s_max), logical_and=bi(lambda a, b: s_and(coerce(a, 'b'), coerce(b, 'b')), 'b'), logical_or=bi(lambda a, b: s_or(coerce(a, 'b'), coerce(b, 'b')), 'b'),
    logical_not=un(lambda a: s_not(coerce(a, 'b')), 'b'), reshape=lambda ip, a, s: A.reshape(arg(ip, a), shape_arg(ip, s)), clip=np_clip, ascontiguousarray=np_array,
    expand_dims=lambda ip, a, ax: A.expand_dims(arg(ip, a), ax), unique=np_unique, square=un(lambda x: s_mul(x, x)), power=bi(s_pow), tensordot=np_tensordot, inner=np_inner, moveaxis=np_moveaxis, swapaxes=np_swapaxes,
    count_nonzero=np_count_nonzero, negative=un(s_neg), floor_divide=bi(s_floordiv), true_divide=bi(s_div, 'f+'), less=cmpf('<'), greater=cmpf('>'),
    less_equal=cmpf('<='), greater_equal=cmpf('>='), equal=cmpf('=='), not_equal=cmpf('!=')).items(): reg(n, f)
NP['inf'] = INF; NP['nan'] = NAN; NP['pi'] = PI; NP['newaxis'] = None
for n in ('int', 'int32', 'int64', 'float', 'float64', 'float32', 'complex', 'complex64', 'complex128', 'bool', 'bool_', 'integer', 'floating'):
    NP[n] = TypeVal(n.rstrip('_'))
NP['ndarray'] = TypeVal('ndarray')
for n in ('complex', 'float', 'int', 'bool'): NP.pop(n)      # removed from numpy
LA = {'inv': B('numpy.linalg.inv', np_inv), 'det': B('numpy.linalg.det', np_det), 'norm': B('numpy.linalg.norm', np_norm), 'solve': B('numpy.linalg.solve', np_solve),
    'matrix_power': B('numpy.linalg.matrix_power', np_matpow)}
# CODATA values: positive numbers, nothing else is used of them
BOHR_M, HARTREE_EV = Fraction(529177210544, 10**22), Fraction(272113862460, 10**10)

def lookup(mod, name):
    if mod == 'numpy':
        if name in NP: return NP[name]
        if name in ('linalg', 'fft', 'random'): return ModuleVal('numpy.' + name)
        if name in ('complex', 'float', 'int', 'bool'): py_raise('AttributeError', 'numpy has no attribute %s' % name)
        return Builtin('numpy.' + name, nope('numpy.' + name))
    if mod == 'numpy.linalg':
        if name == 'LinAlgError': return ExcClass('LinAlgError')
        return LA.get(name) or Builtin('numpy.linalg.' + name, nope('numpy.linalg.' + name))
    if mod == 'math':
        if name == 'pi': return PI
        return {'pi': PI, 'inf': INF, 'sqrt': NP['sqrt'], 'floor': B('math.floor', lambda ip, x: s_floor(x)), 'cos': NP['cos'], 'sin': NP['sin'],
                'ceil': B('math.ceil', lambda ip, x: s_neg(s_floor(s_neg(x))))}.get(name) or Builtin('math.' + name, nope('math.' + name))
    if mod == 'scipy.constants':
        if name == 'physical_constants': return PDict([('Bohr radius', (BOHR_M, 'm', 0)), ('Hartree energy in eV', (HARTREE_EV, 'eV', 0))])
        return {'angstrom': Fraction(1, 10**10), 'pi': PI}.get(name)
    if mod == 'copy' and name == 'copy': return B('copy.copy', copy_copy)
    if mod == 'functools' and name == 'lru_cache': return ModuleVal('functools.lru_cache')
    if mod in ('xml.etree.ElementTree', 'scipy', 'scipy.linalg', 'scipy.io', 'spglib', 'fortio', 'warnings', 'sys', 'os', 'packaging', 'functools', 'copy', 'click', 'monty'):
        return None
    return None

def nope(n):
    def f(ip, a, k): raise Unsupported("no model of " + n)
    return f

def copy_copy(ip, o):
    if isinstance(o, Obj): return Obj(o.cls, o.attrs)
    if isinstance(o, Arr): return Arr(o.shape, o.kind, o.frozen())
    if isinstance(o, PList): return PList(segs=o.segs)
    if isinstance(o, PDict):
        d = PDict(list(zip(o.keys, o.vals))); d.sym = o.sym; return d
    if isinstance(o, (ObjRef,)): raise Unsupported("copy of a symbolic object")
    return o

# ------------------------------------------------------------------ builtins
def b_len(ip, x): return ip.length(x)
def b_range(ip, *a):
    a = [ip.idx(x) for x in a]
    for x in a:
        if isinstance(x, (Fraction, float)) or (is_z(x) and not is_int_sort(x)) or x is None: py_raise('TypeError', 'range() needs integers')
    if len(a) == 1: return RangeV(0, a[0], 1)
    if len(a) == 2: return RangeV(a[0], a[1], 1)
    return RangeV(*a)
def b_abs(ip, x):
    if isinstance(x, Arr): return ew(s_abs, x, kind='abs')
    if isinstance(x, PList): py_raise('TypeError', 'bad operand type for abs()')
    return s_abs(ip.unopt(x))
def b_sum(ip, x, start=0):
    its = ip.iter_concrete(x)
    if its is not None:
        r = start
        for v in its: r = ip.binop(ast.Add(), r, v)
        return r
    if isinstance(x, Arr):
        if x.ndim == 1:
            r = A.a_sum(x); return ip.binop(ast.Add(), start, r) if start != 0 else r
        return A.a_sum(x, 0)
    n, fn = ip.sym_iter(x)
    g = cur().generic('s')
    p = fn(g)
    if is_scalar(p): return s_add(start, mk_sum(0, n, fn)) if not (is_num(start) and start == 0) else mk_sum(0, n, fn)
    if isinstance(p, Arr): return A.a_sum(asarr(PList(segs=(SegSeq(n, fn),))), 0)
    if isinstance(p, Opt):
        from .interp import IterV
        n, fn = IterV('map', B('unopt', lambda ip_, v: ip_.unopt(v)), x).sym(ip)
        if is_scalar(fn(g)): return s_add(start, mk_sum(0, n, fn)) if not (is_num(start) and start == 0) else mk_sum(0, n, fn)
    raise Unsupported("sum of %r" % (p,))
def b_minmax(kind):
    def f(ip, *a, key=None, default=UNDEF):
        if key is not None: raise Unsupported("min/max key")
        if len(a) == 1:
            its = ip.iter_concrete(a[0])
            if its is None:
                if isinstance(a[0], Arr) and a[0].ndim == 1: n = zi(a[0].shape[0]); rd = a[0].frozen(); fn = lambda i: rd((i,))
                else: n, fn = ip.sym_iter(a[0])
                if not cur().entails(n > 0):
                    if not cur().branch(n > 0):
                        if default is not UNDEF: return default
                        py_raise('ValueError', 'empty sequence')
                return mk_ext(kind, n, fn)
            a = its
        if not a:
            if default is not UNDEF: return default
            py_raise('ValueError', 'arg is an empty sequence')
        r = ip.unopt(a[0])
        for v in a[1:]:
            v = ip.unopt(v)
            if r is None or v is None: py_raise('TypeError', 'ordering None')
            if not (is_scalar(r) and is_scalar(v)):
                if isinstance(r, str) and isinstance(v, str): r = (max if kind == 'MAX' else min)(r, v); continue
                raise Unsupported("min/max of %r" % (v,))
            q = simp_bool(s_cmp('>' if kind == 'MAX' else '<', v, r))
            if isinstance(r, float) and is_z(q) or isinstance(v, float) and is_z(q):      # an infinity: no common value, distinguish
                r = v if cur().branch(q) else r
                if isinstance(r, NV) and cur().entails(zb(s_not(r.nan))): r = r.val
                continue
            r = s_ite(q, v, r)
        return r
    return f
def b_anyall(isall):
    def f(ip, x):
        its = ip.iter_concrete(x)
        if its is not None:
            cs = [ip.truthv(v) for v in its]
            return (s_and if isall else s_or)(*cs) if cs else isall
        n, fn = ip.sym_iter(x)
        return (mk_all if isall else mk_any)(n, lambda j: ip.truthv(fn(j)))
    return f
def b_int(ip, x=0, base=10):
    if isinstance(x, AltStr): x = x.pick()
    if isinstance(x, Arr) and all(isinstance(d, int) and d == 1 for d in x.shape): x = x.get((0,) * x.ndim)
    if isinstance(x, str):
        try: return int(x)
        except ValueError: py_raise('ValueError', 'invalid literal for int()')
    if isinstance(x, Opt): x = ip.unopt(x)
    if x is None or isinstance(x, (PList, tuple, Cx)): py_raise('TypeError', 'int() argument')
    if isinstance(x, float): py_raise('ValueError' if x != x else 'OverflowError', 'cannot convert float to integer')
    if isinstance(x, NV): raise Unsupported("int of possibly-NaN")
    if isinstance(x, SStr): return sstr_number(x, 'i')
    if isinstance(x, OpaqueStr): raise Unsupported("int of text")
    if is_scalar(x): return coerce(x, 'i')
    if isinstance(x, Arr): py_raise('TypeError', 'only length-1 arrays can be converted')
    raise Unsupported("int of %r" % (x,))
def b_float(ip, x=0):
    if isinstance(x, AltStr): x = x.pick()
    if isinstance(x, str):
        try: return lit(float(x))
        except ValueError: py_raise('ValueError', 'could not convert string to float')
    if isinstance(x, Arr) and all(isinstance(d, int) and d == 1 for d in x.shape): x = x.get((0,) * x.ndim)
    if isinstance(x, Opt): x = ip.unopt(x)
    if x is None or isinstance(x, (PList, tuple, Cx)): py_raise('TypeError', 'float() argument')
    if isinstance(x, (NV, float)): return x
    if is_scalar(x): return coerce(x, 'f')
    if isinstance(x, SStr): return sstr_number(x, 'f')
    raise Unsupported("float of %r" % (x,))
def b_complex(ip, a=0, b=0):
    if isinstance(a, SStr): return sstr_number(a, 'c')
    if isinstance(a, str):
        try: v = complex(a)
        except ValueError: py_raise('ValueError', 'complex() arg is a malformed string')
        return Cx(lit(v.real), lit(v.imag))
    return s_add(cx(coerce(a, 'f') if not isinstance(a, Cx) else a), s_mul(Cx(Fraction(0), Fraction(1)), b))
def b_bool(ip, x=False): return ip.truthv(x)
def b_round(ip, x, nd=None):
    if isinstance(x, Arr): return A.a_round(x, nd or 0)
    if isinstance(x, Cx): py_raise('TypeError', "type complex doesn't define __round__ method")
    if isinstance(x, NV): raise Unsupported("round of possibly-NaN")
    if nd is None:
        return s_round_int(x)
    return A.a_round(asarr(x), nd) if not is_int_sort(x) else x
def b_list(ip, x=()):
    if isinstance(x, PSet) and x.plist is not None: raise Unsupported("list of symbolic set")
    return ip.to_plist(x)
def b_tuple(ip, x=()):
    its = ip.iter_concrete(x)
    if its is None: return ip.to_plist(x)
    return tuple(its)
def b_dict(ip, *a, **kw):
    d = PDict()
    for x in a:
        if isinstance(x, PDict):
            for k, v in zip(x.keys, x.vals): d.set(k, v)
            d.sym = x.sym
        else:
            for k, v in [ip.iter_concrete(y) for y in ip.iter_concrete(x)]: d.set(k, v)
    for k, v in kw.items(): d.set(k, v)
    return d
def make_set(ip, x):
    if isinstance(x, PSet): return x
    its = ip.iter_concrete(x)
    if its is None:
        s = PSet(); s.plist = ip.to_plist(x); return s
    return PSet(its)
def b_set(ip, x=()): return make_set(ip, x)
def b_sorted(ip, x, key=None, reverse=False):
    its = ip.iter_concrete(x)
    if its is not None and key is None:
        if all(is_num(v) for v in its) or all(isinstance(v, str) for v in its): return PList(sorted(its, reverse=reverse))
        if all(isinstance(v, tuple) and all(is_num(q) or isinstance(q, str) for q in v) for v in its): return PList(sorted(its, reverse=reverse))
    if its is not None and len(its) <= 1: return PList(its)
    if isinstance(x, Arr) and x.ndim == 1 and key is None and reverse is False:
        rd = A.sort(x).frozen(); return PList(segs=(SegSeq(x.shape[0], lambda i: rd((i,))),))
    p = ip.to_plist(x); n = p.length()
    if key is not None: kf = lambda j: ip.call(key, [p.get(j)])
    else: kf = p.get
    if reverse is not False: raise Unsupported("sorted reverse")
    if its is not None and key is not None:
        ks = [kf(j) for j in range(len(its))]
        if all(is_num(k) or isinstance(k, str) for k in ks):
            return PList([its[j] for j in sorted(range(len(its)), key=lambda j: ks[j])])
    if key is not None and not isinstance(n, int):
        from .interp import IterV
        _, kf = IterV('map', key, p).sym(ip)
    pm = Perm(n, lambda j: kf(j) if is_scalar(kf(j)) else _uns("sort key"))
    return PList(segs=(SegSeq(n, lambda i: p.get(pm.at(i))),))
def _uns(w): raise Unsupported(w)
def b_isinstance(ip, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        n = q.name if isinstance(q, (TypeVal, ClassVal, ExcClass, Builtin)) else None
        if n is None: raise Unsupported("isinstance of %r" % (q,))
        n = n.split('.')[-1]
        if isinstance(x, (Obj, ObjRef)):
            c = x.cls if isinstance(x, Obj) else x.seq.cls
            if isinstance(c, ClassVal) and any(m.name == n for m in c.mro()): return True
            continue
        if n in ('int', 'integer', 'int64') and is_int_sort(x): return True
        if n == 'float' and is_real_sort(x): return True
        if n == 'float' and isinstance(x, NV): return True
        if n == 'bool' and is_bool_sort(x): return True
        if n == 'complex' and isinstance(x, Cx): return True
        if n == 'str' and isinstance(x, (str, SStr, OpaqueStr)): return True
        if n == 'list' and isinstance(x, PList): return True
        if n == 'tuple' and isinstance(x, tuple): return True
        if n == 'dict' and isinstance(x, PDict): return True
        if n == 'ndarray' and isinstance(x, Arr): return True
    return False
def b_getattr(ip, o, n, *d):
    try: return ip.getattr(o, n)
    except PyRaise as e:
        if d and 'AttributeError' in e.exc.names: return d[0]
        raise
def b_hasattr(ip, o, n):
    try: ip.getattr(o, n); return True
    except PyRaise: return False
def b_setattr(ip, o, n, v): ip.setattr(o, n, v)
def b_zip(ip, *a):
    from .interp import IterV
    return IterV('zip', *a)
def b_enumerate(ip, x, start=0):
    from .interp import IterV
    return IterV('enumerate', x, start)
def b_reversed(ip, x):
    from .interp import IterV
    return IterV('reversed', x)
def b_map(ip, f, x):
    from .interp import IterV
    return IterV('map', f, x)
def b_filter(ip, f, x): raise Unsupported("filter")
def b_iter(ip, x): return x
def b_str(ip, x=''):
    if isinstance(x, (str, SStr, OpaqueStr)): return x
    return join_pieces([fmt_piece(ip, x, '', None)])
def b_divmod(ip, a, b): return (s_floordiv(a, b), s_mod(a, b))
def b_pow(ip, a, b): return s_pow(a, b)
def b_super(ip, *a): raise Unsupported("super")
def b_exit(ip, *a): py_raise('SystemExit')
def b_open(ip, *a, **k): raise Unsupported("open()")
def b_type(ip, x): raise Unsupported("type()")
def b_next(ip, *a): raise Unsupported("next()")
def b_id(ip, *a): raise Unsupported("id()")

BUILTINS = {}
for n, f in dict(len=b_len, range=b_range, abs=b_abs, sum=b_sum, max=b_minmax('MAX'), min=b_minmax('MIN'), any=b_anyall(False), all=b_anyall(True),
    round=b_round, sorted=b_sorted, isinstance=b_isinstance, getattr=b_getattr, hasattr=b_hasattr, setattr=b_setattr,
    zip=b_zip, enumerate=b_enumerate, reversed=b_reversed, map=b_map, filter=b_filter, iter=b_iter, divmod=b_divmod, pow=b_pow, super=b_super,
    print=lambda ip, *a, **k: None, exit=b_exit, quit=b_exit, open=b_open, type=b_type, next=b_next, id=b_id).items():
    BUILTINS[n] = Builtin(n, (lambda f: lambda ip, a, k: f(ip, *a, **k))(f))
TYPES = dict(int=b_int, float=b_float, complex=b_complex, bool=b_bool, list=b_list, tuple=b_tuple, dict=b_dict, set=b_set, str=b_str, frozenset=b_set)
for n in TYPES: BUILTINS[n] = TypeVal(n)
BUILTINS['object'] = TypeVal('object')
BUILTINS['slice'] = Builtin('slice', lambda ip, a, k: SliceV(*( [None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a)))))

def call_type(ip, name, args, kw):
    f = TYPES.get(name)
    if f: return f(ip, *args, **kw)
    if name.startswith('int') or name.startswith('uint'): return np_astype_scalar('i')(ip, *args)
    if name.startswith('float'): return np_astype_scalar('f')(ip, *args)
    if name.startswith('complex'): return np_astype_scalar('c')(ip, *args)
    raise Unsupported("call of type " + name)

def builtin(name):
    from .interp import OVERRIDES
    if 'builtins.' + name in OVERRIDES: return OVERRIDES['builtins.' + name]
    if name in BUILTINS: return BUILTINS[name]
    if name in EXC_BASES: return ExcClass(name)
    if name == '__name__': return '?'
    return None

# ------------------------------------------------------------------ attributes of values
def M(fn): return lambda ip, o: Builtin(fn.__name__, lambda ip2, a, k: fn(ip2, o, *a, **k))

def at_sum(ip, o, axis=None): return A.a_sum(o, axis)
def at_mean(ip, o, axis=None): return A.a_mean(o, axis)
def at_max(ip, o, axis=None): return A.a_ext(o, 'MAX', axis)
def at_min(ip, o, axis=None): return A.a_ext(o, 'MIN', axis)
def at_all(ip, o, axis=None):
    r = A.a_all(o, axis); return simp_bool(r) if not isinstance(r, Arr) else r
def at_any(ip, o, axis=None):
    r = A.a_any(o, axis); return simp_bool(r) if not isinstance(r, Arr) else r
def at_dot(ip, o, b): return A.dot(o, arg(ip, b))
def at_conj(ip, o): return ew(s_conj, o)
def at_reshape(ip, o, *s, order=None):
    if order not in (None, 'C'): raise Unsupported("reshape order")
    return A.reshape(o, shape_arg(ip, s[0] if len(s) == 1 else tuple(s)))
def at_astype(ip, o, d): return astype(o, dt_kind(ip, d))
def at_copy(ip, o): return Arr(o.shape, o.kind, o.frozen())
def at_round(ip, o, decimals=0): return A.a_round(o, decimals)
def at_argsort(ip, o, **k): return A.argsort(o)
def at_transpose(ip, o, *ax): return A.transpose(o, ax[0] if len(ax) == 1 and isinstance(ax[0], tuple) else (ax or None))
def at_tolist(ip, o):
    if o.ndim == 1: return ip.to_plist(o)
    it = ip.iter_concrete(o)
    if it is not None: return PList([at_tolist(ip, x) for x in it])
    raise Unsupported("tolist")
def at_trace(ip, o): return A.a_trace(o)
def at_prod(ip, o, axis=None): return A.a_prod(o, axis)
def at_cumsum(ip, o, axis=None): return A.cumsum(o)
def at_flatten(ip, o): return A.reshape(o, (-1,))
def at_nonzero(ip, o): return np_where(ip, o)
def at_argmax(ip, o): return np_argmax(ip, o)
def at_argmin(ip, o): return np_argmin(ip, o)
def at_item(ip, o, *a): 
    if a: return A.getitem(o, a[0])
    return o.get((0,) * o.ndim)
def at_squeeze(ip, o): return np_squeeze(ip, o)
def at_fill(ip, o, v): A.setitem(o, (SliceV(None, None, None),) * o.ndim, v)
def at_sort(ip, o):
    r = A.sort(Arr(o.shape, o.kind, o.frozen())); A.setitem(o, SliceV(None, None, None), r)
ARR_M = dict(sum=at_sum, mean=at_mean, max=at_max, min=at_min, all=at_all, any=at_any, dot=at_dot, conj=at_conj, conjugate=at_conj, reshape=at_reshape,
    astype=at_astype, copy=at_copy, round=at_round, argsort=at_argsort, transpose=at_transpose, tolist=at_tolist, trace=at_trace, prod=at_prod,
    cumsum=at_cumsum, flatten=at_flatten, ravel=at_flatten, nonzero=at_nonzero, argmax=at_argmax, argmin=at_argmin, item=at_item, squeeze=at_squeeze, fill=at_fill, sort=at_sort)

def l_append(ip, o, v): o.append(v)
def l_extend(ip, o, v): o.extend_segs(ip.to_plist(v).segs)
def l_copy(ip, o): return PList(segs=o.segs)
def l_index(ip, o, v):
    it = o.concrete()
    if it is None: raise Unsupported("list.index")
    for j, x in enumerate(it):
        if ip.truth(ip.compare_eq(x, v)): return j
    py_raise('ValueError', 'not in list')
def l_pop(ip, o, i=-1):
    it = o.concrete()
    if it is None: raise Unsupported("list.pop")
    if not it: py_raise('IndexError', 'pop from empty list')
    v = it.pop(i); touch(o); o.segs = (SegItems(it),) if it else (); return v
def l_insert(ip, o, i, v):
    touch(o)
    if i == 0: o.segs = (SegItems((v,)),) + o.segs; return
    it = o.concrete()
    if it is None: raise Unsupported("insert")
    it.insert(i, v); o.segs = (SegItems(it),)
def l_count(ip, o, v):
    it = o.concrete()
    if it is not None:
        r = 0
        for x in it: r = s_add(r, zi(c) if is_z(c := ip.compare_eq(x, v)) else int(c))
        return r
    n, fn = ip.sym_iter(o)
    return mk_sum(0, n, lambda j: s_ite(py_eq(fn(j), v), 1, 0))
def l_sort(ip, o, key=None, reverse=False):
    r = b_sorted(ip, o, key, reverse); touch(o); o.segs = r.segs
def l_remove(ip, o, v):
    it = o.concrete()
    if it is None: raise Unsupported("remove")
    j = l_index(ip, o, v); it.pop(j); touch(o); o.segs = (SegItems(it),)
def l_reverse(ip, o):
    it = o.concrete()
    if it is None: raise Unsupported("reverse")
    touch(o); o.segs = (SegItems(it[::-1]),)
LIST_M = dict(append=l_append, extend=l_extend, copy=l_copy, index=l_index, pop=l_pop, insert=l_insert, count=l_count, sort=l_sort, remove=l_remove, reverse=l_reverse)

def d_keys(ip, o): return PList(list(o.keys)) if not o.sym else o
def d_items(ip, o):
    from .interp import IterV
    return IterV('items', o)
def d_values(ip, o):
    from .interp import IterV
    return IterV('values', o)
def d_get(ip, o, k, d=None):
    c = o.has(k)
    if c if isinstance(c, bool) else cur().branch(c): return o.get(k)
    return d
def d_pop(ip, o, k, *d):
    i = o._find(k)
    if i < 0:
        if d: return d[0]
        py_raise('KeyError', k)
    touch(o); v = o.vals[i]; del o.keys[i]; del o.vals[i]; return v
def d_update(ip, o, *a, **kw):
    for x in a:
        for k, v in zip(x.keys, x.vals): o.set(k, v)
        if x.sym: raise Unsupported("update with symbolic dict")
    for k, v in kw.items(): o.set(k, v)
def d_setdefault(ip, o, k, d=None):
    if not d_has(ip, o, k): o.set(k, d)
    return o.get(k)
def d_has(ip, o, k):
    c = o.has(k); return c if isinstance(c, bool) else cur().branch(c)
def d_copy(ip, o): return copy_copy(ip, o)
DICT_M = dict(keys=d_keys, items=d_items, values=d_values, get=d_get, pop=d_pop, update=d_update, setdefault=d_setdefault, copy=d_copy)
def s_addm(ip, o, v): o.add(v)
def s_union(ip, o, *v): raise Unsupported("set.union")
SET_M = dict(add=s_addm, union=s_union)

def attr(ip, o, name):
    if isinstance(o, Arr):
        if name == 'T': return A.transpose(o)
        if name == 'shape': return tuple(o.shape)
        if name == 'ndim': return o.ndim
        if name == 'size': return prod_dims(o.shape)
        if name == 'real': return ew(s_re, o, kind=None if o.kind != 'c' else 'f') if o.kind == 'c' else o
        if name == 'imag': return ew(s_im, o, kind='f')
        if name == 'dtype': return TypeVal({'i': 'int64', 'f': 'float64', 'c': 'complex128', 'b': 'bool'}.get(o.kind, 'object'))
        if name in ARR_M: return M(ARR_M[name])(ip, o)
        raise Unsupported("array attribute " + name)
    if is_scalar(o) and not isinstance(o, bool):
        if name == 'real': return s_re(o)
        if name == 'imag': return s_im(o)
        if name in ('conj', 'conjugate'): return Builtin('conj', lambda ip2, a, k: s_conj(o))
        if name in ('shape',): return ()
        if name == 'ndim': return 0
        if name == 'T': return o
        if name == 'is_integer': raise Unsupported("is_integer")
        if name in ARR_M: return M(ARR_M[name])(ip, asarr(o))
        if is_zb(o) and name in ('all', 'any'): return Builtin(name, lambda ip2, a, k: o)
        py_raise('AttributeError', name)
    if isinstance(o, bool):
        if name in ('all', 'any'): return Builtin(name, lambda ip2, a, k: o)
        py_raise('AttributeError', name)
    if isinstance(o, PList):
        if name in LIST_M: return M(LIST_M[name])(ip, o)
        py_raise('AttributeError', name)
    if isinstance(o, PDict):
        if name in DICT_M: return M(DICT_M[name])(ip, o)
        py_raise('AttributeError', name)
    if isinstance(o, PSet):
        if name in SET_M: return M(SET_M[name])(ip, o)
        raise Unsupported("set." + name)
    if isinstance(o, AltStr): o = o.pick()
    if isinstance(o, str): return str_method(ip, o, name)
    if isinstance(o, SStr): return sstr_method(ip, o, name)
    if isinstance(o, OpaqueStr): return Builtin(name, lambda ip2, a, k: OpaqueStr(o.why))
    if isinstance(o, ExcVal):
        if name == 'args': return tuple(o.args)
        py_raise('AttributeError', name)
    if isinstance(o, tuple):
        if name in ('index', 'count'): return M(LIST_M[name])(ip, PList(o))
        py_raise('AttributeError', name)
    if o is None: py_raise('AttributeError', "'NoneType' object has no attribute %r" % name)
    if isinstance(o, ModuleVal): return ModuleVal(o.name + '.' + name)
    if isinstance(o, HavocV): raise Unsupported("value from an earlier iteration (%s)" % o.what)
    if isinstance(o, TypeVal):
        if o.name == 'dict' and name == 'fromkeys': raise Unsupported("dict.fromkeys")
        raise Unsupported("attribute of type")
    if isinstance(o, (Func, Builtin)) and name == '__name__': return o.name
    raise Unsupported("attribute %s of %r" % (name, o))

# ------------------------------------------------------------------ text
def str_method(ip, o, name):
    if name == 'format': return Builtin('format', lambda ip2, a, k: str_format(ip, o, a, k))
    if name == 'join': return Builtin('join', lambda ip2, a, k: str_join(ip, o, a[0]))
    m = getattr(o, name, None)
    if m is None: py_raise('AttributeError', name)
    def f(ip2, a, k):
        a = [simpl(x) if is_z(x) else x for x in a]
        a2 = []
        for x in a:
            if isinstance(x, (str, int, bool)) or x is None: a2.append(x)
            elif isinstance(x, tuple): a2.append(x)
            elif isinstance(x, (SStr, OpaqueStr)) or is_z(x): raise Unsupported("str.%s with symbolic argument" % name)
            else: py_raise('TypeError', 'str.%s argument' % name)
        try: r = m(*a2, **k)
        except (ValueError, TypeError, IndexError) as e: py_raise(type(e).__name__, *e.args)
        return PList(r) if isinstance(r, list) else r
    return Builtin(name, f)

# text with unknown parts: a piece (value, spec) is the text of a formatted value; (value, 'num') is an unsigned decimal
# literal denoting that value, (value, 'digits') an unsigned integer literal; (None, ('text', chars)) is any text without those characters
DIGITS, NUM = set('0123456789'), set('0123456789.eE+-')
def piece_kind(p):
    v, sp = p
    if isinstance(sp, tuple): return 'text'
    if sp in ('num', 'digits'): return sp
    if v is not None and is_scalar(v) and is_int_sort(v) and sp in (None, '', 'd') and (v >= 0 if isinstance(v, int) else cur().entails(v >= 0)): return 'digits'
    return None
def lacks(p, chars):
    """no character of chars occurs in the unknown piece"""
    k = piece_kind(p); c = set(chars)
    if k == 'digits': return not c & DIGITS
    if k == 'num': return not c & NUM
    if k == 'text': return c <= set(p[1][1])
    return False
def sstr_in(o, sub):
    if not isinstance(sub, str): raise Unsupported("in symbolic text")
    if any(isinstance(p, str) and sub in p for p in o.pieces): return True
    if len(sub) == 1 and all(isinstance(p, str) or lacks(p, sub) for p in o.pieces): return False
    raise Unsupported("in symbolic text")
def known_text(ps):
    ps = SStr(ps)
    return ''.join(ps.pieces) if all(isinstance(p, str) for p in ps.pieces) else ps
def sstr_split(o, sep=None, maxsplit=-1):
    seps = sep if sep is not None else ' \t\n\r\x0b\x0c'
    if sep is not None and (not isinstance(sep, str) or len(sep) != 1): raise Unsupported("split of symbolic text")
    out = [[]]
    for p in o.pieces:
        if not isinstance(p, str):
            if not lacks(p, seps): raise Unsupported("split of symbolic text")
            out[-1].append(p); continue
        for ch in p:
            if ch in seps and (maxsplit < 0 or len(out) <= maxsplit): out.append([])
            else: out[-1].append(ch)
    if sep is None:
        if maxsplit >= 0: raise Unsupported("split of symbolic text")
        out = [x for x in out if x]
    return PList([known_text(x) for x in out])
def sstr_strip(o, chars=None, left=True, right=True):
    chars = chars if chars is not None else ' \t\n\r\x0b\x0c'
    ps = list(o.pieces)
    if left:
        while ps:
            if isinstance(ps[0], str):
                t = ps[0].lstrip(chars)
                if t: ps[0] = t; break
                ps.pop(0)
            elif lacks(ps[0], chars) and piece_kind(ps[0]) != 'text': break
            else: raise Unsupported("strip of symbolic text")
    if right and ps:
        if not isinstance(ps[-1], str) and piece_kind(ps[-1]) == 'text':
            # the remainder is again an arbitrary text, possibly empty: what stands before it must not be stripped
            if not (len(ps) > 1 and isinstance(ps[-2], str) and ps[-2][-1] not in chars): raise Unsupported("strip of symbolic text")
        else:
            while ps:
                if isinstance(ps[-1], str):
                    t = ps[-1].rstrip(chars)
                    if t: ps[-1] = t; break
                    ps.pop()
                elif lacks(ps[-1], chars) and piece_kind(ps[-1]) != 'text': break
                else: raise Unsupported("strip of symbolic text")
    return known_text(ps)
def sstr_item(o, k):
    if k == 0 and o.pieces and isinstance(o.pieces[0], str): return o.pieces[0][0]
    raise Unsupported("item of symbolic text")
def sstr_number(o, kind):
    """int, float, complex of a text: [sign] literal, or [sign] literal sign literal j"""
    x = sstr_strip(o)
    if isinstance(x, str): return None
    terms, sign = [], 1; fresh = True
    for p in x.pieces:
        if isinstance(p, str):
            for ch in p:
                if ch in '+-' and fresh is not None: sign = -1 if ch == '-' else 1; fresh = None
                elif ch in 'jJ' and terms and fresh is False or ch in 'jJ' and terms and fresh is True: terms[-1][1] = True
                else: raise Unsupported("number from symbolic text")
        else:
            k = piece_kind(p)
            if k not in ('digits', 'num') or (terms and fresh is not None): raise Unsupported("number from symbolic text")
            if kind == 'i' and k != 'digits': raise Unsupported("number from symbolic text")
            terms.append([s_mul(sign, p[0]), False]); sign = 1; fresh = True
    if fresh is None or not 1 <= len(terms) <= 2: raise Unsupported("number from symbolic text")
    if kind != 'c':
        if len(terms) != 1 or terms[0][1]: py_raise('ValueError', 'invalid literal')
        return coerce(terms[0][0], kind)
    if len(terms) == 2 and (terms[0][1] or not terms[1][1]): py_raise('ValueError', 'complex() arg is a malformed string')
    re = [t for t, j in terms if not j]; im = [t for t, j in terms if j]
    return Cx(coerce(re[0], 'f') if re else Fraction(0), coerce(im[0], 'f') if im else Fraction(0))
def sstr_method(ip, o, name):
    if name == 'format': return Builtin('format', lambda ip2, a, k: OpaqueStr('format of symbolic text'))
    def f(ip2, a, k):
        if name in ('lower', 'upper'):
            g = lambda t: getattr(t, name)()
            out = []
            for p in o.pieces:
                if isinstance(p, str): out.append(g(p))
                elif piece_kind(p) == 'text': out.append((None, ('text', ''.join(c for c in p[1][1] if not c.isalpha()))))
                elif piece_kind(p) in ('digits', 'num') or isinstance(p, tuple) and is_scalar(p[0]) and is_int_sort(p[0]): out.append(p)
                else: raise Unsupported("%s of symbolic text" % name)
            return SStr(out)
        if k: raise Unsupported("%s of symbolic text" % name)
        if name == 'split': return sstr_split(o, *a)
        if name in ('strip', 'lstrip', 'rstrip'): return sstr_strip(o, *(a or [None]), left=name != 'rstrip', right=name != 'lstrip')
        if name == 'replace' and len(a) == 2 and all(isinstance(x, str) for x in a) and len(a[0]) == 1 and all(isinstance(p, str) or lacks(p, a[0]) for p in o.pieces):
            return known_text([p.replace(*a) if isinstance(p, str) else p for p in o.pieces])
        if name == 'startswith' and len(a) == 1 and isinstance(a[0], str) and o.pieces and isinstance(o.pieces[0], str) and len(o.pieces[0]) >= len(a[0]): return o.pieces[0].startswith(a[0])
        raise Unsupported("%s of symbolic text" % name)
    return Builtin(name, f)

def fmt_piece(ip, x, spec, conv):
    if isinstance(x, Arr) and x.ndim == 0: x = x.get(())
    if isinstance(x, Opt): x = ip.unopt(x)
    if isinstance(x, (str,)) and spec is not None:
        return format(x, spec) if conv != 'r' else format(repr(x), spec)
    if isinstance(x, bool) or (isinstance(x, int)):
        if spec is not None:
            try: return format(x, spec)
            except ValueError as e: py_raise('ValueError', str(e))
    if isinstance(x, SStr):
        if not spec: return x
        return (x, spec)
    if isinstance(x, OpaqueStr): return x
    if x is None:
        if spec: py_raise('TypeError', 'unsupported format string passed to NoneType.__format__')
        return 'None'
    if isinstance(x, (PList, tuple, Arr, PDict)) :
        if spec: py_raise('TypeError', 'unsupported format string passed to %s.__format__' % type(x).__name__)
        return OpaqueStr('text of a container')
    if is_scalar(x):
        if isinstance(x, Cx): return (x, spec)
        if spec and spec[-1] == 'd' and not (is_int_sort(x) or is_bool_sort(x)): py_raise('ValueError', "Unknown format code 'd'")
        return (x, spec)
    return OpaqueStr('text of %r' % (x,))

def join_pieces(ps):
    out = []
    for p in ps:
        if isinstance(p, OpaqueStr): return p
        if isinstance(p, SStr): out += p.pieces
        else: out.append(p)
    s = SStr(out)
    if all(isinstance(p, str) for p in s.pieces): return ''.join(s.pieces)
    return s

def str_format(ip, fmt, args, kw):
    ps = []
    auto = 0
    for lit_, field, spec, conv in string.Formatter().parse(fmt):
        ps.append(lit_)
        if field is None: continue
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == '': first = auto; auto += 1
        if isinstance(first, int):
            if first >= len(args): py_raise('IndexError', 'Replacement index out of range')
            v = args[first]
        else:
            if first not in kw: py_raise('KeyError', first)
            v = kw[first]
        for isattr, nm in rest:
            v = ip.getattr(v, nm) if isattr else ip.getitem(v, nm)
        if spec and '{' in spec:
            s2 = str_format(ip, spec, args, kw)
            if not isinstance(s2, str): return OpaqueStr('symbolic format')
            spec = s2
        ps.append(fmt_piece(ip, v, spec or '', conv))
    return join_pieces(ps)

def str_join(ip, sep, x):
    its = ip.iter_concrete(x)
    if its is None: return OpaqueStr('join of symbolically many pieces')
    ps = []
    for i, v in enumerate(its):
        if i: ps.append(sep)
        if not isinstance(v, (str, SStr, OpaqueStr)): py_raise('TypeError', 'sequence item %d: expected str instance' % i)
        ps.append(v)
    return join_pieces(ps)

def str_binop(ip, t, a, b):
    if t is ast.Add:
        if not all(isinstance(x, (str, SStr, OpaqueStr)) for x in (a, b)): py_raise('TypeError', 'can only concatenate str')
        return join_pieces([a, b])
    if t is ast.Mult:
        s, n = (a, b) if isinstance(a, (str, SStr, OpaqueStr)) else (b, a)
        n = simpl(n) if is_z(n) else n
        if isinstance(s, str) and isinstance(n, int): return s * n
        return OpaqueStr('repeated text')
    if t is ast.Mod:
        return OpaqueStr('% formatting')
    py_raise('TypeError', 'unsupported operand type(s) for str')
