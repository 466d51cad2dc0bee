"""Arrays with integer or symbolic dimensions; the numpy operations the code uses.

An array is a function from index tuples to scalars.  Element-wise operations snapshot
their operands; basic slices are views that read and write through to their base.
"""
import z3, math
from .core import *
from . import ring
from .binders import *
from .ctx import cur

def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = dimsub(a, b)
    if isinstance(conc(d), int): return conc(d) == 0
    return cur().entails(d == 0)

def dim(x):
    x = conc(x) if is_z(x) else x
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if is_z(x): return conc(canon(zi(x)))
    if isinstance(x, Fraction) and x.denominator == 1: py_raise('TypeError', 'float as dimension')
    raise Unsupported("dimension %r" % (x,))

def ckey(i):
    return i if isinstance(i, int) else ('z', i.get_id())

BIRTH = [0]
TOUCH = [lambda o: None]
class Arr:
    __slots__ = ('shape', 'kind', '_fn', '_cache', 'base', 'maps', 'wlog', 'hav', 'name', 'birth')
    def __init__(self, shape, kind, fn, base=None, maps=None):
        self.shape = tuple(shape); self.kind = kind
        self._fn = fn; self._cache = {}
        self.base, self.maps = base, maps
        self.wlog = None; self.hav = None; self.name = None
        BIRTH[0] += 1; self.birth = BIRTH[0]
    def snap(self): return (self.shape, self.kind, self._fn, self._cache)
    def restore(self, s): self.shape, self.kind, self._fn, self._cache = s
    @property
    def ndim(self): return len(self.shape)
    def __repr__(self): return "Arr%s%s" % (self.shape, self.kind)
    # -- reading
    def get(self, idx):
        idx = tuple(conc(i) if is_z(i) else i for i in idx)
        if self.base is not None:
            return self.base.get(self._bidx(idx))
        k = tuple(ckey(i) for i in idx)
        h = self._cache.get(k)
        if h is not None: return h[1]
        v = self._fn(idx)
        self._cache[k] = (idx, v)
        return v
    def _bidx(self, idx):
        out = []
        for m in self.maps:
            if m[0] == 'fix': out.append(m[1])
            else:
                _, vd, start, step = m
                out.append(s_add(start, s_mul(step, idx[vd])))
        return tuple(conc(canon(x)) if is_z(x) else x for x in out)
    def frozen(self):
        """reader of the current content"""
        if self.base is not None:
            b = self.base.frozen(); me = self
            maps = self.maps
            return lambda idx: b(me._bidx(idx))
        fn, cache = self._fn, self._cache
        def rd(idx):
            idx = tuple(conc(i) if is_z(i) else i for i in idx)
            k = tuple(ckey(i) for i in idx)
            h = cache.get(k)
            if h is not None: return h[1]
            v = fn(idx); cache[k] = (idx, v)
            return v
        return rd
    def copy(self):
        return Arr(self.shape, self.kind, self.frozen())
    # -- writing:  match(idx) -> condition, val(idx) -> scalar
    def write(self, match, val):
        if self.base is not None:
            maps, shape = self.maps, self.shape
            def m2(bidx):
                cond, v = self._inv(bidx)
                if cond is False: return False
                return s_and(cond, match(v))
            def v2(bidx):
                _, v = self._inv(bidx); return val(v)
            return self.base.write(m2, v2)
        TOUCH[0](self)
        old = self.frozen()
        kind = self.kind
        def fn(idx):
            c = match(idx)
            if isinstance(c, bool):
                return coerce(val(idx), kind) if c else old(idx)
            c = ring.canon(c)
            if z3.is_true(c): return coerce(val(idx), kind)
            if z3.is_false(c): return old(idx)
            return s_ite(c, coerce(val(idx), kind), old(idx))
        self._fn = fn; self._cache = {}
        if self.wlog is not None: self.wlog.append((match, val))
    def _inv(self, bidx):
        conds = []; v = [None] * len(self.shape)
        for m, b in zip(self.maps, bidx):
            if m[0] == 'fix':
                conds.append(s_cmp('==', b, m[1]))
            else:
                _, vd, start, step = m
                if step == 1: x = s_sub(b, start)
                else:
                    x = s_floordiv(s_sub(b, start), step)
                    conds.append(s_cmp('==', s_mod(s_sub(b, start), step), 0))
                x = conc(canon(x)) if is_z(x) else x
                v[vd] = x
                if not (isinstance(start, int) and start == 0 and step == 1):
                    conds.append(s_cmp('>=', x, 0))
                conds.append(s_cmp('<', x, self.shape[vd]))
        for i in range(len(v)):
            if v[i] is None: v[i] = 0
        return s_and(*conds), tuple(v)
    def setfn(self, fn):
        TOUCH[0](self)
        self._fn = fn; self._cache = {}

def coerce(v, kind):
    if kind == 'i':
        if isinstance(v, (Cx,)): raise Unsupported("complex to int")
        if isinstance(v, NV): raise Unsupported("nan to int")
        return s_trunc(v) if not is_bool_sort(v) else (int(v) if isinstance(v, bool) else zi(v))
    if kind == 'f':
        if isinstance(v, bool): return Fraction(int(v))
        if isinstance(v, int): return Fraction(v)
        if is_bool_sort(v) or is_int_sort(v): return zr(v)
        if isinstance(v, Cx):
            if is_num(v.im) and v.im == 0: return v.re
            return v.re          # numpy discards the imaginary part (with a warning)
        return v
    if kind == 'c':
        return v if isinstance(v, Cx) else Cx(coerce(v, 'f'), Fraction(0))
    if kind == 'b':
        if isinstance(v, (bool, z3.BoolRef)): return v
        return s_cmp('!=', v, 0)
    return v

def kind_of(v):
    if isinstance(v, Arr): return v.kind
    if is_bool_sort(v): return 'b'
    if is_int_sort(v): return 'i'
    if isinstance(v, Cx): return 'c'
    if isinstance(v, (Fraction, float, NV)) or is_real_sort(v): return 'f'
    return 'o'

ORDER = 'bifco'
def kmax(*ks):
    return max(ks, key=lambda k: ORDER.index(k))

def const_arr(shape, kind, v):
    v = coerce(v, kind) if kind != 'o' else v
    return Arr(shape, kind, lambda idx: v)

def from_nested(rows, kind=None):
    """nested python lists of scalars / Arr rows -> Arr with concrete outer dims"""
    if isinstance(rows, Arr): return rows if kind is None or kind == rows.kind else astype(rows, kind)
    if not isinstance(rows, (list, tuple)):
        k = kind or kind_of(rows)
        v = coerce(rows, k)
        return Arr((), k, lambda idx: v)
    subs = [from_nested(r, kind) for r in rows]
    if not subs: return Arr((0,), kind or 'f', lambda idx: Fraction(0))
    sh = subs[0].shape
    for s in subs[1:]:
        if len(s.shape) != len(sh) or not all(dim_eq(a, b) for a, b in zip(s.shape, sh)):
            py_raise('ValueError', 'inhomogeneous shape')
    k = kind or kmax(*[s.kind for s in subs])
    rd = [s.frozen() for s in subs]
    n = len(rd)
    def fn(idx):
        i = idx[0]
        if isinstance(i, int): return coerce(rd[i](idx[1:]), k)
        return pick(i, [coerce(r(idx[1:]), k) for r in rd])
    return Arr((n,) + sh, k, fn)

def pick(i, vals):
    """vals[i] for a symbolic i"""
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = s_ite(ring.canon(zi(i) == j), vals[j], r)
    return r

def astype(a, kind):
    rd = a.frozen()
    return Arr(a.shape, kind, lambda idx: coerce(rd(idx), kind))

def asarr(x):
    if isinstance(x, Arr): return x
    if is_scalar(x) or isinstance(x, complex):
        x = lit(x)
        k = kind_of(x); v = coerce(x, k)
        return Arr((), k, lambda idx: v)
    if hasattr(x, 'to_arr'): return x.to_arr()
    if isinstance(x, (list, tuple)): return from_nested([asarr(y) for y in x])
    raise Unsupported("asarray of %r" % type(x))

def unwrap(a):
    """0-d arrays behave as scalars"""
    if isinstance(a, Arr) and a.ndim == 0: return a.get(())
    return a

def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0: continue
            e = s[j]
            if isinstance(e, int) and e == 1: continue
            if isinstance(d, int) and d == 1: d = e
            elif not dim_eq(d, e):
                if isinstance(d, int) and isinstance(e, int): py_raise('ValueError', 'operands could not be broadcast')
                # a symbolic dimension that may be 1 is not treated as broadcastable
                cur().safety("shapes agree", zi(d) == zi(e))
        out.append(d)
    return tuple(out)

def bidx(idx, shape, nd):
    off = nd - len(shape)
    return tuple(0 if (isinstance(s, int) and s == 1) else idx[off + j] for j, s in enumerate(shape))

def ew(fn, *xs, kind=None):
    """element-wise operation with broadcasting"""
    arrs = [asarr(x) for x in xs]
    if all(a.ndim == 0 for a in arrs):
        return fn(*[a.get(()) for a in arrs])
    sh = bshape([a.shape for a in arrs])
    nd = len(sh)
    rds = [(a.frozen(), a.shape) for a in arrs]
    def f(idx):
        return fn(*[rd(bidx(idx, s, nd)) for rd, s in rds])
    if kind is None: kind = kmax(*[a.kind for a in arrs])
    elif kind == 'f+': kind = kmax('f', *[a.kind for a in arrs])
    elif kind == 'abs':
        kind = arrs[0].kind if arrs[0].kind != 'c' else 'f'
    return Arr(sh, kind, (lambda idx: coerce(f(idx), kind)) if kind in 'ifc' else f)

# ------------------------------------------------------------------ indexing
def norm_index(i, n, what="index"):
    """python index -> 0-based index, with an in-bounds obligation"""
    i = conc(canon(zi(i))) if is_z(i) else i
    if isinstance(i, bool): i = int(i)
    if isinstance(i, Fraction): py_raise('IndexError', 'only integers are valid indices')
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n: py_raise('IndexError', 'index %d out of bounds for size %d' % (i, n))
        return i if i >= 0 else i + n
    c = cur()
    if isinstance(i, int):
        if i >= 0:
            c.safety(what + " in bounds", zi(n) > i, exc='IndexError')
            return i
        c.safety(what + " in bounds", zi(n) >= -i, exc='IndexError')
        return conc(canon(zi(n) + i))
    if c.entails_deep(i >= 0):
        c.safety(what + " in bounds", i < zi(n), exc='IndexError')
        return i
    c.safety(what + " in bounds", z3.And(-zi(n) <= i, i < zi(n)), exc='IndexError')
    if c.entails(i < 0): return conc(canon(i + zi(n)))
    return conc(canon(z3.If(i < 0, i + zi(n), i)))

def slice_bounds(sl, n):
    """(start, stop, step) clipped to the length n"""
    st, en, step = sl
    step = 1 if step is None else conc(step)
    if not isinstance(step, int): raise Unsupported("symbolic slice step")
    c = cur()
    def clip(v):
        v = conc(canon(zi(v))) if is_z(v) else v
        if isinstance(v, Fraction): py_raise('TypeError', 'slice indices must be integers')
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0: v += n
            return min(max(v, 0), n)
        if isinstance(v, int) and v < 0: v = s_add(n, v); v = conc(canon(v))
        if isinstance(v, int) and v == 0: return 0
        if is_z(v):
            if not c.entails(v >= 0):
                v = z3.If(v < 0, z3.If(v + zi(n) < 0, z3.IntVal(0), v + zi(n)), v) if not isinstance(sl[0], int) or sl[0] >= 0 else z3.If(v < 0, z3.IntVal(0), v)
        if c.entails(zi(v) <= zi(n)): return conc(canon(zi(v)))
        return conc(canon(z3.If(zi(v) <= zi(n), zi(v), zi(n))))
    if step > 0:
        a = 0 if st is None else clip(st)
        b = n if en is None else clip(en)
        if isinstance(a, int) and isinstance(b, int):
            return a, max(0, (b - a + step - 1) // step), step
        ln = conc(canon(zi(b) - zi(a)))
        if not (isinstance(a, int) and a == 0) and not c.entails(zi(ln) >= 0):
            ln = conc(canon(z3.If(zi(ln) >= 0, zi(ln), z3.IntVal(0))))
        if step != 1: ln = conc(canon((zi(ln) + (step - 1)) / step))
        return a, ln, step
    if st is None and en is None and step == -1:
        return conc(canon(zi(n) - 1)) if is_z(n) else n - 1, n, -1
    if isinstance(n, int):
        r = range(n)[slice(conc(st), conc(en), step)]
        return r.start, len(r), step
    raise Unsupported("negative slice step")

class SliceV:
    def __init__(self, a, b, c): self.t = (a, b, c)

def expand_key(a, key):
    if not isinstance(key, tuple): key = (key,)
    key = [asarr(k) if (not isinstance(k, (Arr, SliceV)) and k is not None and k is not Ellipsis and not is_scalar(k)) else k for k in key]
    key = [unwrap(k) if isinstance(k, Arr) and k.ndim == 0 else k for k in key]
    used = 0
    for k in key:
        if k is None or k is Ellipsis: continue
        if isinstance(k, Arr) and k.kind == 'b': used += k.ndim
        else: used += 1
    out = []; seen = False
    for k in key:
        if k is Ellipsis:
            seen = True
            out += [SliceV(None, None, None)] * (a.ndim - used)
        else: out.append(k)
    if not seen: out += [SliceV(None, None, None)] * (a.ndim - used)
    if used > a.ndim: py_raise('IndexError', 'too many indices for array')
    return out

def is_adv(k): return isinstance(k, Arr)

def getitem(a, key):
    key = expand_key(a, key)
    if not any(is_adv(k) for k in key):
        v = basic_view(a, key)
        return v.get(()) if v.ndim == 0 else v
    return adv_get(a, key)

def basic_view(a, key):
    shape, maps = [], []
    d = 0
    for k in key:
        if k is None:
            shape.append(1); continue
        n = a.shape[d]
        if isinstance(k, SliceV):
            st, ln, step = slice_bounds(k.t, n)
            maps.append(('rng', len(shape), st, step)); shape.append(ln)
        else:
            if is_bool_sort(k) : raise Unsupported("boolean scalar index")
            maps.append(('fix', norm_index(k, n)))
        d += 1
    return compose_view(a, shape, maps)

def compose_view(a, shape, maps):
    if a.base is None: return Arr(shape, a.kind, None, base=a, maps=maps)
    # compose with an existing view
    out = []
    for m in a.maps:
        if m[0] == 'fix': out.append(m); continue
        _, vd, st, step = m
        m2 = maps[vd]
        if m2[0] == 'fix': out.append(('fix', simpl(s_add(st, s_mul(step, m2[1])))))
        else: out.append(('rng', m2[1], simpl(s_add(st, s_mul(step, m2[2]))), step * m2[3]))
    return Arr(shape, a.kind, None, base=a.base, maps=out)

def simpl(x): return conc(canon(x)) if is_z(x) else x

def transpose(a, axes=None):
    nd = a.ndim
    if axes is None: axes = tuple(range(nd))[::-1]
    axes = tuple(ax % nd for ax in axes)
    inv = {ax: i for i, ax in enumerate(axes)}
    shape = [a.shape[ax] for ax in axes]
    return compose_view(a, shape, [('rng', inv[d], 0, 1) for d in range(nd)])

def mask_to_index(m):
    """1-d boolean array -> integer array of the positions that are True"""
    rd = m.frozen()
    n = m.shape[0]
    if isinstance(n, int):
        vals = [rd((j,)) for j in range(n)]
        vals = [simp_bool(v) for v in vals]
        if all(isinstance(v, bool) for v in vals):
            pos = [j for j in range(n) if vals[j]]
            return from_nested(pos, 'i') if pos else Arr((0,), 'i', lambda idx: 0)
    c = mk_filter(n, lambda j: rd((j,)))
    return Arr((c.T,), 'i', lambda idx: c.seg(idx[0]))

def simp_bool(v):
    if isinstance(v, z3.BoolRef): return conc(canon(v))
    return v

def adv_get(a, key):
    if len(key) and isinstance(key[0], Arr) and key[0].kind == 'b' and key[0].ndim > 1:
        if key[0].ndim == a.ndim and len(key) == 1: raise Unsupported("n-d boolean selection")
    ks = []
    for k in key:
        if isinstance(k, Arr) and k.kind == 'b':
            if k.ndim != 1: raise Unsupported("n-d boolean index")
            ks.append(mask_to_index(k))
        else: ks.append(k)
    advs = [k for k in ks if isinstance(k, Arr)]
    for k in advs:
        if k.kind not in 'i':
            if k.kind == 'f' and k.ndim == 1 and isinstance(k.shape[0], int) and k.shape[0] == 0: k.kind = 'i'
            else: py_raise('IndexError', 'arrays used as indices must be of integer (or boolean) type')
    ash = bshape([k.shape for k in advs])
    # scalar indices take part in the advanced index group
    pos = [i for i, k in enumerate(ks) if isinstance(k, Arr) or (k is not None and not isinstance(k, SliceV))]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    out_shape, plan = [], []
    d = 0; placed = False; where = None
    if not contiguous: where = 0; out_shape += list(ash); placed = True
    src = []
    for i, k in enumerate(ks):
        if k is None:
            out_shape.append(1); continue
        n = a.shape[d]
        if isinstance(k, Arr):
            if not placed: where = len(out_shape); out_shape += list(ash); placed = True
            rd = k.frozen(); sh = k.shape
            bounds_generic(k, n)
            src.append(('adv', rd, sh, n))
        elif isinstance(k, SliceV):
            st, ln, step = slice_bounds(k.t, n)
            src.append(('rng', len(out_shape), st, step)); out_shape.append(ln)
        else:
            if not placed: where = len(out_shape); out_shape += list(ash); placed = True
            src.append(('fix', norm_index(k, n)))
        d += 1
    # positions of slice dims placed before 'where' known; recompute consistent mapping
    base = a.frozen()
    na = len(ash)
    def fn(idx):
        aidx = idx[where:where + na]
        out = []
        for s in src:
            if s[0] == 'adv':
                v = s[1](bidx(aidx, s[2], na))
                v = simpl(v)
                if isinstance(v, int) and isinstance(s[3], int):
                    if v < 0: v += s[3]
                elif isinstance(v, int) and v < 0: v = s_add(s[3], v)
                out.append(v)
            elif s[0] == 'rng': out.append(simpl(s_add(s[2], s_mul(s[3], idx[s[1]]))))
            else: out.append(s[1])
        return base(tuple(out))
    return Arr(tuple(out_shape), a.kind, fn)

def bounds_generic(k, n):
    """in-bounds obligation for every element of an integer index array"""
    c = cur()
    conds = []
    vs = []
    for d, s in enumerate(k.shape):
        if isinstance(s, int) and s <= 6: vs.append(('c', s))
        else:
            g = c.generic('x'); vs.append(('g', g, s))
    import itertools
    rd = k.frozen()
    for combo in itertools.product(*[range(v[1]) if v[0] == 'c' else [v[1]] for v in vs]):
        hyp = s_and(*[s_and(s_cmp('>=', v[1], 0), s_cmp('<', v[1], v[2])) for v in vs if v[0] == 'g'])
        e = rd(tuple(combo))
        lowok = s_cmp('>=', e, s_neg(n))
        c.safety("fancy index in bounds", s_implies(hyp, s_and(s_cmp('>=', e, 0), s_cmp('<', e, n))))

def setitem(a, key, val):
    key = expand_key(a, key)
    if len(key) >= 1 and isinstance(key[0], Arr) and key[0].kind == 'b' and key[0].ndim == a.ndim:
        m = key[0].frozen()
        v = unwrap(asarr(val))
        if isinstance(v, Arr):
            if isinstance(v.shape[0], int) and v.shape[0] == 1: v = v.get((0,))
            elif a.ndim == 1:
                rd = v.frozen(); mi = mk_filter(a.shape[0], lambda j: m((j,)))
                cur().safety("boolean assignment sizes", s_cmp('==', mi.T, v.shape[0]))
                a.write(lambda idx: m(idx), lambda idx: rd((mi.off(idx[0]),)))
                return
            else: raise Unsupported("boolean assignment of arrays")
        a.write(lambda idx: m(idx), lambda idx: v)
        return
    if not any(is_adv(k) for k in key):
        view = basic_view(a, key)
        v = asarr(val)
        if view.ndim == 0:
            x = unwrap(v)
            if isinstance(x, Arr): py_raise('ValueError', 'setting an array element with a sequence')
            view.write(lambda idx: True, lambda idx: x)
            return
        sh = bshape([view.shape, v.shape])
        if len(sh) > view.ndim: py_raise('ValueError', 'could not broadcast input array')
        for p, q in zip(sh, view.shape):
            if not dim_eq(p, q): py_raise('ValueError', 'could not broadcast input array')
        rd = v.frozen(); vs = v.shape; nd = view.ndim
        view.write(lambda idx: True, lambda idx: rd(bidx(idx, vs, nd)))
        return
    # integer array index
    advs = [(i, k) for i, k in enumerate(key) if is_adv(k)]
    if len(advs) == 1:
        i, k = advs[0]
        if k.kind == 'b': k = mask_to_index(k)
        if k.ndim == 1 and isinstance(k.shape[0], int):
            v = asarr(val)
            for j in range(k.shape[0]):
                kk = list(key); kk[i] = k.get((j,))
                if v.ndim == 0: setitem(a, tuple(kk), v.get(()))
                else: setitem(a, tuple(kk), getitem(v, (SliceV(None, None, None),) * i + (j,)) if v.ndim > i else getitem(v, j))
            return
    raise Unsupported("scatter assignment with index arrays")

# ------------------------------------------------------------------ reductions
def norm_axis(ax, nd):
    ax = conc(ax) if is_z(ax) else ax
    if ax < -nd or ax >= nd: py_raise('ValueError', 'axis out of bounds')
    return ax % nd

def rsum(lo, n, fn):
    return mk_sum(0, n, fn)

def reduce_axes(a, axes, red, kind):
    """red(n, fn) reduces one dimension"""
    rd = a.frozen()
    axes = sorted(axes)
    rest = [d for d in range(a.ndim) if d not in axes]
    def fn(idx):
        full = [None] * a.ndim
        for d, i in zip(rest, idx): full[d] = i
        def go(k, full):
            if k == len(axes): return rd(tuple(full))
            def g(j):
                f2 = list(full); f2[axes[k]] = j
                return go(k + 1, f2)
            return red(a.shape[axes[k]], g)
        return go(0, full)
    r = Arr(tuple(a.shape[d] for d in rest), kind, fn)
    return unwrap(r)

def a_sum(a, axis=None):
    a = asarr(a)
    if a.ndim == 0: return a.get(())
    axes = range(a.ndim) if axis is None else ([norm_axis(x, a.ndim) for x in axis] if isinstance(axis, (tuple, list)) else [norm_axis(axis, a.ndim)])
    kind = 'i' if a.kind == 'b' else a.kind
    if a.kind == 'b':
        b = a.frozen(); a = Arr(a.shape, 'i', lambda idx: coerce(b(idx), 'i'))
    r = reduce_axes(a, list(axes), lambda n, f: mk_sum(0, n, f), kind)
    if not isinstance(r, Arr): r = coerce(r, kind) if kind in 'fc' else r
    elif kind == 'f' and all(isinstance(a.shape[d], int) and 0 < a.shape[d] <= 4 for d in axes) and are_squares(a): r = opaque(r)
    return r

def are_squares(a):
    e = a.get(tuple(0 if isinstance(d, int) else bvar() for d in a.shape)) if not any(isinstance(d, int) and d == 0 for d in a.shape) else None
    return is_z(e) and z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1))

def a_all(a, axis=None):
    a = asarr(a)
    if a.ndim == 0: return coerce(a.get(()), 'b')
    axes = range(a.ndim) if axis is None else [norm_axis(axis, a.ndim)]
    return reduce_axes(astype(a, 'b'), list(axes), mk_all, 'b')
def a_any(a, axis=None):
    a = asarr(a)
    if a.ndim == 0: return coerce(a.get(()), 'b')
    axes = range(a.ndim) if axis is None else [norm_axis(axis, a.ndim)]
    return reduce_axes(astype(a, 'b'), list(axes), mk_any, 'b')

def a_ext(a, kind, axis=None):
    a = asarr(a)
    if a.ndim == 0: return a.get(())
    axes = range(a.ndim) if axis is None else [norm_axis(axis, a.ndim)]
    for x in axes:
        n = a.shape[x]
        if isinstance(n, int):
            if n == 0: py_raise('ValueError', 'zero-size array to reduction operation')
        else:
            if not cur().branch(n > 0): py_raise('ValueError', 'zero-size array to reduction operation')
    return reduce_axes(a, list(axes), lambda n, f: mk_ext(kind, n, f), a.kind)

def a_mean(a, axis=None):
    a = asarr(a)
    axes = list(range(a.ndim)) if axis is None else [norm_axis(axis, a.ndim)]
    n = 1
    for x in axes: n = s_mul(n, a.shape[x])
    return ew(lambda v: s_div(v, n), a_sum(a, axis), kind='f+')

def a_prod(a, axis=None):
    a = asarr(a)
    if axis is not None or not all(isinstance(d, int) for d in a.shape): raise Unsupported("prod")
    r = 1
    import itertools
    for idx in itertools.product(*[range(d) for d in a.shape]): r = s_mul(r, a.get(idx))
    return r

# ------------------------------------------------------------------ products
def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: return ew(s_mul, a, b)
    ka, kb = a.ndim - 1, (b.ndim - 2 if b.ndim >= 2 else 0)
    if not dim_eq(a.shape[ka], b.shape[kb]):
        if isinstance(a.shape[ka], int) and isinstance(b.shape[kb], int): py_raise('ValueError', 'shapes not aligned')
        cur().safety("dot shapes agree", zi(a.shape[ka]) == zi(b.shape[kb]))
    n = a.shape[ka]
    ra, rb = a.frozen(), b.frozen()
    sh = a.shape[:-1] + tuple(s for i, s in enumerate(b.shape) if i != kb)
    na = a.ndim - 1
    kind = kmax(a.kind, b.kind, 'i')
    def fn(idx):
        ia, ib = idx[:na], idx[na:]
        return mk_sum(0, n, lambda k: s_mul(ra(ia + (k,)), rb(ib[:kb] + (k,) + ib[kb:])))
    r = Arr(sh, kind, lambda idx: coerce(fn(idx), kind) if kind in 'fc' else fn(idx))
    return unwrap(r)

def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: py_raise('ValueError', 'matmul: scalar operand')
    if a.ndim <= 2 and b.ndim <= 2: return dot(a, b)
    # batched
    la = a if a.ndim > 1 else None
    if a.ndim < 2 or b.ndim < 2: 
        if b.ndim == 1: return dot(a, b)
        raise Unsupported("batched matmul with vectors")
    bs = bshape([a.shape[:-2], b.shape[:-2]]) if a.ndim > 2 or b.ndim > 2 else ()
    nb = len(bs)
    n = a.shape[-1]
    ra, rb = a.frozen(), b.frozen()
    sa, sb = a.shape[:-2], b.shape[:-2]
    def fn(idx):
        p, i, j = idx[:nb], idx[nb], idx[nb + 1]
        return mk_sum(0, n, lambda k: s_mul(ra(bidx(p, sa, nb) + (i, k)), rb(bidx(p, sb, nb) + (k, j))))
    return Arr(bs + (a.shape[-2], b.shape[-1]), kmax(a.kind, b.kind), fn)

def einsum(spec, *ops):
    ops = [asarr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '.' in spec: raise Unsupported("einsum ellipsis")
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops): py_raise('ValueError', 'einsum operands')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim: py_raise('ValueError', 'einsum: operand has wrong number of dimensions')
        for c, d in zip(s, o.shape):
            if c in dims:
                if isinstance(dims[c], int) and dims[c] == 1: dims[c] = d
                elif isinstance(d, int) and d == 1: pass
                elif not dim_eq(dims[c], d):
                    if isinstance(d, int) and isinstance(dims[c], int): py_raise('ValueError', 'einsum dims')
                    cur().safety("einsum shapes agree", zi(d) == zi(dims[c]))
            else: dims[c] = d
    rds = [o.frozen() for o in ops]
    red = []
    for s in ins:
        for c in s:
            if c not in out and c not in red: red.append(c)
    # innermost: symbolic dims (sums distribute), outermost concrete
    red.sort(key=lambda c: 0 if isinstance(dims[c], int) else 1)
    kind = kmax(*[o.kind for o in ops])
    def fn(idx):
        env = dict(zip(out, idx))
        def go(k, env):
            if k == len(red):
                r = 1
                for s, rd in zip(ins, rds): r = s_mul(r, rd(tuple(env[c] for c in s)))
                return r
            c = red[k]
            if all(is_z(dims[q]) for q in red[k:]) and len(red) - k > 1:
                sc = scatter_sum([dims[q] for q in red[k:]], lambda xs: go(len(red), {**env, **dict(zip(red[k:], xs))}))
                if sc is not None: return sc
            return mk_sum(0, dims[c], lambda j: go(k + 1, {**env, c: j}))
        r = go(0, env)
        return coerce(r, kind) if kind in 'fc' else r
    r = unwrap(Arr(tuple(dims[c] for c in out), kind, fn))
    if len(ops) == 2 and ins[0] == ins[1] and ops[0] is ops[1] and kind == 'f' and isinstance(r, Arr) and red and all(isinstance(dims[c], int) for c in red): r = opaque(r)
    return r

def a_trace(a):
    a = asarr(a)
    rd = a.frozen()
    return mk_sum(0, a.shape[0], lambda j: rd((j, j)))

def tolist2(a):
    return [[a.get((i, j)) for j in range(a.shape[1])] for i in range(a.shape[0])]

def inv(a):
    a = asarr(a)
    if a.ndim != 2 or not all(isinstance(d, int) and d <= 3 for d in a.shape): raise Unsupported("inv of this shape")
    X = mk_inv([[x if isinstance(x, Cx) else coerce(x, 'f') for x in r] for r in tolist2(a)])
    return from_nested(X, 'c' if a.kind == 'c' else 'f')

def det(a):
    a = asarr(a)
    if a.ndim != 2 or not isinstance(a.shape[0], int):
        raise Unsupported("det of this shape")
    return det_expr(tolist2(a))

def norm(a, axis=None):
    a = asarr(a)
    sq = ew(lambda x: s_mul(x, s_conj(x)) if isinstance(x, Cx) else s_mul(x, x), a)
    if a.kind == 'c':
        b = sq; sq = ew(lambda x: s_re(x), b, kind='f')
    s = a_sum(sq, axis)
    return ew(s_sqrt, opaque(s), kind='f')

def opaque(a):
    """same content, large element expressions hidden behind an operator (definition by content)"""
    if not isinstance(a, Arr): a = asarr(a)
    src = a.frozen(); kind = a.kind
    memo = {}
    if kind not in ('f', 'i'): return a
    def fn(idx):
        key = tuple(i if isinstance(i, int) else None for i in idx)
        h = memo.get(key)
        if h is None:
            xs = [i if isinstance(i, int) else bvar() for i in idx]
            e = src(tuple(xs))
            bs = [x for x in xs if is_z(x)]
            if not is_z(e) or not big_term(e): h = (None, None)
            else: h = abstract('DEF', [e], bs, {'v': ((z3.IntSort(),) * len(bs), toz(e).sort())})
            memo[key] = h
        d, params = h
        if d is None: return src(idx)
        return app(d, 'v', [zi(i) for i in idx if not isinstance(i, int)], params)
    return Arr(a.shape, kind, fn)

def big_term(e, lim=25):
    n = 0; st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); n += 1
        if n > lim: return True
        st.extend(x.children())
    return False

def cumsum(a):
    a = asarr(a)
    if a.ndim != 1: raise Unsupported("cumsum n-d")
    rd = a.frozen()
    return Arr(a.shape, a.kind if a.kind != 'b' else 'i', lambda idx: mk_sum(0, s_add(idx[0], 1), lambda j: rd((j,))))

def concatenate(xs, axis=0):
    xs = [asarr(x) for x in xs]
    xs = [x for x in xs]
    nd = xs[0].ndim
    axis = norm_axis(axis, nd)
    for x in xs:
        if x.ndim != nd: py_raise('ValueError', 'dimensions mismatch in concatenate')
        for d in range(nd):
            if d != axis and not dim_eq(x.shape[d], xs[0].shape[d]):
                if isinstance(x.shape[d], int) and isinstance(xs[0].shape[d], int): py_raise('ValueError', 'concatenate dims')
                cur().safety("concatenate shapes agree", zi(x.shape[d]) == zi(xs[0].shape[d]))
    ks = [x.kind for x in xs if not (isinstance(x.shape[axis], int) and x.shape[axis] == 0)] or [xs[0].kind]
    kind = kmax(*[x.kind for x in xs])
    rds = [x.frozen() for x in xs]
    ns = [x.shape[axis] for x in xs]
    offs = [0]
    for n in ns: offs.append(simpl(s_add(offs[-1], n)))
    def fn(idx):
        i = idx[axis]
        if isinstance(i, int) and all(isinstance(o, int) for o in offs):
            for k in range(len(ns)):
                if i < offs[k + 1]: return coerce(rds[k](idx[:axis] + (i - offs[k],) + idx[axis + 1:]), kind)
            raise Unsupported("concatenate index")
        r = None
        for k in range(len(ns) - 1, -1, -1):
            if isinstance(ns[k], int) and ns[k] == 0: continue
            j = simpl(s_sub(i, offs[k]))
            if isinstance(ns[k], int) and ns[k] == 1: j = 0
            v = coerce(rds[k](idx[:axis] + (j,) + idx[axis + 1:]), kind)
            if r is None: r = v
            else:
                c = s_cmp('<', i, offs[k + 1])
                c = simp_bool(c) if is_z(c) else c
                if isinstance(r, float) != isinstance(v, float) and is_z(c):      # an infinite piece: take the one the context selects
                    if cur().entails(c): r = v; continue
                    if cur().entails(s_not(c)): continue
                r = s_ite(c, v, r)
        if r is None: raise Unsupported("empty concatenate")
        return r
    sh = list(xs[0].shape); sh[axis] = offs[-1]
    return Arr(sh, kind, fn)

def hstack(xs):
    xs = [asarr(x) for x in xs]
    xs = [Arr((1,), x.kind, (lambda v: lambda idx: v)(x.get(()))) if x.ndim == 0 else x for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)

def vstack(xs):
    xs = [asarr(x) for x in xs]
    xs = [expand_dims(x, 0) if x.ndim == 1 else x for x in xs]
    return concatenate(xs, 0)

def expand_dims(x, ax):
    key = [SliceV(None, None, None)] * x.ndim
    key.insert(ax, None)
    return basic_view(x, key)

def stack(xs, axis=0):
    xs = [asarr(x) for x in xs]
    nd = xs[0].ndim + 1
    axis = norm_axis(axis, nd)
    return concatenate([expand_dims(x, axis) for x in xs], axis)

def prod_dims(sh):
    r = 1
    for d in sh: r = s_mul(r, d)
    return simpl(r)

def reshape(a, shape):
    a = asarr(a)
    shape = [simpl(s) if is_z(s) else s for s in shape]
    tot = prod_dims(a.shape)
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
        rest = prod_dims([s for i, s in enumerate(shape) if i != k])
        if isinstance(tot, int) and isinstance(rest, int):
            if rest == 0 or tot % rest: py_raise('ValueError', 'cannot reshape')
            shape[k] = tot // rest
        else:
            # symbolic: look for a common factor
            if dim_eq(tot, rest): shape[k] = 1
            elif isinstance(rest, int) and rest == 1: shape[k] = tot
            else:
                q = [d for d in a.shape if not isinstance(d, int)]
                cand = None
                for d in a.shape:
                    if dim_eq(tot, s_mul(rest, d)): cand = d
                if cand is None: raise Unsupported("reshape -1 symbolic")
                shape[k] = cand
    t2 = prod_dims(shape)
    if not dim_eq(tot, t2):
        if isinstance(tot, int) and isinstance(t2, int): py_raise('ValueError', 'cannot reshape array')
        cur().safety("reshape size", zi(tot) == zi(t2))
    rd = a.frozen()
    osh = a.shape
    nsh = tuple(shape)
    # strip leading equal dims
    def fn(idx):
        # common leading dims
        k = 0
        while k < len(osh) and k < len(nsh) and dims_same(osh[k], nsh[k]): k += 1
        lead = idx[:k]
        flat = 0
        for d in range(k, len(nsh)): flat = s_add(s_mul(flat, nsh[d]), idx[d])
        out = []
        rem = flat
        tail = list(osh[k:])
        for d in range(len(tail)):
            sz = prod_dims(tail[d + 1:])
            if d == len(tail) - 1: out.append(simpl(rem))
            elif isinstance(tail[d], int) and tail[d] == 1 and False: out.append(0)
            else:
                q = simpl(s_floordiv(rem, sz)); out.append(q)
                rem = simpl(s_sub(rem, s_mul(q, sz)))
        if len(tail) == 0: pass
        return rd(tuple(lead) + tuple(out))
    return Arr(nsh, a.kind, fn)

def dims_same(a, b):
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    return canon(a).eq(canon(b))

def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8)):
    def f(x, y):
        if isinstance(x, NV) or isinstance(y, NV):
            fx, fy = to_nv(x), to_nv(y)
            return s_and(s_not(s_or(fx.nan, fy.nan)), f(fx.val, fy.val))
        if isinstance(x, float) or isinstance(y, float):
            return s_cmp('==', x, y)
        d = s_abs(s_sub(x, y))
        tol = s_add(atol, s_mul(rtol, s_abs(y))) if not (is_num(rtol) and rtol == 0) else atol
        return s_cmp('<=', d, tol)
    return ew(f, a, b, kind='b')

def allclose(a, b, **k): return a_all(asarr(isclose(a, b, **k)))

def argsort(a):
    a = asarr(a)
    if a.ndim != 1: raise Unsupported("argsort n-d")
    rd = a.frozen(); n = a.shape[0]
    if isinstance(n, int):
        vals = [rd((j,)) for j in range(n)]
        if all(is_num(v) for v in vals):
            o = sorted(range(n), key=lambda j: vals[j])
            return from_nested(o, 'i') if o else Arr((0,), 'i', lambda idx: 0)
    p = Perm(n, lambda j: rd((j,)))
    return Arr((n,), 'i', lambda idx: p.at(idx[0]))

def sort(a):
    a = asarr(a)
    ix = argsort(a)
    return getitem(a, ix)

def cross(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != 1 or b.ndim != 1: raise Unsupported("cross n-d")
    A = [a.get((i,)) for i in range(3)]; B = [b.get((i,)) for i in range(3)]
    r = [s_sub(s_mul(A[(i + 1) % 3], B[(i + 2) % 3]), s_mul(A[(i + 2) % 3], B[(i + 1) % 3])) for i in range(3)]
    return from_nested(r)

def roll(a, s):
    a = asarr(a)
    if a.ndim != 1: raise Unsupported("roll n-d")
    rd = a.frozen(); n = a.shape[0]
    return Arr(a.shape, a.kind, lambda idx: rd((simpl(s_mod(s_sub(idx[0], s), n)),)))

def a_round(a, decimals=0):
    decimals = conc(decimals)
    def f(x):
        if isinstance(x, Cx): return Cx(f(x.re), f(x.im))
        if isinstance(x, NV): return NV(f(x.val), x.nan)
        if is_int_sort(x): return x
        if isinstance(x, float): return x
        if decimals == 0:
            r = s_round_int(x)
            return Fraction(r) if is_num(r) else z3.ToReal(r)
        sc = Fraction(10) ** decimals
        r = s_round_int(s_mul(x, sc))
        return s_div(r, sc) if is_num(r) else zr(r) / zr(sc)
    return ew(f, a)

def where(c, a, b):
    k = kmax(kind_of(asarr(a)), kind_of(asarr(b)))
    return ew(lambda x, y, z: s_ite(simp_bool(coerce(x, 'b')), coerce(y, k), coerce(z, k)), c, a, b, kind=k)

def arange(*args):
    args = [unwrap(x) if isinstance(x, Arr) else x for x in args]
    lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    st = conc(st)
    if not isinstance(st, int) or st != 1:
        if all(isinstance(x, int) for x in (lo, hi, st)):
            return from_nested(list(range(lo, hi, st)), 'i')
        raise Unsupported("arange step")
    n = simpl(s_sub(hi, lo))
    if isinstance(n, int): n = max(0, n)
    elif isinstance(n, Fraction): raise Unsupported("float arange")
    elif not cur().entails(n >= 0): n = z3.If(n >= 0, n, z3.IntVal(0))
    return Arr((n,), 'i', lambda idx: simpl(s_add(lo, idx[0])))

ANGLE = ATAN2
def angle(x):
    if isinstance(x, Cx):
        if is_num(x.re) and is_num(x.im) and x.im == 0: return Fraction(0) if x.re >= 0 else PI
        return ATAN2(zr(x.im), zr(x.re))
    if is_num(x): return Fraction(0) if x >= 0 else PI
    return z3.If(zr(x) >= 0, z3.RealVal(0), PI)
