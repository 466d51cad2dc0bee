"""Containers, objects and strings of the interpreted program."""
import z3
from .core import *
from . import ring
from .binders import *
from .arr import *
from .ctx import cur

UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()

class LazyV:
    """content of a variable, worked out (with its case distinctions) when the variable is read"""
    def __init__(self, thunk): self.thunk = thunk
class HavocV:
    """value of a cell at the start of an arbitrary iteration, of a type that cannot be summarised"""
    def __init__(self, what): self.what = what

class Opt:
    """None when `none` holds, else val"""
    def __init__(self, none, val): self.none, self.val = none, val

# ---------------------------------------------------------------- journal of mutations
from . import arr as _arr
BIRTH = _arr.BIRTH
def born():
    BIRTH[0] += 1
    return BIRTH[0]
class Journal:
    def __init__(self):
        self.start = born(); self.old = {}; self.order = []
    def touch(self, o):
        if o.birth < self.start and id(o) not in self.old:
            self.old[id(o)] = (o, o.snap()); self.order.append(o)
    def rollback(self):
        for o, s in self.old.values(): o.restore(s)
JR = []
def touch(o):
    if JR: JR[-1].touch(o)
_arr.TOUCH[0] = touch

class SegItems:
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
class SegSeq:
    """n values fn(0..n-1)"""
    def __init__(self, n, fn, seq=None):
        self.n, self._init = n, None
        self.cache = {}
        self.fn = fn; self.seq = seq
    __slots__ = ('n', 'fn', 'cache', 'seq', '_init')
    def at(self, i):
        i = simpl(i) if is_z(i) else i
        k = ckey(i)
        h = self.cache.get(k)
        if h is None:
            h = (i, self.fn(i)); self.cache[k] = h
        return h[1]
class SegHole:
    """unknown content of unknown length (start-of-iteration value of a list)"""
    __slots__ = ('n', 'what')
    def __init__(self, n, what): self.n, self.what = n, what
    def at(self, i): raise Unsupported("content of %s from earlier iterations" % self.what)

class PList:
    def snap(self): return self.segs
    def restore(self, s): self.segs = s
    def __init__(self, items=(), segs=None):
        self.birth = born()
        self.segs = tuple(segs) if segs is not None else ((SegItems(items),) if len(items) else ())
    def length(self):
        n = 0
        for s in self.segs: n = s_add(n, len(s.items) if isinstance(s, SegItems) else s.n)
        return simpl(n)
    def concrete(self):
        """python list of the items when the length is concrete, else None"""
        out = []
        for s in self.segs:
            if isinstance(s, SegItems): out += list(s.items)
            elif isinstance(s.n, int) and not isinstance(s, SegHole): out += [s.at(i) for i in range(s.n)]
            else: return None
        return out
    def append(self, v):
        touch(self)
        if self.segs and isinstance(self.segs[-1], SegItems):
            self.segs = self.segs[:-1] + (SegItems(self.segs[-1].items + (v,)),)
        else: self.segs = self.segs + (SegItems((v,)),)
    def extend_segs(self, segs):
        touch(self)
        for s in segs:
            if isinstance(s, SegItems):
                for v in s.items: self.append(v)
            elif isinstance(s.n, int) and s.n == 0: pass
            else: self.segs = self.segs + (s,)
    def get(self, i):
        """element i (0 <= i < length already established); may need a merge of values"""
        items = self.concrete() if isinstance(i, int) else None
        if isinstance(i, int):
            off = 0
            for s in self.segs:
                n = len(s.items) if isinstance(s, SegItems) else s.n
                if isinstance(n, int):
                    if i < off + n: return s.items[i - off] if isinstance(s, SegItems) else s.at(i - off)
                    off += n
                else:
                    break
        segs = [s for s in self.segs]
        if len(segs) == 1 and not isinstance(segs[0], SegItems): return segs[0].at(i)
        # symbolic position: decide the segment (fork only if the values cannot be merged)
        opts = []; off = 0
        for s in segs:
            if isinstance(s, SegItems):
                for v in s.items:
                    opts.append((s_cmp('<', i, s_add(off, 1)), (lambda v=v: v))); off = simpl(s_add(off, 1))
            else:
                opts.append((s_cmp('<', i, s_add(off, s.n)), (lambda s=s, off=off: s.at(simpl(s_sub(i, off))))))
                off = simpl(s_add(off, s.n))
        for q in range(len(opts)):                 # the position is known to lie in one segment
            lo = True if q == 0 else s_not(opts[q - 1][0])
            if lo is not True and not cur().entails(zb(lo)): break
            if q == len(opts) - 1 or cur().entails(zb(opts[q][0])): return opts[q][1]()
        vals = []
        def under(q):
            cc = cur(); n0 = len(cc.extra)
            cc.extra += [zb(x) for x in ([opts[q][0]] if q < len(opts) - 1 else []) + ([s_not(opts[q - 1][0])] if q else [])]
            try: return opts[q][1]()
            finally: del cc.extra[n0:]
        try:
            r = None
            for q in reversed(range(len(opts))):
                c = opts[q][0]
                v = under(q)
                r = v if r is None else merge(simp_bool(c), v, r)
            if r is None: raise Unsupported("index into empty list")
            return r
        except MergeError:
            for c, f in opts[:-1]:
                if cur().branch(c): return f()
            return opts[-1][1]()
    def to_arr(self):
        it = self.concrete()
        if it is not None:
            if not it: return Arr((0,), 'f', lambda idx: Fraction(0))
            return from_nested([asarr(x) for x in it])
        parts = []
        for s in self.segs:
            if isinstance(s, SegItems): parts.append(from_nested([asarr(x) for x in s.items]))
            else: parts.append(seq_to_arr(s))
        return parts[0] if len(parts) == 1 else concatenate(parts, 0)
    def __repr__(self): return "PList(len=%s)" % (self.length(),)

def seq_to_arr(s):
    g = cur().generic('e')
    cur().assume_range(g, s.n) if hasattr(cur(), 'assume_range') else None
    p = asarr(s.at(g))
    for d in p.shape:
        if is_z(d) and depends(d, g): raise Unsupported("ragged array")
    kind = p.kind
    def fn(idx):
        a = asarr(s.at(idx[0]))
        return coerce(a.get(idx[1:]), kind) if kind in 'ifcb' else a.get(idx[1:])
    return Arr((s.n,) + p.shape, kind, fn)

class MergeError(Unsupported): pass

MERGE_DIMS = [False]     # merge vectors of different lengths (elements of a concatenation)
def merge(c, a, b):
    """value-level if-then-else"""
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if is_scalar(a) and is_scalar(b): return s_ite(c, a, b)
    if isinstance(a, str) and isinstance(b, str) and a == b: return a
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.shape) == len(b.shape) and all(dims_same(x, y) for x, y in zip(a.shape, b.shape)):
            ra, rb = a.frozen(), b.frozen(); k = kmax(a.kind, b.kind)
            return Arr(a.shape, k, lambda idx: s_ite(c, coerce(ra(idx), k), coerce(rb(idx), k)))
        if MERGE_DIMS[0] and len(a.shape) == len(b.shape) == 1:
            ra, rb = a.frozen(), b.frozen(); k = kmax(a.kind, b.kind)
            return Arr((simpl(s_ite(c, a.shape[0], b.shape[0])),), k, lambda idx: s_ite(c, coerce(ra(idx), k), coerce(rb(idx), k)))
    if isinstance(a, Arr) and a.ndim == 0: return merge(c, a.get(()), b)
    if isinstance(b, Arr) and b.ndim == 0: return merge(c, a, b.get(()))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, ObjRef) and isinstance(b, ObjRef) and a.seq is b.seq:
        return ObjRef(a.seq, s_ite(c, a.idx, b.idx))
    if isinstance(a, PList) and isinstance(b, PList):
        x, y = a.concrete(), b.concrete()
        if x is not None and y is not None and len(x) == len(y):
            return PList([merge(c, p, q) for p, q in zip(x, y)])
        n1, n2 = a.length(), b.length()
        n = simpl(s_ite(c, n1, n2))
        return PList(segs=(SegSeq(n, lambda i: merge(c, a.get(i), b.get(i))),))
    if (a is None or is_scalar(a) or isinstance(a, Opt)) and (b is None or is_scalar(b) or isinstance(b, Opt)):
        an, bn = opt_none(a), opt_none(b)
        av, bv = opt_val(a), opt_val(b)
        if av is None: av = bv
        if bv is None: bv = av
        if av is None: return None
        return Opt(s_ite(c, an, bn), s_ite(c, av, bv))
    raise MergeError("cannot merge %r and %r" % (type(a), type(b)))

def opt_none(a): return True if a is None else (a.none if isinstance(a, Opt) else False)
def opt_val(a): return None if a is None else (a.val if isinstance(a, Opt) else a)

class SymEntries:
    """entries for the labels 0..n-1 of a label space: present when has(i), with value val(i)"""
    def __init__(self, space, n, has, val): self.space, self.n, self.has, self.val = space, n, has, val

INTKEYS = '#int'     # label space of integer keys
class PDict:
    def __init__(self, items=()):
        self.birth = born()
        self.keys, self.vals = [], []
        self.sym = ()        # symbolic entries: SymEntries
        for k, v in items: self.set(k, v)
    def snap(self): return (list(self.keys), list(self.vals), self.sym)
    def restore(self, s): self.keys, self.vals, self.sym = list(s[0]), list(s[1]), s[2]
    def _find(self, k):
        for i, q in enumerate(self.keys):
            e = py_eq(q, k)
            if isinstance(e, bool):
                if e: return i
            else:
                if cur().branch(e): return i
        return -1
    def set(self, k, v):
        touch(self)
        i = self._find(k)
        if i >= 0: self.vals[i] = v
        else: self.keys.append(k); self.vals.append(v)
    def find_sym(self, k):
        """(condition that the key is present, value) among the symbolic entries"""
        if isinstance(k, KeyRef):
            for e in self.sym:
                if e.space == k.space:
                    return s_and(s_cmp('<=', 0, k.idx), s_cmp('<', k.idx, e.n), e.has(k.idx)), (lambda: e.val(k.idx))
        elif is_scalar(k):
            for e in self.sym:
                if e.space == INTKEYS: return e.has(k), (lambda: e.val(k))
        elif self.sym: raise Unsupported("key of a dictionary with symbolic entries")
        return False, None
    def get(self, k):
        i = self._find(k)
        if i >= 0: return self.vals[i]
        c, v = self.find_sym(k)
        if v is not None and (c if isinstance(c, bool) else cur().branch(c)): return v()
        py_raise('KeyError', k)
    def has(self, k):
        if self._find(k) >= 0: return True
        return self.find_sym(k)[0]

class PSet:
    def __init__(self, items=()):
        self.birth = born(); self.items = []; self.plist = None
        for v in items: self.add(v)
    def snap(self): return list(self.items)
    def restore(self, s): self.items = list(s)
    def add(self, v):
        touch(self)
        for q in self.items:
            e = py_eq(q, v)
            if isinstance(e, bool):
                if e: return
            elif cur().branch(e): return
        self.items.append(v)

def py_eq(a, b):
    """== on values, as a condition"""
    if is_scalar(a) and is_scalar(b): return simp_bool(s_cmp('==', a, b))
    if isinstance(a, str) and isinstance(b, str): return a == b
    if a is None or b is None: return a is b
    if isinstance(a, (str,)) != isinstance(b, (str,)) and (is_scalar(a) or is_scalar(b)): return False
    if isinstance(a, KeyRef) and isinstance(b, KeyRef): 
        if a.space != b.space: return False
        return simp_bool(s_cmp('==', a.idx, b.idx))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        return s_and(*[py_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, PList) and isinstance(b, PList):
        x, y = a.concrete(), b.concrete()
        if x is not None and y is not None:
            if len(x) != len(y): return False
            return s_and(*[py_eq(p, q) for p, q in zip(x, y)])
    if isinstance(a, (Obj, ObjRef)) and isinstance(b, (Obj, ObjRef)):
        if isinstance(a, ObjRef) and isinstance(b, ObjRef) and a.seq is b.seq: return simp_bool(s_cmp('==', a.idx, b.idx))
        return a is b
    if a is b: return True
    raise Unsupported("equality of %r and %r" % (type(a), type(b)))

class KeyRef:
    """opaque distinct label number idx of a label space"""
    def __init__(self, space, idx): self.space, self.idx = space, idx

class Obj:
    def __init__(self, cls, attrs=None): self.cls = cls; self.attrs = dict(attrs or {}); self.birth = born()
    def snap(self): return dict(self.attrs)
    def restore(self, s): self.attrs = dict(s)
    def __repr__(self): return "<%s>" % getattr(self.cls, 'name', self.cls)

class ObjSeq:
    """n objects of one class; attribute arrays have a leading dimension n"""
    def __init__(self, n, cls, attrs): self.n, self.cls, self.attrs = n, cls, dict(attrs)
class ObjRef:
    def __init__(self, seq, idx): self.seq, self.idx = seq, idx
    def __repr__(self): return "<%s[%s]>" % (getattr(self.seq.cls, 'name', '?'), self.idx)

def seq_list(seq):
    return PList(segs=(SegSeq(seq.n, lambda i: ObjRef(seq, i), seq=seq),))

class SStr:
    """text made of literal pieces and formatted values: pieces are str or (value, spec)"""
    def __init__(self, pieces): 
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str): out[-1] += p; continue
            out.append(p)
        self.pieces = out
    def __add__(self, o): return SStr(self.pieces + (o.pieces if isinstance(o, SStr) else [o]))

class AltStr:
    """one of two texts; every use decides which"""
    def __init__(self, cond, a, b): self.cond, self.a, self.b = cond, a, b
    def pick(self): return self.a if cur().branch(self.cond) else self.b

class OpaqueStr:
    def __init__(self, why=''): self.why = why

class RangeV:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
    def length(self):
        st = conc(self.step)
        if not isinstance(st, int): raise Unsupported("symbolic step")
        lo, hi = self.lo, self.hi
        if isinstance(lo, int) and isinstance(hi, int): return len(range(lo, hi, st))
        if isinstance(hi, float) : return None
        d = simpl(s_sub(hi, lo))
        if st == 1: n = d
        elif st == -1: n = simpl(s_neg(d))
        elif st > 0: n = simpl(s_floordiv(s_add(d, st - 1), st))
        else: raise Unsupported("range step")
        if isinstance(n, int): return max(0, n)
        if cur().entails(n >= 0): return n
        return z3.If(n >= 0, n, z3.IntVal(0))
    def at(self, i): return simpl(s_add(self.lo, s_mul(i, self.step)))

class Frame:
    def __init__(self, module, parent=None, func=None):
        self.module, self.parent, self.func = module, parent, func
        self.vars = {}; self.nonlocals = set(); self.globals_ = set()
        self.birth = born()
    def snap(self): return dict(self.vars)
    def restore(self, s): self.vars = dict(s)

class Func:
    def __init__(self, node, module, env=None, cls=None, name=None):
        self.node, self.module, self.env, self.cls = node, module, env, cls
        self.name = name or getattr(node, 'name', '<lambda>')
class BoundMethod:
    def __init__(self, func, self_): self.func, self.self = func, self_
class Builtin:
    def __init__(self, name, fn): self.name, self.fn = name, fn
class ModuleVal:
    def __init__(self, name): self.name = name
class PropVal:
    def __init__(self, func): self.func = func
class StaticVal:
    def __init__(self, func): self.func = func
class ClassVal:
    def __init__(self, name, module, node, bases=()):
        self.name, self.module, self.node, self.bases = name, module, node, list(bases)
        self.members = {}
    def lookup(self, name):
        for c in self.mro():
            if name in c.members: return c.members[name]
        return None
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal): out += b.mro()
        return out
    def exc_names(self):
        out = [self.name]
        for b in self.bases:
            if isinstance(b, ClassVal): out += b.exc_names()
            elif isinstance(b, ExcClass): out += EXC_BASES[b.name]
        return out
class ExcClass:
    def __init__(self, name): self.name = name
class TypeVal:
    def __init__(self, name): self.name = name
