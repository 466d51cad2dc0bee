"""Symbolic interpreter of the Python text of the program (verification-condition generator)."""
import ast, z3
from .core import *
from . import ring, repo
from .binders import *
from .arr import *
from . import arr as A
from .values import *
from .ctx import *
from . import loops

OVERRIDES = {}      # 'module.name' -> value
CONTRACTS = {}      # 'module.qualname' -> handler(interp, args, kwargs) used instead of the body
SKIP_ARGS = {'print', 'log_message'}
CALLED = {}         # 'module.qualname' -> number of executions (functions whose body was verified)

class Interp:
    def __init__(self):
        self.mods = {}
        self.depth = 0

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods: return self.mods[name]
        m = repo.module(name)
        g = {}
        self.mods[name] = g
        fr = Frame(name); fr.vars = g
        for st in m.tree.body: self.toplevel(st, fr, name)
        return g

    def toplevel(self, st, fr, name):
        g = fr.vars
        if isinstance(st, ast.FunctionDef): g[st.name] = Func(st, name, fr); return
        if isinstance(st, ast.ClassDef): g[st.name] = ('lazyclass', st); return
        if isinstance(st, (ast.Import, ast.ImportFrom)): self.do_import(st, fr); return
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            g[st.targets[0].id] = ('lazy', st.value); return
        if isinstance(st, (ast.Expr, ast.If, ast.Try)): return

    def do_import(self, st, fr):
        g = fr.vars
        if isinstance(st, ast.Import):
            for a in st.names:
                nm = a.asname or a.name.split('.')[0]
                g[nm] = ModuleVal(a.name if a.asname else a.name.split('.')[0])
        else:
            base = st.module or ''
            if st.level:
                pkg = fr.module.rsplit('.', 1)[0] if '.' in fr.module else fr.module
                base = pkg + ('.' + base if base else '')
            for a in st.names:
                nm = a.asname or a.name
                if repo.exists(base): g[nm] = ('from', base, a.name)
                elif repo.exists(base + '.' + a.name): g[nm] = ('mod', base + '.' + a.name)
                else: g[nm] = ('ext', base, a.name)

    def glob(self, mod, name):
        key = mod + '.' + name
        if key in OVERRIDES: return OVERRIDES[key]
        g = self.module(mod)
        if name not in g: return UNDEF
        v = g[name]
        if isinstance(v, tuple):
            if v[0] == 'lazy':
                v = self.ev(v[1], self.modframe(mod)); g[name] = v
            elif v[0] == 'lazyclass':
                v = self.make_class(v[1], self.modframe(mod)); g[name] = v
            elif v[0] == 'from': return self.glob(v[1], v[2])
            elif v[0] == 'mod': return ModuleVal(v[1])
            elif v[0] == 'ext': return self.external(v[1], v[2])
        return v

    def modframe(self, mod):
        fr = Frame(mod); fr.vars = self.module(mod); return fr

    def external(self, mod, name):
        from . import npmodel
        key = mod + '.' + name
        if key in OVERRIDES: return OVERRIDES[key]
        r = npmodel.lookup(mod, name)
        if r is None: return ModuleVal(key)
        return r

    def make_class(self, st, fr):
        bases = []
        for b in st.bases:
            try: bases.append(self.ev(b, fr))
            except Unsupported: bases.append(None)
        c = ClassVal(st.name, fr.module, st, [b for b in bases if b is not None])
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                f = Func(s, fr.module, fr, cls=c)
                v = f
                for d in s.decorator_list:
                    nm = ast.unparse(d)
                    if nm == 'property': v = PropVal(f)
                    elif nm == 'staticmethod': v = StaticVal(f)
                    elif 'lru_cache' in nm or nm.endswith('cache'): pass
                    elif nm.endswith('cached_property'): v = PropVal(f)
                    elif nm.endswith('.setter'): v = None
                    else: v = ('unsupported decorator', nm)
                if v is not None: c.members[s.name] = v
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                c.members[s.targets[0].id] = self.ev(s.value, fr)
        return c

    def func(self, qual):
        """'irrep.gvectors.sortIG' or 'irrep.kpoint.Kpoint.unfold' -> Func"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = '.'.join(parts[:i])
            if repo.exists(m):
                v = self.glob(m, parts[i])
                if v is UNDEF: raise MissingTarget(qual)
                for p in parts[i + 1:]:
                    v = v.lookup(p)
                    if v is None: raise MissingTarget(qual)
                return v.func if isinstance(v, (PropVal, StaticVal)) else v
        raise MissingTarget(qual)

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if not (isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ('lazy', 'lazyclass', 'from', 'mod', 'ext')):
                    if v is UNDEF: py_raise('UnboundLocalError', name)
                    if isinstance(v, LazyV):
                        v = v.thunk()
                        if v is UNDEF: py_raise('UnboundLocalError', name)
                    return v
            f = f.parent
        v = self.glob(fr.module, name)
        if v is not UNDEF: return v
        from . import npmodel
        v = npmodel.builtin(name)
        if v is None: py_raise('NameError', name)
        return v

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, BoundMethod): return self.call_func(f.func, [f.self] + list(args), kw)
        if isinstance(f, Func): return self.call_func(f, list(args), kw)
        if isinstance(f, Builtin): return f.fn(self, list(args), kw)
        if isinstance(f, ClassVal): return self.instantiate(f, args, kw)
        if isinstance(f, ExcClass): return ExcVal(EXC_BASES[f.name], args)
        if isinstance(f, TypeVal):
            from . import npmodel
            return npmodel.call_type(self, f.name, args, kw)
        if isinstance(f, StaticVal): return self.call_func(f.func, list(args), kw)
        if callable(f) and not isinstance(f, ModuleVal): return f(self, list(args), kw)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, c, args, kw):
        key = c.module + '.' + c.name
        if key in CONTRACTS: return CONTRACTS[key](self, args, kw)
        names = c.exc_names()
        if any(n in ('Exception', 'BaseException') for n in names): return ExcVal(names, args)
        o = Obj(c)
        init = c.lookup('__init__')
        if init is not None: self.call_func(init, [o] + list(args), kw)
        elif args: raise Unsupported("constructor of external class")
        return o

    def call_func(self, f, args, kw):
        qual = (f.module + '.' + (f.cls.name + '.' if f.cls else '') + f.name)
        if qual in CONTRACTS: return CONTRACTS[qual](self, args, kw)
        node = f.node
        if self.depth > 60: raise Unsupported("recursion depth")
        CALLED[qual] = CALLED.get(qual, 0) + 1
        fr = Frame(f.module, f.env if f.env is not None and f.env.func is not None else None, f)
        self.bind(node.args, fr, args, kw, f)
        if isinstance(node, ast.Lambda): return self.ev(node.body, fr)
        for d in node.decorator_list:
            nm = ast.unparse(d)
            if not (nm in ('property', 'staticmethod') or 'cache' in nm): raise Unsupported("decorator " + nm)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in walk_fn(node)): 
            return self.run_generator(node, fr)
        self.depth += 1
        try: r = self.block(node.body, fr)
        finally: self.depth -= 1
        if isinstance(r, tuple): return r[1]
        return None

    def run_generator(self, node, fr):
        raise Unsupported("generator function")

    def bind(self, a, fr, args, kw, f):
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        nd = len(a.defaults)
        dfr = f.env if f.env is not None else self.modframe(f.module)
        if len(args) > len(names):
            if a.vararg is None: py_raise('TypeError', '%s() takes %d positional arguments' % (f.name, len(names)))
            fr.vars[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None: fr.vars[a.vararg.arg] = ()
        for i, n in enumerate(names):
            if i < len(args):
                if n in kw: py_raise('TypeError', 'multiple values for argument %r' % n)
                fr.vars[n] = args[i]
            elif n in kw: fr.vars[n] = kw.pop(n)
            elif i >= len(names) - nd: fr.vars[n] = self.ev(a.defaults[i - (len(names) - nd)], dfr)
            else: py_raise('TypeError', '%s() missing argument %r' % (f.name, n))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw: fr.vars[x.arg] = kw.pop(x.arg)
            elif d is not None: fr.vars[x.arg] = self.ev(d, dfr)
            else: py_raise('TypeError', 'missing keyword argument %r' % x.arg)
        if a.kwarg is not None:
            fr.vars[a.kwarg.arg] = PDict(list(kw.items()))
        elif kw: py_raise('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, sorted(kw)[0]))

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            r = self.stmt(st, fr)
            if r is not None: return r
        return None

    def stmt(self, st, fr):
        t = type(st)
        m = getattr(self, 'st_' + t.__name__, None)
        if m is None: raise Unsupported("statement " + t.__name__)
        return m(st, fr)

    def st_Pass(self, st, fr): return None
    def st_Break(self, st, fr): return 'break'
    def st_Continue(self, st, fr): return 'continue'
    def st_Return(self, st, fr): return ('return', self.ev(st.value, fr) if st.value is not None else None)
    def st_Global(self, st, fr): raise Unsupported("global statement")
    def st_Nonlocal(self, st, fr): raise Unsupported("nonlocal statement")
    def st_Import(self, st, fr): touch(fr); self.do_import(st, fr); self.resolve_imports(fr)
    def st_ImportFrom(self, st, fr): touch(fr); self.do_import(st, fr); self.resolve_imports(fr)
    def resolve_imports(self, fr):
        for k, v in list(fr.vars.items()):
            if isinstance(v, tuple) and v and isinstance(v[0], str):
                if v[0] == 'from': fr.vars[k] = self.glob(v[1], v[2])
                elif v[0] == 'mod': fr.vars[k] = ModuleVal(v[1])
                elif v[0] == 'ext': fr.vars[k] = self.external(v[1], v[2])
    def st_FunctionDef(self, st, fr):
        touch(fr); fr.vars[st.name] = Func(st, fr.module, fr)
    def st_Expr(self, st, fr):
        v = st.value
        if isinstance(v, ast.Constant): return None
        if isinstance(v, ast.Call):
            nm = v.func.id if isinstance(v.func, ast.Name) else (v.func.attr if isinstance(v.func, ast.Attribute) else '')
            if nm in SKIP_ARGS and (isinstance(v.func, ast.Name)) and not any(k.arg == 'file' for k in v.keywords):
                return None
            if isinstance(v.func, ast.Attribute) and ast.unparse(v.func) in ('warnings.warn', 'stdout.flush', 'sys.stdout.flush', 'warnings.simplefilter'): return None
        self.ev(v, fr)
        return None
    def st_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)): py_raise('AssertionError')
    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name): touch(fr); fr.vars.pop(t.id, None)
            else: raise Unsupported("del")
    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets: self.assign(t, v, fr)
    def st_AnnAssign(self, st, fr):
        if st.value is not None: self.assign(st.target, self.ev(st.value, fr), fr)
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            touch(fr); fr.vars[t.id] = v; return
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star: raise Unsupported("starred assignment")
            for e, x in zip(t.elts, items): self.assign(e, x, fr)
            return
        if isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v); return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr); self.setitem(o, self.key(t.slice, fr), v); return
        raise Unsupported("assignment target")
    def unpack(self, v, n, t=None):
        its = self.iter_concrete(v)
        if its is None:
            ln = self.length(v)
            cur().safety("unpacking length", s_cmp('==', ln, n))
            return [self.getitem(v, i) for i in range(n)]
        if len(its) != n: py_raise('ValueError', 'unpack: expected %d values, got %d' % (n, len(its)))
        return its
    def setattr(self, o, name, v):
        if isinstance(o, Obj): touch(o); o.attrs[name] = v; return
        if isinstance(o, ObjRef):
            a = o.seq.attrs.get(name)
            if a is None:
                raise Unsupported("new attribute %s on a symbolic object" % name)
            if not isinstance(a, Arr): raise Unsupported("attribute %s of symbolic objects" % name)
            A.setitem(a, (o.idx,), v if not isinstance(v, PList) else v.to_arr()); return
        raise Unsupported("setattr on %r" % (o,))
    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            if isinstance(v, PList): v = v.to_arr()
            A.setitem(o, k, v); return
        if isinstance(o, PDict): o.set(self.hkey(k), v); return
        if isinstance(o, PList):
            it = o.concrete()
            if it is None: raise Unsupported("list item assignment")
            if isinstance(k, SliceV): raise Unsupported("list slice assignment")
            k = norm_index(k, len(it), "list index")
            touch(o)
            if isinstance(k, int): it[k] = v
            else: it = [merge(simp_bool(s_cmp('==', k, j)), v, x) for j, x in enumerate(it)]
            o.segs = (SegItems(it),); return
        if isinstance(o, Obj):
            m = o.cls.lookup('__setitem__') if isinstance(o.cls, ClassVal) else None
            if m: self.call_func(m, [o, k, v], {}); return
        raise Unsupported("item assignment on %r" % (o,))
    def hkey(self, k):
        return k
    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            new = self.aug(st.op, old, self.ev(st.value, fr))
            touch(fr); fr.vars[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(st.op, old, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr); k = self.key(t.slice, fr)
            old = self.getitem(o, k)
            if isinstance(old, Arr): old = old.copy() if old.base is None else A.Arr(old.shape, old.kind, old.frozen())
            new = self.aug(st.op, old, self.ev(st.value, fr), inplace=False)
            if isinstance(old, PList) and new is old: return
            self.setitem(o, k, new)
        else: raise Unsupported("augmented assignment")
    def aug(self, op, old, v, inplace=True):
        if isinstance(old, Arr) and old.ndim > 0 and inplace:
            r = self.binop(op, old, v)
            if not isinstance(r, Arr) or len(r.shape) != len(old.shape): py_raise('ValueError', 'non-broadcastable output operand')
            if old.kind == 'i' and r.kind in 'fc' or old.kind == 'f' and r.kind == 'c' or old.kind == 'b' and r.kind != 'b':
                py_raise('UFuncTypeError', 'Cannot cast ufunc output')
            A.setitem(old, (SliceV(None, None, None),) * old.ndim, r.copy() if r.base is not None else r)
            return old
        if isinstance(old, PList) and isinstance(op, ast.Add):
            w = self.to_plist(v)
            old.extend_segs(w.segs); return old
        return self.binop(op, old, v)
    def st_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)): return self.block(st.body, fr)
        return self.block(st.orelse, fr)
    def st_Raise(self, st, fr):
        if st.exc is None:
            e = fr.vars.get('?exc')
            if e is None: raise Unsupported("bare raise")
            raise PyRaise(e)
        x = st.exc
        if isinstance(x, ast.Call):
            c = self.ev(x.func, fr)
            if isinstance(c, ExcClass): raise PyRaise(ExcVal(EXC_BASES[c.name]))
            if isinstance(c, ClassVal): raise PyRaise(ExcVal(c.exc_names()))
            v = self.call(c, [self.ev(a, fr) for a in x.args])
        else: v = self.ev(x, fr)
        if isinstance(v, ExcClass): v = ExcVal(EXC_BASES[v.name])
        if isinstance(v, ClassVal): v = ExcVal(v.exc_names())
        if isinstance(v, ExcVal): raise PyRaise(v)
        py_raise('TypeError', 'exceptions must derive from BaseException')
    def st_Try(self, st, fr):
        r = None
        caught = []
        for h in st.handlers:
            if h.type is None: caught.append('BaseException')
            else:
                c = self.ev(h.type, fr); caught += [x.name for x in (c if isinstance(c, tuple) else (c,))]
        n0 = len(CATCH)
        try:
            try:
                CATCH.extend(caught)
                try: r = self.block(st.body, fr)
                finally: del CATCH[n0:]
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None: names = ['BaseException']
                    else:
                        c = self.ev(h.type, fr)
                        cs = c if isinstance(c, tuple) else (c,)
                        names = [x.name for x in cs]
                    if any(n in e.exc.names for n in names):
                        touch(fr)
                        if h.name: fr.vars[h.name] = e.exc
                        old = fr.vars.get('?exc'); fr.vars['?exc'] = e.exc
                        r = self.block(h.body, fr)
                        if old is None: fr.vars.pop('?exc', None)
                        else: fr.vars['?exc'] = old
                        break
                else: raise
            else:
                if r is None and st.orelse: r = self.block(st.orelse, fr)
        except PyRaise:
            if st.finalbody:
                q = self.block(st.finalbody, fr)
                if q is not None: return q
            raise
        if st.finalbody:
            q = self.block(st.finalbody, fr)
            if q is not None: return q
        return r
    def st_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            ent = self.call(self.getattr(v, '__enter__')) if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.lookup('__enter__') else v
            if it.optional_vars is not None: self.assign(it.optional_vars, ent, fr)
        return self.block(st.body, fr)
    def st_While(self, st, fr):
        n = 0
        while True:
            if not self.truth(self.ev(st.test, fr)):
                return self.block(st.orelse, fr)
            r = self.block(st.body, fr)
            if r == 'break': return None
            if isinstance(r, tuple): return r
            n += 1
            if n > 300: raise Unsupported("while loop without a bound")
    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)
        items = self.iter_concrete(it)
        if items is None:
            return loops.for_loop(self, st, it, fr)
        for x in items:
            self.assign(st.target, x, fr)
            r = self.block(st.body, fr)
            if r == 'break': return None
            if isinstance(r, tuple): return r
        return self.block(st.orelse, fr)
    def st_ClassDef(self, st, fr): raise Unsupported("nested class")

    # ------------------------------------------------------------ iteration
    def iter_concrete(self, v):
        """list of the items when their number is concrete, else None"""
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, PList): return v.concrete()
        if isinstance(v, RangeV):
            n = v.length()
            return [v.at(i) for i in range(n)] if isinstance(n, int) else None
        if isinstance(v, Arr):
            if v.ndim == 0: py_raise('TypeError', 'iteration over a 0-d array')
            return [A.getitem(v, i) for i in range(v.shape[0])] if isinstance(v.shape[0], int) else None
        if isinstance(v, PDict): return None if v.sym else list(v.keys)
        if isinstance(v, PSet):
            return list(v.items) if v.plist is None else None
        if isinstance(v, str): return list(v)
        if isinstance(v, IterV): return v.concrete(self)
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.lookup('__getitem__') and v.cls.lookup('__len__'):
            n = self.length(v)
            return [self.getitem(v, i) for i in range(n)] if isinstance(n, int) else None
        if isinstance(v, SStr) or isinstance(v, OpaqueStr): raise Unsupported("iteration over symbolic text")
        if v is None: py_raise('TypeError', "'NoneType' object is not iterable")
        if is_scalar(v): py_raise('TypeError', "object is not iterable")
        raise Unsupported("iteration over %r" % (v,))
    def sym_iter(self, v):
        """(n, fn) for an iterable with a symbolic number of items"""
        if isinstance(v, PList): return v.length(), v.get
        if isinstance(v, RangeV): return v.length(), v.at
        if isinstance(v, Arr):
            a = v
            return a.shape[0], (lambda i: A.getitem(a, i))
        if isinstance(v, IterV): return v.sym(self)
        if isinstance(v, PDict):
            if not v.keys and len(v.sym) == 1:
                e = v.sym[0]
                if e.n is None: raise Unsupported('iteration over symbolic integer keys')
                if e.has is ALWAYS: return e.n, (lambda i: KeyRef(e.space, i))
                c = mk_filter(e.n, lambda j: e.has(j))
                return c.T, (lambda i: KeyRef(e.space, c.seg(i)))
        its = self.iter_concrete(v)
        if its is not None:
            p = PList(its); return len(its), p.get
        raise Unsupported("symbolic iteration over %r" % (v,))
    def to_plist(self, v):
        if isinstance(v, PList): return PList(segs=v.segs)
        its = self.iter_concrete(v)
        if its is not None: return PList(its)
        if isinstance(v, Arr): 
            rd = v
            frozen = Arr(v.shape, v.kind, v.frozen())
            return PList(segs=(SegSeq(v.shape[0], lambda i: A.getitem(frozen, i)),))
        n, fn = self.sym_iter(v)
        return PList(segs=(SegSeq(n, fn),))
    def length(self, v):
        if isinstance(v, PList): return v.length()
        if isinstance(v, (tuple, list, str)): return len(v)
        if isinstance(v, Arr):
            if v.ndim == 0: py_raise('TypeError', 'len() of unsized object')
            return v.shape[0]
        if isinstance(v, PDict):
            if v.sym:
                e = v.sym[0]
                if len(v.sym) > 1 or v.keys or e.n is None: raise Unsupported("len of symbolic dict")
                return e.n if e.has is ALWAYS else mk_filter(e.n, lambda j: e.has(j)).T
            return len(v.keys)
        if isinstance(v, PSet):
            if v.plist is not None: return loops.set_size(v.plist)
            return len(v.items)
        if isinstance(v, RangeV): return v.length()
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            m = v.cls.lookup('__len__')
            if m: return self.call_func(m, [v], {})
        if isinstance(v, SStr): raise Unsupported("length of formatted text")
        if is_scalar(v) or v is None: py_raise('TypeError', 'object has no len()')
        raise Unsupported("len of %r" % (v,))

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        c = self.truthv(v)
        if isinstance(c, bool): return c
        return cur().branch(c)
    def truthv(self, v):
        """truth value as a condition (no forking)"""
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, (z3.BoolRef,)): return simp_bool(v)
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, float): return v != 0 or v != v
        if is_z(v): return simp_bool(v != 0)
        if isinstance(v, Cx): return simp_bool(s_cmp('!=', v, 0))
        if isinstance(v, str): return len(v) > 0
        if isinstance(v, (tuple, list)): return len(v) > 0
        if isinstance(v, (PList, PDict, PSet, RangeV)):
            n = self.length(v); return simp_bool(s_cmp('>', n, 0))
        if isinstance(v, Arr):
            if v.ndim == 0: return self.truthv(v.get(()))
            if all(isinstance(d, int) and d == 1 for d in v.shape): return self.truthv(v.get((0,) * v.ndim))
            if all(isinstance(d, int) for d in v.shape): py_raise('ValueError', 'The truth value of an array with more than one element is ambiguous')
            raise Unsupported("truth value of an array")
        if isinstance(v, Opt): return s_and(s_not(v.none), self.truthv(v.val))
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassVal) and v.cls.lookup('__bool__') is None and v.cls.lookup('__len__') is None: return True
            if isinstance(v.cls, ClassVal) and v.cls.lookup('__len__'): return simp_bool(s_cmp('>', self.length(v), 0))
            return True
        if isinstance(v, (Func, BoundMethod, Builtin, ClassVal, ObjRef)): return True
        if isinstance(v, NV): return s_or(v.nan, s_cmp('!=', v.val, 0))
        raise Unsupported("truth value of %r" % (v,))

    def ev(self, e, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None: raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def ev_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float): return lit(v)
        if isinstance(v, complex): return lit(v)
        return v
    def ev_Name(self, e, fr): return self.lookup(e.id, fr)
    def ev_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))
    def ev_List(self, e, fr): return PList(self.elts(e.elts, fr)) if not any(isinstance(x, ast.Starred) for x in e.elts) else self.star_list(e.elts, fr)
    def star_list(self, elts, fr):
        p = PList()
        for x in elts:
            if isinstance(x, ast.Starred): p.extend_segs(self.to_plist(self.ev(x.value, fr)).segs)
            else: p.append(self.ev(x, fr))
        return p
    def ev_Set(self, e, fr): return PSet(self.elts(e.elts, fr))
    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iter_concrete(self.ev(x.value, fr))
                if it is None: raise Unsupported("star of symbolic sequence")
                out += it
            else: out.append(self.ev(x, fr))
        return out
    def ev_Dict(self, e, fr):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                for a, b in zip(o.keys, o.vals): d.set(a, b)
            else:
                kk = self.ev(k, fr); d.set(kk, self.ev(v, fr))
        return d
    def ev_IfExp(self, e, fr):
        c = self.truthv(self.ev(e.test, fr))
        if isinstance(c, bool): return self.ev(e.body if c else e.orelse, fr)
        if cur().entails(c): return self.ev(e.body, fr)
        if cur().branch(c): return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)
    def ev_Lambda(self, e, fr): return Func(e, fr.module, fr, name='<lambda>')
    def ev_JoinedStr(self, e, fr):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant): ps.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    s = self.ev(v.format_spec, fr)
                    spec = s if isinstance(s, str) else None
                from . import npmodel
                ps.append(npmodel.fmt_piece(self, x, spec, {115: 's', 114: 'r'}.get(v.conversion)))
        from . import npmodel
        return npmodel.join_pieces(ps)
    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr); self.assign(e.target, v, fr); return v
    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1: return v
            c = self.truthv(v)
            if isinstance(c, bool):
                if c != isand: return v
                continue
            if self.pure(e.values[i + 1:]):
                # no forking: combine conditions
                rest = ast.BoolOp(e.op, e.values[i + 1:]) if len(e.values) - i - 1 > 1 else e.values[i + 1]
                try:
                    w = self.guarded(c if isand else s_not(c), lambda: self.truthv(self.ev(rest, fr)))
                    if w is not FAIL: return s_and(c, w) if isand else s_or(c, w)
                except Unsupported: pass
            if cur().branch(c) != isand: return (not isand) if is_zb(v) or isinstance(v, bool) else v
        return v
    def pure(self, es):
        """syntactically simple (no calls that may raise or mutate)"""
        for e in es:
            for x in ast.walk(e):
                if isinstance(x, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)): return False
        return True
    def guarded(self, cond, f):
        """evaluate f without forking under cond; FAIL when it would fork or raise"""
        c = cur()
        n = len(c.facts); na = len(c.oblig); ns = len(c.schemas)
        old = c.branch; dec, pos = list(c.decisions), c.pos
        class NoFork(Exception): pass
        def nb(x):
            x = simp_bool(x) if is_z(x) else x
            if isinstance(x, bool): return x
            raise NoFork()
        c.branch = nb
        jr = Journal(); JR.append(jr)
        try:
            r = f()
            if jr.order: raise NoFork()
            new = c.oblig[na:]
            del c.oblig[na:]
            for ob in new: c.safety(ob.name, s_implies(cond, ob.cond))
            return r
        except (NoFork, PyRaise):
            del c.oblig[na:]
            jr.rollback()
            return FAIL
        finally:
            JR.pop()
            del c.branch
    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not): 
            return s_not(self.truthv(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (Arr,)): return ew(s_neg, v)
            if isinstance(v, NV) or is_scalar(v): return s_neg(v)
            self.type_err(v, 'unary -')
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr):
                if v.kind == 'b': return ew(s_not, v, kind='b')
                return ew(lambda x: s_sub(s_neg(x), 1), v)
            if isinstance(v, bool): return -1 - int(v)
            if is_zb(v): return s_not(v)
            return s_sub(s_neg(v), 1)
        raise Unsupported("unary op")
    def type_err(self, *a):
        if any(isinstance(x, (HavocV, OpaqueStr, Opt)) or (isinstance(x, (ModuleVal,))) for x in a): raise Unsupported("operation on %r" % (a,))
        py_raise('TypeError', 'unsupported operand type(s)')
    def ev_BinOp(self, e, fr):
        a = self.ev(e.left, fr); b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)
    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, Arr) and a.ndim == 0: a = a.get(())
        if isinstance(b, Arr) and b.ndim == 0: b = b.get(())
        if isinstance(a, (HavocV,)) or isinstance(b, HavocV): raise Unsupported("value from an earlier iteration")
        if isinstance(a, Opt) or isinstance(b, Opt):
            a, b = self.unopt(a), self.unopt(b)
        if isinstance(a, (str, SStr, OpaqueStr)) or isinstance(b, (str, SStr, OpaqueStr)):
            from . import npmodel
            return npmodel.str_binop(self, t, a, b)
        arr = isinstance(a, Arr) or isinstance(b, Arr)
        if arr:
            if isinstance(a, (PList, tuple)): a = asarr(a)
            if isinstance(b, (PList, tuple)): b = asarr(b)
            if a is None or b is None or not all(isinstance(x, Arr) or is_scalar(x) for x in (a, b)): self.type_err(a, b)
            if t is ast.MatMult: return A.matmul(a, b)
            return self.arr_binop(t, a, b)
        if isinstance(a, PList) or isinstance(b, PList):
            if t is ast.Add and isinstance(a, PList) and isinstance(b, PList):
                r = PList(segs=a.segs); r.extend_segs(b.segs); return r
            if t is ast.Mult:
                l, n = (a, b) if isinstance(a, PList) else (b, a)
                n = simpl(n) if is_z(n) else n
                it = l.concrete()
                if it is None: raise Unsupported("repetition of symbolic list")
                if isinstance(n, int): return PList(it * n)
                if isinstance(n, Fraction): py_raise('TypeError', "can't multiply sequence by non-int")
                if not is_int_sort(n): py_raise('TypeError', "can't multiply sequence by non-int")
                nn = n if cur().entails(n >= 0) else z3.If(n >= 0, n, z3.IntVal(0))
                if len(it) == 1: return PList(segs=(SegSeq(nn, lambda i: it[0]),))
                raise Unsupported("repetition")
            self.type_err(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add: return a + b
        if isinstance(a, tuple) and t is ast.Mult and isinstance(b, int): return a * b
        if isinstance(a, PSet) and isinstance(b, PSet) and t in (ast.Sub, ast.BitAnd, ast.BitOr):
            raise Unsupported("set algebra")
        if isinstance(a, (Obj, ObjRef)) or isinstance(b, (Obj, ObjRef)):
            nm = {ast.Mult: '__mul__', ast.Add: '__add__', ast.Sub: '__sub__', ast.MatMult: '__matmul__'}.get(t)
            if nm and isinstance(a, Obj) and a.cls.lookup(nm): return self.call_func(a.cls.lookup(nm), [a, b], {})
        if not (is_scalar(a) and is_scalar(b)): self.type_err(a, b)
        return self.sc_binop(t, a, b)
    def unopt(self, v):
        if isinstance(v, Opt):
            if cur().entails(s_not(v.none)): return v.val
            if cur().branch(zb(v.none)): return None
            return v.val
        return v
    def sc_binop(self, t, a, b):
        if t is ast.Add: return s_add(a, b)
        if t is ast.Sub: return s_sub(a, b)
        if t is ast.Mult: return s_mul(a, b)
        if t is ast.Div:
            if is_z(b): cur().safety("nonzero divisor", s_cmp('!=', b, 0), exc='ZeroDivisionError')
            return s_div(a, b)
        if t is ast.FloorDiv:
            if is_z(b): cur().safety("nonzero divisor", s_cmp('!=', b, 0), exc='ZeroDivisionError')
            return s_floordiv(a, b)
        if t is ast.Mod:
            if is_z(b): cur().safety("nonzero divisor", s_cmp('!=', b, 0), exc='ZeroDivisionError')
            return s_mod(a, b)
        if t is ast.Pow: return s_pow(a, b)
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if is_bool_sort(a) and is_bool_sort(b):
                return {ast.BitAnd: s_and, ast.BitOr: s_or}.get(t, lambda x, y: s_cmp('!=', x, y))(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[t]
        raise Unsupported("operator " + t.__name__)
    def arr_binop(self, t, a, b):
        ka, kb = kind_of(asarr(a)), kind_of(asarr(b))
        k = kmax(ka, kb)
        if t is ast.Add:
            if k == 'b': return ew(s_or, a, b, kind='b')
            return ew(s_add, a, b)
        if t is ast.Sub: 
            if k == 'b': py_raise('TypeError', 'numpy boolean subtract')
            return ew(s_sub, a, b)
        if t is ast.Mult: return ew(s_mul, a, b, kind='i' if k == 'b' and False else None)
        if t is ast.Div: return ew(s_div, a, b, kind=kmax('f', k))
        if t is ast.FloorDiv: return ew(s_floordiv, a, b)
        if t is ast.Mod: return ew(s_mod, a, b)
        if t is ast.Pow: return ew(s_pow, a, b, kind=('f' if k == 'f' else None))
        if t is ast.BitAnd: return ew(s_and, a, b, kind='b') if k == 'b' else self.nope("&")
        if t is ast.BitOr: return ew(s_or, a, b, kind='b') if k == 'b' else self.nope("|")
        raise Unsupported("array operator " + t.__name__)
    def nope(self, w): raise Unsupported(w)

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if res is None: res = c
            else:
                if isinstance(res, Arr) or isinstance(c, Arr): raise Unsupported("chained array comparison")
                res = s_and(res, c)
            left = right
        return res
    def compare(self, op, a, b):
        t = type(op)
        if isinstance(a, Arr) and a.ndim == 0: a = a.get(())
        if isinstance(b, Arr) and b.ndim == 0: b = b.get(())
        if t in (ast.Is, ast.IsNot):
            if a is None or b is None:
                o = b if a is None else a
                c = opt_none(o) if (o is None or isinstance(o, Opt)) else False
                if isinstance(o, HavocV): raise Unsupported("None test of havoc value")
            elif isinstance(a, bool) or isinstance(b, bool) or is_zb(a) or is_zb(b):
                if is_bool_sort(a) and is_bool_sort(b): c = s_cmp('==', a, b)
                else: c = False
            elif isinstance(a, (TypeVal, ClassVal)): c = (a is b) or (isinstance(a, TypeVal) and isinstance(b, TypeVal) and a.name == b.name)
            else: c = a is b
            return c if t is ast.Is else s_not(c)
        if t in (ast.In, ast.NotIn):
            c = self.contains(b, a)
            return c if t is ast.In else s_not(c)
        o = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t]
        if isinstance(a, HavocV) or isinstance(b, HavocV): raise Unsupported("comparison with havoc value")
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str): return o == '!='
            if isinstance(a, (PList, tuple)): a = asarr(a)
            if isinstance(b, (PList, tuple)): b = asarr(b)
            return ew(lambda x, y: s_cmp(o, x, y), a, b, kind='b')
        if is_scalar(a) and is_scalar(b):
            if (isinstance(a, Cx) or isinstance(b, Cx)) and o not in ('==', '!='):
                py_raise('TypeError', 'complex ordering') if False else None
            return simp_bool(s_cmp(o, a, b))
        if o in ('==', '!='):
            if isinstance(a, Opt) or isinstance(b, Opt):
                a, b = self.unopt(a), self.unopt(b)
                if a is None or b is None: return (a is b) == (o == '==')
            if isinstance(a, (SStr, OpaqueStr)) or isinstance(b, (SStr, OpaqueStr)): raise Unsupported("comparison of symbolic text")
            for x, y in ((a, b),):
                if isinstance(x, Obj) and isinstance(x.cls, ClassVal) and x.cls.lookup('__eq__'):
                    r = self.call_func(x.cls.lookup('__eq__'), [x, y], {})
                    return r if o == '==' else s_not(self.truthv(r))
            c = py_eq(a, b) if not (type(a) != type(b) and isinstance(a, (str, tuple, PList)) and isinstance(b, (str, tuple, PList))) else False
            return c if o == '==' else s_not(c)
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
        if isinstance(a, Opt) or isinstance(b, Opt):
            return self.compare(op, self.unopt(a), self.unopt(b))
        self.type_err(a, b)
    def contains(self, b, a):
        if isinstance(b, AltStr): b = b.pick()
        if isinstance(b, str):
            if isinstance(a, str): return a in b
            raise Unsupported("in symbolic text")
        if isinstance(b, SStr):
            from . import npmodel
            return npmodel.sstr_in(b, a)
        if isinstance(b, OpaqueStr): raise Unsupported("in symbolic text")
        if isinstance(b, PDict): return b.has(a)
        if isinstance(b, Arr):
            return simp_bool(A.a_any(asarr(ew(lambda x: s_cmp('==', x, a), b, kind='b'))))
        if isinstance(b, RangeV) and is_scalar(a):
            n = b.length(); return s_and(s_cmp('>=', a, b.lo), s_cmp('<', a, b.hi)) if b.step == 1 else self.nope("in range step")
        its = self.iter_concrete(b)
        if its is not None:
            return s_or(*[self.compare_eq(x, a) for x in its]) if its else False
        n, fn = self.sym_iter(b.plist if isinstance(b, PSet) else b)
        return simp_bool(mk_any(n, lambda j: py_eq(fn(j), a)))
    def compare_eq(self, x, a):
        c = self.compare(ast.Eq(), x, a)
        if isinstance(c, Arr): c = self.truthv(c)
        return c

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)
    def getattr(self, o, name):
        from . import npmodel
        if isinstance(o, ModuleVal):
            if repo.exists(o.name): 
                v = self.glob(o.name, name)
                if v is not UNDEF: return v
                if repo.exists(o.name + '.' + name): return ModuleVal(o.name + '.' + name)
                py_raise('AttributeError', name)
            key = o.name + '.' + name
            if key in OVERRIDES: return OVERRIDES[key]
            r = npmodel.lookup(o.name, name)
            return r if r is not None else ModuleVal(key)
        if isinstance(o, Obj):
            if name in o.attrs: return o.attrs[name]
            if name == '__class__': return o.cls
            if isinstance(o.cls, ClassVal):
                m = o.cls.lookup(name)
                if m is None:
                    if o.attrs.get('?open'): raise Unsupported("unknown attribute %s" % name)
                    py_raise('AttributeError', name)
                if isinstance(m, PropVal): return self.call_func(m.func, [o], {})
                if isinstance(m, StaticVal): return m.func
                if isinstance(m, Func): return BoundMethod(m, o)
                if isinstance(m, tuple): raise Unsupported(str(m))
                return m
            h = getattr(o.cls, 'getattr', None)
            if h: return h(self, o, name)
            py_raise('AttributeError', name)
        if isinstance(o, ObjRef):
            a = o.seq.attrs.get(name)
            if a is not None:
                if isinstance(a, Arr): return A.getitem(a, o.idx)
                if callable(a): return a(o.idx)
                return a
            m = o.seq.cls.lookup(name) if isinstance(o.seq.cls, ClassVal) else None
            if isinstance(m, PropVal): return self.call_func(m.func, [o], {})
            if isinstance(m, Func): return BoundMethod(m, o)
            if m is not None: return m
            raise Unsupported("attribute %s of a symbolic object" % name)
        if isinstance(o, ClassVal):
            if name == '__name__': return o.name
            m = o.lookup(name)
            if m is None: py_raise('AttributeError', name)
            return m.func if isinstance(m, (StaticVal, PropVal)) else m
        if isinstance(o, Opt): return self.getattr(self.unopt(o), name)
        return npmodel.attr(self, o, name)

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.key(e.slice, fr))
    def key(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.idx(self.ev(x, fr))
            return SliceV(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple): return tuple(self.key(x, fr) for x in s.elts)
        return self.ev(s, fr)
    def idx(self, v):
        if isinstance(v, Arr) and v.ndim == 0: v = v.get(())
        if isinstance(v, Opt): v = self.unopt(v)
        if isinstance(v, HavocV): raise Unsupported("index from an earlier iteration")
        return v
    def getitem(self, o, k):
        if isinstance(o, Opt): o = self.unopt(o)
        k = self.idx(k) if not isinstance(k, (SliceV, tuple)) else k
        if isinstance(o, Arr):
            if isinstance(k, PList): k = k.to_arr()
            if isinstance(k, tuple): k = tuple(self.idx(x) if not isinstance(x, (SliceV, PList)) else (x.to_arr() if isinstance(x, PList) else x) for x in k)
            if isinstance(k, str): py_raise('IndexError', 'only integers')
            return A.getitem(o, k)
        if isinstance(o, PDict): return o.get(k)
        if isinstance(o, SStr):
            from . import npmodel
            return npmodel.sstr_item(o, k)
        if isinstance(o, (tuple, str)):
            if isinstance(k, SliceV):
                t = [simpl(x) if is_z(x) else x for x in k.t]
                if any(is_z(x) for x in t): raise Unsupported("symbolic slice of tuple")
                return o[slice(*t)]
            if isinstance(o, str):
                k = simpl(k) if is_z(k) else k
                if not isinstance(k, int): raise Unsupported("symbolic string index")
                if not -len(o) <= k < len(o): py_raise('IndexError', 'string index out of range')
                return o[k]
            i = norm_index(k, len(o), "tuple index")
            if isinstance(i, int): return o[i]
            return PList(o).get(i)
        if isinstance(o, PList):
            if isinstance(k, SliceV):
                it = o.concrete()
                if it is not None and not any(is_z(x) for x in k.t): return PList(it[slice(*k.t)])
                st, ln, step = slice_bounds(k.t, o.length())
                src = PList(segs=o.segs)
                return PList(segs=(SegSeq(ln, lambda i: src.get(simpl(s_add(st, s_mul(i, step))))),))
            if not is_scalar(k): py_raise('TypeError', 'list indices must be integers')
            return o.get(norm_index(k, o.length(), "list index"))
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__') if isinstance(o.cls, ClassVal) else None
            if m: return self.call_func(m, [o, k], {})
            h = getattr(o.cls, 'getitem', None)
            if h: return h(self, o, k)
        if o is None or is_scalar(o): py_raise('TypeError', 'object is not subscriptable')
        if isinstance(o, IterV): raise Unsupported("subscript of iterator")
        if isinstance(o, RangeV): 
            if not isinstance(k, SliceV): return o.at(norm_index(k, o.length()))
        raise Unsupported("subscript of %r" % (o,))

    def ev_Call(self, e, fr):
        f = self.ev(e.func, fr)
        if isinstance(f, Func) and f.name == 'log_message': return None
        if isinstance(f, Builtin) and f.name == 'print' and not any(k.arg == 'file' for k in e.keywords): return None
        if isinstance(f, Builtin) and f.name in ('any', 'all', 'sum', 'max', 'min', 'list', 'tuple', 'sorted', 'set', 'len', 'join') and len(e.args) >= 1 and isinstance(e.args[0], ast.GeneratorExp):
            pass
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if not isinstance(v, PDict): raise Unsupported("** of %r" % (v,))
                for a, b in zip(v.keys, v.vals): kw[a] = b
            else: kw[k.arg] = v
        return self.call(f, args, kw)

    # comprehensions: run as loops with a hidden result list
    def ev_ListComp(self, e, fr): return self.comp(e.generators, e.elt, fr)
    def ev_GeneratorExp(self, e, fr): return self.comp(e.generators, e.elt, fr)
    def ev_SetComp(self, e, fr):
        from . import npmodel
        return npmodel.make_set(self, self.comp(e.generators, e.elt, fr))
    def ev_DictComp(self, e, fr):
        p = self.comp(e.generators, ast.Tuple([e.key, e.value], ast.Load()), fr)
        it = p.concrete()
        if it is None:
            d = PDict(); n, fn = self.sym_iter(p)
            def body(k):
                kv = fn(k); d.set(kv[0], kv[1])
            loops.run_loop(self, n, body, fr)
            return d
        return PDict(it)
    def comp(self, gens, elt, fr):
        out = PList()
        f2 = Frame(fr.module, fr, fr.func or True)
        f2.vars['?out'] = out
        body = [('append', elt)]
        self.comp_gen(gens, 0, elt, f2, out, fr)
        return out
    def comp_gen(self, gens, i, elt, f2, out, fr):
        if i == len(gens):
            out.append(self.ev(elt, f2)); return
        g = gens[i]
        it = self.ev(g.iter, f2 if i else fr)
        items = self.iter_concrete(it)
        def step(x):
            self.assign(g.target, x, f2)
            for c in g.ifs:
                if not self.truth(self.ev(c, f2)): return
            self.comp_gen(gens, i + 1, elt, f2, out, fr)
        if items is None:
            n, fn = self.sym_iter(it)
            loops.run_loop(self, n, lambda k: step(fn(k)), f2)
        else:
            for x in items: step(x)

FAIL = type('Fail', (), {})()
class MissingTarget(Exception): pass
ALWAYS = lambda i: True

class IterV:
    """zip / enumerate / map / reversed / dict views"""
    def __init__(self, kind, *a): self.kind, self.a = kind, a
    def concrete(self, ip):
        k, a = self.kind, self.a
        if k == 'zip':
            cs = [ip.iter_concrete(x) for x in a]
            if any(c is not None for c in cs) and not all(c is not None for c in cs):
                # lengths must agree or be comparable: a symbolic partner at least as long as the concrete one
                n = min(len(c) for c in cs if c is not None)
                for x, c in zip(a, cs):
                    if c is None:
                        ln = ip.length(x) if not isinstance(x, IterV) else x.sym(ip)[0]
                        if not cur().entails(s_cmp('>=', ln, n)): raise Unsupported("zip of symbolic and concrete lengths")
                outs = []
                for x, c in zip(a, cs):
                    if c is None: _, fn = ip.sym_iter(x); outs.append([fn(i) for i in range(n)])
                    else: outs.append(c[:n])
                return list(zip(*outs))
            if any(c is None for c in cs): return None
            return list(zip(*cs))
        if k == 'enumerate':
            c = ip.iter_concrete(a[0])
            return None if c is None else [(s_add(a[1], i), x) for i, x in enumerate(c)]
        if k == 'reversed':
            c = ip.iter_concrete(a[0]); return None if c is None else c[::-1]
        if k == 'map':
            c = ip.iter_concrete(a[1]); return None if c is None else [ip.call(a[0], [x]) for x in c]
        if k == 'items':
            return None if a[0].sym else list(zip(a[0].keys, a[0].vals))
        if k == 'values': return None if a[0].sym else list(a[0].vals)
        raise Unsupported(k)
    def sym(self, ip):
        k, a = self.kind, self.a
        if k == 'zip':
            ps = [ip.sym_iter(x) for x in a]
            n = ps[0][0]
            for m, _ in ps[1:]:
                if dims_same(n, m) or cur().entails(s_cmp('==', n, m)): continue
                if cur().entails(s_cmp('<=', n, m)): continue
                if cur().entails(s_cmp('<=', m, n)): n = m
                else: n = s_min(n, m)
            return n, (lambda i: tuple(fn(i) for _, fn in ps))
        if k == 'enumerate':
            n, fn = ip.sym_iter(a[0]); return n, (lambda i: (s_add(a[1], i), fn(i)))
        if k == 'reversed':
            n, fn = ip.sym_iter(a[0]); return n, (lambda i: fn(simpl(s_sub(s_sub(n, 1), i))))
        if k in ('items', 'values'):
            d = a[0]
            if not d.keys and len(d.sym) == 1:
                e = d.sym[0]
                if e.n is None: raise Unsupported('iteration over symbolic integer keys')
                if e.has is ALWAYS:
                    return e.n, (lambda i: (KeyRef(e.space, i), e.val(i)) if k == 'items' else e.val(i))
                c = mk_filter(e.n, lambda j: e.has(j))
                return c.T, (lambda i: (KeyRef(e.space, c.seg(i)), e.val(c.seg(i))) if k == 'items' else e.val(c.seg(i)))
        if k == 'map':
            f = a[0]
            n, fn = ip.sym_iter(a[1])
            out = PList()
            fr = Frame('?', None, None); fr.vars['?out'] = out
            loops.run_loop(ip, n, lambda i: out.append(ip.call(f, [fn(i)])), fr)
            return out.length(), out.get
        raise Unsupported("symbolic " + k)

def walk_fn(node):
    """nodes of the function excluding nested functions"""
    stack = list(node.body)
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda)): continue
        stack.extend(ast.iter_child_nodes(x))
