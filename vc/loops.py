"""Loops over a symbolic number of items.

The body is executed once, at an arbitrary iteration k, on all its paths, from a state in
which every cell it modifies has an arbitrary value; the update of each cell is then read
off and its exact value at the start of iteration k is expressed in closed form (sum,
last writer, concatenation, ...).  The closed forms are the inductive invariants of the
loop: they hold at k=0 and the update re-establishes them at k+1 by construction of the
operators.  Exits (break, return, raise) happen at the first iteration whose exit
condition holds.
"""
import z3
from .core import *
from . import ring
from .ring import canon
from .binders import *
from .arr import *
from .values import *
from .ctx import *

LOOPS = [0]
# loop invariants given with a contract: functions (cell, init) -> list of candidates (closed, same); closed(j) is the value at the start
# of iteration j, same(a, b) decides equality.  A candidate is used only when it is inductive (checked below); otherwise the next one is tried.
CANDIDATES = []

class Path:
    __slots__ = ('ctx', 'sel', 'outcome', 'ends', 'jr')

def for_loop(ip, st, it, fr):
    n, fn = ip.sym_iter(it)
    def body(k):
        ip.assign(st.target, fn(k), fr)
        return ip.block(st.body, fr)
    r = run_loop(ip, n, body, fr)
    if r == 'break': return None
    if isinstance(r, tuple): return r
    return ip.block(st.orelse, fr)

# ------------------------------------------------------------------ helpers
def freeze(v, memo=None):
    """snapshot of a value at the end of an iteration (no aliasing with live state)"""
    if isinstance(v, Arr): return Arr(v.shape, v.kind, v.frozen())
    if isinstance(v, tuple): return tuple(freeze(x) for x in v)
    if isinstance(v, PList): return PList(segs=tuple(SegItems([freeze(x) for x in s.items]) if isinstance(s, SegItems) else s for s in v.segs))
    if isinstance(v, Obj):
        o = Obj(v.cls, {k: freeze(x) for k, x in v.attrs.items()}); return o
    if isinstance(v, PDict):
        d = PDict(); d.keys, d.vals, d.sym = list(v.keys), [freeze(x) for x in v.vals], v.sym
        return d
    return v

def subst_val(v, pairs):
    if isinstance(v, (Cx, NV)) or is_z(v):
        r = subst_expr(v, pairs)
        return conc(canon(r)) if is_z(r) else r
    if isinstance(v, Arr):
        o = v
        return Arr(tuple(simpl(subst_expr(d, pairs)) if is_z(d) else d for d in v.shape), v.kind, lambda idx: subst_val(o.get(idx), pairs))
    if isinstance(v, tuple): return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, PList):
        out = []
        for s in v.segs:
            if isinstance(s, SegItems): out.append(SegItems([subst_val(x, pairs) for x in s.items]))
            elif isinstance(s, SegHole): raise Unsupported("list content from earlier iterations")
            else: out.append(SegSeq(simpl(subst_expr(s.n, pairs)) if is_z(s.n) else s.n, (lambda s: lambda i: subst_val(s.at(i), pairs))(s)))
        return PList(segs=out)
    if isinstance(v, ObjRef): return ObjRef(v.seq, subst_val(v.idx, pairs))
    if isinstance(v, KeyRef): return KeyRef(v.space, subst_val(v.idx, pairs))
    if isinstance(v, Obj): return Obj(v.cls, {k: subst_val(x, pairs) for k, x in v.attrs.items()})
    if isinstance(v, Opt): return Opt(subst_val(v.none, pairs), subst_val(v.val, pairs))
    if isinstance(v, PDict):
        d = PDict(); d.keys = [subst_val(x, pairs) for x in v.keys]; d.vals = [subst_val(x, pairs) for x in v.vals]
        d.sym = tuple(SymEntries(e.space, subst_val(e.n, pairs), e.has if getattr(e.has, '__name__', '') == '<lambda>' and e.has(0) is True else (lambda e: lambda i: subst_val(e.has(i), pairs))(e), (lambda e: lambda i: subst_val(e.val(i), pairs))(e)) for e in v.sym)
        return d
    if isinstance(v, AltStr): return AltStr(subst_val(v.cond, pairs), subst_val(v.a, pairs), subst_val(v.b, pairs))
    if isinstance(v, SStr): return SStr([p if isinstance(p, str) else (subst_val(p[0], pairs), p[1]) for p in v.pieces])
    if isinstance(v, RangeV): return RangeV(*[subst_val(x, pairs) for x in (v.lo, v.hi, v.step)])
    return v

_HC = {}
def has_names(e, names):
    """does the scalar mention one of the (havoc) symbols"""
    if isinstance(e, Cx): return has_names(e.re, names) or has_names(e.im, names)
    if isinstance(e, NV): return has_names(e.val, names) or has_names(e.nan, names)
    if not is_z(e): return False
    return bool(sym_names(e) & names)
def sym_names(e):
    h = _HC.get(e.get_id())
    if h is not None: return h[1]
    out = set()
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm.startswith('hav~'): out.add(nm)
            elif nm in DECL: pass
        for c in e.children(): out |= sym_names(c)
    r = frozenset(out)
    _HC[e.get_id()] = (e, r)
    return r

def val_names(v, depth=0):
    """havoc symbols in a value"""
    if isinstance(v, Cx): return val_names(v.re) | val_names(v.im)
    if isinstance(v, NV): return val_names(v.val) | val_names(v.nan)
    if is_z(v):
        # operators hide their content: look inside their definitions
        out = set(sym_names(v))
        for x in binder_apps(v):
            d, _ = DECL[x.decl().name()]
            for e in d.exprs: out |= sym_names(e)
        return out
    if isinstance(v, Arr):
        out = set()
        for d in v.shape: out |= val_names(d)
        xs = [cur().generic('y') for _ in v.shape]
        return out | val_names(v.get(tuple(xs)))
    if isinstance(v, tuple): return set().union(*[val_names(x) for x in v]) if v else set()
    if isinstance(v, PList):
        out = set()
        for s in v.segs:
            if isinstance(s, SegItems):
                for x in s.items: out |= val_names(x, depth + 1)
            else:
                out |= val_names(s.n)
                if isinstance(s, SegHole): out |= {s.what}
                else: out |= val_names(s.at(cur().generic('y')))
        return out
    if isinstance(v, Obj): return set().union(*[val_names(x) for x in v.attrs.values()]) if v.attrs else set()
    if isinstance(v, (ObjRef, KeyRef)): return val_names(v.idx)
    if isinstance(v, Opt): return val_names(v.none) | val_names(v.val)
    if isinstance(v, PDict):
        out = set()
        for x in list(v.keys) + list(v.vals): out |= val_names(x)
        for e in v.sym:
            g = cur().generic('y')
            out |= (val_names(e.n) if e.n is not None else set()) | val_names(e.has(g)) | val_names(e.val(g))
        return out
    if isinstance(v, HavocV): return {v.what}
    if isinstance(v, AltStr): return val_names(v.cond) | val_names(v.a) | val_names(v.b)
    if isinstance(v, SStr):
        out = set()
        for p in v.pieces:
            if not isinstance(p, str): out |= val_names(p[0])
        return out
    if isinstance(v, RangeV): return val_names(v.lo) | val_names(v.hi)
    return set()

class Cell:
    """one mutable location modified by the loop"""
    def __init__(self, kind, obj, name, init):
        self.kind, self.obj, self.name, self.init = kind, obj, name, init
        self.mode = 'hav'; self.closed = None; self.hv = None; self.names = set(); self.cls = None; self.hkind = None
        self.hid = None
    def key(self): return (self.kind, id(self.obj), self.name)
    def __repr__(self): return "<cell %s %s %s>" % (self.kind, self.name, self.cls)

def fresh_like(c, init, kind, k, name):
    """arbitrary scalar value of the given kind at iteration k"""
    def u(s):
        f = z3.Function(name + s, z3.IntSort(), {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}[kind if kind != 'c' else 'f'])
        return f(k)
    if kind == 'c': return Cx(u('r'), u('m'))
    return u('')

def run_loop(ip, n, body, fr):
    """executes `body` for k=0..n-1 on the current state; returns None, 'break' or ('return', v)"""
    c = cur()
    n = simpl(n)
    if is_z(n) and not c.entails(n >= 0): c.assume(z3.Implies(z3.BoolVal(True), n >= 0))
    LOOPS[0] += 1
    loop_id = LOOPS[0]
    cells = {}
    rounds = 0
    paths = None
    while True:
        rounds += 1
        if rounds > 16: raise Unsupported("loop summary does not stabilise")
        k = c.generic('k')
        first = rounds == 1
        try: paths = sub_explore(ip, c, k, n, body, cells, first, loop_id)
        except Unsupported as e:
            inf = [nm for nm, v in fr.vars.items() if isinstance(v, float) and v in (INF, -INF)] if first and 'inf/nan' in str(e) else []
            if not inf: raise
            # running minima and maxima: start them at an arbitrary value
            for nm in inf:
                x = ValCell('var', fr, nm, fr.vars[nm]); x.hkind = 'f'; x.unbounded = True
                cells[x.key()] = x; x.hid = 'hav~%d.%d' % (loop_id, len(cells))
            continue
        new = False
        for p in paths:
            for o, end in p.ends:
                for cell in find_cells(o, p.jr.old[id(o)][1], end):
                    if cell.key() not in cells:
                        cells[cell.key()] = cell; new = True
                        cell.hid = 'hav~%d.%d' % (loop_id, len(cells))
                        if isinstance(cell, ValCell) and CANDIDATES:
                            cell.cand = [q for g in CANDIDATES for q in (g(cell, cell.init) or []) if q[1](q[0](0), cell.init)]
                            cell.checked = False
                            if cell.cand: cell.mode, cell.closed, cell.cls = 'closed', cell.cand[0][0], 'invariant'
        if new or first:
            for cell in cells.values():
                if not getattr(cell, 'unbounded', False): cell.set_kind(paths)
            if new or cells: 
                if cells: continue
        # invariants given with the contract: established at the start by closed(0), preserved by every path that continues
        retry = False
        for x in cells.values():
            cs = getattr(x, 'cand', None)
            if cs and not x.checked:
                good = True
                for p in paths:
                    if p.outcome not in (None, 'continue'): continue
                    old = CTX[0]; CTX[0] = p.ctx
                    try: good = good and bool(cs[0][1](x.end_in(p), cs[0][0](k + 1)))
                    finally: CTX[0] = old
                if good: x.checked = True
                else:
                    x.cand = cs[1:]
                    if x.cand: x.closed = x.cand[0][0]
                    else: x.mode, x.cls = 'hav', None
                    retry = True
        if retry:
            for y in cells.values():       # everything found under another assumption is found again
                if getattr(y, 'cand', None): y.checked = False
                elif y.mode != 'hav': y.mode = 'hav'
            continue
        # classify
        norm = [p for p in paths if p.outcome in (None, 'continue')]
        todo = [x for x in cells.values() if x.mode == 'hav']
        if not todo: break
        if not norm: 
            for x in todo: x.mode = 'dead'
            continue
        prog = False
        hav = set()
        for x in todo: hav |= x.names
        last = []
        for x in todo:
            r = classify(c, x, norm, k, n, hav)
            if r is None: continue
            if r == 'last': last.append(x); continue
            x.mode = 'closed'; prog = True
        if prog: continue
        # values that are overwritten in every iteration: needed only when read
        used = set()
        for p in paths:
            used |= cond_names(p.sel)
            if p.outcome not in (None, 'continue'): 
                if isinstance(p.outcome, tuple) and p.outcome[0] == 'return': used |= val_names(p.outcome[1])
        rest = [x for x in todo if x not in last]
        for x in rest:
            used |= getattr(x, 'deps', set())
        for x in last:
            deps = set()
            for v in x.endv: deps |= val_names(v[1])
            x.deps = deps
        need = [x for x in last if x.names & used]
        if need:
            ok = False
            for x in need:
                if not (x.deps & hav - set()): 
                    x.mode = 'closed'; ok = True
            if ok: continue
        for x in last:
            if x not in need and not (x.deps & hav):
                x.mode = 'closed'; prog = True
        if prog: continue
        for x in todo:
            x.mode = 'lost'; prog = True
        continue
    import os
    if os.environ.get('VC_DEBUG'): print('loop', loop_id, 'n', n, [(x, x.mode, getattr(x, 'deps', None)) for x in cells.values()], [p.outcome for p in paths])
    # ---- exits
    for p in paths:
        for ob in p.ctx.oblig[p.ctx_ob0 if hasattr(p, 'ctx_ob0') else 0:]: pass
    ex = [p for p in paths if p.outcome not in (None, 'continue')]
    norm = [p for p in paths if p.outcome in (None, 'continue')]
    E = None
    f = None
    if ex:
        cond = s_or(*[p.sel for p in ex])
        Ef = lambda j: subst_val(cond, [(k, zi(j))]) if is_z(cond) else cond
        if is_z(cond) or cond is True:
            f = mk_first(n, Ef)
        for p in paths:
            for ob in p.ctx.oblig: ob.extra.append(k <= f)
    for p in paths: c.oblig.extend(p.ctx.oblig)
    for p in paths: 
        for w in p.ctx.tainted: c.taint(w)
        for h in p.ctx.hints: c.hints.append(h)
    # facts about symbols introduced inside an iteration hold for every executed iteration
    for p in paths:
        lift_facts(c, p, k, n, f)
    if ex and c.branch(z3.And(f < zi(n), f >= 0)):
        # which exit path
        c.assume(subst_val(cond, [(k, f)]) if is_z(cond) else True)
        chosen = None
        for i, p in enumerate(ex):
            if i == len(ex) - 1: chosen = p; c.assume(subst_val(p.sel, [(k, f)]) if is_z(p.sel) else p.sel); break
            s = subst_val(p.sel, [(k, f)]) if is_z(p.sel) else p.sel
            if (s if isinstance(s, bool) else c.branch(s)): chosen = p; break
        pr = [(k, f)]
        for cell in cells.values():
            cell.store(subst_val(cell.end_in(chosen), pr) if cell.kind in ('var', 'attr') else None, chosen, pr)
        oc = chosen.outcome
        if oc == 'break': return 'break'
        if oc[0] == 'return': return ('return', subst_val(oc[1], pr))
        raise PyRaise(oc[1])
    if ex: c.assume(z3.Or(f >= zi(n), zi(n) <= 0))
    for cell in cells.values(): cell.install_final(c, n)
    return None

def cond_names(sel): return val_names(sel) if is_z(sel) else set()

def lift_facts(c, p, k, n, f):
    base = len(c.facts)
    new = p.ctx.facts[p.ctx.base_facts:]
    condids = set(x.get_id() for x in p.ctx.conds)
    new = [x for x in new if x.get_id() not in condids]
    rng = [k >= 0, k < zi(n)]
    if f is not None: rng.append(k <= f)
    hyp = z3.And(*(rng + ([p.sel] if is_z(p.sel) else [])))
    new = [x for x in new if depends_any_fresh(x)]
    if new: c.schemas.append(Schema([k], z3.Implies(hyp, z3.And(*new) if len(new) > 1 else new[0]), 'iteration facts'))
    for s in p.ctx.schemas[p.ctx.base_schemas:]:
        c.schemas.append(Schema([k] + s.vars, z3.Implies(hyp, s.body), s.name))

def depends_any_fresh(x): return True

def sub_explore(ip, c, k, n, body, cells, first, loop_id):
    work = [[]]
    out = []
    while work:
        dec = work.pop()
        ch = Ctx(dec, parent=c)
        ch.generics = c.generics + [k]
        ch.facts += [k >= 0, k < zi(n)]
        ch.base_facts = len(ch.facts); ch.base_schemas = len(ch.schemas)
        ch.hints = [k]
        jr = Journal(); JR.append(jr)
        CTX[0] = ch
        p = Path(); p.ctx = ch; p.jr = jr
        ok = True
        try:
            for cell in cells.values(): cell.install_start(ch, k, n, loop_id)
            try:
                p.outcome = body(k)
                if isinstance(p.outcome, tuple): p.outcome = ('return', freeze(p.outcome[1]))
            except PyRaise as e:
                p.outcome = ('raise', e.exc)
            p.ends = [(o, freeze_snap(o)) for o in jr.order]
            p.sel = s_and(*ch.conds) if ch.conds else True
            if is_z(p.sel): p.sel = canon(p.sel)
        except Infeasible:
            ok = False
        finally:
            jr.rollback(); JR.pop(); CTX[0] = c
        c.counter = max(c.counter, ch.counter)
        if ok: out.append(p)
        work.extend(ch.alts)
        if len(out) > 64: raise Unsupported("too many paths in a loop body")
    if not out: raise Infeasible()
    return out

def freeze_snap(o):
    if isinstance(o, Arr): return (o.shape, o.kind, o.frozen())
    if isinstance(o, Frame): return {k: freeze_keep(v) for k, v in o.vars.items()}
    if isinstance(o, Obj): return {k: freeze_keep(v) for k, v in o.attrs.items()}
    if isinstance(o, PList): return o.segs
    return o.snap()
def freeze_keep(v):
    return v

def find_cells(o, old, end):
    if isinstance(o, Arr): return [ArrCell('arr', o, None, Arr(old[0], old[1], Arr.__new__(Arr) and (lambda old: (lambda idx: frozen_from(old, idx)))(old)))]
    if isinstance(o, (Frame, Obj)):
        kind = 'var' if isinstance(o, Frame) else 'attr'
        res = []
        for nm, v in end.items():
            if nm == '?exc': continue
            if nm not in old: res.append(ValCell(kind, o, nm, UNDEF))
            elif old[nm] is not v: res.append(ValCell(kind, o, nm, old[nm]))
        return res
    if isinstance(o, PList):
        return [ListCell('list', o, None, old)] if old is not o and len(end) != len(old) or any(a is not b for a, b in zip(old, end)) else []
    if isinstance(o, PDict): return [DictCell('dict', o, None, old)]
    return [PoisonCell('other', o, None, old)]

def frozen_from(old, idx):
    shape, kind, fn, cache = old
    idx = tuple(conc(i) if is_z(i) else i for i in idx)
    kk = tuple(ckey(i) for i in idx)
    h = cache.get(kk)
    if h is not None: return h[1]
    v = fn(idx); cache[kk] = (idx, v)
    return v

def end_snap(cell, p):
    for o, e in p.ends:
        if o is cell.obj: return e
    return p.jr.old[id(cell.obj)][1] if id(cell.obj) in p.jr.old else None

# ------------------------------------------------------------------ scalar decomposition
def as_update(e, h, names):
    """e = h + d with d free of `names`, else None"""
    if isinstance(e, Cx) or isinstance(h, Cx):
        e, h = cx(e), cx(h)
        a, b = as_update(e.re, h.re, names), as_update(e.im, h.im, names)
        return None if a is None or b is None else Cx(a, b)
    if isinstance(e, NV) or isinstance(h, NV): return None
    if is_bool_sort(e) or is_bool_sort(h): return None
    if is_z(e) and e.decl().kind() == z3.Z3_OP_ITE:
        if val_names(e.arg(0)) & names: return None
        a, b = as_update(e.arg(1), h, names), as_update(e.arg(2), h, names)
        if a is None or b is None: return None
        return s_ite(e.arg(0), a, b)
    d = ring.norm(s_sub(e, h)) if is_z(e) or is_z(h) else s_sub(e, h)
    if val_names(d) & names: return None
    return d

def only_at(e, names, hs):
    """the cell is read in e at the location hs (its own) only"""
    ids = set(canon(x).get_id() for x in hs)
    for x in uf_apps(e).values():
        if x.decl().name() in names and canon(x).get_id() not in ids: return False
    return True

def as_write(e, h, names, own=None):
    """(w, v) with e == ITE(w, v, h), w and v free of `names` (v may read the terms `own`); None if not of that form"""
    if isinstance(e, Cx) or isinstance(h, Cx):
        e, h = cx(e), cx(h)
        a, b = as_write(e.re, h.re, names, own), as_write(e.im, h.im, names, own)
        if a is None or b is None: return None
        w = s_or(a[0], b[0]); w = simp_bool(w)
        return (w, Cx(a[1] if a[1] is not None else 0, b[1] if b[1] is not None else 0)) if same(a[0], b[0]) or a[0] is False or b[0] is False else None
    if isinstance(e, NV): return None if val_names(e) & names else (True, e)
    if is_z(e) and is_z(h) and canon(e).eq(canon(h)): return (False, None)
    if not (val_names(e) & names): return (True, e)
    if is_z(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c = e.arg(0)
        if val_names(c) & names: return None
        a, b = as_write(e.arg(1), h, names, own), as_write(e.arg(2), h, names, own)
        if a is None or b is None: return None
        w = s_or(s_and(c, a[0]), s_and(s_not(c), b[0]))
        if a[1] is None: v = b[1]
        elif b[1] is None: v = a[1]
        else: v = s_ite(c, a[1], b[1])
        return (simp_bool(w), v)
    if is_zb(e): 
        # boolean combination of the old value
        k = e.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            hs = [x for x in e.children() if canon(x).eq(canon(h))]
            rest = [x for x in e.children() if not canon(x).eq(canon(h))]
            if hs and not any(val_names(x) & names for x in rest):
                if k == z3.Z3_OP_AND: return (simp_bool(s_not(s_and(*rest))), False)
                return (simp_bool(s_or(*rest)), True)
    if own and is_z(e): return (True, e)
    return None

def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    return canon(a).eq(canon(b))

def merge_paths(items):
    """[(sel, scalar)] -> scalar (paths are exclusive and exhaustive)"""
    r = items[-1][1]
    for s, v in reversed(items[:-1]): r = s_ite(s, v, r) if is_z(s) else (v if s else r)
    return r

class ValCell(Cell):
    """a variable or attribute holding a value"""
    def set_kind(self, paths):
        ks = []
        for p in paths:
            e = self.end_in(p)
            if isinstance(e, Arr) and e.ndim == 0: e = e.get(())
            ks.append(kind_of(e) if is_scalar(e) else 'o')
        self.unbounded = isinstance(self.init, float) and self.init in (INF, -INF)
        if self.unbounded and all(x in 'if' for x in ks): self.hkind = 'f'
        elif is_scalar(self.init) and not isinstance(self.init, NV) and not (isinstance(self.init, float)) and all(x in 'bifc' for x in ks):
            k0 = kind_of(self.init)
            if k0 == 'b' or any(x == 'b' for x in ks):
                self.hkind = 'b' if k0 == 'b' and all(x == 'b' for x in ks) else None
            else: self.hkind = kmax(k0, *ks)
        elif isinstance(self.init, Arr) and all(isinstance(self.end_in(p), Arr) and len(self.end_in(p).shape) == self.init.ndim
                                                and all(dims_same(a, b) for a, b in zip(self.end_in(p).shape, self.init.shape)) for p in paths):
            self.hkind = 'A' + kmax(self.init.kind, *[self.end_in(p).kind for p in paths])
        else: self.hkind = None
    def end_in(self, p):
        e = end_snap(self, p)
        if e is None: return self.init
        v = e.get(self.name, UNDEF)
        return v
    def put(self, v):
        touch(self.obj)
        d = self.obj.vars if self.kind == 'var' else self.obj.attrs
        if v is UNDEF: d.pop(self.name, None)
        else: d[self.name] = v
    def install_start(self, c, k, n, loop_id):
        if self.mode == 'closed':
            self.put(self.closed(k)); return
        nm = self.hid
        self.names = {nm, nm + 'r', nm + 'm'}
        if self.hkind is None or self.mode in ('lost', 'dead'):
            if not isinstance(self.hv, HavocV): self.hv = HavocV(nm)      # the same value on every path
        elif self.hkind.startswith('A'): self.hv = hav_arr(nm, k, self.init.shape, self.hkind[1:])
        else: self.hv = fresh_like(c, self.init, self.hkind, k, nm)
        self.put(self.hv)
    def store(self, v, p, pr): self.put(v)
    def install_final(self, c, n):
        if self.mode == 'closed':
            v = self.closed(n)
            self.put(v)
        else:
            self.put(HavocV('loop:%s' % self.name))
            c.taint("loop variable %s not summarised" % self.name) if self.mode == 'lost' and self.kind == 'attr' else None

def hav_arr(nm, k, shape, kind):
    nd = len(shape)
    def u(s):
        f = z3.Function(nm + s, *([z3.IntSort()] * (1 + nd)), {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort(), 'c': z3.RealSort()}[kind])
        return lambda idx: f(k, *[zi(i) for i in idx])
    if kind == 'c':
        a, b = u('r'), u('m')
        return Arr(shape, 'c', lambda idx: Cx(a(idx), b(idx)))
    return Arr(shape, kind, u(''))

class ArrCell(Cell):
    def set_kind(self, paths): self.hkind = self.init.kind
    def end_in(self, p):
        e = end_snap(self, p)
        if e is None: return self.init
        return Arr(e[0], e[1], e[2])
    def put(self, a):
        touch(self.obj)
        self.obj._fn = a.frozen(); self.obj._cache = {}
    def install_start(self, c, k, n, loop_id):
        if self.mode == 'closed': self.put(self.closed(k)); return
        nm = self.hid
        self.names = {nm, nm + 'r', nm + 'm'}
        self.hv = hav_arr(nm, k, self.init.shape, self.init.kind)
        self.put(self.hv)
    def store(self, v, p, pr): self.put(subst_val(self.end_in(p), pr))
    def install_final(self, c, n):
        if self.mode == 'closed': self.put(self.closed(n))
        else:
            nm = 'lost' + self.hid
            self.put(hav_arr(nm, z3.IntVal(0), self.init.shape, self.init.kind)); c.taint("array updated by a loop not summarised")

class ListCell(Cell):
    """append-only list; init = segments before the loop"""
    def set_kind(self, paths): pass
    def end_in(self, p):
        e = end_snap(self, p)
        return self.init if e is None else e
    def put(self, segs): touch(self.obj); self.obj.segs = tuple(segs)
    def install_start(self, c, k, n, loop_id):
        if self.mode == 'closed':
            if getattr(self, 'start_k', None) is not k: self.start, self.start_k = tuple(self.closed(k)), k
            self.put(self.start); return
        nm = self.hid
        self.names = {nm}
        L = z3.Function(nm, z3.IntSort(), z3.IntSort())(k)
        c.facts.append(L >= 0)
        if getattr(self, 'hole_k', None) is not k: self.hole, self.hole_k = SegHole(L, nm), k      # one hole for all paths
        self.start = tuple(self.init) + (self.hole,)
        self.put(self.start)
    def tail(self, p):
        """segments appended by path p, or None"""
        e = self.end_in(p)
        s = self.start
        if len(e) < len(s) or any(a is not b for a, b in zip(s, e)): return None
        return e[len(s):]
    def store(self, v, p, pr):
        self.put(())
        # segments present before the loop do not mention its index
        self.obj.segs = tuple(x if any(x is y for y in self.init) else self.subst_segs((x,), pr)[0] for x in self.end_in(p))
    def subst_segs(self, segs, pr): return subst_val(PList(segs=segs), pr).segs
    def install_final(self, c, n):
        if self.mode == 'closed': self.put(self.closed(n))
        else:
            L = c.fresh('lostlen'); c.facts.append(L >= 0)
            self.put((SegHole(L, self.hid),)); c.taint("list updated by a loop not summarised")

class DictCell(Cell):
    def set_kind(self, paths): pass
    def end_in(self, p): 
        e = end_snap(self, p); return self.init if e is None else e
    def put(self, s): touch(self.obj); self.obj.restore(s)
    def install_start(self, c, k, n, loop_id):
        self.names = {self.hid}
        if self.mode == 'closed': self.put(self.closed(k))
    def store(self, v, p, pr):
        e = self.end_in(p); d = PDict(); d.restore(e); self.put(subst_val(d, pr).snap())
    def install_final(self, c, n):
        if self.mode == 'closed': self.put(self.closed(n))
        else: raise Unsupported("dictionary updated by a loop")

class PoisonCell(Cell):
    def set_kind(self, paths): raise Unsupported("object of type %s modified in a loop over a symbolic range" % type(self.obj).__name__)

# ------------------------------------------------------------------ classification
def classify(c, x, norm, k, n, hav):
    """sets x.closed and returns its class, or None when not (yet) expressible"""
    old = CTX[0]
    ch = Ctx([], parent=c); ch.facts += [k >= 0, k < zi(n)]; ch.generics = c.generics + [k]; ch.hints = []
    CTX[0] = ch
    try:
        if isinstance(x, ListCell): return classify_list(ch, x, norm, k, n, hav)
        if isinstance(x, ArrCell): return classify_arr(ch, x, norm, k, n, hav)
        if isinstance(x, DictCell): return classify_dict(ch, x, norm, k, n, hav)
        return classify_val(ch, x, norm, k, n, hav)
    finally:
        CTX[0] = old
        c.counter = max(c.counter, ch.counter)

def sels(norm): return [(p.sel, p) for p in norm]

def sub_k(v, k, j): return subst_val(v, [(k, zi(j))])

def classify_val(c, x, norm, k, n, hav):
    ends = [(p.sel, unwrap(x.end_in(p)) if isinstance(x.end_in(p), Arr) else x.end_in(p)) for p in norm]
    x.endv = ends
    deps = set()
    for s, v in ends: deps |= val_names(v) | cond_names(s)
    x.deps = deps
    if all(v is x.hv for _, v in ends):
        x.closed = lambda j: x.init; x.cls = 'same'; return 'same'
    if x.hkind and not x.hkind.startswith('A') and all(is_scalar(v) for _, v in ends):
        others = deps - x.names
        m = merge_paths(ends)
        if not (others & hav) and x.hkind in ('i', 'f'):
            e = as_extremum(m, x.hv, x.names)
            if e is not None:
                close_extremum(x, k, *e); x.cls = 'extremum'; return 'extremum'
        if getattr(x, 'unbounded', False): return None
        if not (others & hav):
            d = as_update(m, x.hv, x.names)
            if d is not None:
                init = x.init
                if is_num(d) and d == 0: x.closed = lambda j: init; x.cls = 'same'; return 'same'
                x.closed = lambda j: coerce(s_add(init, mk_sum(0, j, lambda i: sub_k(d, k, i))), x.hkind)
                x.cls = 'sum'; return 'sum'
        if deps & x.names:
            if others & hav: return None
            wv = as_write(m, x.hv, x.names)
            if wv is None: return None
            w, v = wv
            init = x.init
            if w is False: x.closed = lambda j: init; x.cls = 'same'; return 'same'
            if is_num(v) or not depends_k(v, k):
                x.closed = lambda j: s_ite(simp_bool(mk_any(j, lambda i: sub_k(w, k, i))), v, init)
                x.cls = 'flag'; return 'flag'
            lw = LastWriter(0, lambda i, xs: sub_k(w, k, i))
            x.closed = lambda j: s_ite(simp_bool(s_cmp('>=', lw.at(j, []), 0)), sub_k(v, k, lw.at(j, [])), init)
            x.cls = 'lastif'; return 'lastif'
    elif x.hkind and x.hkind.startswith('A') and all(isinstance(v, Arr) for _, v in ends):
        if deps & x.names:
            return classify_content(c, x, [(s, v) for s, v in ends], k, n, hav)
    elif deps & x.names:
        # some paths keep the old value (any type): the value of the last iteration that assigns it
        keep = [(s, v) for s, v in ends if v is x.hv]; wr = [(s, v) for s, v in ends if v is not x.hv]
        if not wr or not keep or any((val_names(v) | cond_names(s)) & (hav | x.names) for s, v in wr) or any(cond_names(s) & hav for s, v in keep): return None
        w = s_or(*[s for s, _ in wr]); init = x.init
        lw = LastWriter(0, lambda i, xs: sub_k(w, k, i))
        def closed(j):
            if isinstance(j, int) and j == 0: return init
            jm = simpl(s_sub(j, 1)); wj = sub_k(w, k, jm)
            if (wj is True or is_z(wj) and cur().entails(zb(wj))) and cur().entails(zb(s_cmp('>=', jm, 0))): l = jm      # the last iteration assigns it
            else:
                l = lw.at(j, [])
                if not cur().branch(l >= 0): return init
            for s, v in wr[:-1]:
                if cur().branch(sub_k(s, k, l)): return sub_k(v, k, l)
            return sub_k(wr[-1][1], k, l)
        x.closed = lazy(x, closed); x.cls = 'lastref'; return 'lastref'
    # overwritten on every path
    if deps & x.names: return None
    init = x.init
    def closed(j):
        if isinstance(j, int) and j == 0: return init
        def at(i):
            vs = [(sub_k(s, k, i) if is_z(s) else s, sub_k(v, k, i)) for s, v in ends]
            r = vs[-1][1]
            for s, v in reversed(vs[:-1]): r = merge(simp_bool(s), v, r)
            return r
        jm = simpl(s_sub(j, 1))
        cc = cur()
        if isinstance(jm, int) or cc.entails(jm >= 0): return at(jm)
        if init is UNDEF: return LazyLast(jm, at)
        try: return merge(jm >= 0, at(jm), init)
        except MergeError: return HavocV('loop:%s' % x.name)
    def closed_safe(j):
        try: return closed(j)
        except MergeError: return HavocV('loop:%s' % x.name)
    x.closed = closed_safe; x.cls = 'last'
    return 'last'

def as_extremum(m, h, names):
    """(kind, guard, v) with m == ITE(guard and v < h, v, h) (or >), guard and v free of `names`"""
    nan = None
    if isinstance(m, NV): m, nan = m.val, m.nan
    if not is_z(m) or not z3.is_app(m) or m.decl().kind() != z3.Z3_OP_ITE: return None
    c, a, b = m.children()
    H = canon(toz(h))
    if canon(a).eq(H): c, a, b = z3.Not(c), b, a
    if not canon(b).eq(H): return None
    if not (val_names(c) & names) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        r = as_extremum(a, h, names)
        if r is None: return None
        return (r[0], simp_bool(s_and(c, r[1])), r[2]) if nan is None else None
    if val_names(a) & names: return None
    c = canon(c)
    conj = list(c.children()) if z3.is_and(c) else [c]
    dep = [q for q in conj if val_names(q) & names]; guard = [q for q in conj if not (val_names(q) & names)]
    if len(dep) != 1: return None
    kind = None
    for kd, op in (('MIN', '<'), ('MIN', '<='), ('MAX', '>'), ('MAX', '>=')):
        if canon(zb(s_cmp(op, a, h))).eq(dep[0]): kind = kd; break
    if kind is None: return None
    if nan is not None:
        # the new value is never a nan: nan == ITE(c, nan', False) with c => not nan'
        if not (isinstance(nan, bool) and not nan):
            t = z3.Solver(); t.set('timeout', 1000); t.add(toz(nan))
            if t.check() != z3.unsat: return None
    return kind, (s_and(*guard) if guard else True), a

def close_extremum(x, k, kind, guard, v):
    init = x.init
    g = lambda i: sub_k(guard, k, i) if is_z(guard) else guard
    def closed(j):
        f = mk_first(j, g) if is_z(guard) else (0 if guard else j)
        some = s_cmp('<', f, j)
        some = simp_bool(some) if is_z(some) else some
        if not (some if isinstance(some, bool) else cur().branch(some)): return init
        vf = sub_k(v, k, f)
        w = mk_ext(kind, j, (lambda i: s_ite(g(i), sub_k(v, k, i), vf)) if is_z(guard) else (lambda i: sub_k(v, k, i)))
        if isinstance(init, float): return w
        return coerce(s_ite(s_cmp('<' if kind == 'MIN' else '>', w, init), w, init), x.hkind)
    x.closed = lazy(x, closed)

def lazy(x, closed):
    return (lambda j: LazyV(lambda: closed(j))) if x.kind == 'var' else closed

def LazyLast(jm, at):
    """variable assigned in the loop only: meaningful when the loop ran"""
    return at(jm)

_DK = {}
def depends_k(v, k):
    if isinstance(v, Cx): return depends_k(v.re, k) or depends_k(v.im, k)
    if isinstance(v, NV): return depends_k(v.val, k) or depends_k(v.nan, k)
    if not is_z(v): return False
    return any(x.eq(k) for x in generic_consts(v))

def classify_content(c, x, ends, k, n, hav):
    """array cell: ends = [(sel, Arr)]; sets x.closed(j) -> Arr"""
    xs = [c.generic('x') for _ in x.init.shape]
    for g, d in zip(xs, x.init.shape): c.facts += [g >= 0, g < zi(d)]
    idx = tuple(xs)
    m = merge_paths([(s, coerce(e.get(idx), x.hv.kind)) for s, e in ends])
    h = x.hv.get(idx)
    deps = val_names(m)
    x.deps = deps
    if (deps - x.names) & hav: return None
    init = Arr(x.init.shape, x.init.kind, x.init.frozen())
    kind = x.hv.kind
    d = as_update(m, h, x.names)
    if d is not None:
        if (is_num(d) and d == 0) or (isinstance(d, Cx) and is_num(d.re) and is_num(d.im) and d.re == 0 and d.im == 0):
            x.closed = lambda j: init; x.cls = 'same'; return 'same'
        def closed(j):
            return Arr(init.shape, kind, lambda ii: coerce(s_add(init.get(ii), mk_sum(0, j, lambda q: subst_val(d, [(k, zi(q))] + [(a, zi(b)) for a, b in zip(xs, ii)]))), kind))
        x.closed = closed; x.cls = 'addscatter'; return 'addscatter'
    wv = as_write(m, h, x.names)
    self_read = None
    if wv is None:
        # every location is written at most once: its old value is the initial one
        own = [h.re, h.im] if isinstance(h, Cx) else [h]
        wv = as_write(m, h, x.names, own)
        if wv is None or not is_z(wv[0]) or solve_k(wv[0], k, xs) is None: return None
        k0 = solve_k(wv[0], k, xs)
        v0 = subst_val(wv[1], [(k, zi(k0))]); hk = subst_val(h, [(k, zi(k0))]); own = [hk.re, hk.im] if isinstance(hk, Cx) else [hk]
        for q in ([v0.re, v0.im] if isinstance(v0, Cx) else [v0]):
            if is_z(q) and not only_at(q, x.names, own): return None
        wv = (wv[0], v0)
        i0 = coerce(init.get(idx), kind); i0 = [i0.re, i0.im] if isinstance(i0, Cx) else [i0]
        pairs = [(canon(a), toz(b)) for a, b in zip(own, i0)]
        wv = (wv[0], subst_val(wv[1], pairs))
        if val_names(wv[1]) & x.names: return None
    w, v = wv
    if w is False: x.closed = lambda j: init; x.cls = 'same'; return 'same'
    kk = solve_k(w, k, xs) if is_z(w) else None
    if kk is not None:
        def closed(j):
            def fn(ii):
                pr = [(a, zi(b)) for a, b in zip(xs, ii)]
                q = subst_val(kk, pr)
                cond = s_and(s_cmp('>=', q, 0), s_cmp('<', q, j), subst_val(subst_val(w, [(k, zi(kk))]), pr))
                cond = simp_bool(cond) if is_z(cond) else cond
                if cond is False: return init.get(ii)
                val = subst_val(subst_val(v, [(k, zi(kk))]), pr)
                return coerce(s_ite(cond, val, coerce(init.get(ii), kind)), kind)
            return Arr(init.shape, kind, fn)
        x.closed = closed; x.cls = 'scatter'; return 'scatter'
    lw = LastWriter(len(xs), lambda i, ys: subst_val(w, [(k, zi(i))] + list(zip(xs, ys))))
    def closed(j):
        def fn(ii):
            pr = [(a, zi(b)) for a, b in zip(xs, ii)]
            l = lw.at(j, ii)
            return coerce(s_ite(simp_bool(l >= 0), subst_val(v, [(k, l)] + pr), coerce(init.get(ii), kind)), kind)
        return Arr(init.shape, kind, fn)
    x.closed = closed; x.cls = 'lastwriter'
    return 'lastwriter'

def solve_k(w, k, xs):
    """expression of k in terms of xs forced by w (an equality conjunct x == k + const)"""
    conj = list(w.children()) if z3.is_and(w) else [w]
    for e in conj:
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_EQ and isinstance(e.arg(0), z3.ArithRef):
            try: p = ring.p_add(ring.to_poly(e.arg(0)), ring.to_poly(e.arg(1)), -1)
            except ring.TooBig: continue
            km = None; bad = False
            for m, cf in p.items():
                names = [ring.ATOMS[a] for a, _ in m]
                if any(t.eq(k) for t in names):
                    if len(m) == 1 and m[0][1] == 1 and abs(cf) == 1: km = (m, cf)
                    else: bad = True
                elif any(depends_k(t, k) for t in names): bad = True
            if km and not bad:
                q = dict(p); q.pop(km[0])
                r = ring.from_poly(ring.p_scale(q, -1 / km[1]), None)
                return conc(r)
    return None

def classify_arr(c, x, norm, k, n, hav):
    return classify_content(c, x, [(p.sel, x.end_in(p)) for p in norm], k, n, hav)

def classify_list(c, x, norm, k, n, hav):
    tails = []
    deps = set()
    for p in norm:
        t = x.tail(p)
        if t is None: return None
        pl = PList(segs=t)
        tails.append((p.sel, pl, pl.length()))
        deps |= val_names(pl.length()) | cond_names(p.sel)
        deps |= val_names(pl)
    x.deps = deps
    if deps & hav: return None
    lens = [t[2] for t in tails]
    init = tuple(x.init)
    if all(isinstance(l, int) and l == 0 for l in lens):
        x.closed = lambda j: init; x.cls = 'same'; return 'same'
    nz = [t for t in tails if not (isinstance(t[2], int) and t[2] == 0)]
    def item(j, l):
        vs = [(sub_k(s, k, j) if is_z(s) else s, pl) for s, pl, _ in nz]
        get = lambda pl: sub_k(pl.get(l), k, j)
        if len(nz) == 1: return get(nz[0][1])
        r = get(vs[-1][1])
        try:
            for s, pl in reversed(vs[:-1]): r = merge(simp_bool(s), get(pl), r)
            return r
        except MergeError:
            cc = cur()
            for s, pl in vs[:-1]:
                if (s if isinstance(s, bool) else cc.branch(s)): return get(pl)
            return get(vs[-1][1])
    if all(isinstance(l, int) and l == 1 for l in lens):
        def closed(j):
            return init + (SegSeq(j, lambda i: item(i, 0)),)
        x.closed = closed; x.cls = 'map'; return 'map'
    # concatenation of per-iteration segments: position i -> (iteration, local index)
    lenk = merge_paths([(s, l) for s, _, l in tails])
    cat = Concat(n, lambda j: sub_k(lenk, k, j))
    def closed(j):
        m = simpl(cat.off(j))
        if not isinstance(j, int) and dims_same(j, n): m = simpl(cat.T)
        return init + (SegSeq(m, lambda i: item(simpl(cat.seg(i)), simpl(cat.local(i)))),)
    x.closed = closed; x.cls = 'concat'
    return 'concat'

def classify_dict(c, x, norm, k, n, hav):
    ok, ov, osym = x.init
    ent = []; ikeys = []
    for p in norm:
        ks, vs, sy = x.end_in(p)
        if sy is not osym and sy != osym: return None
        if len(ks) < len(ok) or any(a is not b for a, b in zip(ok, ks)) or any(a is not b for a, b in zip(ov, vs)): return None
        new = list(zip(ks[len(ok):], vs[len(ok):]))
        if len(new) > 1: return None
        if new:
            key, v = new[0]
            if val_names(v) & hav or cond_names(p.sel) & hav: return None
            if is_scalar(key) and is_int_sort(key) if not isinstance(key, KeyRef) else False: ikeys.append((p.sel, key, v)); continue
            if not (isinstance(key, KeyRef) and is_z(key.idx) and key.idx.eq(k)): return None
            ent.append((p.sel, key.space, v))
    if ikeys and ent: return None
    if ikeys:
        if ok or osym: return None
        cond = lambda p, i: sub_k(p, k, i) if is_z(p) else p
        lw = LastWriter(1, lambda i, ys: s_or(*[s_and(cond(p, i), s_cmp('==', sub_k(q, k, i), ys[0])) for p, q, _ in ikeys]))
        def ival(j, y):
            l = lw.at(j, [y]); vs = [(s_and(cond(p, l), s_cmp('==', sub_k(q, k, l), y)), sub_k(v, k, l)) for p, q, v in ikeys]
            r = vs[-1][1]
            for s, v in reversed(vs[:-1]): r = merge(simp_bool(s), v, r)
            return r
        x.closed = lambda j: ([], [], (SymEntries(INTKEYS, None, lambda y: simp_bool(s_cmp('>=', lw.at(j, [y]), 0)), lambda y: ival(j, y)),))
        x.cls = 'intkeys'; return 'intkeys'
    if not ent: x.closed = lambda j: x.init; x.cls = 'same'; return 'same'
    sp = ent[0][1]
    if any(e[1] != sp for e in ent): return None
    if any(isinstance(q, KeyRef) for q in ok) or any(e.space == sp for e in osym): return None
    def has(i): return simp_bool(s_or(*[sub_k(s, k, i) if is_z(s) else s for s, _, _ in ent]))
    def val(i):
        vs = [(sub_k(s, k, i) if is_z(s) else s, sub_k(v, k, i)) for s, _, v in ent]
        r = vs[-1][1]
        for s, v in reversed(vs[:-1]): r = merge(simp_bool(s), v, r)
        return r
    x.closed = lambda j: (list(ok), list(ov), tuple(osym) + (SymEntries(sp, j, has, val),))
    x.cls = 'keyed'; return 'keyed'

def set_size(p):
    """number of distinct values of a list"""
    n = p.length()
    c = cur()
    distinct = mk_all(n, lambda i: mk_all(n, lambda j: s_or(s_cmp('==', i, j), s_not(py_eq(p.get(i), p.get(j))))))
    d = c.fresh('distinct')
    c.facts.append(z3.And(d >= 0, d <= zi(n)))
    distinct = simp_bool(distinct)
    if isinstance(distinct, bool):
        return n if distinct else d
    c.facts.append(distinct == (d == zi(n)))
    return d
