"""match_symmetries: one-to-one, equal rotations, translations equal up to lattice translations; order after matching."""
from contracts.common import *
SO = 'irrep.spacegroup.SymmetryOperation'; SG = 'irrep.spacegroup.SpaceGroup'
SCOPE = 'any number of operations and of table entries, every change of cell and every tolerance below 1/2'
class Setup: pass
def setup(ip):
    x = Setup(); x.n = nat('n', 1); x.m = nat('m', 1)
    x.P = rmat('P', 3, 3); x.p = rmat('p', 3); x.th = real('th'); cur().assume(s_and(x.th > 0, x.th < Fraction(1, 2)))
    x.rot, x.tr = imat('rot', x.n, 3, 3), rmat('tr', x.n, 3)
    x.Rref, x.tref = imat('Rref', x.n, 3, 3), rmat('tref', x.n, 3)
    x.TR, x.TT = imat('TR', x.m, 3, 3), rmat('TT', x.m, 3)
    # rotations of the tables have elements -1, 0, 1 (checked for every shipped table under C27)
    for a_ in range(3):
        for b_ in range(3): forall(x.m, lambda i: s_and(s_cmp('<=', -1, x.TR.get((i, a_, b_))), s_cmp('<=', x.TR.get((i, a_, b_)), 1)))
    ops = ObjSeq(x.n, ip.glob('irrep.spacegroup', 'SymmetryOperation'), dict(rotation=x.rot, translation=x.tr, spinor_rotation=cmat('Sop', x.n, 2, 2), ind=imat('ind0', x.n), sign=imat('sign0', x.n), pos=imat('pos', x.n)))
    tab = ObjSeq(x.m, ip.glob('irreptables', 'SymopTable'), dict(R=x.TR, t=x.TT, S=cmat('Stab', x.m, 2, 2)))
    x.ops, x.tab = ops, tab
    x.sg = Obj(ip.glob('irrep.spacegroup', 'SpaceGroup'), {'symmetries': seq_list(ops), 'symmetries_tables': seq_list(tab), 'refUC': x.P, 'shiftUC': x.p, 'spinor': False, '?open': True})
    return x
def row(M, j): return Arr(M.shape[1:], M.kind, lambda i: M.get((j,) + tuple(i)))
def callees(x):
    """contracts of rotation_refUC and translation_refUC (proved for their bodies under C11)"""
    def idx(o):
        if not isinstance(o, ObjRef) or o.seq is not x.ops: raise Unsupported('operation of unknown origin')
        return o.idx
    bad = z3.Function('notint', z3.IntSort(), z3.BoolSort())
    x.bad = bad
    def rot(ip, a, kw):
        j = idx(a[0]); same_cell(a[1:], kw, x)
        if cur().branch(bad(zi(j))): py_raise('RuntimeError')
        return row(x.Rref, j)
    def trans(ip, a, kw):
        j = idx(a[0]); same_cell(a[1:], kw, x)
        return row(x.tref, j)
    return {SO + '.rotation_refUC': rot, SO + '.translation_refUC': trans}
def same_cell(a, kw, x):
    P = a[0] if a else kw.get('refUC'); p = a[1] if len(a) > 1 else kw.get('shiftUC')
    if P is not x.P or (p is not None and p is not x.p): raise Unsupported('another change of cell')
def near_lattice(x, d):
    """every component of P.d is within the tolerance of an integer"""
    out = []
    for a in range(3):
        v = S(*[s_mul(x.P.get((a, b)), d[b]) for b in range(3)])
        f = s_sub(v, s_floor(v))
        out.append(s_or(s_cmp('<=', f, x.th), s_cmp('<=', s_sub(1, f), x.th)))
    return s_and(*out)
def same_rot(x, j, i): return s_and(*[eq(x.Rref.get((j, a, b)), x.TR.get((i, a, b))) for a in range(3) for b in range(3)])
def match(ip):
    x = setup(ip)
    from vc.spec import CONTRACTS
    CONTRACTS.update(callees(x))
    r = call(ip, SG + '.match_symmetries', [x.sg], dict(refUC=x.P, shiftUC=x.p, trans_thresh=x.th))
    if isinstance(r, Raised):
        return      # any error is allowed by the statement
    ind, dt, signs = r
    ind = ip.to_plist(ind); dt = ip.to_plist(dt)
    post('one table position per operation', eq(ind.length(), x.n))
    j, j2 = sk('j', x.n), sk('j2', x.n)
    i, i2 = ind.get(j), ind.get(j2)
    post('position exists in the table', s_and(s_cmp('>=', i, 0), s_cmp('<', i, x.m)))
    post('the rotation is integer in the reference cell', s_not(x.bad(zi(j))))
    post('same rotation', same_rot(x, j, i))
    post('translations agree up to a lattice translation', near_lattice(x, [s_sub(x.TT.get((i, b)), x.tref.get((j, b))) for b in range(3)]))
    post('different operations have different partners', s_implies(s_cmp('!=', j, j2), s_cmp('!=', i, i2)))
def ordering(spinor, search):
    def c(ip):
        """SpaceGroup.__init__ after the operations are found: order, indices and signs follow the match"""
        from vc.spec import CONTRACTS
        x = setup(ip)
        x.pos = imat('tabpos', x.n); x.sgn = imat('tabsign', x.n)
        fails = z3.Bool('fails')
        # contract of match_symmetries (proved above): distinct positions of the table, or RuntimeError
        def match(ip_, a, kw):
            if cur().branch(fails): py_raise('RuntimeError')
            return (PList(segs=(SegSeq(x.n, lambda i: x.pos.get((i,))),)), PList(segs=(SegSeq(x.n, lambda i: rmat('dt', x.n, 3)),)), x.sgn)
        forall(x.n, lambda j: s_and(s_cmp('>=', x.pos.get((j,)), 0), s_cmp('<', x.pos.get((j,)), x.m)))
        forall2(x.n, x.n, lambda i, j: s_or(s_cmp('==', i, j), s_cmp('!=', x.pos.get((i,)), x.pos.get((j,)))))
        found = seq_list(x.ops)
        CONTRACTS.update({SG + '._findsym': lambda ip_, a, kw: (found, 'P1', z3.Int('number'), rmat('Pl', 3, 3), rmat('pl', 3)), SG + '.match_symmetries': match,
                          SG + '.determine_basis_transf': lambda ip_, a, kw: (x.P, x.p)})
        table = Obj(ip.glob('irreptables', 'IrrepTable'), {'symmetries': seq_list(x.tab), '?open': True})
        mk = lambda ip_, a, kw: table
        CONTRACTS.update({'irreptables.IrrepTable': mk, 'irreptables.irreptables.IrrepTable': mk})
        user = None
        r = call(ip, ip.glob('irrep.spacegroup', 'SpaceGroup'), [], dict(cell=(rmat('L', 3, 3), rmat('xp', z3.Int('nat'), 3), imat('ty', z3.Int('nat'))), spinor=spinor, refUC=user, shiftUC=user, search_cell=search, trans_thresh=x.th))
        if isinstance(r, Raised):
            post('an error only if the match fails and a cell is searched', s_and(fails, search)); return
        if search: post('a failed match is an error', s_not(fails))
        cur().assume(z3.Not(fails))
        out = ip.to_plist(ip.getattr(r, 'symmetries'))
        post('every operation is kept once', eq(out.length(), x.n))
        q, q2 = sk('q', x.n), sk('q2', x.n); cur().assume(q < q2)
        o, o2 = out.get(q), out.get(q2)
        if not (isinstance(o, ObjRef) and o.seq is x.ops): raise Unsupported('operation of unknown origin')
        post('different operations', s_cmp('!=', o.idx, o2.idx))
        post('table order', s_cmp('<', x.pos.get((o.idx,)), x.pos.get((o2.idx,))))
        post('index = position in the table, from 1', eq(ip.getattr(o, 'ind'), s_add(x.pos.get((o.idx,)), 1)))
        post('sign of the match', eq(ip.getattr(o, 'sign'), x.sgn.get((o.idx,))))
    return c
def contracts():
    I = [SG + '.__init__']
    return [Contract('match_symmetries', match, funcs=[SG + '.match_symmetries'], timeout=20000), Contract('order after the match', ordering(False, False), funcs=I), Contract('order after the match (cell searched)', ordering(True, True), funcs=I)]
