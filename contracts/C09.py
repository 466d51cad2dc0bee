"""Traces in the reference cell (Kpoint.calculate_traces) and adapted tables (get_irreps_from_table)."""
from contracts.kp import *
from vc.spec import CONTRACTS
from vc.interp import ALWAYS
SCOPE = 'any number of bands, levels, operations and irreps; every change of cell, translation, sign, k-point and character'
SO = 'irrep.spacegroup.SymmetryOperation'; SG = 'irrep.spacegroup.SpaceGroup'
def cell(ip, x):
    x.P, x.p = rmat('P', 3, 3), rmat('p', 3)
    x.ntab = nat('ntab', 1); x.TT = rmat('TT', x.ntab, 3)
    forall(x.n, lambda i: s_and(s_cmp('>=', x.ind.get((i,)), 1), s_cmp('<=', x.ind.get((i,)), x.ntab)))
    x.tab = ObjSeq(x.ntab, ip.glob('irreptables', 'SymopTable'), dict(R=imat('TR', x.ntab, 3, 3), t=x.TT, S=cmat('TS', x.ntab, 2, 2)))
def shift_contract(x):
    """contract of translation_refUC (proved for its body under C11): translation of the operation in the reference cell"""
    def handler(ip, a, kw):
        j = op_index(a[0] if a else kw['self'], x)
        P = a[1] if len(a) > 1 else kw.get('refUC'); p = a[2] if len(a) > 2 else kw.get('shiftUC')
        if P is not x.P or p is not x.p: raise Unsupported('another change of cell')
        return Arr((3,), 'f', lambda ix: x.tref.get((j, ix[0])))
    return {SO + '.translation_refUC': handler}
def traces(spinor, same):
    def c(ip):
        x = kpoint_inputs(ip, spinor); CONTRACTS.update(trace_model(x)); identity(x); cell(ip, x)
        CONTRACTS.update(shift_contract(x))
        if same: x.P, x.p = const([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'f'), const([0, 0, 0], 'f')
        else:
            one = lambda a, b: 1 if a == b else 0
            cur().assume(s_or(*[s_cmp('>', s_abs(s_sub(x.P.get((a, b)), one(a, b))), Fraction(1, 1000)) for a in range(3) for b in range(3)],
                              *[s_cmp('>', s_abs(x.p.get((a,))), Fraction(1, 1000)) for a in range(3)]))
        r = make(ip, args(x, calculate_traces=True, refUC=x.P, shiftUC=x.p, symmetries_tables=seq_list(x.tab)))
        if isinstance(r, Raised): post('does not raise', False); return
        ch, cr, kr = ip.getattr(r, 'char'), ip.getattr(r, 'char_refUC'), ip.getattr(r, 'k_refUC')
        lg = ip.to_plist(ip.getattr(r, 'little_group')); n = lg.length(); nl = ch.shape[0]
        shape_is('traces in the reference cell', cr, (nl, n))
        l, j = sk('l', nl), sk('j', n); s = op_index(lg.get(j), x)
        if same: post('unchanged when the cells coincide', eq(cr.get((l, j)), ch.get((l, j)))); return
        K = [S(*[s_mul(x.P.get((b, a)), x.k.get((b,))) for b in range(3)]) for a in range(3)]
        for a in range(3): post('k in the reference cell, component %d' % a, eq(kr.get((a,)), K[a]))
        i = s_sub(x.ind.get((s,)), 1)
        ph = S(*[s_mul(s_sub(x.TT.get((i, a)), x.tref.get((s, a))), K[a]) for a in range(3)])
        f = s_mul(x.sign.get((s,)), s_exp(s_mul(Cx(Fraction(0), Fraction(-2)), s_mul(PI, ph))))
        post('trace in the reference cell', eq(cr.get((l, j)), s_mul(ch.get((l, j)), f)))
    return c
def adapted(ip):
    x = kpoint_inputs(ip, False); cell(ip, x); CONTRACTS.update(shift_contract(x))
    ni = nat('nirr', 1); x.ik = rmat('irrk', ni, 3)
    here = z3.Function('has.char', INT, INT, z3.BoolSort())
    fr, fi = z3.Function('chi.re', INT, INT, REAL), z3.Function('chi.im', INT, INT, REAL)
    kp = z3.Function('label', INT, INT)
    def chars(i):
        d = PDict(); d.sym = (SymEntries(INTKEYS, None, lambda q: here(zi(i), zi(q)), lambda q: Cx(fr(zi(i), zi(q)), fi(zi(i), zi(q)))),); return d
    irr = ObjSeq(ni, ip.glob('irreptables', 'IrRep'), dict(k=x.ik, kpname=lambda i: KeyRef('kp', kp(zi(i))), name=lambda i: KeyRef('irrep', i), characters=chars))
    q = z3.Int('label0')
    table = Obj(ip.glob('irreptables', 'IrrepTable'), {'symmetries': seq_list(x.tab), 'irreps': seq_list(irr), 'number': z3.Int('number'), '?open': True})
    def make_table(ip_, a, kw): return table
    CONTRACTS.update({'irreptables.IrrepTable': make_table, 'irreptables.irreptables.IrrepTable': make_table})
    sg = Obj(ip.glob('irrep.spacegroup', 'SpaceGroup'), {'symmetries': seq_list(x.ops), 'symmetries_tables': seq_list(x.tab), 'refUC': x.P, 'shiftUC': x.p, 'spinor': False, 'number': z3.Int('number'), '?open': True})
    r = call(ip, SG + '.get_irreps_from_table', [sg, KeyRef('kp', q), x.k])
    if isinstance(r, Raised): return
    i = sk('i', ni); s = sk('s', x.n)
    wanted = eq(kp(i), q)
    has, val = r.find_sym(KeyRef('irrep', i))
    post('exactly the irreps of the label', s_and(s_implies(wanted, has), s_implies(has, wanted)))
    Pi = A.inv(x.P)
    for a in range(3):
        v = S(*[s_mul(Pi.get((b, a)), x.ik.get((i, b))) for b in range(3)])
        r5 = lambda y: s_div(s_round_int(s_mul(y, 10**5)), 10**5)
        m = s_sub(s_floor(r5(v)), s_floor(r5(x.k.get((a,)))))
        post('the label is that of the given k (component %d)' % a, s_implies(wanted, s_cmp('<=', s_abs(s_sub(s_sub(v, x.k.get((a,))), m)), Fraction(1, 10**4))))
    w = val(); ind = x.ind.get((s,))
    h2, v2 = w.find_sym(ind)
    post('a character is listed for the operations of the table', s_implies(wanted, s_and(s_implies(h2, here(i, zi(ind))), s_implies(here(i, zi(ind)), h2))))
    t = s_sub(ind, 1)
    ph = S(*[s_mul(s_sub(x.TT.get((t, a)), x.tref.get((s, a))), x.ik.get((i, a))) for a in range(3)])
    f = s_mul(x.sign.get((s,)), s_exp(s_mul(Cx(Fraction(0), Fraction(2)), s_mul(PI, ph))))
    c = Cx(fr(i, zi(ind)), fi(i, zi(ind)))
    post('character = table character . sign . phase', s_implies(s_and(wanted, here(i, zi(ind))), eq(v2(), s_mul(c, f))))
def contracts():
    F = [KM + 'Kpoint.__init__', KM + 'Kpoint.calculate_traces']
    return [Contract('traces in the reference cell (scalar)', traces(False, False), funcs=F), Contract('traces in the reference cell (spinor)', traces(True, False), funcs=F),
            Contract('equal cells', traces(False, True), funcs=F), Contract('adapted table', adapted, funcs=[SG + '.get_irreps_from_table'])]
