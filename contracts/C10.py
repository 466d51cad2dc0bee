"""Kpoint.identify_irreps: multiplicities are projections on the characters."""
from contracts.kp import *
from vc.interp import ALWAYS
SCOPE = 'any number of levels, operations and irreps, all traces and characters'
def irreps(ip):
    nl, ng, ni = nat('nl', 1), nat('ng', 1), nat('nirr', 1)
    ch = cmat('char', nl, ng); ind = imat('ind', ng); deg = imat('deg', nl)
    ops = ObjSeq(ng, ip.glob('irrep.spacegroup', 'SymmetryOperation'), dict(ind=ind))
    fr, fi = z3.Function('chi.re', INT, INT, REAL), z3.Function('chi.im', INT, INT, REAL)
    chi = lambda i, q: Cx(fr(zi(i), zi(q)), fi(zi(i), zi(q)))
    def inner(i):
        d = PDict(); d.sym = (SymEntries(INTKEYS, None, ALWAYS, lambda q: chi(i, q)),); return d
    table = PDict(); table.sym = (SymEntries('irrep', ni, ALWAYS, inner),)
    kp = Obj(ip.glob('irrep.kpoint', 'Kpoint'), {'char': ch, 'little_group': seq_list(ops), 'degeneracies': deg, '?open': True})
    r = call(ip, KM + 'Kpoint.identify_irreps', [kp], dict(irreptable=table))
    if isinstance(r, Raised): post('does not raise', False); return
    out = ip.to_plist(ip.getattr(kp, 'irreps'))
    post('one entry per level', eq(out.length(), nl))
    l, i = sk('l', nl), sk('i', ni)
    d = out.get(l)
    m = s_div(mk_sum(0, ng, lambda j: s_mul(chi(i, ind.get((j,))), s_conj(ch.get((l, j))))), ng)
    big = s_cmp('>', s_abs(m), Fraction(1, 1000))
    has, val = d.find_sym(KeyRef('irrep', i))
    post('an irrep is listed exactly when its multiplicity is not small', s_and(s_implies(big, has), s_implies(has, big)))
    post('multiplicity', s_implies(big, eq(val(), m)))
def none(ip):
    nl, ng = nat('nl', 1), nat('ng', 1)
    kp = Obj(ip.glob('irrep.kpoint', 'Kpoint'), {'char': cmat('char', nl, ng), 'little_group': seq_list(ObjSeq(ng, ip.glob('irrep.spacegroup', 'SymmetryOperation'), dict(ind=imat('ind', ng)))), 'degeneracies': imat('deg', nl), '?open': True})
    r = call(ip, KM + 'Kpoint.identify_irreps', [kp])
    if isinstance(r, Raised): post('does not raise', False); return
    out = ip.to_plist(ip.getattr(kp, 'irreps'))
    post('one entry per level', eq(out.length(), nl))
    post('no irrep', not isinstance(out.get(sk('l', nl)), (PDict, Obj)))
def contracts():
    return [Contract('multiplicities', irreps, funcs=[KM + 'Kpoint.identify_irreps']), Contract('no table', none, funcs=[KM + 'Kpoint.identify_irreps'])]
