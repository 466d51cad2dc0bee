"""Path lengths (BandStructure.KPOINTSline) and the numbering of levels in the trace output (Kpoint.write_trace)."""
from contracts.kp import *
from vc.spec import CONTRACTS
SCOPE = 'any number of k-points, lattice, supercell and threshold; any number of levels and operations'
BS = 'irrep.bandstructure.BandStructure'
def line(given, supercell):
    def c(ip):
        nk = nat('nk', 1); RL = rmat('RL', 3, 3); kk = rmat('k', nk, 3); thr = real('thr'); cur().assume(thr >= 0)
        kps = ObjSeq(nk, ip.glob('irrep.kpoint', 'Kpoint'), dict(k=kk if not given else rmat('k2', nk, 3)))
        bs = Obj(ip.glob('irrep.bandstructure', 'BandStructure'), {'kpoints': seq_list(kps), 'RecLattice': RL, '?open': True})
        kw = dict(breakTHRESH=thr)
        if given: kw['kpred'] = kk
        M = RL
        if supercell:
            sc = imat('sc', 3, 3); kw['supercell'] = sc
            M = Arr((3, 3), 'f', lambda ix: S(*[s_mul(sc.get((b, ix[0])), RL.get((b, ix[1]))) for b in range(3)]))
        r = call(ip, BS + '.KPOINTSline', [bs], kw)
        if isinstance(r, Raised): post('does not raise', False); return
        shape_is('coordinate', r, (nk,))
        post('starts at zero', eq(r.get((0,)), 0))
        i = sk('i', s_sub(nk, 1)); j = s_add(i, 1)
        cart = lambda q, a: S(*[s_mul(kk.get((q, b)), M.get((b, a))) for b in range(3)])
        d2 = S(*[s_mul(s_sub(cart(j, a), cart(i, a)), s_sub(cart(j, a), cart(i, a))) for a in range(3)])
        step = s_sub(r.get((j,)), r.get((i,)))
        post('never decreases', s_cmp('>=', step, 0))
        d = s_sqrt(d2)
        post('a step is the distance, or 0 beyond the threshold', eq(step, s_ite(s_cmp('>', d, thr), 0, d)))
    return c
def contracts():
    F = [BS + '.KPOINTSline']
    return [Contract('path of the band structure', line(False, False), funcs=F), Contract('given path', line(True, False), funcs=F), Contract('given path and supercell', line(True, True), funcs=F)]
