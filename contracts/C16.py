"""get_rho_spin: levels and overlaps of the states; unfold: weights carried by the plane waves of the primitive k-point."""
from contracts.kp import *
from vc.spec import CONTRACTS
SCOPE = 'every supercell matrix, k-point, set of plane waves and orthonormal states, any number of bands and levels'
TRUSTED = ['no plane wave lies between 1e-6 and 1e-3 (reduced units) from the primitive k-point lattice: membership is then independent of the tolerance']
def state(ip, spinor):
    x = kpoint_inputs(ip, spinor)
    r = make(ip, args(x, calculate_traces=False))
    if isinstance(r, Raised): raise Unsupported('constructor raises')
    x.W = cmat('psi', x.nb, 2 * x.npw if spinor else x.npw)
    ip.setattr(r, 'WF', x.W)
    x.K = r
    return x
def braket(x, i, j, lo, hi, shift=0):
    return mk_sum(0, s_sub(hi, lo), lambda g: s_mul(s_conj(x.W.get((i, s_add(g, lo)))), x.W.get((j, s_add(s_add(g, lo), shift)))))
def rho(spinor):
    def c(ip):
        x = state(ip, spinor)
        r = call(ip, KM + 'Kpoint.get_rho_spin', [x.K, x.thr])
        if isinstance(r, Raised): post('does not raise', False); return
        r = ip.to_plist(r); nl = r.length()
        l = sk('l', nl); b1, b2, E, M = r.get(l)
        step = lambda b: s_sub(x.E.get((b,)), x.E.get((s_sub(b, 1),)))
        post('at least one group', s_cmp('>=', nl, 1))
        post('groups follow each other', s_implies(s_cmp('<', s_add(l, 1), nl), eq(b2, r.get(s_add(l, 1))[0])))
        post('first group starts at the first band', eq(r.get(0)[0], 0)); post('last group ends at the last band', eq(r.get(s_sub(nl, 1))[1], x.nb))
        post('groups are not empty', s_cmp('<', b1, b2))
        post('a group starts at an energy step', s_implies(s_cmp('>', l, 0), s_cmp('>', step(b1), x.thr)))
        b = s_add(sk('b', s_sub(x.nb, 1)), 1)
        post('no energy step inside a group', s_implies(s_and(s_cmp('>', b, b1), s_cmp('<', b, b2)), s_cmp('<=', step(b), x.thr)))
        d = s_sub(b2, b1)
        post('mean energy', eq(s_mul(E, d), mk_sum(b1, b2, lambda m: x.E.get((m,)))))
        M = tuple(M); post('number of matrices', len(M) == (4 if spinor else 1))
        i, j = sk('i', d), sk('j', d); p, q = s_add(b1, i), s_add(b1, j)
        for m in M: shape_is('matrix', m, (d, d))
        n = x.npw
        post('overlaps of the states', eq(M[0].get((i, j)), braket(x, p, q, 0, 2 * n if spinor else n)))
    return c
def near(v, tol):
    d = [s_sub(y, s_round_int(y)) for y in v]
    return s_cmp('<', S(*[s_mul(y, y) for y in d]), tol * tol)
def weights(spinor):
    def c(ip):
        x = state(ip, spinor)
        P = imat('M', 3, 3); kp = rmat('kp', 3); Pi = A.inv(P)
        n = x.npw
        # contract of get_rho_spin (proved above) for orthonormal states: groups of bands, mean energy, unit matrix
        nl = nat('nl', 1); B = imat('B', s_add(nl, 1)); Em = rmat('Em', nl)
        forall(nl, lambda l: s_and(s_cmp('<=', 0, B.get((l,))), s_cmp('<', B.get((l,)), B.get((s_add(l, 1),))), s_cmp('<=', B.get((s_add(l, 1),)), x.nb)))
        def groups(ip_, a, kw):
            def one(l):
                d = s_sub(B.get((s_add(l, 1),)), B.get((l,)))
                U = Arr((d, d), 'c', lambda ix: Cx(s_ite(s_cmp('==', ix[0], ix[1]), Fraction(1), Fraction(0)), Fraction(0)))
                f = [z3.Function('spin%d' % q, INT, INT, INT, REAL) for q in range(6)]
                sp = [Arr((d, d), 'c', (lambda q: lambda ix: Cx(f[2 * q](zi(l), zi(ix[0]), zi(ix[1])), f[2 * q + 1](zi(l), zi(ix[0]), zi(ix[1]))))(q)) for q in range(3)]
                return (B.get((l,)), B.get((s_add(l, 1),)), Em.get((l,)), tuple([U] + (sp if spinor else [])))
            return PList(segs=(SegSeq(nl, one),))
        CONTRACTS.update({KM + 'Kpoint.get_rho_spin': groups})
        # what folds: kp . M^T - k is an integer vector; tolerances are left open between 1e-6 and 1e-3
        fold = [s_sub(S(*[s_mul(P.get((a, b)), kp.get((b,))) for b in range(3)]), x.k.get((a,))) for a in range(3)]
        # plane wave g seen from the primitive cell, relative to kp
        rel = lambda g: [s_sub(S(*[s_mul(s_add(x.ig.get((b, g)), x.k.get((b,))), Pi.get((a, b))) for b in range(3)]), kp.get((a,))) for a in range(3)]
        cur().assume(s_or(near(fold, Fraction(1, 10**6)), s_not(near(fold, Fraction(1, 10**3)))))
        forall(n, lambda g: s_or(near(rel(g), Fraction(1, 10**6)), s_not(near(rel(g), Fraction(1, 10**3)))))
        r = call(ip, KM + 'Kpoint.unfold', [x.K, P, kp])
        if isinstance(r, Raised):
            post('an error only if the k-point does not fold', s_not(near(fold, Fraction(1, 10**6)))); return
        post('a k-point that does not fold is an error', near(fold, Fraction(1, 10**6)))
        shape_is('result', r, (nl, 5 if spinor else 2))
        l = sk('l', nl); b1, b2 = B.get((l,)), B.get((s_add(l, 1),))
        post('energy of the group', eq(r.get((l, 0)), Em.get((l,))))
        sq = lambda z: s_add(s_mul(z.re, z.re), s_mul(z.im, z.im))
        def band(i, off): return mk_sum(0, n, lambda g: s_ite(near(rel(g), Fraction(1, 10**6)), sq(x.W.get((s_add(b1, i), s_add(g, off)))), Fraction(0)))
        w = mk_sum(0, s_sub(b2, b1), lambda i: s_add(band(i, 0), band(i, n)) if spinor else band(i, 0))
        post('weight of the group', eq(r.get((l, 1)), w))
    return c
def contracts():
    R, U = [KM + 'Kpoint.get_rho_spin'], [KM + 'Kpoint.unfold', KM + 'Kpoint.k_close_mod1', 'irrep.utility.is_round']
    return [Contract('groups of bands (scalar)', rho(False), funcs=R), Contract('groups of bands (spinor)', rho(True), funcs=R),
            Contract('weights (scalar)', weights(False), funcs=U), Contract('weights (spinor)', weights(True), funcs=U)]
