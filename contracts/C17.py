"""copy_sub: a subspace lists energies, states, traces and irreps of the same bands in ascending energy; the original is unchanged."""
from contracts.kp import *
from vc.spec import CONTRACTS
LEVEL = 'exploration'
SCOPE = 'any number of levels, bands in a subspace, plane waves and operations'
def sub(irr):
    def c(ip):
        n, nl, ns, m = nat('n', 1), nat('nlev', 1), nat('nops', 1), nat('m', 1)
        E, WF, inds = rmat('E', n), cmat('psi', n, m), imat('inds', n)
        forall(n, lambda i: s_and(s_cmp('>=', inds.get((i,)), 0), s_cmp('<', inds.get((i,)), nl)))
        char, cref = cmat('char', nl, ns), cmat('charref', nl, ns)
        irreps = PList(segs=(SegSeq(nl, lambda i: imat('irrep', nl).get((i,))),)) if irr else PList(segs=(SegSeq(nl, lambda i: 'None'),))
        W0, E0, deg = cmat('W0', nat('nb', 1), m), rmat('E0', nl), imat('deg', nl)
        attrs = {'char': char, 'char_refUC': cref, 'irreps': irreps, 'WF': W0, 'Energy_mean': E0, 'degeneracies': deg, 'num_bands': z3.Int('nb'), '?open': True}
        K = Obj(ip.glob('irrep.kpoint', 'Kpoint'), dict(attrs))
        r = call(ip, KM + 'Kpoint.copy_sub', [K], dict(E=E, WF=WF, inds=inds))
        if isinstance(r, Raised): post('does not raise', False); return
        g = lambda o, nm: ip.getattr(o, nm)
        post('another object', r is not K)
        for k, v in attrs.items():
            if k != '?open': post('the original keeps its ' + k, g(K, k) is v or (is_z(v) and v.eq(g(K, k))))
        post('number of bands', eq(g(r, 'num_bands'), n))
        p = A.argsort(rmat('E', n)); j, j2 = sk('j', n), sk('j2', n); i = p.get(j) if False else p.get((j,))
        q = sk('q', m); o = sk('o', ns)
        oE, oW, oc, ocr = g(r, 'Energy_mean'), g(r, 'WF'), g(r, 'char'), g(r, 'char_refUC')
        shape_is('energies', oE, (n,)); shape_is('states', oW, (n, m)); shape_is('traces', oc, (n, ns)); shape_is('traces in the reference cell', ocr, (n, ns))
        post('ascending energies', s_implies(s_cmp('<=', j, j2), s_cmp('<=', oE.get((j,)), oE.get((j2,)))))
        same = lambda a, b: s_and(eq(a.re, b.re), eq(a.im, b.im))
        rdE = rmat('E', n); rdW = cmat('psi', n, m); rdI = imat('inds', n)
        l = rdI.get((i,))
        post('energy of the band', eq(oE.get((j,)), rdE.get((i,)))); post('state of the band', same(oW.get((j, q)), rdW.get((i, q))))
        post('traces of its level', same(oc.get((j, o)), cmat('char', nl, ns).get((l, o)))); post('traces of its level (reference cell)', same(ocr.get((j, o)), cmat('charref', nl, ns).get((l, o))))
        oi = ip.to_plist(g(r, 'irreps')); post('one irrep entry per band', eq(oi.length(), n))
        if irr: post('irreps of its level', eq(oi.get(j), imat('irrep', nl).get((l,))))
        d = g(r, 'degeneracies'); d = ip.to_plist(d); post('one level per band', s_and(eq(d.length(), n), eq(d.get(j), 1)))
        t = sk('t'); post('the arrays of the caller are unchanged', s_and(eq(E.get((t,)), rmat('E', n).get((t,))), eq(inds.get((t,)), rdI.get((t,)))))
        # the traces of the original
        u = sk('u', nl); post('the traces of the original are unchanged', same(char.get((u, o)), cmat('char', nl, ns).get((u, o))))
    return c
def contracts():
    F = [KM + 'Kpoint.copy_sub']
    return [Contract('copy_sub', sub(True), funcs=F)]
