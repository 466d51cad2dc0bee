"""sortIG: selection, energy order and coefficient gather."""
from contracts.common import *
H = Fraction('27.211386245988')   # overridden symbolically: any positive constant

def setup(spinor):
    npw = nat('npw', 1); nb = nat('nb', 1)
    K = rmat('K', 3); RL = rmat('RL', 3, 3); kg = imat('kg', npw, 3)
    CG = cmat('CG', nb, 2 * npw if spinor else npw)
    E0, E = real('E0'), real('E')
    return npw, nb, K, RL, kg, CG, E0, E

def energies(ip, kg, K, RL):
    """kinetic energy Hartree_eV |(k+G).B|^2 / 2 of every row of kg"""
    Ha = ip.glob('irrep.gvectors', 'Hartree_eV')
    v = A.dot(ew(s_add, kg, K), RL)
    q = A.norm(v, axis=1)
    return lambda i: s_div(s_mul(Ha, s_pow(q.get((i,)), 2)), 2)

def sort_contract(spinor, blocks=False):
    def c(ip):
        npw, nb, K, RL, kg, CG, E0, E = setup(spinor)
        en = energies(ip, kg, K, RL)
        forall(npw, lambda i: s_cmp('<=', en(i), E0))
        cur().assume(E0 > 0)
        r = call(ip, 'irrep.gvectors.sortIG', [0, kg, K, CG, RL, E0, E, spinor])
        if isinstance(r, Raised): post('does not raise', False); return
        if not (isinstance(r, tuple) and len(r) == 2): post('returns coefficients and plane waves', False); return
        CG1, ig = r
        n1 = ig.shape[1]
        shape_is('plane waves', ig, (6, n1))
        shape_is('coefficients', CG1, (nb, s_mul(2, n1) if spinor else n1))
        m = sk('m', nb); j = sk('j', n1); j2 = sk('j2', n1)
        cur().assume(j < j2)
        def src(j):
            w = witness(ig.get((0, j)), 'kg_0')
            if w is None: raise Unsupported("no witness for the source of a plane wave")
            return w
        s, s2 = src(j), src(j2)
        if blocks:
            thr = Fraction(1, 10**4)
            def same(a): return s_cmp('<=', s_sub(en(src(s_add(a, 1))), en(src(a))), thr)
            f, l = ig.get((4, j)), ig.get((5, j)); f2, l2 = ig.get((4, j2)), ig.get((5, j2))
            post('column inside its block', s_and(s_cmp('<=', 0, f), s_cmp('<=', f, j), s_cmp('<', j, l), s_cmp('<=', l, n1)))
            post('block starts at an energy step', s_or(s_cmp('==', f, 0), s_not(same(s_sub(f, 1)))))
            post('block ends at an energy step', s_or(s_cmp('==', l, n1), s_not(same(s_sub(l, 1)))))
            i = sk('i', n1)
            inside = s_and(s_cmp('<=', f, i), s_cmp('<', s_add(i, 1), l))
            post('no energy step inside a block', s_implies(inside, same(i)))
            post('members share the bounds', s_implies(s_cmp('<', j2, l), s_and(eq(f, f2), eq(l, l2))))
            post('blocks do not overlap', s_implies(s_cmp('>=', j2, l), s_cmp('>=', f2, l)))
            return
        post('source in range', s_and(s_cmp('>=', s, 0), s_cmp('<', s, npw)))
        for a in range(3): post('plane wave %d' % a, eq(ig.get((a, j)), kg.get((s, a))))
        post('below the cutoff', s_cmp('<', en(s), E))
        post('coefficient', eq(CG1.get((m, j)), CG.get((m, s))))
        if spinor: post('coefficient (second spin)', eq(CG1.get((m, s_add(j, n1))), CG.get((m, s_add(s, npw)))))
        post('ascending energy', s_cmp('<=', en(s), en(s2)))
        post('no plane wave twice', s_cmp('!=', s, s2))
        i = sk('i', npw)
        post('complete', s_implies(s_cmp('<', en(i), E), mk_any(n1, lambda j: s_cmp('==', src(j), i))))
    return c

def contracts():
    return [Contract('sortIG (%s)' % n, sort_contract(sp), funcs=['irrep.gvectors.sortIG']) for n, sp in (('scalar', False), ('spinor', True))]
