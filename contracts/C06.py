"""symm_eigenvalues, symm_matrix: matrix elements of {R|t}."""
from contracts.common import *
G = 'irrep.gvectors.'
def setup(spinor):
    npw = nat('npw', 1); nb = nat('nb', 1)
    K = rmat('K', 3); RL = rmat('RL', 3, 3)
    ig = imat('ig', 6, npw)
    WF = cmat('WF', nb, 2 * npw if spinor else npw)
    Am = imat('A', 3, 3); Bm = imat('Ainv', 3, 3); inverse_pair(Am, Bm)
    Sm = cmat('S', 2, 2); T = rmat('T', 3)
    rot = imat('rot', npw)
    forall(npw, lambda j: s_and(rot.get((j,)) >= 0, rot.get((j,)) < npw))
    return npw, nb, K, RL, ig, WF, Am, Bm, Sm, T, rot
def term(m, n, g, spinor, npw, nb, K, RL, ig, WF, Am, Bm, Sm, T, rot):
    # t . (R^-T (G+k)) = sum_ab t_b Rinv[a,b] (G+k)_a
    x = S(*[s_mul(s_mul(Bm.get((a, b)), T.get((b,))), s_add(ig.get((a, g)), K.get((a,)))) for a in range(3) for b in range(3)])
    ph = s_exp(s_mul(Cx(Fraction(0), Fraction(-2)), s_mul(PI, x)))
    if not spinor: return s_mul(s_mul(s_conj(WF.get((m, rot.get((g,))))), WF.get((n, g))), ph)
    t = S(*[s_mul(s_mul(s_conj(WF.get((m, s_add(rot.get((g,)), s_mul(s, npw))))), Sm.get((s, u))), WF.get((n, s_add(g, s_mul(u, npw))))) for s in range(2) for u in range(2)])
    return s_mul(t, ph)
def tg(ip, args, kw):
    """contract of transformed_g used at the call (proved for its body under C05): an index of an existing
    plane wave for every plane wave"""
    d = dict(zip(['kpt', 'ig', 'RecLattice', 'A'], args)); d.update(kw)
    n = d['ig'].shape[1]; g = sk('gcall', n)
    post('transformed_g is called for this k-point', s_and(*[eq(d['kpt'].get((a,)), rmat('K', 3).get((a,))) for a in range(3)]))
    post('transformed_g is called with this rotation', s_and(*[eq(d['A'].get((a, b)), imat('A', 3, 3).get((a, b))) for a in range(3) for b in range(3)]))
    post('transformed_g is called with these plane waves', s_and(*[eq(d['ig'].get((a, g)), imat('ig', 6, n).get((a, g))) for a in (0, 1, 2, 4, 5)]))
    return imat('rot', n)
def contract(spinor, matrix):
    def c(ip):
        X = setup(spinor); npw, nb, K, RL, ig, WF, Am, Bm, Sm, T, rot = X
        r = call(ip, G + ('symm_matrix' if matrix else 'symm_eigenvalues'), [K, RL, WF, ig, Am, Sm, T, spinor])
        if isinstance(r, Raised): post('does not raise', False); return
        m = sk('m', nb)
        if matrix:
            n = sk('n', nb)
            shape_is('symmetry matrix', r, (nb, nb))
            post('element (m,n)', eq(r.get((m, n)), mk_sum(0, npw, lambda g: term(m, n, g, spinor, *X))))
        else:
            shape_is('traces', r, (nb,))
            post('trace of band m = diagonal element', eq(r.get((m,)), mk_sum(0, npw, lambda g: term(m, m, g, spinor, *X))))
    return c
def contracts():
    return [Contract('%s (%s)' % ('symm_matrix' if mx else 'symm_eigenvalues', 'spinor' if s else 'scalar'), contract(s, mx), callees={G + 'transformed_g': tg},
                     funcs=[G + ('symm_matrix' if mx else 'symm_eigenvalues')]) for mx in (False, True) for s in (False, True)]
