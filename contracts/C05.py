"""transformed_g: exact images or an error."""
from contracts.common import *
T = 'irrep.gvectors.transformed_g'

def c(ip):
    npw = nat('npw', 1)
    K = rmat('K', 3); RL = rmat('RL', 3, 3)
    ig = imat('ig', 6, npw)
    Am = imat('A', 3, 3); Bm = imat('Ainv', 3, 3); inverse_pair(Am, Bm)
    forall(npw, lambda j: s_and(ig.get((4, j)) >= 0, ig.get((5, j)) <= npw))
    # the rotated k-point and the reciprocal vector that brings it back
    kp = [S(*[s_mul(Bm.get((b, a)), K.get((b,))) for b in range(3)]) for a in range(3)]
    d = [s_sub(kp[a], K.get((a,))) for a in range(3)]
    dk = [s_round_int(x) for x in d]
    tol = lambda x: s_add(Fraction(1, 10**8), s_mul(Fraction(1, 10**5), s_abs(x)))
    equiv = s_and(*[s_cmp('<=', s_abs(s_sub(dk[a], d[a])), tol(d[a])) for a in range(3)])
    def img(a, g): return s_add(S(*[s_mul(Bm.get((b, a)), ig.get((b, g))) for b in range(3)]), dk[a])
    def is_img(g, j): return s_and(s_cmp('>=', j, ig.get((4, g))), s_cmp('<', j, ig.get((5, g))), *[eq(ig.get((a, j)), img(a, g)) for a in range(3)])
    # callers may reorder operations: pass the arrays as stored in the k-point
    r = call(ip, T, [K, ig, RL, Am])
    if isinstance(r, Raised):
        if r.isa('NotSymmetryError'):
            post('not-a-symmetry error only if k is not mapped to an equivalent point', s_not(equiv)); return
        post('otherwise k is mapped to an equivalent point', equiv)
        post('error only if an image is missing', mk_any(npw, lambda g: mk_all(npw, lambda j: s_not(is_img(g, j)))))
        return
    post('no error only if k is mapped to an equivalent point', equiv)
    g = sk('g', npw)
    shape_is('result', r, (npw,))
    j = r.get((g,))
    post('index of an existing plane wave', s_and(s_cmp('>=', j, 0), s_cmp('<', j, npw)))
    for a in range(3): post('plane wave equals the image, component %d' % a, eq(ig.get((a, j)), img(a, g)))

def contracts():
    return [Contract('transformed_g', c, funcs=[T])]
