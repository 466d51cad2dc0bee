"""Positions of the plane waves in the storage order (calc_gvectors)."""
from contracts.kp import *
from vc.npmodel import np_array
from vc import arr as ARR
from vc.npmodel import B as NB
GM = 'irrep.gvectors.'
SCOPE = 'calc_gvectors for any k-point, lattice, cutoff, reduced cutoff and shell limit, no prescribed number of plane waves'
def wrapped(a, b):
    """order of two components: 0,1,2,... first, then the negative values ascending"""
    return s_or(s_and(s_cmp('>=', a, 0), s_cmp('<', b, 0)), s_and(s_cmp('<', a, b), s_cmp('==', s_cmp('>=', a, 0), s_cmp('>=', b, 0))))
def before(g, h):
    """g is stored strictly before h: third, then second, then first component"""
    r = wrapped(g[0], h[0])
    for i in (1, 2): r = s_or(wrapped(g[i], h[i]), s_and(s_cmp('==', g[i], h[i]), r))
    return r
def lemma(name, n, hyp, concl):
    """a fact of integer arithmetic, proved for fresh variables; the result assumes an instance of it"""
    vs = [PV.skolem('l') for _ in range(n)]
    cur().oblig.append(Oblig('lemma: ' + name, [], 0, [], 0, canon(zb(s_implies(hyp(*vs), concl(*vs)))), [], 'post'))
    return lambda *ts: cur().assume(s_implies(hyp(*ts), concl(*ts)))
def le(*xs): return s_and(*[s_cmp('<=', a, b) for a, b in zip(xs, xs[1:])])
def size(L, U): return s_add(s_sub(U, L), 1)
def show_pos(g, n): return z3.If(g >= 0, g, g + n)
def stored(ip, KW, Ecut1):
    seen = []
    def hide(ip, x, *a, **k):
        """np.array whose elements, when they are large expressions, are hidden behind an operator defined by them"""
        r = np_array(ip, x, *a, **k)
        if isinstance(r, ARR.Arr) and r.kind in 'if':
            r = ARR.opaque(r)
            if r.ndim == 2 and r.kind == 'i' and is_z(r.shape[0]): seen.append(r.copy() if hasattr(r, 'copy') else r)
        return r
    OVERRIDES['numpy.array'] = NB('array', hide)
    r = call(ip, GM + 'calc_gvectors', KW[0], dict(KW[1], Ecut1=Ecut1))
    return r, seen
def gen(ip, reduced):
    K, B = rmat('K', 3), rmat('B', 3, 3)
    E0, E1 = real('Ecut'), real('Ecut1')
    cur().assume(s_cmp('!=', A.det(B), 0)); cur().assume(E1 > 0 if reduced else E1 <= 0)
    r, seen = stored(ip, ([K, B, E0], dict(nplanemax=nat('nmax', 1))), E1)
    if isinstance(r, Raised): return
    if len(seen) != 1: raise Unsupported('list of all plane waves not found')
    F = seen[0]
    c, d = sk('c', r.shape[1]), sk('d', r.shape[1])
    g, h = ([r.get((i, j)) for i in range(3)] for j in (c, d))
    p, q = r.get((3, c)), r.get((3, d))
    post('one position, one plane wave', s_or(s_not(s_cmp('==', p, q)), s_and(*[s_cmp('==', a, b) for a, b in zip(g, h)])))
    post('position in range', s_and(s_cmp('>=', p, 0), s_cmp('<', p, F.shape[0])))
    post('different columns, different positions', s_or(s_cmp('==', c, d), s_cmp('!=', p, q)))
    j = sk('j', F.shape[0]); E2 = real('another_Ecut1')
    other = lambda e: z3.substitute(toz(e), (E1, E2))
    post('the positions do not depend on the reduced cutoff', s_and(s_cmp('==', F.shape[0], other(F.shape[0])), *[s_cmp('==', F.get((j, i)), other(F.get((j, i)))) for i in range(3)]))
    mx, mn = A.a_ext(F, 'MAX', 0), A.a_ext(F, 'MIN', 0)
    U = [s_max(unwrap(mx.get((i,))), 0) for i in range(3)]; L = [s_min(unwrap(mn.get((i,))), 0) for i in range(3)]
    n = [size(L[i], U[i]) for i in range(3)]
    for i in range(3):
        for v, t in ((g, 'first'), (h, 'second')):
            o = s_and(le(L[i], v[i], U[i]), le(L[i], 0, U[i]))
            post('components within the bounds (%s, %d)' % (t, i), o); cur().assume(o)
    mod = lemma('remainder of a component', 3, lambda a, L, U: le(L, a, U) if 0 else s_and(le(L, a, U), le(L, 0, U)), lambda a, L, U: s_cmp('==', s_mod(a, size(L, U)), show_pos(a, size(L, U))))
    for i in range(3):
        for v in (g, h): mod(v[i], L[i], U[i])
    key = lambda v: s_add(s_mul(s_add(s_mul(s_mod(v[2], n[2]), n[1]), s_mod(v[1], n[1])), n[0]), s_mod(v[0], n[0]))
    S = A.argsort(Arr((F.shape[0],), 'i', lambda ix: key([F.get((ix[0], i)) for i in range(3)])))
    post('the position is the rank among all plane waves below the cutoff', s_and(*[s_cmp('==', g[i], F.get((unwrap(S.get((p,))), i))) for i in range(3)]))
    o = s_implies(s_cmp('<', p, q), s_cmp('<=', key(g), key(h)))
    post('sorted by the key', o); cur().assume(o)
    digit = lemma('comparison of two-digit numbers', 5, lambda X, x, Y, y, n: s_and(s_cmp('>=', x, 0), s_cmp('<', x, n), s_cmp('>=', y, 0), s_cmp('<', y, n), s_cmp('<=', s_add(s_mul(X, n), x), s_add(s_mul(Y, n), y))),
                  lambda X, x, Y, y, n: s_or(s_cmp('<', X, Y), s_and(s_cmp('==', X, Y), s_cmp('<=', x, y))))
    w = [[show_pos(v[i], n[i]) for i in range(3)] for v in (g, h)]
    hi = [s_add(s_mul(x[2], n[1]), x[1]) for x in w]
    digit(hi[0], w[0][0], hi[1], w[1][0], n[0])
    digit(w[0][2], w[0][1], w[1][2], w[1][1], n[1])
    post('stored in the order third, second, first component', s_or(s_not(s_cmp('<', p, q)), s_not(before(h, g))))
def contracts():
    return [Contract('order, reduced cutoff', lambda ip: gen(ip, True), funcs=[GM + 'calc_gvectors']), Contract('order, full cutoff', lambda ip: gen(ip, False), funcs=[GM + 'calc_gvectors'])]
