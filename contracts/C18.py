"""overlap: pairs of plane waves with the same k+G; zakphase: phases of the determinants and gaps."""
from contracts.kp import *
from vc.spec import CONTRACTS
SCOPE = 'any two k-points, sets of different plane waves, numbers of bands; paths of any length'
TRUSTED = ['numpy.linalg.det, svd, eigvals and the ordered matrix product functools.reduce(np.dot, .) are abstract functions; that they receive the right matrices is an obligation', 'all k-points of a path have the same number of bands']
def side(ip, nm, spinor, B):
    x = X(); x.npw = nat('npw' + nm, 1); x.nb = nat('nb' + nm, 1); x.ig = imat('ig' + nm, 6, x.npw); x.k = rmat('k' + nm, 3)
    x.W = cmat('psi' + nm, x.nb, 2 * x.npw if spinor else x.npw); x.E = rmat('E' + nm, x.nb)
    forall2(x.npw, x.npw, lambda i, j: s_or(s_cmp('==', i, j), *[s_cmp('!=', x.ig.get((a, i)), x.ig.get((a, j))) for a in range(3)]))
    x.K = Obj(ip.glob('irrep.kpoint', 'Kpoint'), {'k': x.k, 'ig': x.ig, 'WF': x.W, 'num_bands': x.nb, 'spinor': spinor, 'Energy_raw': x.E, 'RecLattice': B, '?open': True})
    return x
def overlap(spinor):
    def c(ip):
        B = rmat('B', 3, 3); x, y = side(ip, '1', spinor, B), side(ip, '2', spinor, B)
        r = call(ip, KM + 'Kpoint.overlap', [x.K, y.K])
        if isinstance(r, Raised): post('does not raise', False); return
        shape_is('overlap', r, (x.nb, y.nb))
        m, n = sk('m', x.nb), sk('n', y.nb)
        g = [s_round_int(s_sub(x.k.get((a,)), y.k.get((a,)))) for a in range(3)]
        same = lambda i, j: s_and(*[eq(x.ig.get((a, i)), s_sub(y.ig.get((a, j)), g[a])) for a in range(3)])
        # sum over the plane waves of one k-point; the other one has at most one plane wave with the same k+G.
        # Either order of summation gives the same number (at most one partner on both sides), so either form is accepted.
        def one(s, first):
            a, b = (x, y) if first else (y, x)
            def f(i):
                j = mk_first(b.npw, lambda j: same(i, j) if first else same(j, i))
                i_, j_ = (i, j) if first else (j, i)
                v = s_mul(s_conj(x.W.get((m, s_add(i_, s * x.npw)))), y.W.get((n, s_add(j_, s * y.npw))))
                has = s_cmp('<', j, b.npw)
                return Cx(s_ite(has, v.re, Fraction(0)), s_ite(has, v.im, Fraction(0)))
            return mk_sum(0, a.npw, f)
        def total(first): return s_add(one(0, first), one(1, first)) if spinor else one(0, first)
        t, u = total(True), total(False)
        v = r.get((m, n))
        post('pairs of plane waves (real part)', s_or(eq(v.re, t.re), eq(v.re, u.re))); post('pairs of plane waves (imaginary part)', s_or(eq(v.im, t.im), eq(v.im, u.im)))
    return c
def contracts():
    O = [KM + 'Kpoint.overlap']
    return [Contract('overlap (scalar)', overlap(False), funcs=O), Contract('overlap (spinor)', overlap(True), funcs=O)]

BSM = 'irrep.bandstructure.'
def path(ip):
    """a band structure whose overlaps are given by overlap's contract: element (m, n) of the overlap of k-points i, j is OV(i, j, m, n)"""
    x = X(); x.nk, x.nb = nat('nk', 1), nat('nb', 1); x.E = rmat('E', x.nk, x.nb)
    x.kps = ObjSeq(x.nk, ip.glob('irrep.kpoint', 'Kpoint'), dict(Energy_raw=x.E, num_bands=mk_const_arr(x.nb, x.nk)))
    x.bs = Obj(ip.glob('irrep.bandstructure', 'BandStructure'), {'kpoints': seq_list(x.kps), 'num_bands': x.nb, '?open': True})
    fr = z3.Function('OVre', INT, INT, INT, INT, REAL); fi = z3.Function('OVim', INT, INT, INT, INT, REAL)
    x.ov = lambda i, j, m, n: Cx(fr(*[zi(v) for v in (i, j, m, n)]), fi(*[zi(v) for v in (i, j, m, n)]))
    def overlap(ip_, a, kw):
        d = dict(zip(['self', 'other'], a)); d.update(kw); p, q = d['self'], d['other']
        if not all(isinstance(o, ObjRef) and o.seq is x.kps for o in (p, q)): raise Unsupported('k-point of unknown origin')
        return Arr((x.nb, x.nb), 'c', lambda ix: x.ov(p.idx, q.idx, ix[0], ix[1]))
    CONTRACTS.update({KM + 'Kpoint.overlap': overlap})
    x.next = lambda i: s_ite(s_cmp('==', s_add(i, 1), x.nk), 0, s_add(i, 1))
    return x
def mk_const_arr(v, n): return Arr((n,), 'i', lambda ix: v)
def is_overlap(x, M, what, dims):
    """obligation: M is the leading block of given dimensions of one overlap of consecutive k-points; returns its number"""
    if not isinstance(M, Arr) or M.ndim != 2: raise Unsupported('argument of %s' % what)
    p, q = sk('p'), sk('q')
    v = M.get((p, q)); v = v if isinstance(v, Cx) else Cx(v, Fraction(0))
    i = witness(v.re, 'OVre')
    if i is None: post('%s of an overlap' % what, False); return 0
    o = x.ov(i, x.next(i), p, q)
    post('%s: a block of the overlap of consecutive k-points' % what, s_implies(s_and(s_cmp('<=', 0, p), s_cmp('<', p, M.shape[0]), s_cmp('<=', 0, q), s_cmp('<', q, M.shape[1])), s_and(eq(v.re, o.re), eq(v.im, o.im))))
    post('%s: square block' % what, eq(M.shape[0], M.shape[1]))
    return i
def zak(ip):
    from vc.npmodel import B
    from vc.spec import OVERRIDES
    x = path(ip)
    dr = z3.Function('DETre', INT, INT, REAL); di = z3.Function('DETim', INT, INT, REAL)
    def det(ip_, M):
        i = is_overlap(x, M, 'determinant', None)
        return Cx(dr(zi(i), zi(M.shape[0])), di(zi(i), zi(M.shape[0])))
    OVERRIDES['numpy.linalg.det'] = B('numpy.linalg.det', det)
    r = call(ip, BSM + 'BandStructure.zakphase', [x.bs])
    if isinstance(r, Raised): post('does not raise', False); return
    z, gap, mid, loc = r
    for nm, a in (('phase', z), ('gap', gap), ('energy', mid), ('local gap', loc)): shape_is(nm, a, (x.nb,))
    n = sk('n', x.nb)
    tot = mk_sum(0, x.nk, lambda i: A.angle(Cx(dr(zi(i), zi(s_add(n, 1))), di(zi(i), zi(s_add(n, 1))))))
    post('phases of the determinants', eq(z.get((n,)), s_mod(tot, s_mul(2, PI))))
    m = sk('m', s_sub(x.nb, 1)); i, j = sk('i', x.nk), sk('j', x.nk)
    g, md, lg = gap.get((m,)), mid.get((m,)), loc.get((m,))
    lo = s_add(md, s_div(g, 2)); hi = s_sub(md, s_div(g, 2))      # lowest energy of the band above, highest of the band below
    E = lambda q, b: x.E.get((q, b))
    post('gap: not above any band', s_cmp('<=', lo, E(i, s_add(m, 1))))
    post('gap: not below any band', s_cmp('>=', hi, E(i, m)))
    post('gap: reached above', s_cmp('<', mk_first(x.nk, lambda q: eq(lo, E(q, s_add(m, 1)))), x.nk))
    post('gap: reached below', s_cmp('<', mk_first(x.nk, lambda q: eq(hi, E(q, m))), x.nk))
    post('local gap: not above any', s_cmp('<=', lg, s_sub(E(i, s_add(m, 1)), E(i, m))))
    post('local gap: reached', s_cmp('<', mk_first(x.nk, lambda q: eq(lg, s_sub(E(q, s_add(m, 1)), E(q, m)))), x.nk))
_o = contracts
def contracts(): return _o() + [Contract('Zak phases', zak, funcs=[BSM + 'BandStructure.zakphase'])]
def wcc(ip):
    """eigenvalues enter as an abstract list EV; svd and the product over the path are abstract with their arguments as obligations"""
    from vc.npmodel import B
    from vc.spec import OVERRIDES
    x = path(ip)
    f = {k: z3.Function(k, INT, INT, INT, REAL) for k in ('Ure', 'Uim', 'Vre', 'Vim')}
    mat = lambda nm, i: Arr((x.nb, x.nb), 'c', lambda ix: Cx(f[nm + 're'](zi(i), zi(ix[0]), zi(ix[1])), f[nm + 'im'](zi(i), zi(ix[0]), zi(ix[1]))))
    def svd(ip_, M):
        i = is_overlap(x, M, 'singular value decomposition', None)
        return (mat('U', i), rmat('sv', x.nb), mat('V', i))
    W, ev = cmat('W', x.nb, x.nb), cmat('EV', x.nb)
    def reduce(ip_, fn, xs):
        if not isinstance(fn, Builtin) or fn.name not in ('numpy.dot', 'numpy.matmul'): raise Unsupported('reduce')
        xs = ip.to_plist(xs); it = xs.concrete()
        if it is not None:
            r = it[0]
            for y in it[1:]: r = ip.call(fn, [r, y])
            return r
        post('product over all steps of the path', eq(xs.length(), x.nk))
        i = sk('i', x.nk); m, n = sk('m', x.nb), sk('n', x.nb)
        v = xs.get(i); w = A.dot(mat('U', i), mat('V', i))
        shape_is('factor', v, (x.nb, x.nb))
        a, b = v.get((m, n)), w.get((m, n))
        post('factor = unitary part of the overlap', s_and(eq(a.re, b.re), eq(a.im, b.im)))
        return W
    def eigvals(ip_, M):
        if M is not W: post('eigenvalues of the product', False)
        return ev
    OVERRIDES.update({'numpy.linalg.svd': B('numpy.linalg.svd', svd), 'functools.reduce': B('functools.reduce', reduce), 'numpy.linalg.eigvals': B('numpy.linalg.eigvals', eigvals)})
    r = call(ip, BSM + 'BandStructure.wcc', [x.bs])
    if isinstance(r, Raised): post('does not raise', False); return
    shape_is('centres', r, (x.nb,))
    val = lambda j: s_mod(s_div(A.angle(ev.get((j,))), s_mul(2, PI)), 1)
    m, n, j = sk('m', x.nb), sk('n', x.nb), sk('j', x.nb)
    post('between 0 and 1', s_and(s_cmp('>=', r.get((n,)), 0), s_cmp('<', r.get((n,)), 1)))
    post('sorted', s_implies(s_cmp('<=', m, n), s_cmp('<=', r.get((m,)), r.get((n,)))))
    p = A.argsort(Arr((x.nb,), 'f', lambda ix: val(ix[0])))
    post('phases of the eigenvalues over 2 pi, each once', eq(r.get((n,)), val(p.get((n,)))))
_o2 = contracts
def contracts(): return _o2() + [Contract('Wannier charge centres', wcc, funcs=[BSM + 'BandStructure.wcc'])]
