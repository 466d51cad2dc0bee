"""Symbolic inputs of Kpoint."""
from contracts.common import *
KM = 'irrep.kpoint.'
class X: pass
def kpoint_inputs(ip, spinor, ascending=True):
    x = X(); x.n = nat('nsym', 1); x.nb = nat('nb', 1); x.npw = nat('npw', 1); x.spinor = spinor
    x.k = rmat('k', 3); x.RL = rmat('RL', 3, 3)
    x.rot, x.tr, x.ind, x.sign = imat('rot', x.n, 3, 3), rmat('tr', x.n, 3), imat('ind', x.n), imat('sign', x.n)
    x.S = cmat('S', x.n, 2, 2)
    x.tref = rmat('tref', x.n, 3)
    forall2(x.n, x.n, lambda i, j: s_or(s_cmp('==', i, j), s_cmp('!=', x.ind.get((i,)), x.ind.get((j,)))))
    forall(x.n, lambda i: s_cmp('>=', x.ind.get((i,)), 1))
    x.ops = ObjSeq(x.n, ip.glob('irrep.spacegroup', 'SymmetryOperation'), dict(rotation=x.rot, translation=x.tr, spinor_rotation=x.S, ind=x.ind, sign=x.sign, pos=imat('pos', x.n)))
    x.WF = cmat('WF', x.nb, 2 * x.npw if spinor else x.npw)
    x.E = rmat('E', x.nb)
    if ascending: forall(x.nb, lambda i: s_implies(s_cmp('<', s_add(i, 1), x.nb), s_cmp('<=', x.E.get((i,)), x.E.get((s_add(i, 1),)))))
    x.thr = real('thr'); cur().assume(x.thr >= 0)
    x.ig = imat('ig', 6, x.npw); x.upper = real('upper')
    return x
def args(x, **kw):
    a = dict(ik=0, num_bands=x.nb, RecLattice=x.RL, symmetries_SG=seq_list(x.ops), spinor=x.spinor, kpt=x.k, WF=x.WF, Energy=x.E, ig=x.ig, upper=x.upper, degen_thresh=x.thr)
    a.update(kw); return a
def make(ip, a): return call(ip, ip.glob('irrep.kpoint', 'Kpoint'), [], a)
def identity(x):
    """the requested operations contain one that leaves k as it is (the identity of the group)"""
    i = sk('e', x.n); d = rotated(x, i)
    cur().assume(s_and(*[eq(v, 0) for v in d]))
def op_index(o, x):
    if not isinstance(o, ObjRef) or o.seq is not x.ops: raise Unsupported('operation of unknown origin')
    return o.idx
def rotated(x, i):
    """rotation^-T k - k of operation i"""
    R = Arr((3, 3), 'i', lambda ix: x.rot.get((i,) + tuple(ix)))
    B = A.inv(R)
    return [s_sub(S(*[s_mul(B.get((b, a)), x.k.get((b,))) for b in range(3)]), x.k.get((a,))) for a in range(3)]

REAL = z3.RealSort(); INT = z3.IntSort()
def trace_model(x):
    """contract of symm_eigenvalues (proved for its body under C06): one number per band that depends on nothing but
    the k-point, the states and the operation; x.trace(i, m) is the value for operation i and band m"""
    n = 3 + 9 + 8 + 3
    fr = z3.Function('TRre', *([REAL] * n + [INT]), REAL); fi = z3.Function('TRim', *([REAL] * n + [INT]), REAL)
    def value(K, R, Sm, T, m):
        v = [K.get((a,)) for a in range(3)] + [R.get((a, b)) for a in range(3) for b in range(3)]
        for a in range(2):
            for b in range(2):
                z = Sm.get((a, b)); z = z if isinstance(z, Cx) else Cx(z, Fraction(0)); v += [z.re, z.im]
        v += [T.get((a,)) for a in range(3)]
        v = [zr(e) for e in v] + [zi(m)]
        return Cx(fr(*v), fi(*v))
    def handler(ip, a, kw):
        names = ['K', 'RecLattice', 'WF', 'igall', 'A', 'S', 'T', 'spinor']
        d = dict(zip(names, a)); d.update(kw)
        if d['WF'] is not x.WF or d['igall'] is not x.ig or d['spinor'] is not x.spinor: raise Unsupported('traces of other states')
        K, R, Sm, T = d['K'], d['A'], d['S'], d['T']
        return Arr((x.nb,), 'c', lambda ix: value(K, R, Sm, T, ix[0]))
    def row(M, i): return Arr(M.shape[1:], M.kind, lambda ix: M.get((i,) + tuple(ix)))
    x.trace = lambda i, m: value(x.k, row(x.rot, i), row(x.S, i), row(x.tr, i), m)
    return {KM + 'symm_eigenvalues': handler, 'irrep.gvectors.symm_eigenvalues': handler}
