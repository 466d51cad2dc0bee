"""Generators of inputs shared by the harnesses."""
import numpy as np, functools, glob, os
from core import *

def rand_lattice(rng, lo=2.0, hi=8.0):
    while True:
        L = np.diag(rng.uniform(lo, hi, 3)) + rng.uniform(-0.4, 0.4, (3, 3)) * lo
        if abs(np.linalg.det(L)) > 0.3 * lo**3: return L
def rec(L): return 2 * np.pi * np.linalg.inv(L).T

@functools.lru_cache(None)
def table(sg, spinor):
    T = target('irreptables', 'IrrepTable')
    return T(sg, spinor)
@functools.lru_cache(None)
def group(sg):
    """operations (R, t) of space group sg as stored in the tables; parsed independently of the code"""
    f = os.path.join(ROOT, 'irreptables/irreptables/tables/irreps-SG=%d-scal.dat' % sg)
    ls = open(f).read().split('\n'); n = None; ops = []
    for i, l in enumerate(ls):
        a = l.strip().split('=')
        if a[0].lower() == 'nsym': n = int(a[1])
        if a[0].lower() == 'symmetries':
            for l in ls[i + 1:]:
                w = l.split()
                if len(w) >= 12:
                    ops.append((np.array(w[:9], float).astype(int).reshape(3, 3), np.array(w[9:12], float)))
                if len(ops) == n: return ops
def latt_for(rng, ops):
    """a random lattice compatible with the rotations (rows = basis vectors)"""
    A = rng.uniform(-1, 1, (3, 3)) * 0.3 + np.eye(3) * rng.uniform(0.8, 2.0, 3)[:, None]
    M = A @ A.T
    M = sum(R.T @ M @ R for R, t in ops) / len(ops)          # metric a_i.a_j
    L = np.linalg.cholesky(M)
    # random orientation
    q = rng.normal(size=4); q /= np.linalg.norm(q); a, b, c, d = q
    Q = np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)], [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]])
    return (L @ Q.T) * rng.uniform(2.0, 5.0)
SYM_K = [0, 0, 0.5, 0.25, 1/3, 2/3, -0.5, 0.75]
def rand_k(rng):
    if rng.random() < 0.7: return np.array([SYM_K[i] for i in rng.integers(0, len(SYM_K), 3)])
    return rng.uniform(-1, 1, 3) if rng.random() < 0.5 else np.array([0.5, 0.5, 0.5]) * rng.integers(0, 2, 3) + np.array([0, 0, rng.uniform(-.5, .5)])
def cplx(rng, *s): return rng.normal(size=s) + 1j * rng.normal(size=s)

def sphere(k, B, n=None, emax=None, N=3):
    """integer vectors around k ordered by |(k+G)B|; all with squared norm < emax"""
    r = np.arange(-N, N + 1)
    G = np.array(np.meshgrid(r, r, r, indexing='ij')).reshape(3, -1).T
    e = np.sum(((G + k) @ B) ** 2, axis=1)
    return G, e
def is_little(R, k, tol=1e-6):
    d = np.linalg.inv(R).T @ k - k
    return bool(np.all(np.abs(d - np.round(d)) < tol))
def pw_set(rng, k, B, npw=40, N=3):
    """complete set of plane waves (closed under the symmetries of the lattice at k), energy-sorted,
    with block bounds, as the 6-row array of the code. The order inside the blocks is random."""
    G, e = sphere(k, B, N=N)
    o = np.argsort(e, kind='stable'); G, e = G[o], e[o]
    # complete: largest energy such that the sphere lies inside the box
    # box face distance
    inv = np.linalg.inv(B)
    lim = min((N + 1 - abs(k[i])) / np.linalg.norm(inv[:, i]) for i in range(3)) ** 2 * 0.999
    m = e < lim; G, e = G[m], e[m]
    n = min(npw, len(G))
    while n < len(G) and e[n] - e[n - 1] < 1e-6 * (1 + e[n]): n += 1
    G, e = G[:n], e[:n]
    starts = [0] + [i for i in range(1, n) if e[i] - e[i - 1] > 1e-6 * (1 + e[i])] + [n]
    ig = np.zeros((6, n), int)
    for a, b in zip(starts, starts[1:]):
        p = a + rng.permutation(b - a)
        ig[:3, a:b] = G[p].T; ig[4, a:b] = a; ig[5, a:b] = b
    ig[3] = rng.permutation(n)
    return ig
def rand_sg(rng): return int(rng.integers(1, 231))
def some_ops(rng, ops, kmax=6):
    if len(ops) <= kmax: return list(ops)
    return [ops[i] for i in rng.choice(len(ops), kmax, replace=False)]
class FakeSym:
    """duck-typed symmetry operation"""
    def __init__(self, ind, rotation, translation, S=None, sign=1, ref=None):
        self.ind, self.rotation, self.translation = ind, rotation, translation
        self.spinor_rotation = S; self.sign = sign; self._ref = ref
    def translation_refUC(self, refUC, shiftUC):
        P = np.linalg.inv(refUC)
        return P @ (self.translation + self.rotation @ shiftUC - shiftUC)
    def rotation_refUC(self, refUC):
        return np.round(np.linalg.inv(refUC) @ self.rotation @ refUC).astype(int)
def symops(ops, L, spinor=True):
    SO = target('irrep.spacegroup', 'SymmetryOperation')
    return [SO(R, t, L, ind=i + 1, spinor=spinor) for i, (R, t) in enumerate(ops)]

def energies(rng, nb, thr):
    """ascending energies with steps around the threshold"""
    st = rng.choice([0, 0.3, 0.9, 1.1, 3, 100], nb) * thr
    return rng.uniform(-5, 5) + np.cumsum(st)
def levels(E, thr):
    """[(start, stop)] split exactly where the step exceeds thr"""
    b = [0] + [i for i in range(1, len(E)) if E[i] - E[i - 1] > thr] + [len(E)]
    return list(zip(b, b[1:]))
def safe_energies(rng, nb, thr):
    while True:
        E = energies(rng, nb, thr)
        if nb < 2 or np.min(np.abs(np.diff(E) - thr)) > 1e-3 * thr: return E
def orthonormal(rng, nb, n):
    q, _ = np.linalg.qr(cplx(rng, n, nb)); return q.T
class KP: pass
def kp_inputs(rng, spinor=None, nb=None, npw=None, thr=None, orth=False, kk=None, sg=None):
    x = KP(); x.ops = group(sg or rand_sg(rng)); x.L = latt_for(rng, x.ops); x.B = rec(x.L)
    x.k = rand_k(rng) if kk is None else kk
    if any(is_little(R, x.k, 5e-4) != is_little(R, x.k, 9e-9) for R, t in x.ops): raise Skip('k-point at the tolerance of an operation')
    x.spinor = bool(rng.integers(0, 2)) if spinor is None else spinor
    x.nb = int(rng.integers(1, 7)) if nb is None else nb
    x.ig = pw_set(rng, x.k, x.B, int(rng.integers(5, 30)) if npw is None else npw)
    n = x.ig.shape[1] * (2 if x.spinor else 1)
    x.nb = min(x.nb, n)
    x.WF = orthonormal(rng, x.nb, n) if orth else cplx(rng, x.nb, n)
    x.thr = float(rng.choice([1e-8, 1e-4, 1e-2])) if thr is None else thr
    x.E = safe_energies(rng, x.nb, x.thr)
    x.upper = x.E[-1] + 1.0
    x.sub = list(range(len(x.ops)))
    SO = target('irrep.spacegroup', 'SymmetryOperation')
    inds = rng.permutation(len(x.ops)) + 1
    x.syms = [SO(R, t, x.L, ind=int(i), spinor=x.spinor) for (R, t), i in zip(x.ops, inds)]
    x.ik = int(rng.integers(0, 9))
    given(k=x.k, L=x.L, spinor=x.spinor, E=x.E, thr=x.thr, ig=x.ig[:3], ops=[(s.ind, s.rotation.tolist(), s.translation.tolist()) for s in x.syms][:8])
    return x
def make_kp(x, **kw):
    K = target('irrep.kpoint', 'Kpoint')
    a = dict(ik=x.ik, num_bands=x.nb, RecLattice=x.B, symmetries_SG=x.syms, calculate_traces=True, spinor=x.spinor, kpt=x.k.copy(), WF=x.WF.copy(),
             Energy=x.E.copy(), ig=x.ig.copy(), upper=x.upper, degen_thresh=x.thr, refUC=np.eye(3), shiftUC=np.zeros(3))
    a.update(kw)
    return K(**a)
def normalised(WF): return WF / np.linalg.norm(WF, axis=1)[:, None]
def little(x, sel=None):
    return sorted([s for s in x.syms if (sel is None or s.ind in sel) and is_little(s.rotation, x.k, 1e-4)], key=lambda s: s.ind)
def order(G):
    """position of each vector in the order by third, second, first component, each running 0,1,2,..,-2,-1"""
    k = lambda x: (0, x) if x >= 0 else (1, x)
    s = sorted(range(len(G)), key=lambda i: (k(G[i][2]), k(G[i][1]), k(G[i][0])))
    p = {}
    for j, i in enumerate(s): p[tuple(int(x) for x in G[i])] = j
    return p
