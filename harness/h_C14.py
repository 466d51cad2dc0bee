"""SymmetryOperation: normalisation, type, spinor matrix"""
from gen import *
from scipy.linalg import expm
SIG = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
def rodrigues(n, a):
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K
def check(o, R, t, L):
    t0 = np.asarray(t, float)
    ok(np.array_equal(o.rotation, R), 'rotation changed')
    tr = o.translation
    ok(np.all(tr >= 0) and np.all(tr < 1), 'translation %s not in [0,1)', tr)
    d = tr - t0; ok(np.abs(d - np.round(d)).max() < 1.1e-5, 'translation %s is not %s up to integers', tr, t0)
    f = t0 % 1
    for i in range(3):
        if 1 - f[i] < 0.9e-5 or f[i] == 1: ok(tr[i] == 0, 'translation component %r stored as %r', float(t0[i]), float(tr[i]))
        elif 1 - f[i] > 1.1e-5: ok(abs(tr[i] - f[i]) < 1e-12, 'translation component %r stored as %r', float(t0[i]), float(tr[i]))
    W = L.T @ R @ np.linalg.inv(L).T
    det = round(np.linalg.det(W))
    ok(bool(o.inversion) == (det < 0), 'handedness flag %s for determinant %d', o.inversion, det)
    ok(abs(o.angle) < 1e-9 or abs(np.linalg.norm(o.axis) - 1) < 1e-6, 'axis not normalised')
    m = o.angle / (np.pi / 6); ok(abs(m - round(m)) < 1e-9, 'angle %s is no multiple of 30 degrees', o.angle)
    close(rodrigues(o.axis, o.angle), W * det, 'rotation by the stored angle about the stored axis', 1e-5)
    close(o.spinor_rotation, expm(-0.5j * o.angle * np.einsum('i,ijk->jk', o.axis, SIG)), 'spinor matrix', 1e-6)
def rand_t(rng):
    return rng.choice([0, .5, .25, 1/3, 1 - 1e-6, 1 - 2e-5, -1e-7, 1, -0.5, 2.25, -1e-17, 0.99999999, 1 - 9e-6, 1.0000001], 3) if rng.random() < .7 else rng.uniform(-3, 3, 3)
@case(230, 1150)
def operations(rng):
    SO = target('irrep.spacegroup', 'SymmetryOperation')
    ops = group(rand_sg(rng)); L = latt_for(rng, ops)
    for R, t in some_ops(rng, ops, 12):
        t = rand_t(rng); t1, R1, L1 = t.copy(), R.copy(), L.copy()
        sp = bool(rng.integers(0, 2))
        given(R=R, t=t, L=L)
        o = SO(R, t, L, ind=3, spinor=sp)
        ok(np.array_equal(t, t1) and np.array_equal(R, R1) and np.array_equal(L, L1), "caller's arrays modified")
        ok(o.ind == 3, 'index')
        check(o, R, t, L)
    return (len(ops), tuple(np.round(t, 6)))
@case(230, 1150)
def all_of_a_group(rng):
    SO = target('irrep.spacegroup', 'SymmetryOperation')
    sg = [221, 191, 225, 194, 123, 166][rng.integers(0, 6)]
    ops = group(sg)
    # conventional lattices: axes along the Cartesian ones, columns may be permuted and reflected
    M = {221: np.eye(3), 225: np.eye(3), 123: np.diag([1, 1, 1.7])}.get(sg, np.array([[1, 0, 0], [-.5, np.sqrt(3) / 2, 0], [0, 0, 1.6]]))
    Q = np.eye(3)[rng.permutation(3)] * rng.choice([-1, 1], 3)
    L = M @ Q * rng.uniform(1, 9)
    i = rng.integers(0, len(ops)); R, t = ops[i]
    given(R=R, L=L, sg=sg)
    check(SO(R, t, L), R, t, L)
    return (sg, int(i), tuple(Q.ravel()))
