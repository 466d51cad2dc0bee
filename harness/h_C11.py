"""operations in the reference cell"""
from gen import *
from h_C09 import rand_cell, prim_cell, crystal_ops
CASES.clear()
@case(300)
def conjugation(rng):
    ops = group(rand_sg(rng)); L = latt_for(rng, ops)
    SO = target('irrep.spacegroup', 'SymmetryOperation')
    P, s = rand_cell(rng)
    if rng.random() < 0.3: P = P * rng.choice([1, 2, .5])
    if rng.random() < 0.2: P = P + rng.uniform(-1, 1, (3, 3)) * 10.0 ** -rng.integers(1, 8)
    Pi = np.linalg.inv(P)
    for R, t in some_ops(rng, ops):
        o = SO(R, t, L)
        given(R=R, t=o.translation, refUC=P, shiftUC=s)
        X = Pi @ R @ P; d = np.abs(X - np.round(X)).max()
        close(o.translation_refUC(P, s), Pi @ (o.translation + R @ s - s), 'translation', 1e-9)
        if abs(d - 1e-6) < 1e-8: continue
        try: Y = o.rotation_refUC(P)
        except Exception as e:
            ok(d > 1e-6, 'error for an integer matrix: %s', e); continue
        ok(d < 1e-6, 'no error although P^-1 R P is not integer: %s', X.tolist())
        ok(np.array_equal(Y, np.round(X)), 'rotation %s instead of %s', np.asarray(Y).tolist(), X.tolist())
    return (tuple(np.round(P.ravel(), 3)), tuple(s), len(ops))
@case(150)
def products(rng):
    T = table(rand_sg(rng), False)
    P = prim_cell(rng, T); s = rng.uniform(-1, 1, 3)
    ops = crystal_ops(rng, T, P, s, False)
    L = latt_for(rng, ops); SO = target('irrep.spacegroup', 'SymmetryOperation')
    o = [SO(R, t, L) for R, t in some_ops(rng, ops, 4)]
    for a in o:
        for b in o:
            R = a.rotation @ b.rotation; t = a.translation + a.rotation @ b.translation
            c = SO(R, t, L)
            given(a=(a.rotation, a.translation), b=(b.rotation, b.translation), refUC=P, shiftUC=s)
            Ra, Rb, Rc = [x.rotation_refUC(P) for x in (a, b, c)]
            ok(np.array_equal(Ra @ Rb, Rc), 'product of rotations')
            ta, tb, tc = [x.translation_refUC(P, s) for x in (a, b, c)]
            d = P @ (ta + Ra @ tb - tc)
            ok(np.abs(d - np.round(d)).max() < 2e-5, 'product of translations differs by %s', d)
    return (T.number, tuple(P.ravel()))
