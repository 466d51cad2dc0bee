"""reference cell"""
from gen import *
import h_C12
CASES.clear()
from h_C12 import crystal, move, partner
from h_C09 import fake_sg
@case(100)
def user_choice(rng):
    T = table(int(rng.integers(1, 231)), False)
    g = fake_sg(T, None, None, [], False)
    A = rng.integers(-2, 3, (3, 3)).astype(float); s = rng.uniform(-1, 1, 3)
    a = A if rng.random() < .5 else None; b = s if rng.random() < .5 else None
    lib = (rng.uniform(-1, 1, (3, 3)) + np.eye(3) * 3, rng.uniform(0, 1, 3))
    search = bool(rng.integers(0, 2)) if (a is not None or b is not None) else False
    given(refUC=a, shiftUC=b, search_cell=search)
    P, p = g.determine_basis_transf(refUC_cli=a, shiftUC_cli=b, refUC_lib=lib[0], shiftUC_lib=lib[1], search_cell=search, trans_thresh=1e-5)
    close(P, A.T if a is not None else np.eye(3), 'basis change', 1e-12); close(p, s if b is not None else np.zeros(3), 'origin shift', 1e-12)
    return (a is None, b is None, search, tuple(A.ravel()) if a is not None else 0)
@case(70, 500, limit=120)
def search(rng):
    SG = target('irrep.spacegroup', 'SpaceGroup')
    sg = rand_sg(rng)
    if len(group(sg)) > 24 and rng.random() < .8: raise Skip('large')
    cell = move(rng, crystal(rng, sg)); T = table(sg, False)
    tol = float(rng.choice([1e-5, 1e-4]))
    given(sg=sg, cell=cell)
    try: g = SG(cell, spinor=False, search_cell=True, trans_thresh=tol)
    except RuntimeError: return ('error', sg)
    ok(g.number == sg, 'space group')
    seen = set()
    for o in g.symmetries:
        rot, d = partner(T, g.refUC, g.shiftUC, o.rotation, o.translation, tol)
        ok(rot and min(d.values()) < tol + 3e-5, 'operation R=%s t=%s does not match the tables in the returned cell', o.rotation.tolist(), o.translation)
        seen.add(rot[0])
    ok(len(seen) == len(group(sg)), 'matching not one-to-one')
    return ('found', sg)
@case(60)
def misplaced(rng):
    """library transformation that does not lead to the tables: it must not be returned"""
    from h_C09 import prim_cell, crystal_ops
    T = table(rand_sg(rng), False); P = prim_cell(rng, T); s = rng.choice([0, .25, .5, .125], 3)
    ops = crystal_ops(rng, T, P, s); L = latt_for(rng, ops)
    SO = target('irrep.spacegroup', 'SymmetryOperation')
    g = fake_sg(T, None, None, [SO(R, t, L, ind=i + 1, spinor=False) for i, (R, t) in enumerate(ops)], False)
    wrong = rng.choice([0, .25, .5, .1], 3)
    given(table=T.number, refUC=P, shift=s, library_shift=-np.linalg.inv(P) @ (s + wrong), ops=[(o.rotation, o.translation) for o in g.symmetries][:10])
    try: Q, q = g.determine_basis_transf(None, None, np.linalg.inv(P), -np.linalg.inv(P) @ (s + wrong), True, 1e-5)
    except RuntimeError: return ('error', T.number)
    for o in g.symmetries:
        rot, d = partner(T, Q, q, o.rotation, o.translation, 1e-5)
        ok(rot and min(d.values()) < 4e-5, 'returned cell does not match the tables for R=%s t=%s', o.rotation.tolist(), o.translation)
    return ('found', T.number, tuple(wrong))
@case(300, 300)
def origins(rng):
    """centring vectors and inversion centres of the reference cell"""
    c = 'PCIFAR'[rng.integers(0, 6)]
    g = fake_sg(table(1, False), None, None, [], False); g.name = c + '1'
    cent = {'P': [], 'C': [[.5, .5, 0]], 'I': [[.5] * 3], 'F': [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], 'A': [[0, .5, .5]], 'R': [[2/3, 1/3, 1/3], [1/3, 2/3, 2/3]]}[c]
    cent = [[0, 0, 0]] + cent
    def key(v): return tuple(np.round(np.asarray(v, float) % 1 % 1, 4) % 1)
    def key2(v): return tuple(np.round(np.asarray(v, float) % 2, 4) % 2)
    ok(sorted(map(key, g.vecs_centering())) == sorted(map(key, cent)), 'centring vectors of %s: %s', c, np.asarray(g.vecs_centering()).tolist())
    want = sorted(key2(np.array(v) + np.array(e)) for v in cent for e in np.ndindex(2, 2, 2))
    ok(sorted(map(key2, g.vecs_inv_centers())) == want, 'inversion centres of %s', c)
    return c
