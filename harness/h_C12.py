"""match_symmetries and ordering"""
from gen import *
from h_C09 import prim_cell, crystal_ops, fake_sg, PRIM, centering
import h_C15
CASES.clear()
def partner(T, P, s, R, t, tol):
    """table positions with the rotation of (R,t) in the reference cell; with equal translation mod calculation cell"""
    Rr = np.linalg.inv(P) @ R @ P
    if np.abs(Rr - np.round(Rr)).max() > 1e-6: return None, None
    tr = np.linalg.inv(P) @ (t + R @ s - s)
    rot = [i for i, o in enumerate(T.symmetries) if np.array_equal(o.R, np.round(Rr))]
    d = {}
    for i in rot:
        x = P @ (T.symmetries[i].t - tr); d[i] = np.abs(x - np.round(x)).max()
    return rot, d
@case(200)
def match(rng):
    SO = target('irrep.spacegroup', 'SymmetryOperation')
    T = table(rand_sg(rng), False)
    P = prim_cell(rng, T); s = rng.choice([0, .25, .5, 1/3, .125, .7], 3) * (rng.random() < 0.7)
    ops = crystal_ops(rng, T, P, s); L = latt_for(rng, ops)
    tol = float(rng.choice([1e-5, 1e-3, 1e-2]))
    mode = int(rng.integers(0, 6))
    ops = [ops[i] for i in rng.permutation(len(ops))]
    if mode == 1: ops = ops[:rng.integers(1, len(ops) + 1)]
    if mode == 2: ops = ops + [ops[rng.integers(0, len(ops))]]
    if mode == 3:
        i = rng.integers(0, len(ops)); e = np.zeros(3); e[rng.integers(0, 3)] = rng.choice([.5, .25, 3 * tol, -3 * tol, .3 * tol, -.3 * tol])
        ops[i] = (ops[i][0], ops[i][1] + e)
    if mode == 4: P = P @ np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1.]])
    if mode == 5: s = s + rng.choice([0, .25, .5], 3)
    syms = [SO(R, t, L, ind=i + 1, spinor=False) for i, (R, t) in enumerate(ops)]
    g = fake_sg(T, P, s, syms, False)
    given(table=T.number, refUC=P, shiftUC=s, trans_thresh=tol, ops=[(o.rotation, o.translation) for o in syms][:12])
    want, bad, edge = [], False, False
    for o in syms:
        rot, d = partner(T, P, s, o.rotation, o.translation, tol)
        if not rot: bad = True; want.append(None); continue
        good = [i for i in rot if d[i] < 0.95 * tol]
        if any(0.95 * tol <= x <= 1.05 * tol + 3e-5 for x in d.values()): edge = True
        if not good: bad = True
        want.append(good[0] if good else None)
    if not bad and len(set(want)) != len(want): bad = True
    if edge: raise Skip('translation at the tolerance')
    by_attr = rng.random() < .5
    try: ind, dt, sg = g.match_symmetries(trans_thresh=tol) if by_attr else g.match_symmetries(P, s, trans_thresh=tol)
    except RuntimeError: ok(bad, 'error although every operation has a partner of its own'); return ('error', T.number, mode)
    ok(not bad, 'no error although the operations do not match one-to-one: %s expected %s', ind, want)
    ok([int(i) for i in ind] == want, 'assignment %s instead of %s', [int(i) for i in ind], want)
    ok(len(set(map(int, ind))) == len(syms), 'two operations share a partner')
    for i, o, x in zip(ind, syms, dt):
        close(x, T.symmetries[i].t - np.linalg.inv(P) @ (o.translation + o.rotation @ s - s), 'translation difference', 1e-7)
    return ('match', T.number, mode)
def crystal(rng, sg):
    """generic crystal in a primitive cell of space group sg (None if the symmetry is accidentally higher)"""
    import spglib
    ops = group(sg); T = table(sg, False); L = latt_for(rng, ops)
    A = PRIM.get(centering(T), np.eye(3))
    Ai = np.linalg.inv(A)               # conventional -> primitive fractional: x_prim = x_conv @ Ai
    pos, typ = [], []
    for a in range(3):
        x = rng.uniform(0, 1, 3)
        for R, t in ops:
            pos.append((R @ x + t) @ Ai % 1); typ.append(a + 1)
    Lp = A @ L
    cell = (Lp, np.array(pos), typ)
    d = spglib.get_symmetry_dataset(cell)
    if d is None or d.number != sg or len(d.rotations) != len(ops): raise Skip('accidental symmetry')
    # hide the conventional setting: another primitive basis and origin
    return cell
def move(rng, cell):
    L, pos, typ = cell
    U = np.eye(3)
    for _ in range(rng.integers(0, 3)):
        i, j = rng.choice(3, 2, replace=False); E = np.eye(3); E[i, j] = rng.choice([-1, 1]); U = U @ E
    sh = rng.uniform(0, 1, 3) if rng.random() < .5 else np.zeros(3)
    return (U @ L, ((pos @ np.linalg.inv(U)) + sh) % 1, typ)
@case(40, 300, limit=120)
def order(rng):
    """operations of a SpaceGroup are listed in table order with their table position as index"""
    SG = target('irrep.spacegroup', 'SpaceGroup')
    sg = rand_sg(rng)
    if len(group(sg)) > 24 and rng.random() < .8: raise Skip('large')
    cell = move(rng, crystal(rng, sg)); T = table(sg, False)
    given(sg=sg, cell=cell)
    try: g = SG(cell, spinor=False, search_cell=True)
    except RuntimeError: raise Skip('no reference cell found')
    P, s = g.refUC, g.shiftUC
    check_order(g, T, P, s, len(group(sg)))
    return sg
def check_order(g, T, P, s, n):
    inds = [o.ind for o in g.symmetries]
    ok(len(inds) == n, '%d operations instead of %d', len(inds), n)
    ok(inds == sorted(inds) and len(set(inds)) == n, 'indices %s not ascending', inds)
    for o in g.symmetries:
        rot, d = partner(T, P, s, o.rotation, o.translation, 1e-5)
        ok(rot and o.ind - 1 in rot and d[o.ind - 1] < 2e-4, 'operation with index %d is not number %s of the table', o.ind, [i + 1 for i in rot or []])
@case(25, 200, limit=120)
def partial_group(rng):
    """a crystal that supplies only part of the operations (symmetry file)"""
    SG = target('irrep.spacegroup', 'SpaceGroup')
    sg = int(rng.choice([3, 10, 16, 25, 47, 75, 81, 83, 89, 99, 123, 143, 147, 149, 156, 168, 174, 175, 177, 183, 187, 191, 14, 19, 62, 76, 136]))
    cell = crystal(rng, sg); T = table(sg, False)
    L = cell[0]
    try: g = SG(cell, spinor=False, search_cell=True)
    except RuntimeError: raise Skip('')
    n = int(rng.integers(1, len(g.symmetries) + 1)); keep = rng.permutation(len(g.symmetries))[:n]
    full = g.symmetries
    g.symmetries = [full[i] for i in keep]
    given(sg=sg, cell=cell, supplied=[full[i].ind for i in keep])
    with scratch():
        g.write_sym_file('p.sym', 2.0)
        h = SG(cell, spinor=False, refUC=g.refUC.T, shiftUC=g.shiftUC, from_sym_file='p.sym', alat=2.0)
    check_order(h, T, h.refUC, h.shiftUC, n)
    ok(sorted(full[i].ind for i in keep) == [o.ind for o in h.symmetries], 'indices %s', [o.ind for o in h.symmetries])
    return (sg, tuple(sorted(int(i) for i in keep)))
