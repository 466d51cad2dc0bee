"""transformed_g"""
from gen import *
def setup(rng):
    ops = group(rand_sg(rng)); L = latt_for(rng, ops); B = rec(L)
    R, t = ops[rng.integers(0, len(ops))]
    k = rand_k(rng)
    return ops, L, B, R, t, k
@case(500)
def images(rng):
    f = target('irrep.gvectors', 'transformed_g'); NS = target('irrep.gvectors', 'NotSymmetryError')
    ops, L, B, R, t, k = setup(rng)
    if rng.random() < 0.7:
        for _ in range(30):
            if is_little(R, k): break
            R, t = ops[rng.integers(0, len(ops))]
    ig = pw_set(rng, k, B, int(rng.integers(1, 50)))
    mode = int(rng.integers(0, 5)); n = ig.shape[1]
    if mode == 1 and n > 1:                      # drop plane waves: images go missing
        keep = np.ones(n, bool); keep[rng.integers(0, n, max(1, n // 4))] = False
        m = np.where(keep)[0]
        if len(m): ig = rebound(ig, m)
    if mode == 2 and n > 2:                      # an image outside its block
        b = np.arange(n); ig = ig.copy()
        j = rng.integers(0, n); ig[4, j], ig[5, j] = (j, j + 1)
    if mode == 3:                                # displaced plane wave
        ig = ig.copy(); ig[:3, rng.integers(0, n)] += rng.integers(-1, 2, 3)
    given(k=k, R=R, ig=ig, B=B)
    return check(f, NS, k, ig, B, R)
def rebound(ig, m):
    new = ig[:, m].copy()
    f = {}
    for j in range(len(m)): f.setdefault(new[4, j], []).append(j)
    for js in f.values():
        new[4, js] = js[0]; new[5, js] = js[-1] + 1
    return new
def check(f, NS, k, ig, B, R):
    d = np.linalg.inv(R).T @ k - k; dk = np.round(d)
    eq = np.all(np.abs(d - dk) < 1e-4); near = np.abs(np.abs(d - dk) - 1e-8).min()
    iR = np.round(np.linalg.inv(R)).astype(int).T
    tr = iR @ ig[:3] + np.round(d).astype(int)[:, None]
    im = []
    for i in range(ig.shape[1]):
        js = [j for j in range(ig[4, i], ig[5, i]) if np.array_equal(tr[:, i], ig[:3, j])]
        im.append(js)
    try: r = f(k, ig, B, R)
    except NS: ok(not eq, 'not-a-symmetry error although the rotated k is equivalent'); return ('notsym', ig.shape[1])
    except (RuntimeError, TypeError, ValueError, Exception) as e:
        ok(eq, '%s instead of the not-a-symmetry error', type(e).__name__)
        ok(any(not j for j in im), 'error although all images are present: %s', type(e).__name__)
        return ('missing', ig.shape[1])
    ok(eq, 'no error although the rotated k is not equivalent')
    ok(all(im), 'no error although the image of plane wave %s is missing', [i for i, j in enumerate(im) if not j][:1])
    ok(len(r) == ig.shape[1], 'length')
    for i, j in enumerate(r):
        ok(int(j) in im[i], 'plane wave %d mapped to %d, the images are %s', i, int(j), im[i])
    return ('ok', ig.shape[1], tuple(int(x) for x in r)) if list(r) != list(range(len(r))) else None
@case(100)
def general_rotation(rng):
    """unimodular matrices that are no lattice symmetries, one single block"""
    f = target('irrep.gvectors', 'transformed_g'); NS = target('irrep.gvectors', 'NotSymmetryError')
    while True:
        R = rng.integers(-2, 3, (3, 3))
        if abs(round(np.linalg.det(R))) == 1: break
    k = np.array([0, 0, 0.]) if rng.random() < 0.6 else np.array([0.5, 0.5, 0.5]) * rng.integers(0, 2, 3)
    iR = np.round(np.linalg.inv(R)).astype(int).T
    dk = np.round(iR @ k - k).astype(int)
    orb = {}
    todo = [tuple(rng.integers(-1, 2, 3)) for _ in range(2)]
    while todo and len(orb) < 60:
        g = todo.pop()
        if g in orb: continue
        orb[g] = 1; todo.append(tuple(iR @ np.array(g) + dk))
    G = np.array(list(orb)).T; n = G.shape[1]; p = rng.permutation(n)
    ig = np.zeros((6, n), int); ig[:3] = G[:, p]; ig[5] = n
    given(k=k, R=R, ig=ig)
    return check(f, NS, k, ig, np.eye(3), R)
