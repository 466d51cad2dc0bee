"""k-path and trace output"""
from gen import *
def bs(): BS = target('irrep.bandstructure', 'BandStructure'); return BS.__new__(BS)
class KK: pass
@case(300)
def path(rng):
    b = bs(); n = int(rng.integers(1, 12)); L = rand_lattice(rng); b.RecLattice = rec(L)
    step = float(rng.choice([.01, .05, .3])); ks = np.cumsum(rng.uniform(-step, step, (n, 3)), axis=0) + rng.uniform(-1, 1, 3)
    if n > 2 and rng.random() < .5: ks[n // 2:] += rng.uniform(-1, 1, 3)
    if n > 1 and rng.random() < .2: ks[1] = ks[0]
    b.kpoints = []
    for k in ks: q = KK(); q.k = k; b.kpoints.append(q)
    mode = int(rng.integers(0, 3)); kw = {}; Br = b.RecLattice; kk = ks
    if mode >= 1: kk = ks + rng.uniform(-.1, .1, ks.shape) * .01; kw['kpred'] = [list(k) for k in kk] if rng.random() < .5 else kk.copy()
    if mode == 2:
        M = rng.integers(-2, 3, (3, 3))
        if abs(np.linalg.det(M)) < .5: raise Skip('')
        kw['supercell'] = M; Br = M.T @ b.RecLattice
    thr = float(rng.choice([.1, .1, .5, 1e-3, 1e5]))
    if thr != .1: kw['breakTHRESH'] = thr
    given(k=kk, B=Br, thr=thr, n=n)
    d = np.linalg.norm((kk[1:] - kk[:-1]) @ Br, axis=1)
    if len(d) and np.min(np.abs(d - thr)) < 1e-9: raise Skip('')
    want = np.concatenate([[0], np.cumsum(np.where(d > thr, 0, d))])
    r = np.asarray(b.KPOINTSline(**kw))
    close(r, want, 'path coordinate', 1e-9); ok(r[0] == 0 and np.all(np.diff(r) >= 0), 'path %s', r)
    return (n, mode, thr, int((d > thr).sum()))
def parse_block(lines, x, lv, lg, E, char):
    h = next(lines).split(); ok(h == [str(len(lg))], 'number of operations %s instead of %d', h, len(lg))
    h = next(lines).split(); ok([int(v) for v in h] == [s.ind for s in lg], 'indices %s instead of %s', h, [s.ind for s in lg])
    for i, (a, b) in enumerate(lv):
        w = next(lines).split()
        ok(int(w[0]) == a + 1, 'level %d: first band %s instead of %d', i, w[0], a + 1); ok(int(w[1]) == b - a, 'level %d: degeneracy %s instead of %d', i, w[1], b - a)
        ok(abs(float(w[2]) - E[i]) < 1e-3, 'level %d: energy %s instead of %g', i, w[2], E[i])
        v = np.array(w[3:], float); ok(len(v) == 2 * len(lg), 'level %d: %d numbers for %d operations', i, len(v), len(lg))
        ok(np.abs(v[0::2] + 1j * v[1::2] - char[i]).max() < 2e-6, 'level %d: traces %s instead of %s', i, v, char[i])
@case(120)
def trace(rng):
    x = kp_inputs(rng, npw=12); k = make_kp(x); lv = levels(x.E, x.thr)
    s = k.write_trace(); lines = iter([l for l in s.split('\n') if l.strip()])
    parse_block(lines, x, lv, little(x), [x.E[a:b].mean() for a, b in lv], k.char)
    ok(next(lines, None) is None, 'more lines than levels')
    return (x.nb, len(lv), len(k.little_group))
class SG: 
    def write_trace(self): return '7\nSYMMETRIES\n'
@case(40)
def trace_file(rng):
    b = bs(); sg = rand_sg(rng); n = int(rng.integers(1, 4)); xs = []; sp = bool(rng.integers(0, 2)); nb = int(rng.integers(1, 4))
    for i in range(n):
        x = kp_inputs(rng, sg=sg, npw=10, nb=nb, spinor=sp); xs.append((x, make_kp(x)))
    if len({x.nb for x, _ in xs}) > 1: raise Skip('')
    b.kpoints = [k for _, k in xs]; b.spinor = sp; b.spacegroup = SG()
    with scratch():
        b.write_trace(); import gc; gc.collect(); lines = iter([l for l in open('trace.txt').read().split('\n') if l.strip()])
    ok(next(lines).split() == [str(xs[0][0].nb)], 'number of bands'); ok(next(lines).split() == ['1' if sp else '0'], 'spin-orbit flag')
    ok(next(lines).strip() == '7' and next(lines).strip() == 'SYMMETRIES', 'symmetries')
    ok(next(lines).split() == [str(n)], 'number of k-points')
    for x, k in xs: ok(np.abs(np.array(next(lines).split(), float) - x.k).max() < 2e-6, 'coordinates of a k-point')
    for x, k in xs:
        lv = levels(x.E, x.thr); parse_block(lines, x, lv, little(x), [x.E[a:c].mean() for a, c in lv], k.char)
    return (n, sp, sg)
