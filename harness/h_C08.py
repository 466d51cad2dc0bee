"""degenerate levels"""
from gen import *
@case(250)
def levels_and_sums(rng):
    K = target('irrep.kpoint', 'Kpoint')
    x = kp_inputs(rng, nb=int(rng.integers(1, 12)), npw=12)
    k = make_kp(x)
    lv = levels(x.E, x.thr)
    d = np.array([b - a for a, b in lv])
    ok(list(k.degeneracies) == list(d), 'degeneracies %s instead of %s for energies %s, tolerance %g', list(k.degeneracies), list(d), list(x.E), x.thr)
    close(k.Energy_mean, [x.E[a:b].mean() for a, b in lv], 'mean energies', 1e-12)
    # single-band traces: each band in a k-point of its own
    k1 = make_kp(x, Energy=np.arange(x.nb, dtype=float), degen_thresh=1e-8)
    ok(len(k1.degeneracies) == x.nb, 'single levels')
    for j in range(k.char.shape[1]):
        close(k.char[:, j], [k1.char[a:b, j].sum() for a, b in lv], 'traces of level', 1e-8)
    return (tuple(d), x.spinor, k.char.shape[1]) if len(lv) > 1 else None
