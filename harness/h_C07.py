"""little group"""
from gen import *
from h_C06 import element
CASES.clear()
@case(250)
def little_group(rng):
    x = kp_inputs(rng, nb=2, npw=8)
    sel = None
    if rng.random() < 0.5: sel = [int(i) for i in rng.permutation(len(x.syms))[:rng.integers(1, len(x.syms) + 1)] + 1]
    k = make_kp(x, calculate_traces=False, symmetries=sel)
    want = [s.ind for s in little(x, sel)]
    ok([s.ind for s in k.little_group] == want, 'little group %s instead of %s', [s.ind for s in k.little_group], want)
    for s in k.little_group: ok(any(s is y for y in x.syms), 'operation replaced')
    return (tuple(want), len(x.syms)) if 1 < len(want) < len(x.syms) or sel else None
@case(60)
def columns(rng):
    x = kp_inputs(rng, nb=3, npw=8)
    sel = None
    if rng.random() < 0.5: sel = [int(i) for i in rng.permutation(len(x.syms))[:max(1, len(x.syms) * 2 // 3)] + 1]
    lg = little(x, sel)
    if not lg: raise Skip('')
    k = make_kp(x, symmetries=sel)
    WF = normalised(x.WF)
    ok(k.char.shape[1] == len(lg), 'number of columns')
    for j, s in enumerate(lg):
        M = np.diag(element(WF, WF, s.spinor_rotation, x.k, x.ig, s.rotation, s.translation, x.spinor))
        want = [M[a:b].sum() for a, b in levels(x.E, x.thr)]
        close(k.char[:, j], want, 'traces of operation %d (column %d)' % (s.ind, j), 1e-7)
    return (len(lg), x.spinor, len(want))
@case(60)
def tolerance(rng):
    """general k-points close to symmetric ones are not symmetric"""
    x = kp_inputs(rng, nb=1, npw=5, kk=rand_k(rng) + rng.choice([0, 1e-9, 1e-3], 3))
    k = make_kp(x, calculate_traces=False)
    ok([s.ind for s in k.little_group] == [s.ind for s in little(x)], 'little group at a displaced point')
    return tuple(s.ind for s in k.little_group)
