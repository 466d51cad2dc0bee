"""selection of bands and k-points, caller's data"""
from files import *
def request(rng, x, ordered=False):
    nb, nk = x.nb, x.nk
    s = rng.choice([None, 0, -1, 1, int(rng.integers(1, nb + 1)), nb + int(rng.integers(1, 3)) if rng.random() < .4 else 1]); e = rng.choice([None, 0, -2, nb, nb + 3, int(rng.integers(1, nb + 1))])
    kl = None
    if rng.random() < .75:
        kl = [int(v) for v in (rng.permutation(np.arange(1, nk + 1))[:int(rng.integers(1, nk + 1))])]
        if ordered: kl.sort()
        if rng.random() < .3: kl.insert(0, int(rng.choice([0, -1])))
        if rng.random() < .3: kl.append(nk + int(rng.integers(1, 3)))
    b0 = 0 if s is None or s <= 0 else s - 1; b1 = nb if e is None or e <= 0 or e > nb else e
    return s, e, kl, b0, b1
def run(rng, x, code, channel=None, ordered=False, **kw):
    s, e, kl, b0, b1 = request(rng, x, ordered)
    EF = rng.choice(['0.0', '1.25', '-3', 'auto'])
    ef = float(EF) if EF != 'auto' else (getattr(x, 'efermi', None) or 0.0)
    Ecut = x.E0 * float(rng.choice([1.0, .8, .6])) if code != 'wannier90' else x.E0
    ec = rng.choice([None, -1, 0, 2 * x.E0]) if Ecut == x.E0 else Ecut
    if code == 'wannier90': ec = x.E0
    if any((t < Ecut).sum() == 0 for t in x.e): raise Skip('')
    arr = None if kl is None else np.array(kl, int)
    given(code=code, IBstart=s, IBend=e, kplist=kl, EF=EF, Ecut=ec, nb=x.nb, nk=x.nk, spinor=x.spinor, channel=channel)
    a = dict(IBstart=s, IBend=e, kplist=arr, EF=str(EF), Ecut=ec, **kw)
    if channel: a['spin_channel'] = channel
    if b1 - b0 <= 0:
        ok(raises(open_bs, x, code, **a) is not None, 'empty band range %s..%s accepted', s, e); return ('empty', s, e)
    bs = open_bs(x, code, **a)
    if arr is not None: ok(arr.tolist() == kl, 'the list of k-points of the caller was changed to %s', arr)
    want = list(range(x.nk)) if kl is None else [k - 1 for k in kl if 1 <= k <= x.nk]
    ok([k.ik0 - 1 for k in bs.kpoints] == want, 'k-points %s instead of %s', [k.ik0 for k in bs.kpoints], [w + 1 for w in want])
    close(bs.efermi, ef, 'Fermi energy', 1e-6)
    for i, k in zip(want, bs.kpoints):
        WF, E = (x.WFdw[i], x.Edw[i]) if channel in ('dw', 'down') else (x.WF[i], x.E[i])
        check_states(x, i, k, b0, b1, Ecut, WF=WF, E=E, efermi=ef)
    return (code, s, e, tuple(kl) if kl else None, x.nb)
@case(40)
def from_vasp(rng):
    x = vasp(rng)
    with scratch():
        write_poscar(x); write_wavecar(x); return run(rng, x, 'vasp')
@case(25)
def from_abinit(rng):
    x = abinit(rng)
    with scratch():
        write_wfk(x); return run(rng, x, 'abinit', ordered=True)
@case(25)
def from_espresso(rng):
    x = espresso(rng); ch = str(rng.choice(['up', 'dw', 'UP', 'down'])) if x.spinpol else None
    with scratch():
        write_qe(x)
        if ch in ('dw', 'down'):
            x.nb = x.ndw
        return run(rng, x, 'espresso', channel=ch.lower() if ch else None)
@case(25)
def from_wannier(rng):
    x = wannier(rng)
    with scratch():
        write_win(rng, x); write_eig(x)
        m = max(np.abs(g).max() for g in x.G); s = max(np.abs(g).sum(axis=1).max() for g in x.G)
        n = 2 * (s + 2)
        for i in range(x.nk): write_unk(x, i, (n, n, n))
        return run(rng, x, 'wannier90')
