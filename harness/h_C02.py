"""calc_gvectors: storage order"""
from files import *
import h_C01
CASES.clear()
@case(150, 2000)
def positions(rng):
    f = target('irrep.gvectors', 'calc_gvectors')
    c, L, B, k, Ecut = h_C01.setup(rng)
    nmax = int(rng.choice([4, 8, 14]))
    Ecut1 = float(rng.choice([-1, Ecut, Ecut * 0.7, Ecut * 0.3]))
    G, e = h_C01.expect(k, B, Ecut, c, nmax)
    lim = Ecut1 if Ecut1 > 0 else Ecut
    if len(G) == 0 or np.min(np.abs(e - lim)) < 1e-9 * lim: raise Skip('')
    given(k=k, B=B, Ecut=Ecut, Ecut1=Ecut1, nplanemax=nmax)
    ig = f(k.copy(), B.copy(), Ecut, Ecut1=Ecut1, nplanemax=nmax)
    p = order(G.tolist())
    for j in range(ig.shape[1]):
        g = tuple(int(x) for x in ig[:3, j])
        ok(ig[3, j] == p[g], 'plane wave %s has storage position %d instead of %d', g, ig[3, j], p[g])
    if lim == Ecut: ok(sorted(ig[3].tolist()) == list(range(len(G))), 'positions are not 0..n-1')
    return (nmax, len(G), ig.shape[1])
@case(25)
def coefficients(rng):
    """the coefficients of a WAVECAR end up at the plane waves they were stored for"""
    x = vasp(rng, nk=1); Ecut = x.E0 * float(rng.choice([1.0, .8, .5]))
    if (x.e[0] < Ecut).sum() == 0: raise Skip('')
    given(k=x.k[0], L=x.L, E0=x.E0, Ecut=Ecut, spinor=x.spinor)
    with scratch():
        write_poscar(x); write_wavecar(x)
        bs = open_bs(x, 'vasp', Ecut=Ecut); check_states(x, 0, bs.kpoints[0], 0, x.nb, Ecut)
    return (len(x.G[0]), x.spinor)
