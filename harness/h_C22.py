"""WFK files"""
from files import *
@case(80)
def selections(rng):
    x = abinit(rng, nk=int(rng.integers(1, 7)), varband=rng.random() < .7); P = target('irrep.readfiles', 'ParserAbinit')
    sel = sorted(int(i) for i in rng.permutation(x.nk)[:int(rng.integers(1, x.nk + 1))])
    given(nk=x.nk, nband=x.nband, npw=[len(g) for g in x.G], selection=sel, spinor=x.spinor)
    with scratch():
        write_wfk(x, version=[b'9.6.2', b'8.6.3', b'8.10.3'][int(rng.integers(0, 3))], usepaw=int(rng.integers(0, 2)))
        p = P('x_WFK'); nband, nkpt, L, ecut, spinor, typat, xred, ef = p.parse_header()
        ok(nkpt == x.nk and list(np.atleast_1d(nband)) == x.nband and bool(spinor) == x.spinor, 'header: %s %s %s', nkpt, nband, spinor)
        close(L, x.L, 'lattice', 1e-12); close(ecut, x.E0, 'cutoff', 1e-9); close(xred, x.pos, 'positions', 1e-12); close(ef, x.efermi, 'Fermi energy', 1e-9)
        ok(list(np.atleast_1d(typat)) == list(x.typat), 'types of atoms %s instead of %s', typat, x.typat)
        close(np.reshape(p.kpt, (-1, 3)), x.k, 'k-points', 1e-12)
        for i in sel:
            CG, E, kg = p.parse_kpoint(i)
            ok(kg.shape == x.G[i].shape and np.array_equal(kg, x.G[i]), 'plane waves of k-point %d', i)
            close(E, x.E[i], 'energies of k-point %d' % i, 1e-9); close(CG, x.WF[i], 'coefficients of k-point %d' % i, 1e-12)
    return (x.nk, tuple(sel), tuple(x.nband))
