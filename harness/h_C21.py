"""WAVECAR records"""
from files import *
@case(60)
def records(rng):
    x = vasp(rng); P = target('irrep.readfiles', 'ParserVasp')
    given(nk=x.nk, nb=x.nb, spinor=x.spinor, npw=[len(g) for g in x.G])
    with scratch():
        write_poscar(x); write_wavecar(x, pad=int(rng.choice([0, 1, 17, 1000])))
        p = P('POSCAR', 'WAVECAR')
        NK, NB, E0, L = p.parse_header()
        ok((NK, NB) == (x.nk, x.nb), 'header: %s k-points and %s bands', NK, NB); close(E0, x.E0, 'cutoff', 1e-12); close(L, x.L, 'lattice', 1e-12)
        order_ = list(rng.integers(0, x.nk, 2 * x.nk)) if rng.random() < .7 else list(range(x.nk))
        for i in order_:
            WF, E, k, npw = p.parse_kpoint(int(i), NB, x.spinor)
            ok(npw == x.WF[i].shape[1], 'number of coefficients %s of k-point %d', npw, i)
            close(k, x.k[i], 'coordinates of k-point %d' % i, 1e-12); close(E, x.E[i], 'energies of k-point %d' % i, 1e-12)
            close(WF, x.WF[i], 'coefficients of k-point %d' % i, 1e-7)
    return (x.nk, x.nb, x.spinor, tuple(map(int, order_)))
@case(30)
def unsupported(rng):
    x = vasp(rng, nk=1); P = target('irrep.readfiles', 'ParserVasp'); kind = int(rng.integers(0, 3)); given(kind=kind)
    with scratch():
        write_poscar(x)
        if kind == 0:
            v = int(rng.choice([45210, 45300, 53300, 53310, 0, 45201])); write_wavecar(x, iprec=v)
            ok(raises(P, 'POSCAR', 'WAVECAR') is not None, 'precision tag %d accepted', v); return ('prec', v)
        if kind == 1:
            v = int(rng.choice([2, 2, 0, 4])); write_wavecar(x, ispin=v)
            ok(raises(P, 'POSCAR', 'WAVECAR') is not None, 'ISPIN=%d accepted', v); return ('spin', v)
        x.spinor = False; n = x.WF[0].shape[1] | 1
        x.WF = [cplx(rng, x.nb, n).astype(np.complex64)]; x.G = [np.zeros((n, 3), int)]
        write_wavecar(x); p = P('POSCAR', 'WAVECAR'); NK, NB, E0, L = p.parse_header()
        ok(raises(p.parse_kpoint, 0, NB, True) is not None, 'odd number of coefficients accepted for spinors')
        close(p.parse_kpoint(0, NB, False)[0], x.WF[0], 'coefficients', 1e-7)
        return ('odd', n)
