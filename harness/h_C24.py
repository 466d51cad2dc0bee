"""Quantum Espresso"""
from files import *
@case(80)
def read(rng):
    x = espresso(rng); P = target('irrep.readfiles', 'ParserEspresso')
    given(spinpol=x.spinpol, spinor=x.spinor, nk=x.nk, nb=(x.nup, x.ndw) if x.spinpol else x.nb, species=x.species)
    with scratch():
        write_qe(x, upper=rng.random() < .3)
        p = P('qe'); spinpol, Ec, EF, NK, NB = p.parse_header()
        ok(bool(p.spinor) == x.spinor and bool(spinpol) == x.spinpol and NK == x.nk, 'header: %s %s %s', p.spinor, spinpol, NK)
        ok(list(NB) == ([x.nup, x.ndw] if x.spinpol else [x.nb]), 'numbers of bands %s', NB)
        close(Ec, x.E0, 'cutoff', 1e-9)
        if x.efermi is None: ok(EF is None, 'Fermi energy %s', EF)
        else: close(EF, x.efermi, 'Fermi energy', 1e-9)
        L, pos, typ, alat = p.parse_lattice()
        close(L, x.L, 'lattice', 1e-8); close(pos, x.pos, 'positions', 1e-8)
        ok(len(typ) == len(x.species) and all((typ[i] == typ[j]) == (x.species[i] == x.species[j]) for i in range(len(typ)) for j in range(len(typ))), 'species %s for %s', typ, x.species)
        for i in rng.permutation(x.nk):
            i = int(i)
            for ch in (['up', 'dw'] if x.spinpol else [None]):
                WFs, Es = (x.WFdw[i], x.Edw[i]) if ch == 'dw' else (x.WF[i], x.E[i])
                WF, E, kg, k = p.parse_kpoint(i, len(Es), ch)
                close(k, x.k[i], 'k-point', 1e-8); ok(np.array_equal(kg, x.G[i]), 'plane waves')
                close(E, Es, 'energies of channel %s' % ch, 1e-9); close(WF, WFs, 'coefficients of channel %s' % ch, 1e-12)
    return (x.spinpol, x.spinor, x.nk, tuple(x.species))
@case(25)
def bands_of_channel(rng):
    x = espresso(rng); ch = str(rng.choice(['up', 'dw'])) if x.spinpol else None
    given(channel=ch, nk=x.nk, nb=(x.nup, x.ndw) if x.spinpol else x.nb)
    with scratch():
        write_qe(x)
        bs = open_bs(x, 'espresso', **({'spin_channel': ch} if ch else {}))
        for i, k in enumerate(bs.kpoints):
            WF, E = (x.WFdw[i], x.Edw[i]) if ch == 'dw' else (x.WF[i], x.E[i])
            check_states(x, i, k, 0, len(E), x.E0, WF=WF, E=E)
    return (ch, x.nk)
