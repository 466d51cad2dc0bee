"""Wannier90"""
from files import *
def parser(): return target('irrep.readfiles', 'ParserW90')
def same_species(typ, sp): return len(typ) == len(sp) and all((typ[i] == typ[j]) == (sp[i] == sp[j]) for i in range(len(sp)) for j in range(len(sp)))
@case(150)
def win(rng):
    x = wannier(rng); P = parser(); b = win_blocks(rng, x)
    given(blocks=b)
    with scratch():
        write_win(rng, x, blocks=b)
        p = P('w'); NK, NB, sp, EF = p.parse_header()
        ok(NK == x.nk and NB == x.nb and bool(sp) == x.spinor, 'header: %s %s %s', NK, NB, sp)
        ok((EF is None and x.efermi is None) or (EF is not None and x.efermi is not None and abs(EF - x.efermi) < 1e-9), 'Fermi energy %s', EF)
        L, pos, typ, k = p.parse_lattice()
    close(L, x.L, 'lattice', 1e-8); close(pos, x.pos, 'positions', 1e-8); close(k, x.k, 'k-points', 1e-9)
    ok(same_species(typ, x.species), 'species %s for %s', typ, x.species)
    return (x.mp, tuple(x.species), x.spinor)
@case(120)
def malformed(rng):
    x = wannier(rng); P = parser(); b = win_blocks(rng, x); kind = int(rng.integers(0, 5)); blk = str(rng.choice(['unit_cell_cart', 'kpoints', 'atoms']))
    if kind == 0: b['again'] = list(b[blk])                               # block twice
    if kind == 1: b[blk] = b[blk][:-1]                                     # not closed
    if kind == 2: b[blk] = b[blk][:-1] + ['end ' + str(rng.choice(['something_else', b[blk][0].split()[1] + 'x', b[blk][0].split()[1][:-1] + 'z', {'unit_cell_cart': 'unit_cell_frac', 'kpoints': 'kpoint_path'}.get(blk, 'atoms_carts')]))]
    j = int(rng.integers(0, 3))
    if kind == 3: b['params'] = [q for i, q in enumerate(b['params']) if i != j]
    if kind == 4: b['params'].append(b['params'][j])
    given(kind=kind, blocks=b)
    def f():
        p = P('w'); p.parse_header(); p.parse_lattice()
    with scratch():
        write_win(rng, x, blocks=b)
        ok(raises(f) is not None, ['block %s twice' % blk, 'block %s not closed' % blk, 'block %s closed with another name' % blk, 'missing parameter', 'repeated parameter'][kind] + ' accepted')
    return (kind, blk)
@case(100)
def eig(rng):
    x = wannier(rng); P = parser(); kind = int(rng.integers(0, 6)); given(kind=kind, nk=x.nk, nb=x.nb)
    with scratch():
        write_win(rng, x); write_eig(x)
        rows = open('w.eig').read().split('\n')[:-1]
        if kind == 0 and len(rows) > 1: rows = rows[:-1]
        elif kind == 1: rows.append(rows[-1])
        elif kind == 2 and len(rows) > 1:
            i, j = rng.permutation(len(rows))[:2]; rows[i], rows[j] = rows[j], rows[i]
        elif kind == 3:
            i = int(rng.integers(0, len(rows))); w = rows[i].split(); w[int(rng.integers(0, 2))] = '77'; rows[i] = ' '.join(w)
        else: kind = 5
        open('w.eig', 'w').write('\n'.join(rows) + '\n')
        p = P('w'); p.parse_header()
        if kind != 5:
            ok(raises(p.parse_energies) is not None, 'inconsistent .eig file accepted (%d)', kind)
        else: close(p.parse_energies(), np.array(x.E), 'energies', 1e-9)
    return (kind, x.nk, x.nb)
@case(40)
def unk(rng):
    x = wannier(rng); P = parser()
    s = max(np.abs(g).max(axis=0).tolist() for g in x.G)
    s = np.max([np.abs(g).max(axis=0) for g in x.G], axis=0)
    ng = tuple(int(v) for v in 2 * s + 1 + rng.integers(0, 4, 3)); given(grid=ng, nk=x.nk, nb=x.nb, spinor=x.spinor)
    with scratch():
        write_win(rng, x)
        for i in range(x.nk): write_unk(x, i, ng)
        p = P('w'); p.parse_header()
        for i in range(x.nk):
            ok(tuple(int(v) for v in p.parse_grid(i + 1)) == ng, 'grid %s', p.parse_grid(i + 1))
            m = rng.permutation(len(x.G[i])); n = len(m)
            WF = p.parse_kpoint(i + 1, tuple(x.G[i][m].T))
            cols = list(m) if not x.spinor else list(m) + [n + c for c in m]
            r = x.WF[i][:, cols]; c = WF[0, 0] / r[0, 0]      # the normalisation is free
            close(WF, c * r, 'coefficients of k-point %d' % i, 1e-8)
        # a file of another k-point or with another number of bands
        if x.nk > 1:
            os.rename('UNK00001.' + ('NC' if x.spinor else '1'), 'UNK00002.' + ('NC' if x.spinor else '1'))
            ok(raises(p.parse_kpoint, 2, tuple(x.G[1].T)) is not None, 'file of another k-point accepted')
        p.NBin += 1
        ok(raises(p.parse_kpoint, x.nk if x.nk > 2 else 1, tuple(x.G[-1].T)) is not None, 'wrong number of bands accepted')
    return (ng, x.nk, x.spinor)
