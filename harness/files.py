"""Writers of small DFT files used as inputs of the harnesses.  Everything is written from the
documentation of the formats, independently of the readers under test."""
from gen import *
HA = 2 * 13.605693
BOHR = 0.529177210544
TWOM = 0.262465831
class DFT: pass
def crystal(rng, natmax=4):
    x = DFT(); x.L = rand_lattice(rng, 2.5, 4.0); x.B = rec(x.L)
    nat = int(rng.integers(1, natmax + 1))
    while True:
        x.pos = np.round(rng.uniform(0, 1, (nat, 3)), 6)
        d = [np.linalg.norm((v - np.round(v)) @ x.L) for i in range(nat) for v in x.pos[:i] - x.pos[i]]
        if not d or min(d) > 0.4: break
    return x
def bands(rng, x, nk, nb, spinor, unit, E0):
    """k-points with all plane waves below E0; unit: energy (eV) of a plane wave with |k+G| = 1 in the units of x.B"""
    x.nk, x.nb, x.spinor, x.E0 = nk, nb, spinor, E0
    x.k, x.G, x.e, x.WF, x.E = [], [], [], [], []
    for i in range(nk):
        for _ in range(1000):
            k = np.round(rng.choice([0, .5, .25, -.3, .2, 1/3, .45], 3) + (rng.integers(-1, 2, 3) if rng.random() < .15 else 0), 10)
            r = np.arange(-9, 10); G = np.array(np.meshgrid(r, r, r, indexing='ij')).reshape(3, -1).T
            e = np.sum(((G + k) @ x.B) ** 2, axis=1) * unit
            m = e < E0; 
            if not m.any() or np.abs(G[m]).max() > 7 or np.abs(e - E0).min() < 1e-6 * E0: continue
            G, e = G[m], e[m]; break
        else: raise Skip('no k-point')
        n = len(G) * (2 if spinor else 1)
        x.k.append(k); x.G.append(G); x.e.append(e)
        x.WF.append(cplx(rng, nb, n)); x.E.append(np.sort(np.round(rng.uniform(-8, 8, nb), 5)))
    return x
def cutoffs(rng, unit, x):
    """a cutoff with some tens of plane waves"""
    vol = abs(np.linalg.det(x.B)); n = rng.uniform(6, 45)
    return unit * (3 * n * vol / (4 * np.pi)) ** (2 / 3)
def storage_order(rng, x):
    """order the plane waves as VASP stores them"""
    for i in range(x.nk):
        p = order(x.G[i].tolist()); s = np.argsort([p[tuple(g)] for g in x.G[i].tolist()])
        x.G[i], x.e[i] = x.G[i][s], x.e[i][s]
def shuffle(rng, x):
    for i in range(x.nk):
        s = rng.permutation(len(x.G[i])); x.G[i], x.e[i] = x.G[i][s], x.e[i][s]

# ---------------------------------------------------------------- VASP
def vasp(rng, nk=None, nb=None, spinor=None, natmax=3):
    x = crystal(rng, natmax); sp = bool(rng.integers(0, 2)) if spinor is None else spinor
    bands(rng, x, nk or int(rng.integers(1, 5)), nb or int(rng.integers(1, 6)), sp, 1 / TWOM, cutoffs(rng, 1 / TWOM, x))
    storage_order(rng, x); x.WF = [w.astype(np.complex64) for w in x.WF]
    return x
def write_poscar(x, fn='POSCAR', species=None):
    n = len(x.pos); counts = species or [n]
    with open(fn, 'w') as f:
        f.write('title\n1.0\n' + ''.join('%.14f %.14f %.14f\n' % tuple(v) for v in x.L) + ' '.join('Xx' for c in counts) + '\n' + ' '.join(map(str, counts)) + '\nDirect\n'
                + ''.join('%.14f %.14f %.14f\n' % tuple(p) for p in x.pos))
def write_wavecar(x, fn='WAVECAR', ispin=1, iprec=45200, pad=0):
    ns = 2 if x.spinor else 1
    npw = [ns * len(g) for g in x.G]
    rl = 8 * max([13, 4 + 3 * x.nb] + npw) + 8 * pad
    with open(fn, 'wb') as f:
        def rec_(i, a):
            f.seek(i * rl); b = np.asarray(a).tobytes(); assert len(b) <= rl; f.write(b)
        rec_(0, np.array([rl, ispin, iprec], float))
        rec_(1, np.concatenate([[x.nk, x.nb, x.E0], x.L.ravel(), [0.0]]).astype(float))
        j = 2
        for i in range(x.nk):
            rec_(j, np.concatenate([[npw[i]], x.k[i], np.stack([x.E[i], 0 * x.E[i], 1 + 0 * x.E[i]], 1).ravel()]).astype(float)); j += 1
            for b in range(x.nb): rec_(j, x.WF[i][b].astype(np.complex64)); j += 1
        f.truncate(j * rl)

# ---------------------------------------------------------------- ABINIT
def frec(f, *parts):
    b = b''.join(p if isinstance(p, bytes) else np.ascontiguousarray(p).tobytes() for p in parts)
    n = np.array([len(b)], '<u4').tobytes(); f.write(n + b + n)
def abinit(rng, nk=None, nb=None, spinor=None, natmax=4, varband=False):
    x = crystal(rng, natmax); sp = bool(rng.integers(0, 2)) if spinor is None else spinor
    unit = HA / 2
    bands(rng, x, nk or int(rng.integers(1, 5)), nb or int(rng.integers(1, 6)), sp, unit, cutoffs(rng, unit, x))
    shuffle(rng, x)
    x.nband = [x.nb] * x.nk
    if varband:
        for i in range(x.nk):
            x.nband[i] = int(rng.integers(1, x.nb + 1)); x.WF[i] = x.WF[i][:x.nband[i]]; x.E[i] = x.E[i][:x.nband[i]]
    x.typat = rng.integers(1, 3, len(x.pos)); x.efermi = float(np.round(rng.uniform(-1, 1), 6))
    return x
def write_wfk(x, fn='x_WFK', version=b'9.6.2', nsppol=1, istwfk=1, headform=80, occopt=1, usepaw=0):
    i4 = lambda *a: np.array(a, '<i4'); f8 = lambda a: np.asarray(a, '<f8')
    ns = 2 if x.spinor else 1; nk = x.nk; nat = len(x.pos); nsym = 2; npsp = 2; ntypat = 2; bantot = sum(x.nband)
    ver = version.ljust(6 if version < b'9' else 8)
    with open(fn, 'wb') as f:
        frec(f, ver, i4(headform, 2))
        a = np.zeros(18, '<i4'); a[[0, 4, 8, 10, 11, 12, 13, 14, 15, 17]] = [bantot, nat, nk, ns, nsppol, nsym, npsp, ntypat, occopt, usepaw]
        r = np.zeros(19); r[0] = x.E0 / HA; r[7:16] = x.L.ravel()
        frec(f, a, f8(r), i4(0, 1, 1, max(x.nband)))
        frec(f, i4(*[istwfk] * nk), i4(*x.nband), i4(*[len(g) for g in x.G]), i4(*[1] * npsp), i4(*[1] * nsym), i4(*np.tile(np.eye(3, dtype=int).ravel(), nsym)), i4(*x.typat),
             f8(x.k), f8(np.zeros(bantot)), f8(np.zeros((nsym, 3))), f8(np.ones(ntypat)), f8(np.ones(nk)))
        frec(f, f8([0.0]), f8(x.pos), f8([0.0]), f8([x.efermi / HA]), f8(np.ones(ntypat)))
        frec(f, i4(1, 1), f8([8.0, 0.0]), i4(0), i4(*range(9)), i4(*range(9)), f8(np.zeros(3)), f8(np.zeros(3)))
        for p in range(npsp): frec(f, b' ' * 132, f8([1.0, 1.0]), i4(1, 1, 1, 1, 1), b'0' * 32)
        if usepaw: frec(f, i4(1)); frec(f, i4(1))
        for i in range(nk):
            frec(f, i4(len(x.G[i]), ns, x.nband[i]))
            frec(f, x.G[i].astype('<i4'))
            frec(f, f8(np.concatenate([x.E[i] / HA, 0 * x.E[i]])))
            for w in x.WF[i]: frec(f, f8(np.stack([w.real, w.imag], 1).ravel()))

# ---------------------------------------------------------------- Quantum Espresso
SPECIES = [['Bi', 'Se', 'O'], ['Fe1', 'Fe2', 'Fe'], ['O', 'Os', 'S'], ['C', 'Cu', 'Ca'], ['Mn_up', 'Mn_dw', 'Mn']]
def espresso(rng, nk=None, nb=None, spinor=None, channels=None, natmax=4):
    x = crystal(rng, natmax); sp = bool(rng.integers(0, 2)) if spinor is None else spinor
    unit = HA / 2 * BOHR ** 2
    x.spinpol = bool(rng.integers(0, 2)) if channels is None else channels
    if x.spinpol: sp = False
    nk = nk or int(rng.integers(1, 4))
    bands(rng, x, nk, nb or int(rng.integers(1, 6)), sp, unit, cutoffs(rng, unit, x)); shuffle(rng, x)
    if x.spinpol:
        x.nup, x.ndw = x.nb, int(rng.integers(1, 6))
        x.WFdw = [cplx(rng, x.ndw, len(g)) for g in x.G]; x.Edw = [np.sort(np.round(rng.uniform(-8, 8, x.ndw), 5)) for g in x.G]
    x.names = [str(v) for v in rng.permutation(SPECIES[int(rng.integers(0, len(SPECIES)))])[:int(rng.integers(1, 4))]]; x.species = [x.names[i] for i in rng.integers(0, len(x.names), len(x.pos))]
    x.efermi = float(np.round(rng.uniform(-1, 1), 6)) if rng.random() < .8 else None
    return x
def write_qe(x, prefix='qe', upper=False):
    from scipy.io import FortranFile as FF
    os.makedirs(prefix + '.save')
    Lb = x.L / BOHR; Bb = x.B * BOHR; ns = 2 if x.spinor else 1
    fl = lambda v: ' '.join('%.16e' % t for t in np.ravel(v))
    s = ['<?xml version="1.0"?>\n<qes><input>']
    s.append('<atomic_species ntyp="%d">%s</atomic_species>' % (len(x.names), ''.join('<species name="%s"><mass>1</mass></species>' % n for n in x.names)))
    st = '<atomic_structure nat="%d" alat="%.16e"><atomic_positions>%s</atomic_positions><cell>%s</cell></atomic_structure>' % (len(x.pos), np.linalg.norm(Lb[0]),
        ''.join('<atom name="%s" index="%d">%s</atom>' % (n, i + 1, fl(p @ Lb)) for i, (n, p) in enumerate(zip(x.species, x.pos))), ''.join('<a%d>%s</a%d>' % (i + 1, fl(Lb[i]), i + 1) for i in range(3)))
    s.append(st + '<basis><ecutwfc>%.16e</ecutwfc></basis></input><output>' % (x.E0 / HA) + st + '<band_structure>')
    s.append('<lsda>%s</lsda><noncolin>%s</noncolin>' % (str(x.spinpol).lower(), str(x.spinor).lower()))
    s.append('<nbnd_up>%d</nbnd_up><nbnd_dw>%d</nbnd_dw>' % (x.nup, x.ndw) if x.spinpol else '<nbnd>%d</nbnd>' % x.nb)
    if x.efermi is not None: s.append('<fermi_energy>%.16e</fermi_energy>' % (x.efermi / HA))
    for i in range(x.nk):
        E = np.concatenate([x.E[i], x.Edw[i]]) if x.spinpol else x.E[i]
        s.append('<ks_energies><k_point weight="1">%s</k_point><npw>%d</npw><eigenvalues size="%d">\n%s\n</eigenvalues></ks_energies>' % (fl(x.k[i] @ Bb), len(x.G[i]), len(E), fl(E / HA)))
    s.append('</band_structure></output></qes>')
    open(prefix + '.save/data-file-schema.xml', 'w').write('\n'.join(s))
    for i in range(x.nk):
        for ch, W in ([('up', x.WF[i]), ('dw', x.WFdw[i])] if x.spinpol else [('', x.WF[i])]):
            n = 'wfc%s%d' % (ch, i + 1)
            with open('%s.save/%s.dat' % (prefix, n.upper() if upper else n), 'wb') as f:
                frec(f, np.array([i + 1], '<i4'), np.asarray(x.k[i] @ Bb, '<f8'), np.array([1, 0], '<i4'), np.array([1.0]))
                frec(f, np.array([len(x.G[i]), len(x.G[i]), ns, len(W)], '<i4'))
                frec(f, np.asarray(Bb, '<f8')); frec(f, x.G[i].astype('<i4'))
                for w in W: frec(f, np.stack([w.real, w.imag], 1).ravel())

# ---------------------------------------------------------------- Wannier90
def wannier(rng, spinor=None, nb=None, grid=None, natmax=4):
    x = crystal(rng, natmax); sp = bool(rng.integers(0, 2)) if spinor is None else spinor
    x.mp = tuple(rng.integers(1, 3, 3)) if grid is None else grid; nk = int(np.prod(x.mp))
    bands(rng, x, nk, nb or int(rng.integers(1, 5)), sp, 1 / TWOM, cutoffs(rng, 1 / TWOM, x)); shuffle(rng, x)
    sp_ = SPECIES[int(rng.integers(0, len(SPECIES)))]; x.species = [sp_[i] for i in rng.integers(0, 3, len(x.pos))]
    x.efermi = float(np.round(rng.uniform(-1, 1), 6)) if rng.random() < .6 else None
    return x
def win_blocks(rng, x, units=None, cart=None, upper=False):
    fl = lambda v: ' '.join('%.14f' % t for t in v)
    u = units if units is not None else rng.choice(['', 'ang', 'bohr'])
    L = x.L / BOHR if u == 'bohr' else x.L
    b = {}
    b['unit_cell_cart'] = ['begin unit_cell_cart'] + ([u] if u else []) + [fl(v) for v in L] + ['end unit_cell_cart']
    b['kpoints'] = ['begin kpoints'] + [fl(k) + (' %.6f' % (1 / x.nk) if rng.random() < .3 else '') for k in x.k] + ['end kpoints']
    c = bool(rng.integers(0, 2)) if cart is None else cart
    P = x.pos @ x.L if c else x.pos
    b['atoms'] = ['begin atoms_' + ('cart' if c else 'frac')] + ['%s %s' % (n, fl(p)) for n, p in zip(x.species, P)] + ['end atoms_' + ('cart' if c else 'frac')]
    sep = lambda: rng.choice([' = ', ' : ', '=', '  '])
    b['params'] = ['num_bands%s%d' % (sep(), x.nb), 'spinors%s%s' % (sep(), rng.choice(['.true.', 'T', 'true']) if x.spinor else rng.choice(['.false.', 'F', 'false'])), 'mp_grid%s%d %d %d' % ((sep(),) + tuple(x.mp))]
    if x.efermi is not None: b['params'].append('fermi_energy%s%.6f' % (sep(), x.efermi))
    return b
def write_win(rng, x, prefix='w', blocks=None, shuffle_=True):
    b = blocks or win_blocks(rng, x)
    items = [v for k, v in b.items() if k != 'params'] + [[p] for p in b.get('params', [])]
    if shuffle_: items = [items[i] for i in rng.permutation(len(items))]
    out = []
    for it in items:
        if rng.random() < .3: out.append(rng.choice(['! comment', '# comment num_bands = 9', '', 'num_iter = 100', '  ']))
        out += it
    open(prefix + '.win', 'w').write('\n'.join(out) + '\n')
def write_eig(x, prefix='w'):
    with open(prefix + '.eig', 'w') as f:
        for i in range(x.nk):
            for b in range(x.nb): f.write('%5d %5d %18.12f\n' % (b + 1, i + 1, x.E[i][b]))
def write_unk(x, i, ngrid):
    ns = 2 if x.spinor else 1; n = len(x.G[i])
    with open('UNK%05d.%s' % (i + 1, 'NC' if x.spinor else '1'), 'wb') as f:
        frec(f, np.array([*ngrid, i + 1, x.nb], '<i4'))
        for w in x.WF[i]:
            for s in range(ns):
                a = np.zeros(ngrid, complex); g = x.G[i]
                a[g[:, 0] % ngrid[0], g[:, 1] % ngrid[1], g[:, 2] % ngrid[2]] = w[s * n:(s + 1) * n]
                r = np.fft.ifftn(a).ravel(order='F')
                frec(f, np.stack([r.real, r.imag], 1).ravel())

# ---------------------------------------------------------------- end to end
def open_bs(x, code, **kw):
    BS = target('irrep.bandstructure', 'BandStructure')
    a = dict(code=code, calculate_traces=False)
    if code == 'vasp': a.update(fPOS='POSCAR', fWAV='WAVECAR', spinor=x.spinor)
    if code == 'abinit': a.update(fWFK='x_WFK')
    if code == 'espresso': a.update(prefix='qe')
    if code == 'wannier90': a.update(prefix='w', Ecut=x.E0)
    a.update(kw)
    return BS(**a)
def check_states(x, i, kp, b0, b1, Ecut, WF=None, E=None, efermi=0.0, tol=1e-5):
    """kp holds bands b0..b1-1 of k-point i of x: plane waves below Ecut and their own coefficients"""
    WF = x.WF[i] if WF is None else WF; E = x.E[i] if E is None else E
    close(kp.k, x.k[i], 'k-point', 1e-7); ok(kp.ik0 == i + 1, 'index of the k-point %s instead of %d', kp.ik0, i + 1)
    close(kp.Energy_raw, E[b0:b1] - efermi, 'energies of k-point %d' % (i + 1), 1e-6)
    m = x.e[i] < Ecut; n = len(x.G[i]); ns = 2 if x.spinor else 1
    if np.min(np.abs(x.e[i] - Ecut)) < 1e-5 * Ecut: raise Skip('')
    pos = {tuple(g): j for j, g in enumerate(x.G[i].tolist())}
    got = [tuple(int(v) for v in kp.ig[:3, j]) for j in range(kp.ig.shape[1])]
    ok(sorted(got) == sorted(tuple(g) for g in x.G[i][m].tolist()), 'plane waves of k-point %d', i + 1)
    cols = [pos[g] for g in got]; cols = cols if ns == 1 else cols + [n + c for c in cols]
    W = WF[b0:b1][:, cols].astype(complex)
    W = W / np.linalg.norm(W, axis=1)[:, None]
    close(kp.WF, W, 'coefficients of k-point %d' % (i + 1), tol)
    ok(kp.num_bands == b1 - b0, 'number of bands')
    nxt = E[b1] - efermi if b1 < len(E) else np.nan
    ok((np.isnan(nxt) and np.isnan(kp.upper)) or abs(kp.upper - nxt) < 1e-6, 'upper band %s instead of %s', kp.upper, nxt)
