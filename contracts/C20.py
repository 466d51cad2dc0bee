"""BandStructure.__init__: selection of bands and k-points, Fermi energy, upper energy, caller's arrays.
The readers enter through their contracts: the data of k-point i are WF(i, b, g), E(i, b), k(i) (decided under C21, C22, C24, C25)."""
from contracts.kp import *
from vc.spec import CONTRACTS
from vc.npmodel import B
BSM = 'irrep.bandstructure.'; RF = 'irrep.readfiles.'
SCOPE = 'any number of k-points, bands, plane waves, any request of bands, k-points, cutoff and Fermi energy, the four codes'
TRUSTED = ['the readers return the arrays of their contracts (checked on generated files under C21, C22, C24, C25); calc_gvectors and sortIG enter through their contracts (C01, C02, C03, C04)', 'all k-points of an ABINIT file have the same number of bands (other files are covered by the bounded runs)']
def rows(f, i, shape, kind='f'): return Arr(shape, kind, lambda ix: f(i, *ix))
def setup(ip, code, spinor, ef, kpl):
    x = X(); x.nk, x.nb = nat('nk', 1), nat('nb', 1)
    x.np_ = imat('npw', x.nk); forall(x.nk, lambda i: s_cmp('>=', x.np_.get((i,)), 1))
    x.ng = imat('ng', x.nk); forall(x.nk, lambda i: s_cmp('>=', x.ng.get((i,)), 0))
    x.E = rmat('E', x.nk, x.nb); x.W = cmat('W', x.nk, x.nb, z3.Int('big')); x.k = rmat('kp', x.nk, 3); x.G = imat('G', x.nk, 6, z3.Int('big2'))
    x.E0 = real('E0'); x.ef_file = real('ef_file') if ef == 'file' else None
    x.L = rmat('L', 3, 3); cur().assume(s_cmp('!=', A.det(x.L), 0))
    x.spinor = spinor; x.out = []
    x.nspin = 2 if spinor else 1
    x.seen = []
    lat = lambda: (x.L, rmat('pos', z3.Int('nat'), 3), imat('typ', z3.Int('nat')))
    WF = lambda i, n: Arr((x.nb, n), 'c', lambda ix: x.W.get((i, ix[0], ix[1])))
    EN = lambda i: Arr((x.nb,), 'f', lambda ix: x.E.get((i, ix[0])))
    KP = lambda i: Arr((3,), 'f', lambda ix: x.k.get((i, ix[0])))
    GV = lambda i, n: Arr((6, n), 'i', lambda ix: x.G.get((i, ix[0], ix[1])))
    num = lambda i: unwrap(i) if isinstance(i, Arr) else i
    def inrange(i):
        i = num(i); post('only existing k-points are read', s_and(s_cmp('>=', i, 0), s_cmp('<', i, x.nk))); return i
    meth = {}
    if code == 'vasp':
        def pk(ip_, i, nb, sp):
            i = inrange(i); n = x.np_.get((i,)) if not spinor else s_mul(2, x.np_.get((i,)))
            post('all bands are read', eq(nb, x.nb)); post('spinor passed to the reader', sp is spinor or sp == spinor)
            x.cur = i
            return (WF(i, n), EN(i), KP(i), n)
        meth = dict(parse_poscar=lambda ip_, v=0: lat(), parse_header=lambda ip_: (x.nk, x.nb, x.E0, x.L), parse_kpoint=pk)
    elif code == 'abinit':
        def pk(ip_, i): i = inrange(i); x.cur = i; return (WF(i, s_mul(x.nspin, x.np_.get((i,)))), EN(i), GV(i, x.np_.get((i,))))
        l = lat()
        meth = dict(parse_header=lambda ip_, v=0: (Arr((x.nk,), 'i', lambda ix: x.nb), x.nk, l[0], x.E0, spinor, l[2], l[1], x.ef_file), parse_kpoint=pk)
        attrs = dict(nband=Arr((x.nk,), 'i', lambda ix: x.nb), kpt=x.k)
    elif code == 'espresso':
        def pk(ip_, i, nb, ch, v=0):
            i = inrange(i); post('bands of the channel', eq(nb, x.nb)); post('channel passed to the reader', ch == x.channel)
            x.cur = i
            return (WF(i, s_mul(x.nspin, x.np_.get((i,)))), EN(i), GV(i, x.np_.get((i,))), KP(i))
        other = nat('nother', 1)
        nbl = {'up': [x.nb, other], 'dw': [other, x.nb], None: [x.nb]}
        meth = dict(parse_lattice=lambda ip_: lat() + (real('alat'),), parse_header=lambda ip_: (x.channel is not None, x.E0, x.ef_file, x.nk, PList(nbl[x.channel])), parse_kpoint=pk)
        attrs = dict(spinor=spinor)
    else:
        def pk(ip_, i, sel):
            i = inrange(s_sub(num(i), 1)); x.cur = i
            return WF(i, s_mul(x.nspin, x.ng.get((i,))))
        meth = dict(parse_header=lambda ip_: (x.nk, x.nb, spinor, x.ef_file), parse_lattice=lambda ip_: lat() + (x.k,), parse_energies=lambda ip_: x.E,
                    parse_grid=lambda ip_, i: (nat('ngx', 1), nat('ngy', 1), nat('ngz', 1)), parse_kpoint=pk)
    a = dict(attrs) if code in ('abinit', 'espresso') else {}
    NAMES = {'parse_kpoint': {'vasp': ['ik', 'NBin', 'spinor'], 'abinit': ['ik'], 'espresso': ['ik', 'NBin', 'spin_channel', 'v'], 'wannier90': ['ik', 'selectG']}[code], 'parse_grid': ['ik']}
    def bound(k, f):
        def g(ip_, *a_, **kw):
            a_ = list(a_)
            for n in NAMES.get(k, [])[len(a_):]:
                if n in kw: a_.append(kw.pop(n))
            return f(ip_, *a_, **kw)
        return g
    for k, f in meth.items(): a[k] = B('parser.' + k, bound(k, f))
    P = Obj(None, a)
    cls = {'vasp': 'ParserVasp', 'abinit': 'ParserAbinit', 'espresso': 'ParserEspresso', 'wannier90': 'ParserW90'}[code]
    def calc(ip_, a_, kw):
        d = dict(zip(['K', 'RecLattice', 'Ecut', 'nplane', 'Ecut1', 'thresh', 'spinor', 'nplanemax', 'v'], a_)); d.update(kw)
        K = d['K']; i = witness(K.get((0,)), 'kp_0') if isinstance(K, Arr) and is_z(K.get((0,))) else None
        if i is None: raise Unsupported('plane waves of an unknown k-point')
        n = x.ng.get((i,))
        if code == 'vasp':
            np_ = x.np_.get((i,))
            b = PV.skolem('q'); cur().assume_forall([b], s_and(s_cmp('>=', x.G.get((i, 3, b)), 0), s_cmp('<', x.G.get((i, 3, b)), np_)))
        return GV(i, n)
    def sort(ip_, a_, kw):
        d = dict(zip(['ik', 'kg', 'kpt', 'CG', 'RecLattice', 'Ecut0', 'Ecut', 'spinor'], a_)); d.update(kw)
        return (d['CG'], d['kg'])
    def kp(ip_, a_, kw):
        return Obj(None, dict(kw))
    sg = Obj(None, {'symmetries': PList([]), 'refUC': None, 'shiftUC': None, 'symmetries_tables': None, '?open': True})
    CONTRACTS.update({RF + cls: lambda ip_, a_, kw: P, BSM + cls: lambda ip_, a_, kw: P, 'irrep.gvectors.calc_gvectors': calc, BSM + 'calc_gvectors': calc, 'irrep.gvectors.sortIG': sort, BSM + 'sortIG': sort,
                      KM + 'Kpoint': kp, BSM + 'Kpoint': kp, 'irrep.spacegroup.SpaceGroup': lambda ip_, a_, kw: sg, BSM + 'SpaceGroup': lambda ip_, a_, kw: sg})
    return x
def select(code, spinor, ef, kpl, channel=None, bands=True):
    def c(ip):
        x = setup(ip, code, spinor, ef, kpl); x.channel = {'down': 'dw'}.get(channel.lower(), channel.lower()) if channel else None
        kw = dict(code=code, spinor=spinor, EF='auto' if ef in ('file', 'none') else ef)
        s = e = None
        if bands: s, e = z3.Int('IBstart'), z3.Int('IBend'); kw.update(IBstart=s, IBend=e)
        if channel: kw['spin_channel'] = channel
        if code == 'wannier90': kw['Ecut'] = x.E0
        if kpl: nl = nat('nl', 0); kl = imat('kl', nl); kw['kplist'] = kl; rd0 = kl.frozen()
        r = call(ip, ip.glob('irrep.bandstructure', 'BandStructure'), [], kw)
        b0 = 0 if s is None else s_ite(s <= 0, 0, s - 1); b1 = x.nb if e is None else s_ite(s_or(e <= 0, e > x.nb), x.nb, e)
        if isinstance(r, Raised):
            post('an error only for an empty range', s_cmp('<=', b1, b0)); return
        cur().assume(True)
        post('an empty range is an error', s_cmp('>', b1, b0))
        shift = {'file': x.ef_file, 'none': 0}.get(ef, None)
        if shift is None: shift = Fraction(ef)
        ks = ip.to_plist(ip.getattr(r, 'kpoints'))
        if kpl:
            okk = lambda j: s_and(s_cmp('>=', kl.get((j,)), 1), s_cmp('<=', kl.get((j,)), x.nk))
            want = ip.to_plist(A.getitem(kl, A.asarr(Arr((nl,), 'b', lambda ix: okk(ix[0])))))
            post('number of k-points', eq(ks.length(), want.length()))
            j = sk('j', ks.length())
            i = s_sub(want.get(j), 1)
            post('the list of the caller is unchanged', eq(kl.get((sk('l', nl),)), kl_ref(nl)(cur().hints[-1])))
        else:
            post('number of k-points', eq(ks.length(), x.nk))
            j = sk('j', x.nk); i = j
        K = ks.get(j); g = lambda nm: ip.getattr(K, nm)
        ik = g('ik'); post('k-point index', eq(unwrap(ik) if isinstance(ik, Arr) else ik, i))
        for a in range(3): post('k-point coordinates', eq(g('kpt').get((a,)), x.k.get((i, a))))
        post('number of bands', eq(g('num_bands'), s_sub(b1, b0)))
        b = sk('b', s_sub(b1, b0))
        shape_is('energies', g('Energy'), (s_sub(b1, b0),))
        post('energies of the requested bands from the Fermi energy', eq(g('Energy').get((b,)), s_sub(x.E.get((i, s_add(b0, b))), shift)))
        WF, ig = g('WF'), g('ig')
        post('one row per band', eq(WF.shape[0], s_sub(b1, b0)))
        n = ig.shape[1]
        post('coefficients for each plane wave and spin', eq(WF.shape[1], s_mul(x.nspin, n)))
        for sp in range(x.nspin):
            p = sk('p', n)
            v = WF.get((b, s_add(p, s_mul(sp, n))))
            col = s_add(x.G.get((i, 3, p)), s_mul(sp, x.np_.get((i,)))) if code == 'vasp' else s_add(p, s_mul(sp, n))
            w = x.W.get((i, s_add(b0, b), col))
            post('states of the requested bands', s_and(eq(v.re, w.re), eq(v.im, w.im)))
        up = g('upper')
        last = s_cmp('>=', b1, x.nb)
        isnan = up.nan if isinstance(up, NV) else isinstance(up, float) and up != up
        val = up.val if isinstance(up, NV) else up
        post('no upper energy after the last band', s_iff(isnan, last))
        if not (isinstance(val, float)): post('upper energy = next band', s_implies(s_not(last), eq(val, s_sub(x.E.get((i, b1)), shift))))
    return c
def s_iff(a, b): return s_or(s_and(a, b), s_and(s_not(a), s_not(b)))
def kl_ref(n): return lambda j: imat('kl', n).get((j,))
def contracts():
    F = [BSM + 'BandStructure.__init__']; out = []
    for code, sp, ef, kpl, ch in (('vasp', False, '1.25', True, None), ('vasp', True, '0.0', True, None), ('vasp', True, 'none', False, None), ('abinit', False, 'file', True, None), ('abinit', True, 'file', False, None),
                                  ('espresso', False, 'file', True, 'up'), ('espresso', False, 'none', True, 'Down'), ('espresso', True, 'file', False, None), ('wannier90', False, 'file', True, None), ('wannier90', True, '-3', True, None)):
        out.append(Contract('%s (%s%s, EF %s, %s k-points)' % (code, 'spinor' if sp else 'scalar', ', ' + ch if ch else '', ef, 'requested' if kpl else 'all'), select(code, sp, ef, kpl, ch), funcs=F))
    return out
