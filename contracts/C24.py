"""Quantum Espresso: header, structure and k-point data are those of the .save folder, per spin channel.
The XML file enters as its tree: find/findall by tag, attributes, and texts as sequences of numbers.  A wave-function file is a sequence of records."""
from contracts.kp import *
from vc.npmodel import B
from vc.spec import OVERRIDES, CONTRACTS
from vc import loops
RF = 'irrep.readfiles.'
SCOPE = 'any number of k-points, bands per channel, plane waves, atoms and species; any file content'
TRUSTED = ['xml.etree: find/findall/text/attrib return the content of the file; the tokens of a numeric text convert to the numbers they denote', 'read_record returns the next record of the file']
HA = Fraction(13605693 * 2, 10**6)
POS = z3.Function('WPOS', z3.IntSort(), z3.IntSort())
def text(n, fn):
    t = Obj(None, {})
    t.attrs['split'] = B('split', lambda ip, *a: PList(segs=(SegSeq(n, fn),)) if is_z(n) else PList([fn(i) for i in range(n)]))
    t.attrs['strip'] = B('strip', lambda ip, *a: t)
    return t
def elem(children=None, txt=None, attrib=None, lists=None):
    e = Obj(None, {'text': txt, 'attrib': PDict(list((attrib or {}).items()))})
    ch = children or {}; ls = lists or {}
    def path(ip, tag):
        if not isinstance(tag, str): raise Unsupported('tag of an element')
        o = e
        *head, last = tag.strip('./').split('/')
        for h in head:
            o = ip.call(o.attrs['find'], [h])
            if o is None: return None, last
        return o, last
    def find(ip, tag):
        if '/' in tag:
            o, l = path(ip, tag); return None if o is None else ip.call(o.attrs['find'], [l])
        if tag in ls: raise Unsupported('first of several elements')
        return ch.get(tag)
    def findall(ip, tag):
        if '/' in tag:
            o, l = path(ip, tag); return PList([]) if o is None else ip.call(o.attrs['findall'], [l])
        if tag in ls: n, fn = ls[tag]; return PList(segs=(SegSeq(n, fn),))
        return PList([ch[tag]] if tag in ch else [])
    def findtext(ip, tag, default=None):
        r = find(ip, tag); return default if r is None else r.attrs['text']
    e.attrs['find'] = B('find', find); e.attrs['findall'] = B('findall', findall); e.attrs['findtext'] = B('findtext', findtext)
    e.attrs['get'] = B('get', lambda ip, k, d=None: (attrib or {}).get(k, d))
    return e
def setup(ip, spinpol, spinor=False, fermi=True, upper=False):
    x = X(); x.nk = nat('nk', 1)
    if spinpol: x.nup, x.ndw = nat('nup', 1), nat('ndw', 1); x.nbt = s_add(x.nup, x.ndw)
    else: x.nb = x.nbt = nat('nb', 1)
    x.np = imat('npw', x.nk); forall(x.nk, lambda i: s_cmp('>=', x.np.get((i,)), 1))
    x.E = rmat('eigenvalues', x.nk, x.nbt); x.ecut = real('ecutwfc'); x.ef = real('fermi')
    x.nat, x.ntyp = nat('nat', 1), nat('ntyp', 1)
    x.cell = rmat('cell', 3, 3); cur().assume(s_cmp('!=', A.det(x.cell), 0)); x.xyz = rmat('xyz', x.nat, 3)
    x.names, x.aname = imat('specname', x.ntyp), imat('atomname', x.nat)
    x.spec = imat('specof', x.nat)      # the species of an atom: listed exactly once
    forall(x.nat, lambda a: s_and(s_cmp('>=', x.spec.get((a,)), 0), s_cmp('<', x.spec.get((a,)), x.ntyp), eq(x.names.get((x.spec.get((a,)),)), x.aname.get((a,)))))
    forall2(x.ntyp, x.ntyp, lambda a, b: s_implies(s_cmp('!=', a, b), s_cmp('!=', x.names.get((a,)), x.names.get((b,)))))
    ks = lambda i: elem({'eigenvalues': elem(txt=text(x.nbt, lambda b: x.E.get((i, b)))), 'npw': elem(txt=x.np.get((i,)))})
    band = {'noncolin': elem(txt='true' if spinor else 'false')}
    if spinpol: band.update({'nbnd_up': elem(txt=x.nup), 'nbnd_dw': elem(txt=x.ndw)})
    else: band['nbnd'] = elem(txt=x.nb)
    if fermi: band['fermi_energy'] = elem(txt=x.ef)
    row = lambda i: elem(txt=text(3, lambda j: x.cell.get((i, j))))
    struct = elem({'cell': elem({'a%d' % (i + 1): row(i) for i in range(3)}),
                   'atomic_positions': elem(lists={'atom': (x.nat, lambda a: elem(txt=text(3, lambda j: x.xyz.get((a, j))), attrib={'name': x.aname.get((a,))}))})},
                  attrib={'nat': x.nat, 'alat': real('alat')})
    inp = elem({'basis': elem({'ecutwfc': elem(txt=x.ecut)}), 'atomic_structure': struct,
                'atomic_species': elem(attrib={'ntyp': x.ntyp}, lists={'species': (x.ntyp, lambda s: elem(attrib={'name': x.names.get((s,))}))})})
    root = elem({'input': inp, 'output': elem({'band_structure': elem(band, lists={'ks_energies': (x.nk, ks)})})})
    tree = Obj(None, {'getroot': B('getroot', lambda ip_: root)})
    def parse(ip_, name):
        post('the XML file of the .save folder', name == 'qe.save/data-file-schema.xml'); return tree
    OVERRIDES.update({'xml.etree.ElementTree.parse': B('ET.parse', parse), 'scipy.__version__': '1.17.1'})
    x.P = ip.call(ip.glob('irrep.readfiles', 'ParserEspresso'), ['qe'])
    return x
def header(spinpol, fermi):
    def c(ip):
        x = setup(ip, spinpol, fermi=fermi)
        r = call(ip, ip.getattr(x.P, 'parse_header'))
        if isinstance(r, Raised): post('the header is read', False); return
        sp, E0, EF, NK, NB = r
        post('spin polarisation', sp is spinpol); post('cutoff in eV', eq(E0, s_mul(HA, x.ecut))); post('number of k-points', eq(NK, x.nk))
        post('Fermi energy', eq(EF, s_mul(HA, x.ef)) if fermi and EF is not None else (EF is None) == (not fermi))
        NB = ip.to_plist(NB); post('bands per channel', s_and(eq(NB.length(), 2), eq(NB.get(0), x.nup), eq(NB.get(1), x.ndw)) if spinpol else s_and(eq(NB.length(), 1), eq(NB.get(0), x.nb)))
    return c
def lattice(ip):
    x = setup(ip, False)
    r = call(ip, ip.getattr(x.P, 'parse_lattice'))
    if isinstance(r, Raised): post('the structure is read', False); return
    L, pos, typ = r[:3]
    bohr = ip.glob('irrep.utility', 'BOHR')
    shape_is('lattice', L, (3, 3)); shape_is('positions', pos, (x.nat, 3))
    for i in range(3):
        for j in range(3): post('lattice in angstrom', eq(L.get((i, j)), s_mul(bohr, x.cell.get((i, j)))))
    a, b = sk('a', x.nat), sk('b', x.nat)
    inv = A.inv(A.asarr(L))
    for j in range(3):
        post('direct positions', eq(pos.get((a, j)), PV_sum([s_mul(s_mul(bohr, x.xyz.get((a, k))), inv.get((k, j))) for k in range(3)])))
    typ = ip.to_plist(typ); post('one species per atom', eq(typ.length(), x.nat))
    e = eq(typ.get(a), typ.get(b)); f = eq(x.aname.get((a,)), x.aname.get((b,)))
    post('equal indices for equal species', s_implies(f, e)); post('different indices for different species', s_implies(e, f))
def kpoint(channel, spinor=False, upper=False):
    def c(ip):
        x = setup(ip, channel is not None, spinor); ik = z3.Int('ik'); rng(ik, x.nk)
        ns = 2 if spinor else 1; np_ = x.np.get((ik,)); cur().assume(s_cmp('>=', np_, 1))
        kx = rmat('kcart', 3); Bm = rmat('recip', 3, 3); cur().assume(s_cmp('!=', A.det(Bm), 0)); G = imat('miller', z3.Int('big'), 3); C = rmat('evc', x.nbt, z3.Int('big2'))
        nb = {'up': x.__dict__.get('nup'), 'dw': x.__dict__.get('ndw'), None: x.__dict__.get('nb')}[channel]
        off = x.nup if channel == 'dw' else 0
        f = Obj(None, {'pos': POS(z3.IntVal(0))})
        def d_of(p):
            if isinstance(p, Arr): p = unwrap(p)
            if is_z(p) and z3.is_app(p) and p.decl().eq(POS): return conc(canon(p.children()[0]))
        same = lambda a, b: d_of(a) is not None and d_of(b) is not None and cur().entails(zb(eq(d_of(a), d_of(b))))
        loops.CANDIDATES.append(lambda cell, init: [(lambda j: POS(zi(s_add(d_of(init), j))), same)] if cell.name == 'pos' and d_of(init) is not None else [])
        def read(ip_, *fmt, **kw):
            d = d_of(f.attrs['pos'])
            if d is None: raise Unsupported('unknown position of the file')
            ip.setattr(f, 'pos', POS(zi(s_add(d, 1))))
            if not is_z(d) and d < 4:
                if d == 0: return PList([(z3.Int('ik_file'), kx, z3.Int('ispin_file'), z3.Int('gamma'), real('scalef'))])
                if d == 1: return const([z3.Int('ngw'), np_, ns, nb], 'i')
                if d == 2: return Bm
                return Arr((np_, 3), 'i', lambda ix: G.get((ix[0], ix[1])))
            if is_z(d) and not cur().entails(zb(s_cmp('>=', d, 4))): raise Unsupported('unknown record')
            cur().safety('only stored bands are read', zb(s_cmp('<', d, s_add(4, nb))))
            return Arr((s_mul(2 * ns, np_),), 'f', lambda ix: C.get((s_sub(d, 4), ix[0])))
        f.attrs['read_record'] = B('read_record', read)
        def opener(ip_, name, mode='r', *a):
            ps = name.pieces if isinstance(name, SStr) else [name]
            if len(ps) != 3 or not isinstance(ps[1], tuple): raise Unsupported('name of the wave-function file')
            low = ps[0] == 'qe.save/wfc' + (channel or '') and ps[2] == '.dat'; up = ps[0] == 'qe.save/WFC' + (channel or '').upper() and ps[2] == '.dat'
            post('the wave-function file of the k-point', eq(ps[1][0], s_add(ik, 1)))
            if low and upper: py_raise('FileNotFoundError', 'no such file')
            post('the wave-function file of the channel', low or up and upper)
            ip.setattr(f, 'pos', POS(z3.IntVal(0)))
            return f
        OVERRIDES['scipy.io.FortranFile'] = B('FortranFile', opener)
        r = call(ip, ip.getattr(x.P, 'parse_kpoint'), [ik, nb, channel])
        if isinstance(r, Raised): post('the k-point is read', False); return
        WF, E, kg, k = r
        shape_is('energies', E, (nb,)); shape_is('plane waves', kg, (np_, 3)); shape_is('coefficients', WF, (nb, s_mul(ns, np_))); shape_is('k', k, (3,))
        b, g, s = sk('b', nb), sk('g', np_), sk('s', s_mul(ns, np_))
        post('energies of the channel in eV', eq(E.get((b,)), s_mul(HA, x.E.get((ik, s_add(off, b))))))
        for d in range(3): post('plane waves', eq(kg.get((g, d)), G.get((g, d))))
        w = WF.get((b, s)); post('coefficients of the band', s_and(eq(w.re, C.get((b, s_mul(2, s)))), eq(w.im, C.get((b, s_add(s_mul(2, s), 1))))))
        inv = A.inv(Bm)
        for j in range(3): post('direct coordinates of k', eq(k.get((j,)), PV_sum([s_mul(kx.get((m,)), inv.get((m, j))) for m in range(3)])))
    return c
def contracts():
    I = [RF + 'ParserEspresso.__init__', 'irrep.utility.str2bool']; H = I + [RF + 'ParserEspresso.parse_header']; K = I + [RF + 'ParserEspresso.parse_kpoint', RF + 'record_abinit']
    return [Contract('header (spin-polarised)', header(True, True), funcs=H), Contract('header', header(False, True), funcs=H), Contract('header without Fermi energy', header(False, False), funcs=H),
            Contract('structure', lattice, funcs=I + [RF + 'ParserEspresso.parse_lattice'])] + [
            Contract('k-point (%s)' % n, kpoint(*a), funcs=K) for n, a in (('no spin', (None,)), ('spinor', (None, True)), ('spin up', ('up',)), ('spin down', ('dw',)), ('file name in capitals', ('dw', False, True)))]
