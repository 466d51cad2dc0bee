"""ABINIT: parse_kpoint(ik) returns the data of block ik of the file, for every ascending selection of k-points.
The file is a sequence of blocks; block t holds 3 + nband(t) records: (npw, nspinor, nband), plane waves, energies and occupations, one record per band.
POS(t, d) is the position before record d of block t; reading moves to POS(t, d+1); POS(t, 3 + nband(t)) is POS(t+1, 0)."""
from contracts.kp import *
from vc.npmodel import B
from vc.spec import OVERRIDES, CONTRACTS
from vc import loops
RF = 'irrep.readfiles.'
SCOPE = 'any number of k-points, any numbers of bands and plane waves per k-point, any ascending selection'
TRUSTED = ['read_record returns the next record of the file', 'parse_header leaves the file at the first block and stores the numbers of plane waves and bands of the k-points (checked on generated files)']
POS = z3.Function('POS', z3.IntSort(), z3.IntSort(), z3.IntSort())
HA = Fraction(13605693 * 2, 10**6)
def setup(ip, spinor):
    x = X(); x.ns = 2 if spinor else 1
    x.nk = nat('nk', 1); x.NB = imat('nband', x.nk); x.NP = imat('npw', x.nk)
    for a in (x.NB, x.NP): forall(x.nk, lambda i, a=a: s_cmp('>=', a.get((i,)), 1))
    big = z3.Int('big')
    x.KG = imat('kg', x.nk, big); x.E = rmat('eig', x.nk, big); x.C = rmat('coef', x.nk, big, big)
    def sizes(t): cur().assume(s_implies(s_and(s_cmp('>=', t, 0), s_cmp('<', t, x.nk)), s_and(s_cmp('>=', x.NB.get((t,)), 1), s_cmp('>=', x.NP.get((t,)), 1))))
    def norm(pos):
        if isinstance(pos, Arr): pos = unwrap(pos)
        if not (is_z(pos) and z3.is_app(pos) and pos.decl().eq(POS)): return None
        t, d = pos.children()
        t, d = [conc(canon(v)) for v in (t, d)]
        sizes(t)
        if cur().entails(zb(s_cmp('==', d, s_add(3, x.NB.get((t,)))))): t, d = conc(canon(zi(s_add(t, 1)))), 0
        return t, d
    def same(a, b):
        p, q = norm(a), norm(b)
        if p is None or q is None: return False
        return cur().entails(zb(s_and(s_cmp('==', p[0], q[0]), s_cmp('==', p[1], q[1]))))
    mkpos = lambda t, d: POS(zi(t), zi(d))
    def cand(cell, init):
        if cell.name != 'pos' or norm(init) is None: return []
        t, d = norm(init)
        r = [(lambda j: mkpos(t, s_add(d, j)), same)]
        b = (lambda j: mkpos(s_add(t, j), 0), same)
        return [b] + r if not is_z(d) and d == 0 else r
    loops.CANDIDATES.append(cand)
    def read(ip_, *fmt, **kw):
        p = norm(f.attrs['pos'])
        if p is None: raise Unsupported('unknown position of the file')
        t, d = p
        ip.setattr(f, 'pos', mkpos(t, s_add(d, 1)))
        np_, nb = x.NP.get((t,)), x.NB.get((t,))
        if not is_z(d):
            if d == 0: return const([np_, x.ns, nb], 'i')
            if d == 1: return Arr((s_mul(3, np_),), 'i', lambda ix: x.KG.get((t, ix[0])))
            if d == 2: return Arr((s_mul(2, nb),), 'f', lambda ix: x.E.get((t, ix[0])))
        elif not cur().entails(zb(s_cmp('>=', d, 3))): raise Unsupported('unknown record of a block')
        cur().safety('only records of the block are read', zb(s_cmp('<', d, s_add(3, nb))))
        return Arr((s_mul(2 * x.ns, np_),), 'f', lambda ix: x.C.get((t, s_sub(d, 3), ix[0])))
    f = x.f = Obj(None, {'pos': mkpos(0, 0)})
    f.attrs['read_record'] = B('read_record', read)
    OVERRIDES['scipy.__version__'] = '1.17.1'
    opener = lambda ip_, a_, kw: f
    CONTRACTS.update({RF + 'FFR': opener, 'irrep.utility.FortranFileR': opener})
    KPT = rmat('kpt', x.nk, 3)
    def parser():
        P = ip.call(ip.glob('irrep.readfiles', 'ParserAbinit'), ['x_WFK'])
        for k, v in (('nband', x.NB), ('npwarr', x.NP), ('spinor', spinor), ('kpt', KPT)): ip.setattr(P, k, v)
        return P
    x.parser, x.norm = parser, norm
    return x
def block(ip, x, r, i, what):
    if isinstance(r, Raised): post('%s is read' % what, False); return False
    CG, E, kg = r
    nb, np_ = x.NB.get((i,)), x.NP.get((i,))
    b, q, s = sk('b', nb), sk('q', np_), sk('s', s_mul(x.ns, np_))
    shape_is('energies of ' + what, E, (nb,)); shape_is('plane waves of ' + what, kg, (np_, 3)); shape_is('coefficients of ' + what, CG, (nb, s_mul(x.ns, np_)))
    post('energies of %s in eV' % what, eq(E.get((b,)), s_mul(HA, x.E.get((i, b)))))
    for d in range(3): post('plane waves of ' + what, eq(kg.get((q, d)), x.KG.get((i, s_add(s_mul(3, q), d)))))
    w = CG.get((b, s))
    post('coefficients of ' + what, s_and(eq(w.re, x.C.get((i, b, s_mul(2, s)))), eq(w.im, x.C.get((i, b, s_add(s_mul(2, s), 1))))))
    return True
def first(spinor):
    def c(ip):
        x = setup(ip, spinor); P = x.parser(); i = z3.Int('ik'); rng(i, x.nk)
        block(ip, x, call(ip, ip.getattr(P, 'parse_kpoint'), [i]), i, 'the k-point')
    return c
def second(ip):
    x = setup(ip, False); P = x.parser(); i, j = z3.Int('ik'), z3.Int('jk'); rng(i, x.nk); rng(j, x.nk); cur().assume(i < j)
    r = call(ip, ip.getattr(P, 'parse_kpoint'), [i])
    if isinstance(r, Raised): post('the first k-point is read', False); return
    block(ip, x, call(ip, ip.getattr(P, 'parse_kpoint'), [j]), j, 'a later k-point')
def state(ip):
    """the state left by a selection is the state left by its last k-point alone: with the other two contracts, every ascending selection is read"""
    x = setup(ip, True); P = x.parser(); i, j = z3.Int('ik'), z3.Int('jk'); rng(i, x.nk); rng(j, x.nk); cur().assume(i < j)
    r = call(ip, ip.getattr(P, 'parse_kpoint'), [i])
    if isinstance(r, Raised): post('the first k-point is read', False); return
    call(ip, ip.getattr(P, 'parse_kpoint'), [j])
    a = {k: v for k, v in P.attrs.items()}; pa = x.norm(x.f.attrs['pos'])
    ip.setattr(x.f, 'pos', POS(z3.IntVal(0), z3.IntVal(0)))
    Q = x.parser(); call(ip, ip.getattr(Q, 'parse_kpoint'), [j]); pb = x.norm(x.f.attrs['pos'])
    if pa is None or pb is None: raise Unsupported('position of the file after reading')
    post('same position of the file', s_and(eq(pa[0], pb[0]), eq(pa[1], pb[1])))
    post('same attributes', set(a) == set(Q.attrs))
    for k, v in a.items():
        w = Q.attrs.get(k)
        if v is w: continue
        if is_scalar(v) and is_scalar(w): post('same ' + k, eq(v, w))
        else: raise Unsupported('attribute %s after reading' % k)
def contracts():
    F = [RF + 'ParserAbinit.__init__', RF + 'ParserAbinit.parse_kpoint', RF + 'record_abinit']
    return [Contract('k-point (scalar)', first(False), funcs=F), Contract('k-point (spinor)', first(True), funcs=F), Contract('two k-points', second, funcs=F), Contract('state after a selection', state, funcs=F)]
