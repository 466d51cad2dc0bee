"""SpaceGroup.determine_basis_transf: the user's cell, the default cell, or one in which all symmetries match."""
from contracts.common import *
from vc.spec import CONTRACTS
SG = 'irrep.spacegroup.SpaceGroup'; REAL = z3.RealSort()
SCOPE = 'all combinations of user input and search flag; any crystal, any list of candidate centrings and inversion centres'
TRUSTED = ['match_symmetries enters through its contract: it returns exactly for the cells in which all symmetries match (its post-conditions are proved under C12)']
class X: pass
def setup(ip):
    x = X(); x.n = nat('n', 1); x.thr = real('thr')
    x.ops = ObjSeq(x.n, ip.glob('irrep.spacegroup', 'SymmetryOperation'), dict(rotation=imat('rot', x.n, 3, 3), translation=rmat('tr', x.n, 3), ind=imat('ind', x.n)))
    x.matches = z3.Function('matches', *([REAL] * 13), z3.BoolSort())
    x.sg = Obj(ip.glob('irrep.spacegroup', 'SpaceGroup'), {'symmetries': seq_list(x.ops), '?open': True})
    def flat(P, p, th): return [zr(unwrap(P.get((a, b)))) for a in range(3) for b in range(3)] + [zr(p.get((a,))) for a in range(3)] + [zr(th)]
    x.flat = flat
    def match(ip_, a, kw):
        d = dict(zip(['self', 'refUC', 'shiftUC', 'signs', 'trans_thresh'], a)); d.update(kw)
        P, p = d.get('refUC'), d.get('shiftUC')
        if not isinstance(P, Arr) or not isinstance(p, Arr): raise Unsupported('cell not passed to match_symmetries')
        if not cur().branch(x.matches(*flat(P, p, d.get('trans_thresh', Fraction(1, 10**5))))): py_raise('RuntimeError')
        return (Obj(None, {}), Obj(None, {}), Obj(None, {}))
    nc, ni = nat('ncent', 1), nat('ninv', 1)
    CONTRACTS.update({SG + '.match_symmetries': match, SG + '.vecs_centering': lambda ip_, a, kw: rmat('cent', nc, 3), SG + '.vecs_inv_centers': lambda ip_, a, kw: rmat('invc', ni, 3)})
    return x
def eye(a, b): return 1 if a == b else 0
def user(P, p, search):
    def c(ip):
        x = setup(ip)
        cli, sh = rmat('P', 3, 3) if P else None, rmat('p', 3) if p else None
        r = call(ip, SG + '.determine_basis_transf', [x.sg], dict(refUC_cli=cli, shiftUC_cli=sh, refUC_lib=rmat('Pl', 3, 3), shiftUC_lib=rmat('pl', 3), search_cell=search, trans_thresh=x.thr))
        if isinstance(r, Raised): post('does not raise', False); return
        A_, b_ = r
        shape_is('basis change', A_, (3, 3)); shape_is('shift', b_, (3,))
        post('basis change', s_and(*[eq(A_.get((i, j)), cli.get((j, i)) if P else eye(i, j)) for i in range(3) for j in range(3)]))
        post('shift', s_and(*[eq(b_.get((i,)), sh.get((i,)) if p else 0) for i in range(3)]))
    return c
def search(ip):
    x = setup(ip)
    r = call(ip, SG + '.determine_basis_transf', [x.sg], dict(refUC_cli=None, shiftUC_cli=None, refUC_lib=rmat('Pl', 3, 3), shiftUC_lib=rmat('pl', 3), search_cell=True, trans_thresh=x.thr))
    if isinstance(r, Raised): post('a search fails with RuntimeError', r.isa('RuntimeError')); return
    A_, b_ = r
    shape_is('basis change', A_, (3, 3)); shape_is('shift', b_, (3,))
    post('all symmetries match in the returned cell', x.matches(*x.flat(A_, b_, x.thr)))
def contracts():
    F = [SG + '.determine_basis_transf']
    out = [Contract('user gives %s%s' % ({(1, 1): 'both', (1, 0): 'the basis change', (0, 1): 'the shift'}[(P, p)], ', search requested' if s else ''), user(P, p, bool(s)), funcs=F) for P, p in ((1, 1), (1, 0), (0, 1)) for s in (0, 1)]
    return out + [Contract('nothing given, no search', user(0, 0, False), funcs=F), Contract('search', search, funcs=F)]
