"""SymmetryOperation: normalised translation, handedness flag, angle, argument of the spinor matrix, caller's arrays."""
from contracts.common import *
from vc.spec import CONTRACTS, OVERRIDES
from vc.npmodel import B
SO = 'irrep.spacegroup.SymmetryOperation'
SCOPE = 'every rotation, translation and non-singular lattice'
TRUSTED = ['numpy.linalg.eig: three eigenvalues whose product is the determinant of the rotation (similarity keeps the determinant) and three vectors; scipy.linalg.expm is an abstract function whose argument is an obligation',
           'axis and angle describe the rotation: checked on generated operations of all crystal systems only']
def create(ip):
    R, t, L = imat('R', 3, 3), rmat('t', 3), rmat('L', 3, 3)
    cur().assume(s_cmp('!=', A.det(L), 0))
    dR = A.det(R); cur().assume(s_or(eq(dR, 1), eq(dR, -1)))
    E, V = cmat('E', 3), cmat('V', 3, 3)
    seen = {}
    def eig(ip_, M):
        Li = A.inv(L)
        # Cartesian matrix: x = L^T r, so W = L^T R (L^T)^-1
        W = lambda i, j: S(*[s_mul(s_mul(L.get((a, i)), R.get((a, b))), Li.get((j, b))) for a in range(3) for b in range(3)])
        for i in range(3):
            for j in range(3): post('eigenvalues of the Cartesian rotation', eq(M.get((i, j)), W(i, j)))
        e = [E.get((i,)) for i in range(3)]; p = s_mul(s_mul(e[0], e[1]), e[2])
        cur().assume(s_and(eq(p.re, dR), eq(p.im, 0)))
        return (cp('E', (3,)), cp('V', (3, 3)))
    def expm(ip_, M): seen['M'] = M; seen['r'] = cmat('EXPM', 2, 2); return seen['r']
    OVERRIDES.update({'numpy.linalg.eig': B('numpy.linalg.eig', eig), 'scipy.linalg.expm': B('scipy.linalg.expm', expm)})
    CONTRACTS[SO + '.get_angle_str'] = lambda ip_, a, kw: 'angle'
    o = call(ip, ip.glob('irrep.spacegroup', 'SymmetryOperation'), [R, t, L], dict(ind=7, spinor=True))
    if isinstance(o, Raised): return       # eigenvalues that no rotation has
    g = lambda nm: ip.getattr(o, nm)
    tr = g('translation')
    for i in range(3):
        t0 = real_of('t', i); f = s_sub(t0, s_floor(t0)); v = tr.get((i,))
        post('translation %d in [0,1)' % i, s_and(s_cmp('>=', v, 0), s_cmp('<', v, 1)))
        post('translation %d differs by an integer' % i, s_or(eq(v, f), s_and(s_cmp('<', s_sub(1, f), Fraction(1, 10**5)), eq(v, 0))))
        post('translation %d close to 1 becomes 0' % i, s_implies(s_cmp('<', s_sub(1, f), Fraction(1, 10**5)), eq(v, 0)))
        post('the caller keeps the translation', eq(t.get((i,)), t0))
        for j in range(3):
            post('rotation stored', eq(g('rotation').get((i, j)), imat('R', 3, 3).get((i, j)))); post('the caller keeps the rotation', eq(R.get((i, j)), imat('R', 3, 3).get((i, j))))
            post('the caller keeps the lattice', eq(L.get((i, j)), rmat('L', 3, 3).get((i, j))))
    inv = g('inversion')
    post('handedness flag', s_cmp('==', zb(inv) if is_z(inv) else z3.BoolVal(bool(inv)), zb(eq(dR, -1))))
    post('index', eq(g('ind'), 7))
    a = g('angle')
    post('angle: a multiple of 30 degrees', s_or(*[eq(s_mul(a, 6), s_mul(k, PI)) for k in range(-6, 7)]))
    if 'M' not in seen or g('spinor_rotation') is not seen['r']: raise Unsupported('spinor matrix without expm')
    ax = g('axis'); M = seen['M']
    shape_is('argument of expm', M, (2, 2))
    n = [ax.get((i,)) for i in range(3)]
    h = s_div(a, 2)
    want = [[Cx(Fraction(0), s_neg(s_mul(h, n[2]))), Cx(s_neg(s_mul(h, n[1])), s_neg(s_mul(h, n[0])))], [Cx(s_mul(h, n[1]), s_neg(s_mul(h, n[0]))), Cx(Fraction(0), s_mul(h, n[2]))]]
    for i in range(2):
        for j in range(2):
            v = M.get((i, j)); v = v if isinstance(v, Cx) else Cx(v, Fraction(0))
            post('spinor matrix: -i angle/2 axis.sigma', s_and(eq(v.re, want[i][j].re), eq(v.im, want[i][j].im)))
def angle(ip):
    """The stored angle against the one _get_operation_type returned."""
    R, t, L = imat('R', 3, 3), rmat('t', 3), rmat('L', 3, 3)
    th = real('theta'); cur().assume(s_and(s_cmp('>', th, s_mul(-3, PI)), s_cmp('<=', th, s_mul(3, PI)))); ax = rmat('axis', 3); inv = eq(nat('inv', 0), 1)
    CONTRACTS[SO + '._get_operation_type'] = lambda ip_, a, kw: (ax, th, inv)
    CONTRACTS[SO + '.get_angle_str'] = lambda ip_, a, kw: 'angle'
    OVERRIDES['scipy.linalg.expm'] = B('scipy.linalg.expm', lambda ip_, M: cmat('EXPM', 2, 2))
    o = call(ip, ip.glob('irrep.spacegroup', 'SymmetryOperation'), [R, t, L], dict(ind=7, spinor=True))
    if isinstance(o, Raised): post('does not raise', False); return
    a = ip.getattr(o, 'angle')
    post('stored angle in (-pi, pi]', s_and(s_cmp('>', a, s_neg(PI)), s_cmp('<=', a, PI)))
    near = []
    for k in (-2, -1, 0, 1, 2):
        d = s_sub(s_sub(a, th), s_mul(2 * k, PI)); near.append(s_and(s_cmp('<=', s_mul(12, d), PI), s_cmp('>=', s_mul(12, d), s_neg(PI))))
    post('stored angle within 15 degrees of the angle found, modulo a turn', s_or(*near))
    for i in range(3): post('axis kept', eq(ip.getattr(o, 'axis').get((i,)), rmat('axis', 3).get((i,))))
    post('handedness kept', eq(ip.getattr(o, 'inversion'), inv))
def cp(nm, shp): return cmat(nm, *shp)
def real_of(nm, i): return rmat(nm, 3).get((i,))
def contracts(): return [Contract('create', create, funcs=[SO + '.__init__', SO + '._get_operation_type']),
                            Contract('angle', angle, funcs=[SO + '.__init__'])]
