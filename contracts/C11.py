"""rotation_refUC, translation_refUC: conjugation by the change of cell."""
from contracts.common import *
SO = 'irrep.spacegroup.SymmetryOperation'
SCOPE = 'every SymmetryOperation, basis matrix and origin shift (real entries, basis matrix non-singular)'
def operation(ip, R, t, **kw):
    return Obj(ip.glob('irrep.spacegroup', 'SymmetryOperation'), dict(rotation=R, translation=t, **{'?open': True}, **kw))
def mv(M, v): return [S(*[s_mul(M.get((a, b)), v[b]) for b in range(3)]) for a in range(3)]
def vec(v): return [v.get((a,)) for a in range(3)]
def mm(M, N): return const([[S(*[s_mul(M.get((a, c)), N.get((c, b))) for c in range(3)]) for b in range(3)] for a in range(3)])
def image(R, t, p): return [s_sub(s_add(t[a], mv(R, p)[a]), p[a]) for a in range(3)]

def trans(ip):
    P = rmat('P', 3, 3); p = rmat('p', 3); R = imat('R', 3, 3); t = rmat('t', 3)
    r = call(ip, SO + '.translation_refUC', [operation(ip, R, t), P, p])
    if isinstance(r, Raised): post('does not raise', False); return
    shape_is('translation', r, (3,))
    want = mv(A.inv(P), image(R, vec(t), vec(p)))
    for a in range(3): post('component %d' % a, eq(r.get((a,)), want[a]))
def rot(ip):
    P = rmat('P', 3, 3); R = imat('R', 3, 3); t = rmat('t', 3)
    r = call(ip, SO + '.rotation_refUC', [operation(ip, R, t), P])
    W = mm(mm(A.inv(P), R), P)
    dev = lambda x: s_abs(s_sub(x, s_round_int(x)))
    if isinstance(r, Raised):
        post('error only if some element is not an integer', s_or(*[s_cmp('>', dev(W.get((a, b))), Fraction(1, 10**7)) for a in range(3) for b in range(3)])); return
    shape_is('rotation', r, (3, 3))
    post('integer matrix', r.kind == 'i')
    for a in range(3):
        for b in range(3):
            x = W.get((a, b))
            post('element %d%d is the integer next to the conjugated matrix' % (a, b), eq(r.get((a, b)), s_round_int(x)))
            post('element %d%d of the conjugated matrix is an integer' % (a, b), s_cmp('<=', s_abs(s_sub(x, r.get((a, b)))), Fraction(1, 10**5)))
def product(ip):
    """lemma: the images of two operations multiply to the image of their product"""
    P = rmat('P', 3, 3); p = rmat('p', 3)
    R1, R2 = imat('R1', 3, 3), imat('R2', 3, 3); t1, t2 = rmat('t1', 3), rmat('t2', 3)
    t12 = const([s_add(t1.get((a,)), mv(R1, vec(t2))[a]) for a in range(3)])
    tr = lambda R, t: call(ip, SO + '.translation_refUC', [operation(ip, R, t), P, p])
    a, b, ab = tr(R1, t1), tr(R2, t2), tr(mm(R1, R2), t12)
    W1 = mm(mm(A.inv(P), R1), P)
    for i in range(3): post('translation of the product, component %d' % i, eq(ab.get((i,)), s_add(a.get((i,)), mv(W1, vec(b))[i])))
def contracts():
    return [Contract('translation_refUC', trans, funcs=[SO + '.translation_refUC']), Contract('rotation_refUC', rot, funcs=[SO + '.rotation_refUC']),
            Contract('product of operations', product, funcs=[SO + '.translation_refUC'])]
