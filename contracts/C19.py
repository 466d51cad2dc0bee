"""Band gaps and inversion parities."""
from contracts.kp import *
from vc.spec import CONTRACTS
SCOPE = 'any number of k-points, levels and operations; energies, upper energies (or none) and traces arbitrary'
BS = 'irrep.bandstructure.BandStructure'
def bands(ip, **attrs):
    x = X(); x.nk = nat('nk', 1)
    x.nl = z3.Function('nlev', INT, INT); x.E = z3.Function('Emean', INT, INT, REAL)
    forall(x.nk, lambda i: x.nl(zi(i)) >= 1)
    x.up, x.nan = rmat('upper', x.nk), bmat('noupper', x.nk)
    at = dict(upper=lambda i: NV(x.up.get((i,)), x.nan.get((i,))), Energy_mean=lambda i: Arr((x.nl(zi(i)),), 'f', lambda ix: x.E(zi(i), zi(ix[0]))))
    at.update(attrs)
    x.kps = ObjSeq(x.nk, ip.glob('irrep.kpoint', 'Kpoint'), at)
    x.bs = Obj(ip.glob('irrep.bandstructure', 'BandStructure'), {'kpoints': seq_list(x.kps), '?open': True})
    x.top = lambda i: x.E(zi(i), x.nl(zi(i)) - 1)
    return x
def extremum(name, g, n, val, use, small=True):
    """g is the smallest (largest) of the values used, or infinite when none is"""
    i = sk('i', n)
    if isinstance(g, float):
        post(name + ' is infinite only if no k-point counts', s_and(g == (INF if small else -INF), s_not(use(i)))); return
    post(name + ': bound', s_implies(use(i), s_cmp('<=' if small else '>=', g, val(i))))
    post(name + ': attained', mk_any(n, lambda j: s_and(use(j), eq(g, val(j)))))
def direct(ip):
    x = bands(ip)
    g = ip.getattr(x.bs, 'gap_direct')
    extremum('direct gap', g, x.nk, lambda i: s_sub(x.up.get((i,)), x.top(i)), lambda i: s_not(x.nan.get((i,))))
def indirect(ip):
    x = bands(ip)
    g = ip.getattr(x.bs, 'gap_indirect')
    use = lambda i: s_not(x.nan.get((i,)))
    i, j = sk('i', x.nk), sk('j', x.nk)
    if isinstance(g, float): post('infinite only if no k-point has an upper band', s_and(g == INF, s_not(use(i)))); return
    post('no pair of k-points is closer', s_implies(use(i), s_cmp('<=', g, s_sub(x.up.get((i,)), x.top(j)))))
    t = real('t'); forall2(x.nk, x.nk, lambda a, b: s_implies(use(a), s_cmp('<=', t, s_sub(x.up.get((a,)), x.top(b)))))
    post('attained: nothing larger is below every pair', s_cmp('<=', t, g))
def total(ip):
    x = bands(ip)
    has, cnt = bmat('counted', x.nk), imat('ninv', x.nk)
    x.kps.attrs['num_bandinvs'] = lambda i: Opt(s_not(has.get((i,))), cnt.get((i,)))
    r = ip.getattr(x.bs, 'num_bandinvs')
    post('total of the k-points that have it', eq(r, mk_sum(0, x.nk, lambda i: s_ite(has.get((i,)), cnt.get((i,)), 0))))
def parity(spinor):
    def c(ip):
        x = kpoint_inputs(ip, spinor); identity(x)
        pure = lambda s: s_and(*[eq(x.rot.get((s, a, b)), -1 if a == b else 0) for a in range(3) for b in range(3)], s_cmp('<', S(*[s_abs(x.tr.get((s, a))) for a in range(3)]), Fraction(1, 10**6)))
        def traces(ip_, a, kw):
            # contract of calculate_traces: one row per level, one column per operation of the little group (proved under C08)
            nl, n = ip_.getattr(a[0], 'degeneracies').shape[0], ip_.to_plist(ip_.getattr(a[0], 'little_group')).length()
            return (cmat('char', nl, n), cmat('charref', nl, n), rmat('Emean', nl))
        CONTRACTS.update({KM + 'Kpoint.calculate_traces': traces})
        r = make(ip, args(x, calculate_traces=True, refUC=const([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'f'), shiftUC=const([0, 0, 0], 'f'), symmetries_tables=None))
        if isinstance(r, Raised): post('does not raise', False); return
        lg = ip.to_plist(ip.getattr(r, 'little_group')); n = lg.length()
        ch, deg = ip.getattr(r, 'char'), ip.getattr(r, 'degeneracies'); nl = ch.shape[0]
        v = ip.getattr(r, 'num_bandinvs')
        inversion = lambda j: pure(op_index(lg.get(j), x))
        j = sk('j', n)
        if v is None: post('absent only without inversion', s_not(inversion(j))); return
        post('present only with inversion', mk_any(n, lambda q: inversion(q)))
        q = S(mk_sum(0, nl, lambda l: s_sub(asarr(deg).get((l,)), cx(ch.get((l, j))).re)))
        h = s_div(q, 2)
        # a space group has at most one pure inversion, and the little group lists every operation once (proved under C07)
        cur().assume(inversion(j)); forall(n, lambda q: s_or(s_not(inversion(q)), s_cmp('==', q, j)))
        post('half of the sum of degeneracy - trace', s_cmp('<=', s_abs(s_sub(v, h)), Fraction(1, 2)))
    return c
def contracts():
    K = [KM + 'Kpoint.__init__']
    return [Contract('direct gap', direct, funcs=[BS + '.gap_direct']), Contract('indirect gap', indirect, funcs=[BS + '.gap_indirect']), Contract('total', total, funcs=[BS + '.num_bandinvs']),
            Contract('parity (scalar)', parity(False), funcs=K), Contract('parity (spinor)', parity(True), funcs=K)]
