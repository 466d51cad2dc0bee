"""Kpoint.__init__: the little group."""
from contracts.kp import *
def little(requested):
    def c(ip):
        x = kpoint_inputs(ip, False)
        sel = lambda i: True
        a = args(x)
        if requested:
            q = nat('nreq', 0); req = imat('req', q); a['symmetries'] = req
            sel = lambda i: mk_any(q, lambda j: s_cmp('==', req.get((j,)), x.ind.get((i,))))
        r = make(ip, a)
        if isinstance(r, Raised): post('does not raise', False); return
        lg = ip.to_plist(ip.getattr(r, 'little_group')); n = lg.length()
        j, j2 = sk('j', n), sk('j2', n); cur().assume(j < j2)
        src = lambda j: op_index(lg.get(j), x)
        s, s2 = src(j), src(j2)
        post('operation of the list', s_and(s_cmp('>=', s, 0), s_cmp('<', s, x.n)))
        post('requested', sel(s))
        d = rotated(x, s)
        for b in range(3): post('leaves k invariant, component %d' % b, s_cmp('<=', s_abs(s_sub(d[b], s_round_int(d[b]))), s_add(Fraction(1, 10**6), s_mul(Fraction(1, 10**3), s_abs(d[b])))))
        post('ascending index, none twice', s_cmp('<', x.ind.get((s,)), x.ind.get((s2,))))
        i = sk('i', x.n); d = rotated(x, i)
        inv = s_and(*[eq(d[b], s_round_int(d[b])) for b in range(3)])
        post('complete', s_implies(s_and(sel(i), inv), mk_any(n, lambda j: s_cmp('==', src(j), i))))
    return c
def contracts():
    return [Contract('little group (%s)' % ('requested operations' if q else 'all operations'), little(q), funcs=[KM + 'Kpoint.__init__']) for q in (False, True)]
