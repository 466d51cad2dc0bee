"""Kpoint.__init__ and calculate_traces: levels, mean energies, traces per level."""
from contracts.kp import *
from vc.spec import CONTRACTS
def levels(spinor, traces):
    def c(ip):
        x = kpoint_inputs(ip, spinor); CONTRACTS.update(trace_model(x))
        identity(x)
        r = make(ip, args(x, calculate_traces=traces))
        if isinstance(r, Raised): post('does not raise', False); return
        deg = ip.getattr(r, 'degeneracies'); nl = deg.shape[0]; shape_is('degeneracies', deg, (nl,))
        bo = ip.getattr(r, 'borders'); shape_is('borders', bo, (s_add(nl, 1),))
        B = lambda l: bo.get((l,))
        l, l2 = sk('l', nl), sk('l2', nl); cur().assume(l < l2)
        post('at least one level', s_cmp('>=', nl, 1))
        post('first level starts at the first band', eq(B(0), 0)); post('last level ends at the last band', eq(B(nl), x.nb))
        post('degeneracies are the numbers of bands of the levels', eq(deg.get((l,)), s_sub(B(s_add(l, 1)), B(l))))
        post('degeneracies are positive', s_cmp('>=', deg.get((l,)), 1))
        step = lambda b: s_sub(x.E.get((b,)), x.E.get((s_sub(b, 1),)))
        post('a level starts at an energy step', s_implies(s_cmp('>', l, 0), s_cmp('>', step(B(l)), x.thr)))
        b0 = sk('b', s_sub(x.nb, 1)); b = s_add(b0, 1)
        post('no energy step inside a level', s_implies(s_and(s_cmp('>', b, B(l)), s_cmp('<', b, B(s_add(l, 1)))), s_cmp('<=', step(b), x.thr)))
        if not traces: return
        em = ip.getattr(r, 'Energy_mean'); ch = ip.getattr(r, 'char')
        lg = ip.to_plist(ip.getattr(r, 'little_group')); n = lg.length()
        shape_is('mean energies', em, (nl,)); shape_is('traces', ch, (nl, n))
        lo, hi = B(l), B(s_add(l, 1))
        post('mean energy of the level', eq(em.get((l,)), s_div(mk_sum(lo, hi, lambda m: x.E.get((m,))), s_sub(hi, lo))))
        j = sk('j', n); s = op_index(lg.get(j), x)
        post('trace of the level = sum over its bands', eq(ch.get((l, j)), mk_sum(lo, hi, lambda m: x.trace(s, m))))
    return c
def contracts():
    return [Contract('levels', levels(False, False), funcs=[KM + 'Kpoint.__init__']),
            Contract('traces per level (scalar)', levels(False, True), funcs=[KM + 'Kpoint.__init__', KM + 'Kpoint.calculate_traces']),
            Contract('traces per level (spinor)', levels(True, True), funcs=[KM + 'Kpoint.__init__', KM + 'Kpoint.calculate_traces'])]
