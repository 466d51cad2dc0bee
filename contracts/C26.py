"""irrep.utility: lists with ranges, complex numbers, booleans, assignments; formatting of numbers.
Text is modelled as a sequence of known characters and unknown parts: decimal literals denoting an arbitrary number,
and arbitrary text (without the separators in question)."""
from contracts.common import *
from vc.values import SStr, AltStr
U = 'irrep.utility.'
SCOPE = 'str2list, str2list_space: any number of elements, any non-negative integers; compstr: any numbers, all placements of signs; str2bool: every text that has a character other than "." and blank; short: any number with 0 to 15 decimals'
TRUSTED = ['Python str methods, int(), float(), complex() and str.format on decimal literals']
def text(excl=''): return (None, ('text', excl))
def pieces(s): return s.pieces if isinstance(s, SStr) else ([s] if s else [])
def same_text(a, b):
    """equality of two texts as a condition, part by part"""
    p, q = pieces(a), pieces(b)
    if len(p) != len(q): return False
    r = []
    for x, y in zip(p, q):
        if isinstance(x, str) or isinstance(y, str): r.append(isinstance(x, str) and isinstance(y, str) and x == y)
        else: r.append((x[1] or '') == (y[1] or '') and (True if x[0] is None and y[0] is None else s_cmp('==', x[0], y[0])))
    return s_and(*r)
def lists(fn, sep):
    def c(ip):
        n = nat('n', 1); a, b, isr = imat('a', n), imat('b', n), bmat('isrange', n)
        forall(n, lambda j: s_and(s_cmp('>=', a.get((j,)), 0), s_cmp('>=', b.get((j,)), a.get((j,)))))
        def token(j):
            return AltStr(isr.get((j,)), SStr([(a.get((j,)), 'digits'), '-', (b.get((j,)), 'digits')]), SStr([(a.get((j,)), 'digits')]))
        def split(ip_, s=None, *r):
            if s != sep or r: raise Unsupported('split at %r' % (s,))
            return PList(segs=(SegSeq(n, token),))
        o = Obj(None, {}); o.attrs['split'] = NB('str.split', split)
        o.attrs['strip'] = NB('str.strip', lambda ip_, *x: o)
        r = call(ip, U + fn, [o])
        if isinstance(r, Raised): post('does not raise', False); return
        r = arg(ip, r)
        def size(j):
            m = canon(zi(s_add(s_sub(b.get((j,)), a.get((j,))), 1)))      # at least 1
            return s_ite(isr.get((j,)), z3.If(m >= 0, m, 0), 1)
        w = Concat(n, size)
        shape_is('length', r, (w.T,))
        i = sk('i', w.T)
        post('exactly the integers denoted, in order', eq(r.get((i,)), s_add(a.get((w.seg(i),)), s_ite(isr.get((w.seg(i),)), w.local(i), 0))))
    return c
def compstr(ip):
    a, b = real('a'), real('b'); cur().assume(a >= 0); cur().assume(b >= 0)
    A_, B_ = (a, 'num'), (b, 'num')
    for s1 in ('', '-', '+'):
        s = SStr([s1, A_]); r = call(ip, U + 'compstr', [s]); v = s_neg(a) if s1 == '-' else a
        post('real number %sa' % s1, False if isinstance(r, Raised) else eq(r, v))
        for s2 in ('-', '+'):
            for l, m in (('', ''), (' ', ' ')):
                r = call(ip, U + 'compstr', [SStr([s1, A_, m + s2 + m, B_, 'i'])])
                post('complex number %sa%s%s%sbi' % (s1, m, s2, m), False if isinstance(r, Raised) else eq(r, Cx(v, s_neg(b) if s2 == '-' else b)))
def booleans(ip):
    for pre in ('', '.', ' ', ' .', '. .'):
        for ch in map(chr, range(33, 127)):
            if ch == '.': continue
            r = call(ip, U + 'str2bool', [SStr([pre + ch, text()])])
            if ch in 'tT': ok = r is True
            elif ch in 'fF': ok = r is False
            else: ok = isinstance(r, Raised)
            post('text starting with %r' % (pre + ch), ok)
def splitting(ip):
    for sep, excl, bl in (('=', '=', ''), (':', '=:', ''), (' ', '=: \t\n\r\x0b\x0c', ''), ('=', '=', ' '), (':', '=:', ' ')):
        r = call(ip, U + 'split', [SStr(['k', text(excl), bl + sep + bl, 'v', text(excl)])])
        v = None if isinstance(r, Raised) else ip.iter_concrete(r)
        ok = v is not None and len(v) == 2 and same_text(v[0], SStr(['k', text(excl), bl])) is not False and same_text(v[1], SStr([bl, 'v', text(excl)])) is not False
        post('split at %r' % (bl + sep + bl), bool(ok))
def short(cplx):
    def c(ip):
        x, y = real('re'), real('im')
        nd = 0
        while nd < 15 and cur().branch(z3.Bool('more_decimals_%d' % nd)): nd += 1
        for nd in [nd]:
            eps = Fraction(1, 10 ** nd)
            r = call(ip, U + 'short', [Cx(x, y) if cplx else x, nd])
            if isinstance(r, Raised): post('does not raise', False); continue
            f = '+.%df' % nd
            bx, by = s_cmp('>=', s_abs(x), eps), s_cmp('>=', s_abs(y), eps) if cplx else False
            re, im = SStr([(x, f)]), SStr([(y, f), 'j'])
            sx = lambda t: same_text(r, t)
            post('%d decimals' % nd, s_and(s_implies(s_and(bx, s_not(by)), sx(re)), s_implies(s_and(s_not(bx), by), sx(im)), s_implies(s_and(bx, by), sx(re + im)), s_implies(s_and(s_not(bx), s_not(by)), sx(re))))
    return c
from vc.npmodel import B as NB, arg
def contracts():
    return [Contract('list, commas', lists('str2list', ','), funcs=[U + 'str2list']), Contract('list, blanks', lists('str2list_space', None), funcs=[U + 'str2list_space']),
            Contract('complex numbers', compstr, funcs=[U + 'compstr']), Contract('booleans', booleans, funcs=[U + 'str2bool']), Contract('assignments', splitting, funcs=[U + 'split']),
            Contract('format of a complex number', short(True), funcs=[U + 'short']), Contract('format of a real number', short(False), funcs=[U + 'short'])]
