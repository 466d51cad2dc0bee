"""WAVECAR: what is returned for k-point i and band b is what the file stores in the record of k-point i and in the record of band b of k-point i"""
from contracts.bytesfile import *
RF = 'irrep.readfiles.'
SCOPE = 'any numbers of k-points, bands and plane waves, any record length, any file content'
TRUSTED = ['numpy.fromfile(f, t, count) returns the count elements of type t stored from the position of f (fewer at the end of the file); seek sets the position']
ASSUMPTIONS = ['WAVECAR file long enough for the records it announces', 'single-precision coefficients treated as complex numbers']
def setup(ip, good=True):
    x = X(); size = nat('filesize', 24)
    install(size)
    F = lambda rec, j: content('float64', s_add(s_mul(rec, x.rl), 8 * j))
    h = [content('float64', 8 * j) for j in range(3)]
    x.rl, x.ispin, x.prec = [s_trunc(v) for v in h]
    c = cur()
    c.assume(s_cmp('>=', x.rl, 96))
    x.nk, x.nb = nat('nk', 1), nat('nb', 1)
    c.assume(s_cmp('>=', x.rl, s_mul(8, s_add(4, s_mul(3, x.nb)))))
    c.assume(s_cmp('>=', size, s_mul(x.rl, s_add(2, s_mul(x.nk, s_add(x.nb, 1))))))
    x.size = size; x.F = F
    return x
def s_trunc(v): return coerce(v, 'i')
def header(ip):
    x = setup(ip)
    r = call(ip, ip.glob('irrep.readfiles', 'ParserVasp'), ['POSCAR', 'WAVECAR'])
    okk = s_and(eq(x.ispin, 1), eq(x.prec, 45200))
    if isinstance(r, Raised): post('an error only for an unsupported file', s_not(okk)); return
    post('double precision and spin-polarised files raise an error', okk)
    h = call(ip, ip.getattr(r, 'parse_header'))
    if isinstance(h, Raised): post('header is read', False); return
    NK, NB, E0, L = h
    post('number of k-points', eq(NK, s_trunc(x.F(1, 0)))); post('number of bands', eq(NB, s_trunc(x.F(1, 1)))); post('cutoff', eq(E0, x.F(1, 2)))
    shape_is('lattice', L, (3, 3))
    for i in range(3):
        for j in range(3): post('lattice', eq(L.get((i, j)), x.F(1, 3 + 3 * i + j)))
def kpoint(spinor, again=False):
    def c(ip):
        x = setup(ip); cur().assume(s_and(eq(x.ispin, 1), eq(x.prec, 45200)))
        ik = z3.Int('ik'); rng(ik, x.nk); b = sk('b', x.nb)
        rec = s_add(2, s_mul(ik, s_add(x.nb, 1)))
        n = s_trunc(x.F(rec, 0)); cur().assume(s_and(s_cmp('>=', n, 0), s_cmp('<=', s_mul(8, n), x.rl)))
        P = ip.call(ip.glob('irrep.readfiles', 'ParserVasp'), ['POSCAR', 'WAVECAR'])
        if again:
            o = z3.Int('ik0'); rng(o, x.nk); ro = s_add(2, s_mul(o, s_add(x.nb, 1)))
            no = s_trunc(x.F(ro, 0)); cur().assume(s_and(s_cmp('>=', no, 0), s_cmp('<=', s_mul(8, no), x.rl)))
            call(ip, ip.getattr(P, 'parse_kpoint'), [o, x.nb, spinor])
        r = call(ip, ip.getattr(P, 'parse_kpoint'), [ik, x.nb, spinor])
        odd = s_cmp('!=', s_mod(n, 2), 0)
        if isinstance(r, Raised): post('an error only for an odd number of coefficients of spinors', odd if spinor else False); return
        if spinor: post('odd numbers of coefficients of spinors raise an error', s_not(odd))
        WF, E, k, npw = r
        post('number of coefficients', eq(npw, n))
        shape_is('coordinates', k, (3,)); shape_is('energies', E, (x.nb,)); shape_is('coefficients', WF, (x.nb, n))
        for j in range(3): post('coordinates of the k-point', eq(k.get((j,)), x.F(rec, 1 + j)))
        post('energies', eq(E.get((b,)), x.F(rec, s_add(4, s_mul(3, b)))))
        g = sk('g', n); p = s_add(s_mul(s_add(s_add(rec, 1), b), x.rl), s_mul(8, g))
        w = WF.get((b, g)); v = content('complex64', p)
        post('coefficients of the band', s_and(eq(w.re, v.re), eq(w.im, v.im)))
    return c
def contracts():
    F = [RF + 'WAVECARFILE.__init__', RF + 'WAVECARFILE.record', RF + 'ParserVasp.__init__']
    G = F + [RF + 'ParserVasp.parse_kpoint']
    return [Contract('supported files and header', header, funcs=F + [RF + 'ParserVasp.parse_header']),
            Contract('k-point (scalar)', kpoint(False), funcs=G), Contract('k-point (spinor)', kpoint(True), funcs=G), Contract('k-point after another one', kpoint(False, True), funcs=G)]
