"""parsing of tokens, formatting"""
from gen import *
def lists(rng, fn, sep):
    f = target('irrep.utility', fn); toks, want = [], []
    for _ in range(int(rng.integers(1, 7))):
        a = int(rng.integers(0, 250))
        if rng.random() < .5: toks.append(str(a)); want.append(a)
        else:
            b = a + int(rng.integers(0, 12)); toks.append('%d-%d' % (a, b)); want += list(range(a, b + 1))
    s = (sep if sep == ',' else str(rng.choice([' ', '  ', '\t']))).join(toks)
    if sep == ' ' and rng.random() < .3: s = ' ' + s + ' \n'
    given(string=s)
    r = f(s)
    ok([int(v) for v in r] == want and all(float(v) == int(v) for v in r), '%s(%r) = %s', fn, s, list(r))
    return s
@case(200)
def commas(rng): return lists(rng, 'str2list', ',')
@case(200)
def spaces(rng): return lists(rng, 'str2list_space', ' ')
def num(rng):
    v = float(rng.choice([0, 1, .5, 3.25, 1e-4, 12, round(float(rng.uniform(0, 9)), 4)]))
    f = int(rng.integers(0, 4)); return v, ('%g' % v, '%.5f' % v, '%.3e' % v, repr(v))[f]
@case(300)
def compstr(rng):
    f = target('irrep.utility', 'compstr')
    (a, sa), (b, sb) = num(rng), num(rng); a = float(sa); b = float(sb)
    s1, s2 = str(rng.choice(['', '-', '+'])), str(rng.choice(['+', '-']))
    if rng.random() < .2: s, want = s1 + sa, (-a if s1 == '-' else a)
    else: s, want = s1 + sa + s2 + sb + 'i', complex(-a if s1 == '-' else a, -b if s2 == '-' else b)
    given(string=s); close(complex(f(s)), want, 'compstr(%r)' % s, 1e-12)
    return s
@case(200)
def booleans(rng):
    f = target('irrep.utility', 'str2bool')
    w = str(rng.choice(['True', 'true', '.true.', 'T', 't', '.TRUE.', 'False', '.false.', 'f', 'F', 'FALSE', 'f ', ' .True.', 'yes', 'no', '1', '0', 'on', 'maybe', '.x.', 'xtrue', 'nottrue', '-t', 'of']))
    given(string=w); c = w.strip('. ').lower()[0]
    if c in 'tf':
        r = f(w); ok(r is (c == 't') or (isinstance(r, np.bool_) and bool(r) == (c == 't')), 'str2bool(%r) = %s', w, r)
    else: ok(raises(f, w) is not None, 'str2bool(%r) accepted', w)
    return w
@case(300)
def short(rng):
    f = target('irrep.utility', 'short'); nd = int(rng.integers(1, 8))
    v = lambda: float(rng.choice([-1, 1])) * float(rng.choice([0, 1, 10.0 ** (-nd) * 3, rng.uniform(0, 30), .5, 1e-12]))
    x = complex(v(), v()) if rng.random() < .8 else v()
    if rng.random() < .2: t = float('1e-%d' % nd) * float(rng.choice([-1, 1])); x = complex(x.real, t) if rng.random() < .5 else complex(t, complex(x).imag)
    given(x=str(x), nd=nd)
    s = f(x) if nd == 3 and rng.random() < .5 else f(x, nd)
    e = 10.0 ** -nd; re, im = complex(x).real, complex(x).imag
    if any(abs(abs(t) - e) < 1e-3 * e and abs(t) != e for t in (re, im)): raise Skip('')
    want = ('%+.*f' % (nd, re) if abs(re) >= e or abs(im) < e else '') + ('%+.*fj' % (nd, im) if abs(im) >= e else '')
    ok(s == want, 'short(%s, %d) = %r instead of %r', x, nd, s, want)
    return (nd, s)
@case(200)
def split(rng):
    f = target('irrep.utility', 'split')
    k = str(rng.choice(['num_bands', 'spinors', 'mp_grid'])); v = [str(int(t)) for t in rng.integers(0, 99, int(rng.integers(1, 4)))]
    sep = str(rng.choice(['=', ' = ', ':', ' : ', ' ', '   '])); s = k + sep + ' '.join(v); given(line=s)
    r = [t.strip() for t in f(s)]; ok(r[0] == k and ' '.join(r[1:]).split() == v, 'split(%r) = %s', s, r)
    return s
