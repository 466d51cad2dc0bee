"""A binary file as its content: the j-th element of a type read from byte position p is a fixed, unknown value of (p + j * size of the type).
Operations modelled: open(name, 'rb'), seek, tell, read, close, numpy.fromfile, numpy.frombuffer."""
from contracts.kp import *
from vc.npmodel import B, dt_kind
from vc.spec import OVERRIDES
SIZE = {'float': 8, 'float64': 8, 'f8': 8, 'd': 8, 'double': 8, 'float32': 4, 'f4': 4, 'int': 8, 'int64': 8, 'i8': 8, 'int32': 4, 'i4': 4, 'complex64': 8, 'c8': 8, 'complex': 16, 'complex128': 16, 'c16': 16}
def tname(d):
    n = d if isinstance(d, str) else d.name
    n = n.split('.')[-1].lstrip('<=')
    n = {'float': 'float64', 'f8': 'float64', 'd': 'float64', 'double': 'float64', 'f4': 'float32', 'int': 'int64', 'i8': 'int64', 'i4': 'int32', 'c8': 'complex64', 'complex': 'complex128', 'c16': 'complex128'}.get(n, n)
    if n not in SIZE: raise Unsupported('file element type ' + n)
    return n
def content(t, pos):
    """the element of type t stored at byte position pos"""
    f = lambda nm, srt: z3.Function('file_' + t + nm, z3.IntSort(), srt)(zi(pos))
    k = {'f': 'f', 'i': 'i', 'c': 'c'}[t[0]]
    if k == 'c': return Cx(f('.re', z3.RealSort()), f('.im', z3.RealSort()))
    return f('', z3.RealSort() if k == 'f' else z3.IntSort())
def install(size):
    def seek(ip, o, p, whence=0):
        if whence == 1: p = s_add(o.attrs['pos'], p)
        elif whence != 0: raise Unsupported('seek from the end')
        ip.setattr(o, 'pos', p); return p
    def take(ip, o, dtype, count):
        t = tname(dtype if dtype is not None else 'float'); sz = SIZE[t]; p = o.attrs['pos']
        avail = s_floordiv(s_sub(size, p), sz)
        if isinstance(count, (int, Fraction)) and not isinstance(count, bool) and count < 0: n = avail
        elif isinstance(count, float): raise Unsupported('infinite count')
        else:
            count = unwrap(count) if isinstance(count, Arr) else count
            if is_z(count) and count.sort() == z3.RealSort(): count = coerce(count, 'i')
            if is_z(count) and not cur().entails(count >= 0):
                if not cur().branch(zb(s_cmp('>=', count, 0))): count = None
            if count is None: n = avail
            elif cur().entails(zb(s_cmp('<=', s_mul(count, sz), s_sub(size, p)))): n = count
            elif cur().branch(zb(s_cmp('<=', s_mul(count, sz), s_sub(size, p)))): n = count
            else: n = avail
        ip.setattr(o, 'pos', s_add(p, s_mul(n, sz)))
        n = conc(canon(n)) if is_z(n) else n
        return Arr((n,), {'f': 'f', 'i': 'i', 'c': 'c'}[t[0]], lambda ix: content(t, s_add(p, s_mul(sz, ix[0]))))
    def fread(ip, o, n=-1):
        p = o.attrs['pos']
        if not is_z(n) and n < 0: n = s_sub(size, p)
        elif not cur().entails(zb(s_cmp('<=', n, s_sub(size, p)))): n = s_ite(simp_bool(s_cmp('<=', n, s_sub(size, p))), n, s_sub(size, p))
        ip.setattr(o, 'pos', s_add(p, n))
        return Obj(None, {'start': p, 'nbytes': n})
    def frombuffer(ip, b, dtype=None, count=-1, offset=0):
        if not isinstance(b, Obj) or 'nbytes' not in b.attrs: raise Unsupported('frombuffer of this object')
        t = tname(dtype if dtype is not None else 'float'); sz = SIZE[t]; p = s_add(b.attrs['start'], offset)
        n = s_floordiv(s_sub(b.attrs['nbytes'], offset), sz) if not is_z(count) and count < 0 else count
        n = conc(canon(n)) if is_z(n) else n
        return Arr((n,), {'f': 'f', 'i': 'i', 'c': 'c'}[t[0]], lambda ix: content(t, s_add(p, s_mul(sz, ix[0]))))
    def opener(ip, name, mode='r', *a, **k):
        if mode not in ('rb', 'br'): raise Unsupported('open mode ' + str(mode))
        o = Obj(None, {'pos': 0})
        o.attrs['seek'] = B('file.seek', lambda ip_, p, whence=0: seek(ip_, o, p, whence))
        o.attrs['tell'] = B('file.tell', lambda ip_: o.attrs['pos'])
        o.attrs['read'] = B('file.read', lambda ip_, n=-1: fread(ip_, o, n))
        o.attrs['close'] = B('file.close', lambda ip_: None)
        return o
    def fromfile(ip, f, dtype=None, count=-1, sep='', offset=0):
        if not isinstance(f, Obj) or 'pos' not in f.attrs: raise Unsupported('fromfile of this object')
        if is_z(offset) or offset != 0: seek(ip, f, offset, 1)
        return take(ip, f, dtype, count)
    OVERRIDES.update({'builtins.open': B('open', opener), 'numpy.fromfile': B('numpy.fromfile', fromfile), 'numpy.frombuffer': B('numpy.frombuffer', frombuffer)})
