"""Shared pieces of the contracts."""
from vc.spec import *
HARTREE = None

class Contract:
    def __init__(self, name, fn, callees=None, overrides=None, funcs=(), timeout=None, max_paths=200):
        self.name, self.fn, self.callees, self.overrides, self.funcs = name, fn, callees or {}, overrides or {}, list(funcs)
        self.timeout, self.max_paths = timeout, max_paths

def witness(e, name, pos=0):
    """first argument of an application of the uninterpreted array `name` in e (ghost witness)"""
    for x in uf_apps(toz(e)).values():
        if x.decl().name() == name: return x.arg(pos)
    return None
def S(*xs): return PV_sum(xs)
