"""Contract objects: one description used both to verify a body and to summarise calls."""
import z3
from core import *
from pagemem import *
from sx import *

class Contract:
    writes_heap = False
    writes_args = ()
    merge_ints = True
    houdini_ms = 6000
    timeout_ms = 30000
    name = "?"
    props = ()
    def can_write(self, X, st, b): return z3.BoolVal(False)
    def can_free(self, X, st, b): return z3.BoolVal(False)
    def loop_cands(self, X, entry, hv, info): return []
    def loop_measures(self, X, entry, hv, info): return default_measures(X, hv, info)
    def after_child_store(self, X, st, H0, b, o, val): pass
    def goal_tag(self, label): return None
    def slim(self, o): return None
    def loop_havoc(self, X, entry, hv): pass

def default_measures(X, hv, info):
    out = []; ints = []
    for p, kind, x in info["phis"]:
        if kind == "ind":
            ints.append((p.id, lambda s, p=p: s.regs[p.id].o))
        elif kind == "int" and p.ty.width > 1 and isinstance(hv.regs[p.id], Lin):
            ints.append((p.id, lambda s, p=p: X_lin(s.regs[p.id])))
    for n, f in ints:
        out.append((n, lambda s, f=f: f(s).z() if f(s) is not None else None))
    for n, f in ints:
        out.append(("-" + n, lambda s, f=f: (f(s).scale(-1) + 2**40).z() if f(s) is not None else None))
    for n, f in ints:
        for m, g in ints:
            if n != m: out.append((n + "-" + m, lambda s, f=f, g=g: (f(s) - g(s)).z() if f(s) is not None and g(s) is not None else None))
    return out

def X_lin(v):
    if isinstance(v, (Lin, int, BI)): return lin(v)
    if isinstance(v, Zx) and isinstance(v.v, Lin): return v.v
    return None

class FnContract(Contract):
    """params: list of (name, kind); kinds: node, int, kref, pref, optref, map, sret, mergeinfo...
       Subclasses define pre(c), post(c) with c a Ctx giving the pre/post heap, arguments and result."""
    params = []
    ret = "void"
    def __init__(self, unit, name): self.u = unit; self.name = name

class Ctx:
    """evaluation context of a contract instance"""
    def __init__(s, X, a, st0, H0, H1, res=None, st1=None):
        s.X, s.a, s.st0, s.H0, s.H1, s.res, s.st1 = X, a, st0, H0, H1, res, st1
    def __getattr__(s, n):
        try: return s.__dict__["a"][n]
        except KeyError: raise AttributeError(n)
