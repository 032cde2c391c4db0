"""Contracts for the page-level functions of include/indexes/btree/map.h (leaf and inner pages)."""
import z3
from core import *
from pagemem import *
from sx import *
from contract import *

BIG = 2**40
i_, j_, b_ = z3.Int("i"), z3.Int("j"), z3.Int("b")
And, Or, Not, Implies, If, Select = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Select
pg = z3.Function("pg", z3.IntSort(), z3.BoolSort())          # trigger marks, true of everything
at = z3.Function("at", z3.IntSort(), z3.IntSort(), z3.BoolSort())
HYP = [False]   # True while a specification is being assumed: marks may then be added
def AT(*ps): return [at(b, i) for b, i in ps] if HYP[0] else []
def FA(vs, body, pats):
    return z3.ForAll(vs, body, patterns=pats)

class V:
    """spec view of page b in heap H"""
    def __init__(s, u, H, b, inner):
        s.u, s.H, s.b, s.inner = u, H, b, inner
        L = u.lay
        s.KV = L.KVI if inner else L.KVL
        s.VO = L.VOI if inner else L.VOL
        s.f = 1 if inner else 0
        s.Sb, s.Kb, s.Pb = sel(H.S, b), sel(H.K, b), sel(H.P, b)
        for n in ("lps", "n", "nso", "lvo", "ty", "ht", "dead", "loV", "loE", "hiV", "hiE"): setattr(s, n, sel(H[n], b))
    @property
    def lo(s): return If(s.loE, s.loV, -BIG)
    @property
    def hi(s): return If(s.hiE, s.hiV, BIG)
    def slot(s, i): return Select(s.Sb, i)
    def key(s, i): return Select(s.Kb, Select(s.Sb, i))
    def val(s, i): return Select(s.Kb, Select(s.Sb, i) + s.VO)
    def child(s, i):  # i z3 or int
        if isinstance(i, int): return Select(s.Pb, s.slot(i) + (0 if i == 0 else s.VO))
        return Select(s.Pb, Select(s.Sb, i) + If(i == 0, 0, s.VO))
    def child1(s, i): return Select(s.Pb, Select(s.Sb, i) + s.VO)
    def sep(s, i):   # lower separator of child i
        return If(i == 0, s.lo, s.key(i))
    def seph(s, i):  # upper separator of child i
        return If(i + 1 >= s.n, s.hi, s.key(i + 1))
    def live(s): return Select(s.H.live, s.b)
    # --- invariants
    def layout(s):
        L = s.u.lay; n, d, f, KV = s.n, s.dead, s.f, s.KV
        if s.inner:
            out = [n >= 1, s.lvo == L.NODE - 8 - KV * (n - 1 + d), s.lps == 12 + (n - 1) * (KV + 4)]
        else:
            out = [n >= 0, s.lvo == L.NODE - KV * (n + d), s.lps == n * (KV + 4)]
        out += [d >= 0, s.nso == L.HDR + 4 * n, s.nso <= s.lvo, s.ty == s.inner, s.ht >= 1 if s.inner else s.ht == 0]
        return [("fill accounting of the page", x) for x in out]
    def valid(s, i): return And(i >= s.f, Or(i < s.n, And(i == s.f, s.n == s.f, s.dead > 0)))
    def slots(s):
        L = s.u.lay; top = L.NODE - (8 if s.inner else 0); f = s.f; si, sj = s.slot(i_), s.slot(j_)
        al = L.ALI if s.inner else L.ALL
        out = [("slots designate entries inside the page", FA([i_], Implies(s.valid(i_), And(si >= s.lvo, si + s.KV <= top, si % al == 0)), [si])),
               ("entries do not overlap", FA([i_, j_], Implies(And(f <= i_, i_ < j_, j_ < s.n), Or(si + s.KV <= sj, sj + s.KV <= si)), [z3.MultiPattern(si, sj)]))]
        if s.inner: out.append(("first-child entry sits at the end of the page", s.slot(0) == L.NODE - 8))
        return out
    def sorted(s):
        f = s.f
        return [("keys are strictly ascending", FA([i_, j_], Implies(And(f <= i_, i_ < j_, j_ < s.n), s.key(i_) < s.key(j_)), [z3.MultiPattern(s.slot(i_), s.slot(j_))]))]
    def range(s):
        lo, hi = s.lo, s.hi
        c = lambda i: And(lo < s.key(i) if s.inner else lo <= s.key(i), s.key(i) < hi)
        return [("fences are ordered", lo < hi), ("fence values are ints", And(s.loV >= -2**31, s.loV < 2**31, s.hiV >= -2**31, s.hiV < 2**31)),
                ("keys lie between the page's fences", FA([i_], Implies(s.valid(i_), c(i_)), [s.slot(i_)]))]
    def ok(s):
        return [("page allocated", And(s.live(), s.b > 0))] + s.layout() + s.slots() + s.sorted() + s.range()
    def okf(s): return And(*[f for _, f in s.ok()])
    def keys_below(s, k, a, e, strict=True):
        c = s.key(i_) < k if strict else s.key(i_) <= k
        return FA([i_], Implies(And(a <= i_, i_ < e), c), [s.slot(i_)])
    def keys_above(s, k, a, e, strict=False):
        c = s.key(i_) > k if strict else s.key(i_) >= k
        return FA([i_], Implies(And(a <= i_, i_ < e), c), [s.slot(i_)])
    def same_hdr(s, o, but=()):
        out = []
        for n in ("lps", "n", "nso", "lvo", "ty", "ht", "dead", "loV", "loE", "hiV", "hiE"):
            if n not in but: out.append(getattr(s, n) == getattr(o, n))
        return And(*out)

def entry_eq(p, i, q, j):
    """entry i of page p equals entry j of page q (slots f.. only)"""
    e = [p.key(i) == q.key(j)] + AT((p.b, i), (q.b, j))
    e.append(p.child1(i) == q.child1(j) if p.inner else p.val(i) == q.val(j))
    return And(*e)

class PC(FnContract):
    """page-level contract: args bound by kind, frame = explicit list of pages"""
    inner = False
    retkind = "void"
    def view(self, H, b, inner=None): return V(self.u, H, b, self.inner if inner is None else inner)
    def mods(self, c): return []
    frees = False
    allocs = False
    def pre(self, c): return []
    def post(self, c): return []
    # ---------------- verification side
    def setup(self, X):
        st = State(); st.heap = Heap("0")
        st.assume(Not(Select(st.heap.live, 0)))
        a = {}
        self.nodes = []
        for k, (nm, kind) in enumerate(self.params):
            st.regs["%%a%d" % k] = self.make(X, st, nm, kind, a)
        if len(X.F.params) != len(self.params):
            raise Unsupported("signature changed: %d parameters, contract has %d" % (len(X.F.params), len(self.params)))
        self.c0 = Ctx(X, a, st, st.heap, st.heap)
        for l, f in self.pre(self.c0): st.assume(f, self.tag(l))
        st.ghost["fresh"] = ()
        return st
    def make(self, X, st, nm, kind, a):
        if kind in ("node", "node?"):
            b = z3.Int(nm); st.assume(b > 0 if kind == "node" else b >= 0); a[nm] = b
            return Ptr(b, 0)
        if kind == "int":
            v = z3.Int(nm); st.assume(And(v >= -2**31, v < 2**31)); a[nm] = v; return lin(v)
        if kind == "kref":
            v = z3.Int(nm); st.assume(And(v >= -2**31, v < 2**31)); a[nm] = v
            B_ = Blk(nm, 4, ro=True); st.loc[B_] = {0: (4, lin(v))}; return Ptr(B_, 0)
        if kind == "pref":
            v = z3.Int(nm); st.assume(v >= 0); a[nm] = v
            B_ = Blk(nm, 8, ro=True); st.loc[B_] = {0: (8, Ptr(v, 0))}; return Ptr(B_, 0)
        if kind == "vref":
            v = z3.Int(nm); st.assume(And(v >= -2**31, v < 2**31)); a[nm] = v
            B_ = Blk(nm, 4, ro=True); st.loc[B_] = {0: (4, lin(v))}; return Ptr(B_, 0)
        if kind == "optref":
            v = z3.Int(nm + "_V"); e = z3.Bool(nm + "_E"); st.assume(And(v >= -2**31, v < 2**31)); a[nm] = (e, v)
            B_ = Blk(nm, 8, ro=True); st.loc[B_] = {0: (4, lin(v)), 4: (1, BI(e))}; return Ptr(B_, 0)
        if kind == "sret":
            B_ = Blk("result", None); st.loc[B_] = {}; a["sret"] = B_; return Ptr(B_, 0)
        if kind == "map":
            B_ = Blk("map", None); m = self.u.lay.map
            r, n, h = z3.Int("root"), z3.Int("count"), z3.Int("mheight")
            st.assume(And(r >= 0, n >= 0, n < 2**60, h >= 0, h < 2**30))
            st.loc[B_] = {m["root"]: (8, Ptr(r, 0)), m["count"]: (8, lin(n)), m["height"]: (4, lin(h)), m["stats"]: (8, Ptr(self.u.statsblk, 0))}
            a["map"] = B_; a["M0"] = self.mapview(st, B_)
            return Ptr(B_, 0)
        if kind == "split":   # const pointer to a NodeSplitInfo
            B_ = Blk(nm, 24, ro=True); l, r, k = z3.Int(nm + "_l"), z3.Int(nm + "_r"), z3.Int(nm + "_k")
            st.assume(And(l > 0, r > 0, k >= -2**31, k < 2**31)); a[nm] = (l, r, k)
            s = self.u.lay.split
            st.loc[B_] = {s[0]: (8, Ptr(l, 0)), s[1]: (8, Ptr(r, 0)), s[2]: (4, lin(k))}
            return Ptr(B_, 0)
        if kind == "iter":    # pointer to an iterator_impl
            B_ = Blk(nm, 24, ro=self.iter_ro); l, s = z3.Int(nm + "_leaf"), z3.Int(nm + "_slot")
            st.assume(And(l >= 0, s >= -2**31, s < 2**31)); a[nm] = (l, s); a[nm + "_blk"] = B_
            it = self.u.lay.iter
            if "map" not in a: self.make(X, st, "this_map", "map", a)
            st.loc[B_] = {it[0]: (8, Ptr_(Ptr(0, 0), 0)), it[1]: (8, Ptr(l, 0)), it[2]: (4, lin(s))}
            mp = Ptr(0, 0); mp.b = a["map"]; st.loc[B_][it[0]] = (8, mp)
            return Ptr(B_, 0)
        raise Unsupported("parameter kind " + kind)
    iter_ro = True
    def mapview(self, st, B_):
        m = self.u.lay.map; c = st.loc[B_]
        g = lambda f: c.get(m[f], (0, Opaque("x")))[1]
        r = g("root"); n = g("count"); h = g("height")
        class MV: pass
        v = MV(); v.root = r.b.z() if isinstance(r, Ptr) and r.heap() else None
        v.count = lin(n).z() if isinstance(n, (Lin, int)) else None
        v.height = lin(h).z() if isinstance(h, (Lin, int)) else None
        return v
    def can_write(self, X, st, b):
        return Or(*([b == m for m in self.mods(self.c0)] + [b == f for f in st.ghost.get("fresh", ())] + [z3.BoolVal(False)]))
    def can_free(self, X, st, b):
        return Or(*([b == m for m in (self.mods(self.c0) if self.frees else [])] + [b == f for f in st.ghost.get("fresh", ())] + [z3.BoolVal(False)]))
    def loop_havoc(self, X, entry, hv):
        H = hv.heap = hv.heap.copy()
        bs = list(self.mods(self.c0)) + list(entry.ghost.get("fresh", ()))
        for b in bs: self.havoc_page(H, b)
    def havoc_page(self, H, b):
        for nm, s, isb in HC: H.h[nm] = z3.Store(H.h[nm], b, fresh_const(nm, z3.BoolSort() if isb else z3.IntSort()))
        for nm in ("K", "S", "P"): H.set(nm, z3.Store(getattr(H, nm), b, fresh_const(nm, AI)))
    def check_return(self, X, st, r):
        try:
            res = self.decode(X, st, r)
        except KeyError:
            X.unsupported(st, "result not initialised")
        c = Ctx(X, self.c0.a, X.st0, X.st0.heap, st.heap, res, st)
        if "map" in c.a: c.a = dict(c.a, M1=self.mapview(st, c.a["map"]))
        for l, f in self.post(c): X.oblige(st, f, "post: " + l)
        for l, f in self.post_goal_only(c): X.oblige(st, f, "post: " + l)
    def post_goal_only(self, c): return []
    def decode(self, X, st, r):
        k = self.retkind
        def ib(v):
            if isinstance(v, BI): return B(v.b)
            if isinstance(v, Lin): return v.z() != 0
            if isinstance(v, (bool, z3.BoolRef)): return B(v)
            raise Unsupported("bool result")
        if k == "void": return None
        if k == "int": return X.L(st, r).z()
        if k == "bool": return B(X.cond(st, r))
        if k == "node":
            if not r.heap(): X.unsupported(st, "returns the address of a local")
            X.oblige(st, r.o.z() == 0, "returned pointer designates a page"); return r.b.z()
        if k == "pib":
            return (X.L(st, comp_get(self.comp(r), 0, 4)).z(), ib(self.unz(comp_get(self.comp(r), 4, 1))))
        if k == "ii":
            r = self.comp(r)
            return (X.L(st, comp_get(r, 0, 4)).z(), X.L(st, comp_get(r, 4, 4)).z())
        if k == "ni":
            X.oblige(st, r.xs[0].o.z() == 0, "returned pointer designates a page")
            return (r.xs[0].b.z(), X.L(st, r.xs[1] if not isinstance(r.xs[1], Comp) else comp_get(r.xs[1], 0, 4)).z())
        if k == "split":
            c = st.loc[self.c0.a["sret"]]; s = self.u.lay.split
            return (c[s[0]][1].b.z(), c[s[1]][1].b.z(), X.L(st, c[s[2]][1]).z())
        if k == "iter":
            c = st.loc[self.c0.a["sret"]]; s = self.u.lay.iter
            X.oblige(st, isinstance(c[s[0]][1].b, Blk) and c[s[0]][1].b is self.c0.a["map"], "iterator refers to its map")
            return (c[s[1]][1].b.z(), X.L(st, c[s[2]][1]).z())
        if k == "vaddr":   # reference to a value: (page, offset)
            if not r.heap(): X.unsupported(st, "returns the address of a local")
            return (r.b.z(), r.o.z())
        if k == "mergeinfo":
            c = st.loc[self.c0.a["sret"]]; s = self.u.lay.mi
            e = ib(c[s[2]][1])
            if s[0] in c:
                kp = c[s[0]][1]; return (e, kp, X.L(st, c[s[1]][1]).z())
            return (e, None, None)
        raise Unsupported("result kind " + k)
    def comp(self, r):
        if isinstance(r, Comp): return r
        if isinstance(r, Zx): return Comp(8, {0: (r.w // 8, r.v)})
        if isinstance(r, Lin) and r.is_const():
            v = r.c % 2**64; lo = v % 2**32; lo = lo - 2**32 if lo >= 2**31 else lo; hi = v >> 32; hi = hi - 2**32 if hi >= 2**31 else hi
            return Comp(8, {0: (4, Lin(lo)), 4: (4, Lin(hi))})
        raise Unsupported("composite result")
    def unz(self, v):
        if isinstance(v, Zx): return v.v
        return v
    # ---------------- call side
    def bind(self, X, st, args):
        a = {}
        for (nm, kind), v in zip(self.params, args):
            if kind in ("node", "node?"):
                if not (isinstance(v, Ptr) and v.heap()): X.unsupported(st, "argument '%s' is not a page" % nm)
                if not (v.o.is_const() and v.o.c == 0): X.oblige(st, v.o.z() == 0, "argument '%s' designates a page" % nm)
                a[nm] = v.b.z()
            elif kind == "int": a[nm] = X.L(st, v).z()
            elif kind in ("kref", "vref"):
                if v.heap():
                    X.u.mem.access(X, st, v, 4, "argument '%s'" % nm)
                x = X.u.mem.peek4(st, v)
                if x is None: X.unsupported(st, "argument '%s'" % nm)
                a[nm] = X.L(st, x).z(); a[nm + "_ptr"] = v
            elif kind == "pref":
                if v.heap():
                    x = X.u.mem.load(X, st, v, PTRTY)
                else: x = st.loc[v.b][v.o.c][1]
                if not (isinstance(x, Ptr) and x.heap()): X.unsupported(st, "argument '%s'" % nm)
                a[nm] = x.b.z()
            elif kind == "optref":
                if v.heap():
                    o = v.o.c; m = X.u.mem
                    X.u.mem.access(X, st, v, 4, "argument '%s'" % nm)
                    a[nm] = (sel(st.heap[m.off[(o + 4, 1)]], v.b.z()), sel(st.heap[m.off[(o, 4)]], v.b.z()))
                else:
                    c = st.loc[v.b]; o = v.o.c
                    e = c[o + 4][1]; vv = c.get(o, (4, Opaque("u")))[1]
                    a[nm] = (B(X.cond(st, e)), X.L(st, vv).z() if not isinstance(vv, (Opaque, Comp)) else fresh_int("undef"))
            elif kind == "sret":
                a["sret"] = v.b; a["sret_o"] = v.o.c
            elif kind == "map":
                if v.heap() or v.b not in st.loc: X.unsupported(st, "map argument")
                a["map"] = v.b; a["M0"] = self.mapview(st, v.b)
            elif kind == "split":
                c = st.loc[v.b]; s = self.u.lay.split; o = v.o.c
                a[nm] = (c[o + s[0]][1].b.z(), c[o + s[1]][1].b.z(), X.L(st, c[o + s[2]][1]).z())
            elif kind == "iter":
                c = st.loc[v.b]; s = self.u.lay.iter; o = v.o.c
                a[nm] = (c[o + s[1]][1].b.z(), X.L(st, c[o + s[2]][1]).z()); a[nm + "_blk"] = v.b; a[nm + "_o"] = o
                a["map"] = c[o + s[0]][1].b; a["M0"] = self.mapview(st, a["map"])
        return a
    def apply(self, X, st, args, ins):
        if len(args) != len(self.params): X.unsupported(st, "call of %s with a different signature" % self.name)
        try: a = self.bind(X, st, args)
        except (KeyError, AttributeError) as e: X.unsupported(st, "arguments of %s (%r)" % (self.name, e))
        c = Ctx(X, a, st, st.heap, st.heap)
        short = self.name.split("::")[-1]
        for l, f in self.pre(c): X.oblige(st, f, "pre of %s: %s" % (short, l))
        ms = self.mods(c)
        for m in ms: X.oblige(st, X.c.can_write(X, st, m), "frame: %s writes only pages this function may modify" % short)
        if ms:
            for (nm, kind) in self.params:
                p = a.get(nm + "_ptr")
                if p is not None and p.heap():
                    X.oblige(st, And(*[p.b.z() != m for m in ms]), "argument '%s' of %s does not alias the modified page" % (nm, short))
        if self.frees:
            for m in ms: X.oblige(st, X.c.can_free(X, st, m), "frame: %s releases only pages this function may release" % short)
        H0 = st.heap
        H1 = H0.copy(); st.heap = H1
        for m in ms: self.havoc_page(H1, m)
        rv, res = self.result(X, st, a, ins)
        c = Ctx(X, a, st, H0, st.heap, res, st)
        self.havoc_map(X, st, c)
        HYP[0] = True
        for l, f in self.post(c): st.assume(f, self.tag(l))
        HYP[0] = False
        for x in (res if isinstance(res, tuple) else (res,)):
            if self.retkind in ("node", "split") and z3.is_expr(x) and x.sort() == z3.IntSort() and not (self.retkind == "split" and x is res[2]): st.assume(pg(x))
        self.detach(X, st, a, res)
        if st.ghost.get("M") is not None: self.ghost_content(X, st, c)
        return rv
    def tag(self, l): return "pgI" if self.inner else "pgL"
    def detach(self, X, st, a, res): pass
    def ghost_content(self, X, st, c): pass     # ghost code: effect of the call on the map's abstract content
    map_mods = ()
    def havoc_map(self, X, st, c):
        if "map" not in c.a: return
        m = self.u.lay.map; cells = st.loc[c.a["map"]]
        for f in self.map_mods:
            v = fresh_int("m_" + f)
            if f == "root": st.assume(v >= 0); cells[m[f]] = (8, Ptr(v, 0))
            elif f == "count": st.assume(And(v >= 0, v < 2**60)); cells[m[f]] = (8, lin(v))
            else: st.assume(And(v >= 0, v < 2**30)); cells[m[f]] = (4, lin(v))
        c.a["M1"] = self.mapview(st, c.a["map"])
    def result(self, X, st, a, ins):
        k = self.retkind
        def fi(n):
            v = fresh_int(n); st.assume(And(v >= -2**31, v < 2**31)); return v
        if self.allocs:
            b = X.u.mem.alloc(X, st, 1)
            return Ptr(b, 0), b
        if k == "void": return None, None
        if k == "int": v = fi("r"); return lin(v), v
        if k == "bool": v = fresh_bool("r"); return v, v
        if k == "node": v = fresh_int("rp"); st.assume(v >= 0); return Ptr(v, 0), v
        if k == "pib":
            v, p = fi("pos"), fresh_bool("present"); return Comp(8, {0: (4, lin(v)), 4: (1, BI(p))}), (v, p)
        if k == "ii":
            v, p = fi("status"), fi("pos"); return Comp(8, {0: (4, lin(v)), 4: (4, lin(p))}), (v, p)
        if k == "ni":
            v, p = fresh_int("rp"), fi("pos"); st.assume(v >= 0); return Agg([Ptr(v, 0), lin(p)]), (v, p)
        if k == "split":
            l, r, key = fresh_int("l"), fresh_int("r"), fi("k"); st.assume(And(l > 0, r > 0)); s = self.u.lay.split
            cells = st.loc.setdefault(a["sret"], {}); o = a["sret_o"]
            cells[o + s[0]] = (8, Ptr(l, 0)); cells[o + s[1]] = (8, Ptr(r, 0)); cells[o + s[2]] = (4, lin(key))
            return None, (l, r, key)
        if k == "iter":
            l, n = fresh_int("leaf"), fi("slot"); st.assume(l >= 0); s = self.u.lay.iter
            cells = st.loc.setdefault(a["sret"], {}); o = a["sret_o"]
            mp = Ptr(0, 0); mp.b = a["map"]
            cells[o + s[0]] = (8, mp); cells[o + s[1]] = (8, Ptr(l, 0)); cells[o + s[2]] = (4, lin(n))
            return None, (l, n)
        if k == "vaddr":
            p, o = fresh_int("vp"), fresh_int("vo"); return Ptr(p, o), (p, o)
        raise Unsupported("result kind " + k)
    # ---------------- loop candidates: affine relations, search and copy invariants
    def loop_cands(self, X, entry, hv, info):
        """loops that move slots of the page one by one: what is moved, what is not yet, what is never touched"""
        ts = position_terms(X, info); out = []; H0 = entry.heap
        p = self.c0.a.get("pos")
        if isinstance(p, Lin): p = p.z()
        bs = list(self.mods(self.c0)) if info["heap"] else []
        for b in bs:
            n0 = Select(H0["n"], b); hdr = self.u.lay.HDR; S0, K0, P0 = (Select(a, b) for a in (H0.S, H0.K, H0.P))
            for nm, s, isb in HC: out.append(("%s unchanged" % nm, lambda st, nm=nm: Select(st.heap[nm], b) == Select(H0[nm], b)))
            for nm, A0, w in (("K", K0, 4), ("P", P0, 8)):
                
                for x in (0, 1): out.append(("%s beyond the slots unchanged" % nm, lambda st, nm=nm, A0=A0, x=x: FA([i_], Implies(i_ >= hdr + 4 * (n0 + x), Select(Select(getattr(st.heap, nm), b), i_) == Select(A0, i_)), [Select(Select(getattr(st.heap, nm), b), i_)])))
            S = lambda st: Select(st.heap.S, b)
            def rng(lo, hi, d): return lambda st: FA([i_], Implies(And(*([lo(st) <= i_] if lo else []) + ([i_ < hi(st)] if hi else [])), Select(S(st), i_) == Select(S0, i_ + d)), [Select(S(st), i_)])
            P_ = [(lambda st, x=x: x) for x in ([p, p + 1] if p is not None else [])]; N = lambda st: n0; N1 = lambda st: n0 + 1
            for n, t in ts:
                for d in (-1, 0, 1):
                    T = lambda st, t=t, d=d: t(st) + d; nm = "%s%+d" % (n, d)
                    out += [(nm + ": slots before are unchanged", rng(None, T, 0)), (nm + ": slots from here are unchanged", rng(T, None, 0)), (nm + ": slots from here moved up", rng(T, N1, -1))]
                    for q in P_[:1]: out.append((nm + ": slots before moved down", rng(q, T, 1)))
            for q in P_[:1]: out.append(("slots before the position unchanged", rng(None, q, 0)))
            out.append(("slots beyond the page's entries unchanged", rng(N1, None, 0)))
        for n, t in ts:
            for m, u in ([("pos", p), ("pos+1", p + 1)] if p is not None else []) + [("0", z3.IntVal(0))] + [("n%+d" % d, Select(H0["n"], b) + d) for b in bs for d in (-1, 0)]:
                out += [(n + ">=" + m, lambda st, t=t, u=u: t(st) >= u), (n + "<=" + m, lambda st, t=t, u=u: t(st) <= u)]
        return [(n, guard(f)) for n, f in out]

class PTRTY: kind = "ptr"; size = 8; width = 64

def position_terms(X, info):
    """position-like expressions over the loop's phis: (name, state -> z3 Int or None)"""
    ls = []
    L = X.u.lay
    for p, kind, x in info["phis"]:
        if kind == "ind":
            def f(s, p=p):
                v = s.regs[p.id]
                if not isinstance(v, Ptr): return None
                return X.u.mem.slot_index(v.o)
            ls.append((p.id, f))
        elif kind == "int" and p.ty.width > 1:
            ls.append((p.id, lambda s, p=p: X_lin(s.regs[p.id])))
    out = [(n, (lambda s, f=f: f(s).z() if f(s) is not None else None)) for n, f in ls]
    for k, (n, f) in enumerate(ls):
        for m, g in ls[k + 1:]:
            out.append((n + "+" + m, lambda s, f=f, g=g: (f(s) + g(s)).z() if f(s) is not None and g(s) is not None else None))
    return out

def guard(f):
    def g(s):
        try: return f(s)
        except (TypeError, AttributeError): return None
    return g

class SearchC(PC):
    """binary (or any) search loops over a page's slots"""
    def loop_cands(self, X, entry, hv, info):
        c = self.c0; v = self.view(c.H0, c.a["this"]); k = c.a["key"]; f = v.f
        ts = position_terms(X, info); out = []
        def wrap(t, fn): 
            return lambda s: (lambda x: None if x is None else fn(x))(t(s))
        for n, t in ts:
            out += [(n + ">=first", wrap(t, lambda e: e >= f)), (n + ">=0", wrap(t, lambda e: e >= 0)), (n + "<=n", wrap(t, lambda e: e <= v.n)),
                    (n + "<n", wrap(t, lambda e: e < v.n)), (n + "+1<=n..", wrap(t, lambda e: e + f <= v.n)),
                    (n + ": keys before are <", wrap(t, lambda e: v.keys_below(k, f, e, True))),
                    (n + ": keys before are <=", wrap(t, lambda e: v.keys_below(k, f, e, False))),
                    (n + ": keys from here are >=", wrap(t, lambda e: v.keys_above(k, e, v.n, False))),
                    (n + ": keys from here are >", wrap(t, lambda e: v.keys_above(k, e, v.n, True))),
                    (n + ": keys after are >=", wrap(t, lambda e: v.keys_above(k, e + 1, v.n, False))),
                    (n + ": keys after are >", wrap(t, lambda e: v.keys_above(k, e + 1, v.n, True)))]
        for a in range(len(ts)):
            for b in range(len(ts)):
                if a != b:
                    out.append((ts[a][0] + "<=" + ts[b][0], lambda s, x=ts[a][1], y=ts[b][1]: None if x(s) is None or y(s) is None else x(s) <= y(s)))
                    out.append((ts[a][0] + "<=" + ts[b][0] + "+1", lambda s, x=ts[a][1], y=ts[b][1]: None if x(s) is None or y(s) is None else x(s) <= y(s) + 1))
        return out

class LowerBoundPos(SearchC):
    params = [("this", "node"), ("key", "kref")]; retkind = "int"
    def pre(self, c): return self.view(c.H0, c.a["this"]).ok()
    def post(self, c):
        v = self.view(c.H0, c.a["this"]); r = c.res; k = c.a["key"]
        return [("result is a position of the page", And(v.f <= r, r <= v.n)), ("keys before the result are less", v.keys_below(k, v.f, r, True)),
                ("keys from the result on are not less", v.keys_above(k, r, v.n, False))]

class UpperBoundPos(SearchC):
    params = [("this", "node"), ("key", "kref")]; retkind = "int"
    def pre(self, c): return self.view(c.H0, c.a["this"]).ok()
    def post(self, c):
        v = self.view(c.H0, c.a["this"]); r = c.res; k = c.a["key"]
        if self.inner:
            return [("result is a child position", And(*([0 <= r, r < v.n] + AT((v.b, r), (v.b, r - 1), (v.b, r + 1))))), ("separators up to the result are not greater", v.keys_below(k, 1, r + 1, False)),
                    ("separators after the result are greater", v.keys_above(k, r + 1, v.n, True))]
        return [("result is a position of the page", And(0 <= r, r <= v.n)), ("keys before the result are not greater", v.keys_below(k, 0, r, False)),
                ("keys from the result on are greater", v.keys_above(k, r, v.n, True))]

class LowerBound(LowerBoundPos):
    retkind = "pib"
    def post(self, c):
        v = self.view(c.H0, c.a["this"]); r, p = c.res; k = c.a["key"]
        return [("result is a position of the page", And(v.f <= r, r <= v.n)), ("keys before the result are less", v.keys_below(k, v.f, r, True)),
                ("keys from the result on are not less", v.keys_above(k, r, v.n, False)),
                ("presence is reported exactly", p == And(r < v.n, v.key(r) == k)),
                ("if absent, keys from the result on are greater", Implies(Not(p), v.keys_above(k, r, v.n, True)))]

class SearchInner(SearchC):
    inner = True; params = [("this", "node"), ("key", "kref")]; retkind = "int"
    def pre(self, c): return self.view(c.H0, c.a["this"]).ok()
    def post(self, c):
        v = self.view(c.H0, c.a["this"]); r = c.res; k = c.a["key"]
        return [("result is a child position", And(*([0 <= r, r < v.n] + AT((v.b, r), (v.b, r - 1), (v.b, r + 1))))), ("separators up to the result are not greater", v.keys_below(k, 1, r + 1, False)),
                ("separators after the result are greater", v.keys_above(k, r + 1, v.n, True))]

class ChildForKey(SearchC):
    inner = True; params = [("this", "node"), ("key", "kref")]; retkind = "node"; strict = False
    def pre(self, c): return self.view(c.H0, c.a["this"]).ok()
    def post(self, c):
        v = self.view(c.H0, c.a["this"]); k = c.a["key"]; r = z3.Int("r")
        body = And(*AT((v.b, r)), 0 <= r, r < v.n, c.res == v.child(r), v.keys_below(k, 1, r + 1, self.strict), v.keys_above(k, r + 1, v.n, not self.strict))
        return [("result is the child whose range contains the key", z3.Exists([r], body, patterns=[v.slot(r)]))]

class ChildLower(ChildForKey):
    strict = True

class InsertIntoPos(PC):
    def ghost_content(self, X, st, c):
        if not self.inner:
            ok = c.res == self.u.lay.INSERTED
            setG(st, "M", z3.Store(st.ghost["M"], c.a["key"], Or(ok, Select(st.ghost["M"], c.a["key"]))))
            setG(st, "V", z3.Store(st.ghost["V"], c.a["key"], If(ok, self.view(c.H1, c.a["this"]).val(c.a["pos"]), Select(st.ghost["V"], c.a["key"]))))
    params = [("this", "node"), ("key", "kref"), ("pos", "int")]; retkind = "int"; writes_heap = True
    def mods(self, c): return [c.a["this"]]
    def pre(self, c):
        v = self.view(c.H0, c.a["this"]); k, p = c.a["key"], c.a["pos"]
        return v.ok() + [("position in range", And(v.f <= p, p <= v.n)), ("keys before are less", v.keys_below(k, v.f, p, True)),
                         ("keys after are greater", v.keys_above(k, p, v.n, True)), ("key between the fences", And(v.lo < k if self.inner else v.lo <= k, k < v.hi))]
    def effect(self, o, v, p, k):
        """v is o with a fresh entry (k, default) inserted at p"""
        out = [("the new entry carries the key", v.key(p) == k),
               ("one more entry", And(v.n == o.n + 1, v.dead == o.dead)),
               ("other header fields unchanged", v.same_hdr(o, ("lps", "n", "nso", "lvo"))),
               ("entries before the position keep key and value", FA([i_], Implies(And(o.f <= i_, i_ < p), And(v.slot(i_) == o.slot(i_), entry_eq(v, i_, o, i_))), [v.slot(i_)])),
               ("entries after the position keep key and value", FA([i_], Implies(And(i_ > p, i_ <= o.n), And(v.slot(i_) == o.slot(i_ - 1), entry_eq(v, i_, o, i_ - 1))), [v.slot(i_)])),
               ("old entries before survive", FA([i_], Implies(And(o.f <= i_, i_ < p), And(v.slot(i_) == o.slot(i_), entry_eq(v, i_, o, i_))), [o.slot(i_)])),
               ("old entries after survive", FA([i_], Implies(And(i_ >= p, i_ < o.n), And(v.slot(i_ + 1) == o.slot(i_), entry_eq(v, i_ + 1, o, i_))), [o.slot(i_)]))]
        if self.inner:
            out.append(("first child unchanged", And(*([v.slot(0) == o.slot(0), v.child(0) == o.child(0)] + AT((o.b, 0))))))
        else:
            out.append(("the new value is value-initialised", v.val(p) == 0))
        return out
    def unchanged(self, o, v): return And(v.same_hdr(o), v.Sb == o.Sb, v.Kb == o.Kb, v.Pb == o.Pb)
    def full(self, o):
        return o.nso + 4 > o.lvo - o.KV
    def post(self, c):
        o, v = self.view(c.H0, c.a["this"]), self.view(c.H1, c.a["this"]); k, p = c.a["key"], c.a["pos"]; r = c.res
        INS, OVF = self.u.lay.INSERTED, self.u.lay.OVFLOW
        out = [("status", Or(r == INS, r == OVF))]
        out += [("inserted: " + l, Implies(r == INS, f)) for l, f in self.effect(o, v, p, k) + v.ok()]
        out += [("refused only when full", Implies(r == OVF, And(self.full(o), self.unchanged(o, v)))), ("accepted unless full", Implies(Not(self.full(o)), r == INS))]
        return out

class Insert(InsertIntoPos):
    params = [("this", "node"), ("key", "kref"), ("pos", "int")]; retkind = "ii"
    def pre(self, c):
        v = self.view(c.H0, c.a["this"]); k, p = c.a["key"], c.a["pos"]
        return v.ok() + [("position in range", Implies(p >= 0, And(v.f <= p, p <= v.n))), ("keys before are less", Implies(p >= 0, v.keys_below(k, v.f, p, True))),
                         ("keys after are greater", Implies(p >= 0, v.keys_above(k, p, v.n, True))), ("key between the fences", And(v.lo < k if self.inner else v.lo <= k, k < v.hi))]
    def post(self, c):
        o, v = self.view(c.H0, c.a["this"]), self.view(c.H1, c.a["this"]); k, p0 = c.a["key"], c.a["pos"]; r, p = c.res
        INS, OVF, DUP = self.u.lay.INSERTED, self.u.lay.OVFLOW, self.u.lay.DUPLICATE
        out = [("status", Or(r == INS, r == OVF, r == DUP))]
        out += [("inserted: " + l, Implies(r == INS, f)) for l, f in self.effect(o, v, p, k) + v.ok()]
        out += [("inserted: position in range", Implies(r == INS, And(o.f <= p, p <= o.n))),
                ("given position is used", Implies(And(p0 >= 0, r == INS), p == p0)), ("explicit position never reports a duplicate", Implies(p0 >= 0, r != DUP)),
                ("refused only when full", Implies(r == OVF, And(self.full(o), self.unchanged(o, v)))), ("accepted unless full or duplicate", Implies(Not(self.full(o)), r != OVF)),
                ("a duplicate leaves the page unchanged", Implies(r == DUP, And(self.unchanged(o, v), p == -1))),
                ("a duplicate is really present", Implies(r == DUP, z3.Exists([i_], And(o.f <= i_, i_ < o.n, o.key(i_) == k), patterns=[o.slot(i_)])))]
        return out

class Append(PC):
    writes_heap = True
    @property
    def params(self): return [("this", "node"), ("key", "kref"), ("val", "pref" if self.inner else "vref")]
    def mods(self, c): return [c.a["this"]]
    def pre(self, c):
        v = self.view(c.H0, c.a["this"]); k = c.a["key"]
        return v.ok() + [("room for the entry", v.nso + 4 <= v.lvo - v.KV), ("key is greater than all present", v.keys_below(k, v.f, v.n, True)),
                         ("key between the fences", And(v.lo < k if self.inner else v.lo <= k, k < v.hi))]
    def post(self, c):
        o, v = self.view(c.H0, c.a["this"]), self.view(c.H1, c.a["this"]); k, x = c.a["key"], c.a["val"]
        out = [("one more entry", And(v.n == o.n + 1, v.dead == o.dead)), ("other header fields unchanged", v.same_hdr(o, ("lps", "n", "nso", "lvo"))),
               ("new last entry", And(v.key(o.n) == k, (v.child1(o.n) if self.inner else v.val(o.n)) == x)),
               ("earlier entries unchanged", FA([i_], Implies(And(o.f <= i_, i_ < o.n), And(v.slot(i_) == o.slot(i_), entry_eq(v, i_, o, i_))), [v.slot(i_)])),
               ("earlier entries survive", FA([i_], Implies(And(o.f <= i_, i_ < o.n), And(v.slot(i_) == o.slot(i_), entry_eq(v, i_, o, i_))), [o.slot(i_)]))]
        if self.inner: out.append(("first child unchanged", And(*([v.slot(0) == o.slot(0), v.child(0) == o.child(0)] + AT((o.b, 0))))))
        return out + v.ok()

class NegInf(PC):
    inner = True; writes_heap = True; params = [("this", "node"), ("val", "pref")]
    def mods(self, c): return [c.a["this"]]
    def pre(self, c):
        v = self.view(c.H0, c.a["this"]); L = self.u.lay
        return [("fresh inner page", And(v.live(), v.b > 0, v.ty, v.n == 0, v.dead == 0, v.lps == 0, v.nso == L.HDR, v.lvo == L.NODE, v.ht >= 1)), v.range()[0], v.range()[1]]
    def post(self, c):
        o, v = self.view(c.H0, c.a["this"]), self.view(c.H1, c.a["this"])
        return [("one entry", And(v.n == 1, v.dead == 0)), ("other header fields unchanged", v.same_hdr(o, ("lps", "n", "nso", "lvo"))), ("first child stored", v.child(0) == c.a["val"])] + v.ok()

class CopyFrom(PC):
    writes_heap = True; params = [("this", "node"), ("src", "node"), ("start_pos", "int"), ("end_pos", "int")]
    def mods(self, c): return [c.a["this"]]
    def pre(self, c):
        v, s = self.view(c.H0, c.a["this"]), self.view(c.H0, c.a["src"]); p, e = c.a["start_pos"], c.a["end_pos"]
        return v.ok() + [("source: " + l, f) for l, f in s.ok()] + [
            ("distinct pages", v.b != s.b), ("source range", And(s.f <= p, p <= e, e <= s.n)),
            ("room for the entries", v.nso + 4 * (e - p) <= v.lvo - v.KV * (e - p)),
            ("source keys follow the present ones", FA([i_, j_], Implies(And(v.f <= i_, i_ < v.n, p <= j_, j_ < e), v.key(i_) < s.key(j_)), [z3.MultiPattern(v.slot(i_), s.slot(j_))])),
            ("source keys between the fences", FA([j_], Implies(And(p <= j_, j_ < e), And(v.lo < s.key(j_) if self.inner else v.lo <= s.key(j_), s.key(j_) < v.hi)), [s.slot(j_)]))]
    def partial(self, o, v, s, p, cnt):
        out = [("entry count", And(v.n == o.n + cnt, v.dead == o.dead)), ("other header fields unchanged", v.same_hdr(o, ("lps", "n", "nso", "lvo"))),
               ("earlier entries unchanged", FA([i_], Implies(And(o.f <= i_, i_ < o.n), And(v.slot(i_) == o.slot(i_), entry_eq(v, i_, o, i_))), [v.slot(i_)])),
               ("earlier entries survive", FA([i_], Implies(And(o.f <= i_, i_ < o.n), And(v.slot(i_) == o.slot(i_), entry_eq(v, i_, o, i_))), [o.slot(i_)])),
               ("copied entries come from the source", FA([i_], Implies(And(o.n <= i_, i_ < o.n + cnt), entry_eq(v, i_, s, p + i_ - o.n)), [v.slot(i_)])),
               ("source entries are copied", FA([j_], Implies(And(p <= j_, j_ < p + cnt), entry_eq(v, o.n + j_ - p, s, j_)), [s.slot(j_)]))]
        if self.inner: out.append(("first child unchanged", And(*([v.slot(0) == o.slot(0), v.child(0) == o.child(0)] + AT((o.b, 0))))))
        return out
    def post(self, c):
        o, v, s = self.view(c.H0, c.a["this"]), self.view(c.H1, c.a["this"]), self.view(c.H0, c.a["src"]); p, e = c.a["start_pos"], c.a["end_pos"]
        return self.partial(o, v, s, p, e - p) + v.ok()
    def loop_cands(self, X, entry, hv, info):
        c = self.c0; o, s = self.view(c.H0, c.a["this"]), self.view(c.H0, c.a["src"]); p, e = c.a["start_pos"], c.a["end_pos"]
        out = []
        for n, t in position_terms(X, info):
            out += [(n + ">=start", lambda st, t=t: t(st) >= p), (n + "<=end", lambda st, t=t: t(st) <= e)]
            out += [(n + "<=end-start", lambda st, t=t: t(st) <= e - p), (n + ">=0", lambda st, t=t: t(st) >= 0)]
        # progress is measured by the page itself: cnt = n(this) - n0(this)
        def cnt(st): return self.view(st.heap, o.b).n - o.n
        for n, t in position_terms(X, info):
            out.append((n + " = start + copied", lambda st, t=t: t(st) == p + cnt(st)))
            out.append((n + " = copied", lambda st, t=t: t(st) == cnt(st)))
            out.append((n + " = remaining", lambda st, t=t: t(st) == e - p - cnt(st)))
        out.append(("copied between 0 and all", lambda st: And(cnt(st) >= 0, cnt(st) <= e - p)))
        for k, (l, f) in enumerate(self.partial(o, self.view(hv.heap, o.b), s, p, cnt(hv))):
            out.append((l, lambda st, k=k: self.partial(o, self.view(st.heap, o.b), s, p, cnt(st))[k][1]))
        for k, (l, f) in enumerate(self.view(hv.heap, o.b).ok()):
            out.append((l, lambda st, k=k: self.view(st.heap, o.b).ok()[k][1]))
        return out

class Update(PC):
    inner = True; writes_heap = True; params = [("this", "node"), ("pos", "int"), ("val", "pref")]
    def mods(self, c): return [c.a["this"]]
    def pre(self, c):
        v = self.view(c.H0, c.a["this"]); return v.ok() + [("position in range", And(0 <= c.a["pos"], c.a["pos"] < v.n))]
    def post(self, c):
        o, v = self.view(c.H0, c.a["this"]), self.view(c.H1, c.a["this"]); p = c.a["pos"]
        return [("child replaced", v.child(p) == c.a["val"]), ("header unchanged", v.same_hdr(o)), ("slots unchanged", FA([i_], Implies(Or(v.valid(i_), i_ == 0), v.slot(i_) == o.slot(i_)), [v.slot(i_)])),
                ("keys unchanged", FA([i_], Implies(v.valid(i_), v.key(i_) == o.key(i_)), [v.slot(i_)])),
                ("other children unchanged", FA([i_], Implies(And(0 <= i_, i_ < o.n, i_ != p), And(*([v.child(i_) == o.child(i_)] + AT((v.b, i_))))), [v.slot(i_)]))] + v.ok()

class Remove(PC):
    def ghost_content(self, X, st, c):
        if not self.inner: setG(st, "M", z3.Store(st.ghost["M"], self.view(c.H0, c.a["this"]).key(c.a["pos"]), z3.BoolVal(False)))
    writes_heap = True; params = [("this", "node"), ("pos", "int")]
    def mods(self, c): return [c.a["this"]]
    def pre(self, c):
        v = self.view(c.H0, c.a["this"]); return v.ok() + [("position in range", And(v.f <= c.a["pos"], c.a["pos"] < v.n))]
    def post(self, c):
        o, v = self.view(c.H0, c.a["this"]), self.view(c.H1, c.a["this"]); p = c.a["pos"]
        out = [("one entry less, one more dead", And(v.n == o.n - 1, v.dead == o.dead + 1)), ("other header fields unchanged", v.same_hdr(o, ("lps", "n", "nso", "dead"))),
               ("entries before the position unchanged", FA([i_], Implies(And(o.f <= i_, i_ < p), And(v.slot(i_) == o.slot(i_), entry_eq(v, i_, o, i_))), [v.slot(i_)])),
               ("entries after the position move down", FA([i_], Implies(And(i_ >= p, i_ < v.n), And(v.slot(i_) == o.slot(i_ + 1), entry_eq(v, i_, o, i_ + 1))), [v.slot(i_)])),
               ("old entries before survive", FA([i_], Implies(And(o.f <= i_, i_ < p), And(v.slot(i_) == o.slot(i_), entry_eq(v, i_, o, i_))), [o.slot(i_)])),
               ("old entries after survive", FA([i_], Implies(And(i_ > p, i_ < o.n), And(v.slot(i_ - 1) == o.slot(i_), entry_eq(v, i_ - 1, o, i_))), [o.slot(i_)]))]
        if self.inner: out.append(("first child unchanged", And(*([v.slot(0) == o.slot(0), v.child(0) == o.child(0)] + AT((o.b, 0))))))
        return out + v.ok()

def same_entries(v, o, a, e, d=0):
    """entries a..e-1 of o appear in v shifted by d (both directions triggered)"""
    return [("entries come from the original", FA([i_], Implies(And(a + d <= i_, i_ < e + d), entry_eq(v, i_, o, i_ - d)), [v.slot(i_)])),
            ("entries of the original are kept", FA([j_], Implies(And(a <= j_, j_ < e), entry_eq(v, j_ + d, o, j_)), [o.slot(j_)]))]

def detach(st, b, cond=True):
    """ghost: a page that has been superseded is no longer part of the tree until it is released"""
    E = st.ghost.get("E")
    if E is not None: setE(st, z3.Store(E, b, Or(Select(E, b), B(cond))))

def setG(st, n, x):
    E = fresh_const(n, x.sort()); st.assume(E == x); st.ghost[n] = E
def setE(st, x): setG(st, "E", x)

class Alloc(PC):
    allocs = True; retkind = "node"; params = [("lowkey", "optref"), ("highkey", "optref"), ("height", "int")]
    def post(self, c):
        v = self.view(c.H1, c.res); L = self.u.lay; (le, lv), (he, hv) = c.a["lowkey"], c.a["highkey"]
        return [("fresh page", And(v.live(), v.b > 0, Not(Select(c.H0.live, v.b)), Select(c.H1.ak, v.b) == 1)),
                ("empty page of the right kind", And(v.ty == self.inner, v.n == 0, v.dead == 0, v.lps == 0, v.nso == L.HDR, v.lvo == L.NODE, v.ht == c.a["height"])),
                ("fences stored", And(v.loE == le, v.hiE == he, Implies(le, v.loV == lv), Implies(he, v.hiV == hv))),
                ("fence values are ints", v.range()[1][1])]
    def post_goal_only(self, c):
        H0, H1, r = c.H0, c.H1, c.res
        return frame_goal(H0, H1, [r]) + [("only the new page becomes allocated", H1.live == z3.Store(H0.live, r, z3.BoolVal(True)))]

def frame_goal(H0, H1, bs):
    g = []
    for nm, arr in H1.arrays().items():
        if nm in ("live",): continue
        old = H0.arrays()[nm]
        e = old
        for b in bs: e = z3.Store(e, b, Select(arr, b))
        if not arr.eq(e): g.append(("other pages unchanged (%s)" % nm, arr == e))
    return g

class Free(PC):
    writes_heap = True; frees = True; params = [("node", "node")]
    def mods(self, c): return [c.a["node"]]
    def pre(self, c):
        n = c.a["node"]; H = c.H0
        return [("page is allocated", And(Select(H.live, n), n > 0)), ("page came from the page allocator", Select(H.ak, n) == 1),
                ("page is well formed", And(V(self.u, H, n, False).n <= self.u.lay.NODE, Implies(Select(H["ty"], n), And(*[f for _, f in V(self.u, H, n, True).layout() + V(self.u, H, n, True).slots()])),
                    Implies(Not(Select(H["ty"], n)), And(*[f for _, f in V(self.u, H, n, False).layout() + V(self.u, H, n, False).slots()]))))]
    def apply(self, X, st, args, ins):
        X.c.in_free = True
        try: rv = PC.apply(self, X, st, args, ins)
        finally: X.c.in_free = False
        if hasattr(X.c, "after_free"): X.c.after_free(X, st, args[0].b.z()); return rv
        E = st.ghost.get("E")
        if E is not None: setE(st, z3.Store(E, args[0].b.z(), z3.BoolVal(False)))
        return rv
    def havoc_page(self, H, b):
        # the bytes of a released page keep their (irrelevant) values: every access proves that its page is live, and an
        # allocation gives the page arbitrary contents
        H.live = z3.Store(H.live, b, z3.BoolVal(False))
    def post(self, c):
        return [("the page and only it is released", c.H1.live == z3.Store(c.H0.live, c.a["node"], z3.BoolVal(False)))]

class Trim(PC):
    def detach(self, X, st, a, res): detach(st, a["this"])
    allocs = True; retkind = "node"; params = [("this", "node")]
    def pre(self, c): return self.view(c.H0, c.a["this"]).ok()
    def post(self, c):
        o, v = self.view(c.H0, c.a["this"]), self.view(c.H1, c.res)
        return [("fresh page", And(v.b > 0, Not(Select(c.H0.live, v.b)), Select(c.H1.ak, v.b) == 1)),
                ("same count, fences and height, no dead space", And(v.n == o.n, v.dead == 0, v.lo == o.lo, v.hi == o.hi, v.loE == o.loE, v.hiE == o.hiE, v.ht == o.ht))] + \
            ([("first child kept", And(*([v.child(0) == o.child(0)] + AT((o.b, 0)))))] if self.inner else []) + same_entries(v, o, o.f, o.n) + v.ok()
    def post_goal_only(self, c):
        return frame_goal(c.H0, c.H1, [c.res]) + [("only the new page becomes allocated", c.H1.live == z3.Store(c.H0.live, c.res, z3.BoolVal(True)))]

class Split(PC):
    def detach(self, X, st, a, res): detach(st, a["this"])
    retkind = "split"; params = [("sret", "sret"), ("this", "node")]; writes_args = (0,)
    def pre(self, c):
        v = self.view(c.H0, c.a["this"]); return v.ok() + [("enough entries to split", v.n > 2)]
    def result(self, X, st, a, ins):
        l = X.u.mem.alloc(X, st, 1); r = X.u.mem.alloc(X, st, 1)
        key = fresh_int("k"); st.assume(And(key >= -2**31, key < 2**31)); s = self.u.lay.split
        cells = st.loc.setdefault(a["sret"], {}); o = a["sret_o"]
        cells[o + s[0]] = (8, Ptr(l, 0)); cells[o + s[1]] = (8, Ptr(r, 0)); cells[o + s[2]] = (4, lin(key))
        return None, (l, r, key)
    def post(self, c):
        o = self.view(c.H0, c.a["this"]); l, r, k = c.res; a, b = self.view(c.H1, l), self.view(c.H1, r)
        out = [("fresh pages", And(a.b > 0, b.b > 0, a.b != b.b, Not(Select(c.H0.live, l)), Not(Select(c.H0.live, r)), Select(c.H1.ak, l) == 1, Select(c.H1.ak, r) == 1)),
               ("fences and height", And(a.lo == o.lo, a.hi == k, b.lo == k, b.hi == o.hi, a.hiE, b.loE, a.ht == o.ht, b.ht == o.ht, a.loE == o.loE, b.hiE == o.hiE)),
               ("no dead space", And(a.dead == 0, b.dead == 0)),
               ("both parts keep room for one more entry", And(a.n >= 1, b.n >= 1, a.nso + 4 <= a.lvo - a.KV, b.nso + 4 <= b.lvo - b.KV))]
        if self.inner:
            out += [("entries are divided at the split key", And(a.n + b.n == o.n, o.key(a.n) == k)),
                    ("first child kept", And(*([a.child(0) == o.child(0)] + AT((o.b, 0))))), ("separator's child leads the right page", And(*([b.child(0) == o.child1(a.n)] + AT((o.b, a.n)))))]
            out += [("left: " + x, f) for x, f in same_entries(a, o, 1, a.n)] + [("right: " + x, f) for x, f in same_entries(b, o, a.n + 1, o.n, -a.n)]
        else:
            out += [("entries are divided at the split key", And(a.n + b.n == o.n, o.key(a.n) == k))]
            out += [("left: " + x, f) for x, f in same_entries(a, o, 0, a.n)] + [("right: " + x, f) for x, f in same_entries(b, o, a.n, o.n, -a.n)]
        return out + [("left: " + x, f) for x, f in a.ok()] + [("right: " + x, f) for x, f in b.ok()]
    def post_goal_only(self, c):
        l, r, k = c.res
        return frame_goal(c.H0, c.H1, [l, r]) + [("only the new pages become allocated", c.H1.live == z3.Store(z3.Store(c.H0.live, l, z3.BoolVal(True)), r, z3.BoolVal(True)))]

class Merge(PC):
    def detach(self, X, st, a, res):
        detach(st, a["this"], res != 0); detach(st, a["other"], res != 0)
    retkind = "node"; params = [("this", "node"), ("other", "node"), ("merge_key", "kref")]
    def pre(self, c):
        v, w = self.view(c.H0, c.a["this"]), self.view(c.H0, c.a["other"]); k = c.a["merge_key"]
        return v.ok() + [("other: " + l, f) for l, f in w.ok()] + [("distinct pages", v.b != w.b), ("adjacent ranges", And(v.hi == k, w.lo == k)), ("same height", v.ht == w.ht)]
    def result(self, X, st, a, ins):
        b = X.u.mem.alloc(X, st, 1)
        # the page exists only when the merge takes place
        res = fresh_int("merged"); H = st.heap
        st.assume(Or(res == 0, res == b))
        H.live = z3.Store(H.live, b, res == b)
        return Ptr(res, 0), res
    def post(self, c):
        o, w = self.view(c.H0, c.a["this"]), self.view(c.H0, c.a["other"]); r = c.res; v = self.view(c.H1, r); k = c.a["merge_key"]
        out = [("fresh page", And(v.b > 0, Not(Select(c.H0.live, v.b)), Select(c.H1.ak, v.b) == 1)),
               ("range is the union", And(v.lo == o.lo, v.hi == w.hi, v.loE == o.loE, v.hiE == w.hiE, v.ht == o.ht)),
               ("counts add up, no dead space", And(v.n == o.n + w.n, v.dead == 0))]
        if self.inner:
            out += [("first child kept", And(*([v.child(0) == o.child(0)] + AT((o.b, 0))))), ("separating entry", And(*([v.key(o.n) == k, v.child1(o.n) == w.child(0)] + AT((w.b, 0)))))]
            out += [("left: " + x, f) for x, f in same_entries(v, o, 1, o.n)] + [("right: " + x, f) for x, f in same_entries(v, w, 1, w.n, o.n)]
        else:
            out += [("left: " + x, f) for x, f in same_entries(v, o, 0, o.n)] + [("right: " + x, f) for x, f in same_entries(v, w, 0, w.n, o.n)]
        out = [(l, Implies(r != 0, f)) for l, f in out + v.ok()]
        return out
    def post_goal_only(self, c):
        r = c.res
        return [(l, Implies(r != 0, f)) for l, f in frame_goal(c.H0, c.H1, [r])] + \
               [("nothing changes when the pages do not fit", Implies(r == 0, And(*([x == c.H0.arrays()[n] for n, x in c.H1.arrays().items() if not x.eq(c.H0.arrays()[n])] + [z3.BoolVal(True)])))),
                ("only the new page becomes allocated", Implies(r != 0, c.H1.live == z3.Store(c.H0.live, r, z3.BoolVal(True))))]
