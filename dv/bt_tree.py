"""Tree-level contracts of include/indexes/btree/map.h.

Ghost state: E = allocated pages that are not part of the tree (superseded, about to be released); every other allocated page
is a tree page (N).  M/V = the map's abstract content.  The invariant is split in named parts; PT (children of an inner
page partition its range) is required from level h upwards so that a contract at level h frames everything below."""
import z3
from core import *
from pagemem import *
from sx import *
from contract import *
import bt_page as bp
from bt_page import V, PC, FA, BIG, i_, j_, b_, And, Or, Not, Implies, If, Select, pg, at

c_ = z3.Int("c"); k_ = z3.Int("k")
AB_ = z3.ArraySort(z3.IntSort(), z3.BoolSort()); AI_ = z3.ArraySort(z3.IntSort(), z3.IntSort())

class TV:
    """tree view: heap + ghost set E"""
    def __init__(s, u, H, E): s.u, s.H, s.E = u, H, E
    def N(s, b): return And(Select(s.H.live, b), Not(Select(s.E, b)))
    def v(s, b, inner): return V(s.u, s.H, b, inner)
    def ht(s, b): return sel(s.H["ht"], b)
    def ty(s, b): return sel(s.H["ty"], b)
    def lo(s, b): return s.v(b, False).lo
    def hi(s, b): return s.v(b, False).hi
    # ---- invariant parts
    def pages(s, mh):
        lv, iv = s.v(b_, False), s.v(b_, True); H = s.H; N = s.N(b_); out = []
        al, ai, S = lv.slot(i_), iv.slot(i_), None
        L = s.u.lay
        hdr = And(b_ > 0, Select(H.ak, b_) == 1, lv.ht >= 0, lv.ht <= mh, lv.ty == (lv.ht > 0))
        out.append(("every page of the tree has a height within the tree's", FA([b_], Implies(And(pg(b_), N), hdr), [pg(b_)])))
        out.append(("fill accounting of every leaf", FA([b_], Implies(And(pg(b_), N, Not(lv.ty)), And(*[f for _, f in lv.layout()])), [pg(b_)])))
        out.append(("fill accounting of every inner page", FA([b_], Implies(And(pg(b_), N, lv.ty), And(*([f for _, f in iv.layout()] + [iv.slot(0) == L.NODE - 8]))), [pg(b_)])))
        out.append(("fences of every page are ordered", FA([b_], Implies(And(pg(b_), N), And(lv.lo < lv.hi, lv.range()[1][1])), [pg(b_)])))
        for nm, w, cond in (("leaf", lv, Not(lv.ty)), ("inner page", iv, lv.ty)):
            si, sj = w.slot(i_), w.slot(j_); top = L.NODE - (8 if w.inner else 0); a = L.ALI if w.inner else L.ALL
            out.append(("slots of every %s designate entries inside it, keys between its fences" % nm,
                        FA([b_, i_], Implies(And(N, cond, w.valid(i_)), And(si >= w.lvo, si + w.KV <= top, si % a == 0, (w.lo < w.key(i_)) if w.inner else (w.lo <= w.key(i_)), w.key(i_) < w.hi)), [si])))
            out.append(("entries of every %s are disjoint and in strict key order" % nm,
                        FA([b_, i_, j_], Implies(And(N, cond, w.f <= i_, i_ < j_, j_ < w.n), And(Or(si + w.KV <= sj, sj + w.KV <= si), w.key(i_) < w.key(j_))), [z3.MultiPattern(si, sj)])))
        return out
    def children(s, h, mode):
        w = s.v(b_, True); c = w.child(i_); kind = mode[0]
        lo_ok = s.lo(c) == w.sep(i_); hi_t = w.seph(i_)
        base = [s.N(c), s.ht(c) == w.ht - 1] + ([pg(c)] if bp.HYP[0] else [])
        cond = And(pg(b_), at(b_, i_), s.N(b_), w.ty, w.ht >= h, 0 <= i_, i_ < w.n)
        if kind == "full": body = And(*(base + [lo_ok, s.hi(c) == hi_t]))
        elif kind == "gap":
            p, K, U = mode[1:]; here = And(b_ == p, w.sep(i_) < K, K < hi_t)
            body = And(*(base + [lo_ok, s.hi(c) == If(here, K, hi_t), Implies(here, hi_t == U)]))
        elif kind == "hole":
            p, q, U = mode[1:]
            body = And(Implies(And(b_ == p, i_ == q), hi_t == U), Or(And(b_ == p, i_ == q), And(*(base + [lo_ok, s.hi(c) == hi_t]))))
        elif kind == "extra":
            p, q = mode[1:]
            body = Or(And(b_ == p, i_ == q), And(*(base + [lo_ok, s.hi(c) == If(And(b_ == p, i_ == q - 1), w.seph(q), hi_t)])))
        return [("children of inner pages partition their range, one level below", FA([b_, i_], Implies(cond, body), [at(b_, i_)]))]
    def disjoint(s):
        return [("pages of one level have disjoint ranges (no page is left over)", FA([b_, c_], Implies(And(pg(b_), pg(c_), s.N(b_), s.N(c_), s.ht(b_) == s.ht(c_), b_ != c_),
                 Or(s.hi(b_) <= s.lo(c_), s.hi(c_) <= s.lo(b_))), [z3.MultiPattern(pg(b_), pg(c_))]))]
    def root(s, root, mh):
        r = root
        return [("the root covers all keys at the tree's height", Implies(r != 0, And(s.N(r), s.lo(r) == -BIG, s.hi(r) == BIG, s.ht(r) == mh))),
                ("an empty tree has no page", Implies(r == 0, And(mh == 0, FA([b_], Not(And(pg(b_), s.N(b_))), [pg(b_)]))))]
    def inv(s, mv, h=0, mode=("full",)):
        if isinstance(h, int): h = z3.IntVal(max(h, 1))
        else: h = If(h >= 1, h, 1)
        return s.pages(mv.height) + s.children(h, mode) + s.disjoint() + s.root(mv.root, mv.height)
    def content(s, mv, M, VV):
        w = s.v(b_, False)
        return [("every stored entry belongs to the map's content, with its value", FA([b_, i_], Implies(And(pg(b_), s.N(b_), Not(w.ty), 0 <= i_, i_ < w.n), And(Select(M, w.key(i_)), Select(VV, w.key(i_)) == w.val(i_))), [w.slot(i_)])),
                ("every key of the content is stored in the leaf whose range contains it", FA([b_, k_], Implies(And(pg(b_), s.N(b_), Not(w.ty), w.lo <= k_, k_ < w.hi, Select(M, k_)),
                    z3.Exists([i_], And(0 <= i_, i_ < w.n, w.key(i_) == k_), patterns=[w.slot(i_)])), [z3.MultiPattern(pg(b_), Select(M, k_))])),
                ("keys of the content are ints", FA([k_], Implies(Select(M, k_), And(k_ >= -2**31, k_ < 2**31)), [Select(M, k_)])),
                ("a map without pages is empty", Implies(mv.root == 0, FA([k_], Not(Select(M, k_)), [Select(M, k_)])))]

CAT = (("fill accounting of every leaf", "LF"), ("fill accounting of every inner", "IF"), ("slots of every leaf", "LS"), ("entries of every leaf", "LS"), ("slots of every inner", "IS"), ("entries of every inner", "IS"),
       ("children of inner pages", "CH"), ("pages of one level", "DJ"), ("every stored entry", "CT"), ("every key of the content", "CT"), ("keys of the content", "CT"), ("pages of lower levels", "FR"), ("no page of a lower level", "FR"))
DROP = {"LF": {"CT", "CH", "DJ", "LS", "IS", "IF", "pgI"}, "IF": {"CT", "CH", "DJ", "LS", "IS", "LF", "pgL"}, "LS": {"CT", "CH", "DJ", "IS", "IF", "pgI"}, "IS": {"CT", "CH", "DJ", "LS", "LF", "pgL"},
        "CH": {"CT", "LS", "LF", "pgL"}, "DJ": {"CT", "LS", "LF", "pgL", "IS", "IF"}, "CT": {"IS", "IF", "CH", "pgI"}, "FR": {"CT", "CH", "DJ", "LS", "IS", "LF", "IF"}}
def cat(l):
    l = l.split(": ")[-1]
    for p, c in CAT:
        if l.startswith(p): return c
    return None
def pair_fact(f):
    """a fact about every two entries of a page (order, disjointness): quadratic for the solver"""
    if z3.is_implies(f): f = f.arg(1)
    return z3.is_quantifier(f) and f.num_patterns() == 1 and f.pattern(0).num_args() == 2 and all(z3.is_select(x) for x in f.pattern(0).children())
def slim(o):
    """hypotheses for the first attempts at an obligation: only the facts of its own kind (sound: hypotheses are only dropped)"""
    c = cat(o.label)
    if c is None or o.tags is None: return None
    d = DROP[c]
    return [f for f, t in zip(o.facts, o.tags) if t not in d]
def slimmer(o):
    c = cat(o.label)
    if c not in ("CH", "CT") or o.tags is None: return None
    d = DROP[c] | ({"IS", "DJ", "IF"} if c == "CH" else {"DJ"})
    return [f for f, t in zip(o.facts, o.tags) if t not in d and not (pair_fact(f) and t != c)]

class TC(PC):
    """tree-level contract"""
    def tag(self, l): return cat(l) or "other"
    def slim(self, o): return slim(o)
    def slimmer(self, o): return slimmer(o)
    def after_child_store(self, X, st, H0, b, o, val):
        """ghost step after a direct store of a child pointer: what it means for the page as a whole is proved here, and the
        rest of the proof uses only that (an assertion followed by forgetting everything else about the page's body)"""
        if len(o.t) != 1: return
        (k, x), = o.t.values()
        L = self.u.lay
        if k != 1 or o.c != L.VOI or not z3.is_select(x) or not x.arg(0).eq(sel(H0.S, b)): return
        p = x.arg(1)
        u = self.u.contracts.get("Inner::update")
        if u is None: return
        c = Ctx(X, {"this": b, "pos": p, "val": val}, st, H0, st.heap, None, st)
        bp.HYP[0] = False
        for l, f in u.pre(c): X.oblige(st, f, "child store: " + l)
        for l, f in u.post(c): X.oblige(st, f, "child store: " + l)
        H = st.heap = st.heap.copy()
        for nm in ("K", "S", "P"): H.set(nm, z3.Store(getattr(H0, nm), b, fresh_const(nm, AI)))
        c.H1 = H
        bp.HYP[0] = True
        for l, f in u.post(c): st.assume(f, u.tag(l))
        bp.HYP[0] = False
    def goal_tag(self, label):
        c = cat(label)
        return c or ("pgL" if "<Leaf>" not in label and "Leaf::" in label else None)
    kindN = None          # "Leaf"/"Inner"
    readonly = False
    ghostG = False; ghostU = False
    has_content = False   # content is part of the contract
    timeout_ms = 60000
    houdini_ms = 10000
    @property
    def writes_heap(self): return not self.readonly
    @property
    def inner(self): return self.kindN == "Inner"
    @inner.setter
    def inner(self, x): pass
    def level(self, c): return z3.IntVal(0)
    def tv(self, c, H): return TV(self.u, H, c.a["E"])
    def tree_pre(self, c): return []
    def pre(self, c):
        return [("detached pages are allocated", FA([b_], Implies(Select(c.a["E"], b_), Select(c.H0.live, b_)), [Select(c.a["E"], b_)]))] + self.tree_pre(c)
    def content_after(self, c): return c.a["M"], c.a["V"]
    def ghosts(self, X, st, a, side):
        if side == "self":
            E, M, VV = z3.Const("E", AB_), z3.Const("M", AB_), z3.Const("V", AI_)
            st.ghost["E"], st.ghost["M"], st.ghost["V"] = E, M, VV
            a["E"], a["M"], a["V"] = E, M, VV
            if self.ghostG: a["G"] = z3.Int("G"); st.ghost["G"] = a["G"]
            if self.ghostU and self.inner: a["U"] = z3.Int("U"); st.ghost["U"] = a["U"]
        else:
            a["E"], a["M"], a["V"] = st.ghost.get("E"), st.ghost.get("M"), st.ghost.get("V")
            if a["E"] is None: X.unsupported(st, "call of %s outside the tree level" % self.name)
            if self.ghostG:
                if st.ghost.get("G") is None: X.unsupported(st, "no ghost key for %s" % self.name)
                a["G"] = st.ghost["G"]
            if self.ghostU and self.inner:
                if st.ghost.get("U") is None: X.unsupported(st, "no ghost bound for %s" % self.name)
                a["U"] = st.ghost["U"]
    def setup(self, X):
        st = State(); st.heap = Heap("0")
        st.assume(Not(Select(st.heap.live, 0)))
        a = {}
        if len(X.F.params) != len(self.params): raise Unsupported("signature changed: %d parameters, contract has %d" % (len(X.F.params), len(self.params)))
        for k, (nm, kind) in enumerate(self.params): st.regs["%%a%d" % k] = self.make(X, st, nm, kind, a)
        self.ghosts(X, st, a, "self")
        self.c0 = Ctx(X, a, st, st.heap, st.heap)
        bp.HYP[0] = True
        for l, f in self.pre(self.c0): st.assume(f, self.tag(l))
        for x in self.own_ghost(X, st, a): st.assume(x)
        bp.HYP[0] = False
        for nm, v in a.items():
            if (nm, "node") in self.params or (nm, "node?") in self.params: st.assume(pg(v))
        if "map" in a: st.assume(pg(a["M0"].root))
        st.ghost["fresh"] = ()
        return st
    def own_ghost(self, X, st, a): return []
    def can_write(self, X, st, b):
        if self.readonly: return z3.BoolVal(False)
        H0 = self.c0.H0
        return Or(Not(Select(H0.live, b)), And(Not(Select(self.c0.a["E"], b)), sel(H0["ht"], b) >= self.level(self.c0), pg(b)) if False else And(Not(Select(self.c0.a["E"], b)), sel(H0["ht"], b) >= self.level(self.c0)))
    can_free = can_write
    def loop_havoc(self, X, entry, hv):
        X.unsupported(entry, "loop that modifies pages")
    def frame_facts(self, H0, H1, E, h):
        """pages outside the reach of a call at level h are untouched, and pages below level h neither appear nor disappear"""
        out = []
        same = And(*[Select(H1.arrays()[n], b_) == Select(H0.arrays()[n], b_) for n in H0.arrays() if n != "live" and not H1.arrays()[n].eq(H0.arrays()[n])] + [z3.BoolVal(True)])
        kept = And(Select(H0.live, b_), Or(Select(E, b_), Select(H0["ht"], b_) < h))
        out.append(("pages below the level and detached pages stay", kept, Select(H1.live, b_)))
        return kept, same
    def frame_posts(self, c, hyp):
        if self.readonly: 
            return []
        H0, H1, E = c.H0, c.H1, c.a["E"]; h = self.level(c)
        kept = And(Select(H0.live, b_), Or(Select(E, b_), sel(H0["ht"], b_) < h))
        out = []
        if hyp:
            for n, x in H1.arrays().items():
                y = H0.arrays()[n]
                if n == "live": out.append(("frame", FA([b_], Implies(kept, Select(x, b_)), [Select(x, b_)])))
                else: out.append(("frame", FA([b_], Implies(kept, Select(x, b_) == Select(y, b_)), [Select(x, b_)])))
            out.append(("frame", FA([b_], Implies(And(Select(H1.live, b_), Not(Select(E, b_)), Select(H1["ht"], b_) < h), And(Select(H0.live, b_), Select(H0["ht"], b_) < h)), [Select(H1.live, b_)])))
        else:
            same = []
            for n, x in H1.arrays().items():
                y = H0.arrays()[n]
                if x.eq(y): continue
                if n == "live": out.append(("pages of lower levels and detached pages stay allocated", FA([b_], Implies(And(pg(b_), kept), Select(x, b_)), [Select(x, b_)])))
                else: same.append(Select(x, b_) == Select(y, b_))
            if same: out.append(("pages of lower levels and detached pages are unchanged", FA([b_], Implies(And(pg(b_), kept), And(*same)), [pg(b_)])))
            if not H1.live.eq(H0.live) or not H1["ht"].eq(H0["ht"]):
                out.append(("no page of a lower level appears", FA([b_], Implies(And(pg(b_), Select(H1.live, b_), Not(Select(E, b_)), sel(H1["ht"], b_) < h), And(Select(H0.live, b_), sel(H0["ht"], b_) < h)), [Select(H1.live, b_)])))
        return out
    def post_goal_only(self, c):
        out = list(self.frame_posts(c, False))
        if self.readonly:
            for n, x in c.H1.arrays().items():
                if not x.eq(c.H0.arrays()[n]): out.append(("pages are not modified (%s)" % n, x == c.H0.arrays()[n]))
        if "map" in c.a:
            for f in ("root", "count", "height"):
                if f not in self.map_mods:
                    x, y = getattr(c.a["M0"], f), getattr(c.a["M1"], f)
                    if x is None or y is None: out.append(("map field '%s' well defined" % f, z3.BoolVal(False)))
                    elif not x.eq(y): out.append(("map field '%s' unchanged" % f, x == y))
        return out
    def check_return(self, X, st, r):
        bp.HYP[0] = False
        PC.check_return(self, X, st, r)
    # ---- call side
    def apply(self, X, st, args, ins):
        if len(args) != len(self.params): X.unsupported(st, "call of %s with a different signature" % self.name)
        try: a = self.bind(X, st, args)
        except (KeyError, AttributeError) as e: X.unsupported(st, "arguments of %s (%r)" % (self.name, e))
        for nm, v in a.items():
            if (nm, "node") in self.params or (nm, "node?") in self.params: st.assume(pg(v))
        if "map" in a: st.assume(pg(a["M0"].root))
        self.ghosts(X, st, a, "call")
        c = Ctx(X, a, st, st.heap, st.heap)
        short = self.name.split("::")[-1]
        bp.HYP[0] = False
        for l, f in self.pre(c): X.oblige(st, f, "pre of %s: %s" % (short, l))
        H0 = st.heap
        if not self.readonly:
            h = self.level(c)
            b = b_
            X.oblige(st, FA([b], Implies(And(pg(b), Select(H0.live, b), Not(Select(a["E"], b)), sel(H0["ht"], b) >= h), X.c.can_write(X, st, b)), [pg(b)]), "frame: %s modifies only pages this function may modify" % short)
            for (nm, kind) in self.params:
                p = a.get(nm + "_ptr")
                if p is not None and p.heap():
                    X.oblige(st, Or(Select(a["E"], p.b.z()), sel(H0["ht"], p.b.z()) < h), "argument '%s' of %s outlives the call" % (nm, short))
            st.heap = Heap("c")
            st.assume(Not(Select(st.heap.live, 0)))
        rv, res = self.result(X, st, a, ins)
        c = Ctx(X, a, st, H0, st.heap, res, st)
        self.havoc_map(X, st, c)
        bp.HYP[0] = True
        m, vv = self.content_after(c)
        if not m.eq(a["M"]): x = fresh_const("M", AB_); st.assume(x == m); m = x
        if not vv.eq(a["V"]): x = fresh_const("V", AI_); st.assume(x == vv); vv = x
        st.ghost["M"], st.ghost["V"] = m, vv
        c.a["Mc"], c.a["Vc"] = m, vv
        for l, f in self.frame_posts(c, True): st.assume(f, "frame")
        for l, f in self.post(c): st.assume(f, self.tag(l))
        bp.HYP[0] = False
        if "map" in a: st.assume(pg(c.a["M1"].root))
        for x in (res if isinstance(res, tuple) else (res,)):
            if z3.is_expr(x) and x.sort() == z3.IntSort() and self.retkind in ("node", "split", "ni", "iter", "vaddr") and not (isinstance(res, tuple) and x is not res[0] and not (self.retkind == "split" and x is res[1])): st.assume(pg(x))
        return rv
    def M1V1(self, c):
        if "Mc" in c.a: return c.a["Mc"], c.a["Vc"]
        return self.content_after(c)
    # ---- loops that descend the tree
    key_of = staticmethod(lambda c: c.a.get("key"))
    def descent_extra(self, c, t, p): return []
    def loop_cands(self, X, entry, hv, info):
        c = self.c0; t = self.tv(c, c.H0); out = []
        ns = [p for p, kind, x in info["phis"] if kind == "node"]
        m = c.a["M0"]; k = self.key_of(c)
        g = lambda s, p: s.regs[p.id].b.z()
        H = lambda s: TV(self.u, s.heap, c.a["E"])
        for p in ns:
            out.append(("%s is a tree page (or the tree is empty)" % p.id, lambda s, p=p: And(Implies(m.root != 0, And(t.N(g(s, p)), pg(g(s, p)))), Implies(m.root == 0, g(s, p) == 0))))
            out.append(("%s is a tree page or null" % p.id, lambda s, p=p: Implies(g(s, p) != 0, And(t.N(g(s, p)), pg(g(s, p))))))
            out.append(("%s null only in an empty tree" % p.id, lambda s, p=p: Implies(g(s, p) == 0, m.root == 0)))
            if k is not None:
                out.append(("range of %s contains the key" % p.id, lambda s, p=p: Implies(g(s, p) != 0, And(t.lo(g(s, p)) <= k, k < t.hi(g(s, p))))))
                out.append(("range of %s contains the keys just below" % p.id, lambda s, p=p: Implies(g(s, p) != 0, And(t.lo(g(s, p)) < k, k <= t.hi(g(s, p))))))
            out.append(("%s is leftmost" % p.id, lambda s, p=p: Implies(g(s, p) != 0, t.lo(g(s, p)) == -BIG)))
            out.append(("%s is rightmost" % p.id, lambda s, p=p: Implies(g(s, p) != 0, t.hi(g(s, p)) == BIG)))
            if "node" in c.a:
                nd = c.a["node"]
                out.append(("%s is not below the page sought" % p.id, lambda s, p=p: Implies(g(s, p) != 0, t.ht(g(s, p)) >= t.ht(nd))))
            for q in ns:
                if q is not p:
                    out.append(("%s is null exactly at the root" % p.id, lambda s, p=p, q=q: (g(s, p) == 0) == (g(s, q) == m.root)))
                    out.append(("%s is the parent of %s" % (p.id, q.id), lambda s, p=p, q=q: Implies(g(s, p) != 0, And(t.ht(g(s, p)) == t.ht(g(s, q)) + 1, t.lo(g(s, p)) <= t.lo(g(s, q)), t.hi(g(s, q)) <= t.hi(g(s, p))))))
        return out
    def loop_measures(self, X, entry, hv, info):
        c = self.c0; t = self.tv(c, c.H0); out = []
        for p, kind, x in info["phis"]:
            if kind == "node": out.append(("height of %s" % p.id, lambda s, p=p: t.ht(s.regs[p.id].b.z())))
        return out + default_measures(X, hv, info)

def first_key_ok(v): return Or(v.n > v.f, v.dead > 0)
def room(v): return v.nso + 4 <= v.lvo - v.KV
def full(v): return v.nso + 4 > v.lvo - v.KV
def absent(v, k): return FA([i_], Implies(And(v.f <= i_, i_ < v.n), v.key(i_) != k), [v.slot(i_)])

class FindParent(TC):
    readonly = True; retkind = "node"; params = [("map", "map"), ("node", "node")]
    def level(self, c): return sel(c.H0["ht"], c.a["node"])
    def tree_pre(self, c):
        t = self.tv(c, c.H0); nd = c.a["node"]; v = t.v(nd, self.inner)
        return t.inv(c.a["M0"], self.level(c) + 1) + [("page of the tree", t.N(nd)), ("page kind", v.ty == self.inner), ("the page has a first key", first_key_ok(v))]
    def post(self, c):
        t = self.tv(c, c.H0); r = c.res; nd = c.a["node"]
        return [("no parent exactly for the root", (r == 0) == (nd == c.a["M0"].root)),
                ("the parent is the inner page one level above that covers the page", Implies(r != 0, And(t.N(r), t.ty(r), t.ht(r) == t.ht(nd) + 1, t.lo(r) <= t.lo(nd), t.hi(nd) <= t.hi(r))))]
    @property
    def key_of(self):
        def f(c):
            v = V(self.u, c.H0, c.a["node"], self.inner); return v.key(v.f)
        return f

class LeafFor(TC):
    readonly = True; retkind = "node"; params = [("map", "map"), ("key", "kref")]
    def tree_pre(self, c): return self.tv(c, c.H0).inv(c.a["M0"])
    def post(self, c):
        t = self.tv(c, c.H0); r = c.res; k = c.a["key"]
        return [("null exactly for a tree without pages", (r == 0) == (c.a["M0"].root == 0)), ("the leaf whose range contains the key", Implies(r != 0, And(t.N(r), Not(t.ty(r)), t.ht(r) == 0, t.lo(r) <= k, k < t.hi(r))))]

class EdgeLeaf(TC):
    readonly = True; retkind = "node"; params = [("map", "map")]; last = False
    def tree_pre(self, c): return self.tv(c, c.H0).inv(c.a["M0"])
    def post(self, c):
        t = self.tv(c, c.H0); r = c.res
        return [("null exactly for a tree without pages", (r == 0) == (c.a["M0"].root == 0)), ("the outermost leaf", Implies(r != 0, And(t.N(r), Not(t.ty(r)), t.ht(r) == 0, (t.hi(r) == BIG) if self.last else (t.lo(r) == -BIG))))]
class LastLeaf(EdgeLeaf): last = True

class NeighbourLeaf(TC):
    readonly = True; retkind = "node"; params = [("map", "map"), ("leaf", "node")]; nxt = True
    def tree_pre(self, c):
        t = self.tv(c, c.H0); l = c.a["leaf"]
        return t.inv(c.a["M0"]) + [("leaf of the tree", And(t.N(l), Not(t.ty(l)))), ("has a neighbour", sel(c.H0["hiE" if self.nxt else "loE"], l))]
    def post(self, c):
        t = self.tv(c, c.H0); l = c.a["leaf"]; r = c.res
        q = And(t.lo(r) <= t.hi(l), t.hi(l) < t.hi(r)) if self.nxt else And(t.lo(r) < t.lo(l), t.lo(l) <= t.hi(r))
        return [("the neighbouring leaf", And(t.N(r), Not(t.ty(r)), t.ht(r) == 0, r != 0, (t.lo(r) == t.hi(l)) if self.nxt else (t.hi(r) == t.lo(l))))]
    @property
    def key_of(self): return lambda c: self.tv(c, c.H0).hi(c.a["leaf"]) if self.nxt else self.tv(c, c.H0).lo(c.a["leaf"])
class PrevLeaf(NeighbourLeaf): nxt = False

class Mutator(TC):
    map_mods = ("root", "height")
    def level(self, c): return sel(c.H0["ht"], c.a["node"])
    def gapmode(self, c, b, K, U=None): return ("gap", b, K, c.a["U"] if U is None else U) if self.inner else ("full",)
    def base_pre(self, c, mode, inner_key=None):
        t = self.tv(c, c.H0); nd = c.a["node"]; v = t.v(nd, self.inner)
        out = t.inv(c.a["M0"], self.level(c), mode) + [("page of the tree", t.N(nd)), ("page kind", v.ty == self.inner)]
        if not self.inner: out += t.content(c.a["M0"], c.a["M"], c.a["V"])
        return out
    def base_post(self, c, mode):
        t = self.tv(c, c.H1); out = t.inv(c.a["M1"], self.level(c), mode)
        if not self.inner: out += t.content(c.a["M1"], *self.M1V1(c))
        return out
    def parent_pre(self, c):
        t = self.tv(c, c.H0); p, nd = c.a["parent"], c.a["node"]
        return [("parent is null exactly for the root", (p == 0) == (nd == c.a["M0"].root)), ("parent covers the page", Implies(p != 0, And(t.N(p), t.ty(p), t.ht(p) == t.ht(nd) + 1, t.lo(p) <= t.lo(nd), t.hi(nd) <= t.hi(p))))]
    def key_pre(self, c, K):
        v = self.tv(c, c.H0).v(c.a["node"], self.inner)
        out = [("key between the fences", And(v.lo < K if self.inner else v.lo <= K, K < v.hi)), ("key is not in the page", absent(v, K))]
        return out

class TrimNode(Mutator):
    def fits(self, v):
        L = self.u.lay; ins = v.n - (1 if self.inner else 0) + 1
        return L.HDR + 4 * (v.n + 1) <= L.NODE - (8 if self.inner else 0) - (L.KVI if self.inner else L.KVL) * ins
    ghostU = True
    retkind = "node"; params = [("map", "map"), ("node", "node"), ("parent", "node?")]; map_mods = ("root",)
    @property
    def ghostG(self): return True
    def tree_pre(self, c):
        v = self.tv(c, c.H0).v(c.a["node"], self.inner)
        return self.base_pre(c, self.gapmode(c, c.a["node"], c.a["G"])) + self.parent_pre(c) + [("the page has a first key", first_key_ok(v)), ("compaction makes room for one entry", And(v.dead > 0, self.fits(v)))] + self.key_pre(c, c.a["G"])
    def post(self, c):
        t = self.tv(c, c.H1); r = c.res; v = t.v(r, self.inner); o = V(self.u, c.H0, c.a["node"], self.inner)
        return [("the compacted page replaces the old one", And(t.N(r), r > 0, v.ty == self.inner, v.ht == o.ht, v.lo == o.lo, v.hi == o.hi, v.n == o.n, v.dead == 0)), ("there is room for one entry", room(v)), ("key is not in the page", absent(v, c.a["G"]))] + self.base_post(c, self.gapmode(c, r, c.a["G"]))

class SplitNode(Mutator):
    ghostU = True
    retkind = "split"; params = [("sret", "sret"), ("map", "map"), ("node", "node"), ("parent", "node?")]; writes_args = (0,)
    @property
    def ghostG(self): return True
    def tree_pre(self, c):
        v = self.tv(c, c.H0).v(c.a["node"], self.inner)
        return self.base_pre(c, self.gapmode(c, c.a["node"], c.a["G"])) + self.parent_pre(c) + [("enough entries to split", v.n > 2)] + self.key_pre(c, c.a["G"])
    def result(self, X, st, a, ins):
        l, r, k = fresh_int("l"), fresh_int("r"), fresh_int("k"); st.assume(And(l > 0, r > 0, k >= -2**31, k < 2**31, pg(l), pg(r))); s = self.u.lay.split
        cells = st.loc.setdefault(a["sret"], {}); o = a["sret_o"]
        cells[o + s[0]] = (8, Ptr(l, 0)); cells[o + s[1]] = (8, Ptr(r, 0)); cells[o + s[2]] = (4, lin(k))
        return None, (l, r, k)
    def post(self, c):
        t = self.tv(c, c.H1); l, r, k = c.res; a, b = t.v(l, self.inner), t.v(r, self.inner); o = V(self.u, c.H0, c.a["node"], self.inner); G = c.a["G"]
        out = [("both halves are pages of the tree, divided at the split key", And(t.N(l), t.N(r), l > 0, r > 0, a.ty == self.inner, b.ty == self.inner, a.ht == o.ht, b.ht == o.ht, a.lo == o.lo, a.hi == k, b.lo == k, b.hi == o.hi, a.lo < k, k < b.hi)),
               ("there is room for one entry in both", And(room(a), room(b))), ("key is not in the pages", And(absent(a, G), absent(b, G)))]
        if self.inner: out.append(("split key differs from the pending key", k != G))
        return out + self.base_post(c, self.gapmode(c, If(G < k, l, r), G))

class HandleOverflow(Mutator):
    ghostU = True
    retkind = "node"; params = [("map", "map"), ("node", "node"), ("key", "kref")]
    def own_ghost(self, X, st, a): st.ghost["G"] = a["key"]; return []
    def tree_pre(self, c):
        v = self.tv(c, c.H0).v(c.a["node"], self.inner)
        return self.base_pre(c, self.gapmode(c, c.a["node"], c.a["key"])) + self.key_pre(c, c.a["key"]) + [("the page is full", full(v))]
    def post(self, c):
        t = self.tv(c, c.H1); r = c.res; v = t.v(r, self.inner); K = c.a["key"]
        return [("the page that covers the key now", And(t.N(r), r > 0, v.ty == self.inner, v.ht == self.level(c), v.lo < K if self.inner else v.lo <= K, K < v.hi)), ("there is room for one entry", room(v)), ("key is not in the page", absent(v, K))] + self.base_post(c, self.gapmode(c, r, K))

class InsertIntoNode(Mutator):
    retkind = "ni"; params = [("map", "map"), ("node", "node"), ("key", "kref"), ("pos", "int")]
    def content_after(self, c):
        if self.inner: return c.a["M"], c.a["V"]
        return z3.Store(c.a["M"], c.a["key"], z3.BoolVal(True)), z3.Store(c.a["V"], c.a["key"], 0)
    def upper(self, c): return V(self.u, c.H0, c.a["node"], True).seph(c.a["pos"] - 1)
    def own_ghost(self, X, st, a):
        if self.inner: st.ghost["U"] = self.upper(self.c0)
        return []
    def tree_pre(self, c):
        v = self.tv(c, c.H0).v(c.a["node"], self.inner); K, p = c.a["key"], c.a["pos"]
        out = self.base_pre(c, self.gapmode(c, c.a["node"], K, self.upper(c) if self.inner else None)) + self.key_pre(c, K)[:1] + [("position in range", And(v.f <= p, p <= v.n)), ("keys before the position are less", v.keys_below(K, v.f, p, True)), ("keys from the position on are greater", v.keys_above(K, p, v.n, True))]
        if not self.inner: out.append(("key is not in the map", Not(Select(c.a["M"], K))))
        return out
    def post(self, c):
        t = self.tv(c, c.H1); r, p = c.res; v = t.v(r, self.inner); K = c.a["key"]
        out = [("the entry is at the returned place", And(t.N(r), r > 0, v.ty == self.inner, v.ht == self.level(c), v.f <= p, p < v.n, v.key(p) == K, at(r, p) if bp.HYP[0] else True))]
        if not self.inner: out.append(("the new value is value-initialised", v.val(p) == 0))
        return out + self.base_post(c, ("hole", r, p, self.upper(c)) if self.inner else ("full",))

class RemoveFromNode(Mutator):
    params = [("map", "map"), ("node", "node"), ("pos", "int")]; map_mods = ()
    def content_after(self, c):
        if self.inner: return c.a["M"], c.a["V"]
        v = V(self.u, c.H0, c.a["node"], False)
        return z3.Store(c.a["M"], v.key(c.a["pos"]), z3.BoolVal(False)), c.a["V"]
    def tree_pre(self, c):
        v = self.tv(c, c.H0).v(c.a["node"], self.inner); p = c.a["pos"]
        return self.base_pre(c, ("extra", c.a["node"], p) if self.inner else ("full",)) + [("position in range", And(v.f <= p, p < v.n))]
    def post(self, c): return self.base_post(c, ("full",))

class MergeNode(Mutator):
    params = [("map", "map"), ("node", "node")]; map_mods = ()
    def tree_pre(self, c):
        v = self.tv(c, c.H0).v(c.a["node"], self.inner)
        return self.base_pre(c, ("full",)) + [("the page has a first key", first_key_ok(v))]
    def post(self, c): return self.base_post(c, ("full",))

# ------------------------------------------------------------------ public operations
class Op(TC):
    def tree_pre(self, c):
        t = self.tv(c, c.H0)
        return t.inv(c.a["M0"]) + t.content(c.a["M0"], c.a["M"], c.a["V"])
    def inv_post(self, c):
        t = self.tv(c, c.H1)
        return t.inv(c.a["M1"]) + t.content(c.a["M1"], *self.M1V1(c))

class Subscript(Op):
    retkind = "vaddr"; params = [("map", "map"), ("key", "kref")]; map_mods = ("root", "height", "count")
    def content_after(self, c):
        M, VV, k = c.a["M"], c.a["V"], c.a["key"]
        return z3.Store(M, k, z3.BoolVal(True)), If(Select(M, k), VV, z3.Store(VV, k, 0))
    def post(self, c):
        t = self.tv(c, c.H1); b, o = c.res; v = t.v(b, False); k = c.a["key"]; p = z3.Int("p")
        return [("the result is the value of the entry with that key", And(t.N(b), Not(v.ty), z3.Exists([p], And(0 <= p, p < v.n, v.key(p) == k, o == v.slot(p) + v.VO), patterns=[v.slot(p)]))),
                ("size grows exactly for a new key", c.a["M1"].count == c.a["M0"].count + If(Select(c.a["M"], k), 0, 1)),
                ("height never decreases", c.a["M1"].height >= c.a["M0"].height) if False else ("height of the tree stays when the key is present", Implies(Select(c.a["M"], k), And(c.a["M1"].height == c.a["M0"].height, c.a["M1"].root == c.a["M0"].root)))] + self.inv_post(c)

class EraseIt(Op):
    params = [("map", "map"), ("it", "iter")]; map_mods = ("count",)
    def tree_pre(self, c):
        t = self.tv(c, c.H0); l, s = c.a["it"]; v = t.v(l, False)
        return Op.tree_pre(self, c) + [("the iterator designates an element", And(t.N(l), Not(v.ty), 0 <= s, s < v.n, pg(l) if bp.HYP[0] else True))]
    def content_after(self, c):
        l, s = c.a["it"]; v = V(self.u, c.H0, l, False)
        return z3.Store(c.a["M"], v.key(s), z3.BoolVal(False)), c.a["V"]
    def post(self, c): return [("size shrinks by one", Implies(c.a["M0"].count >= 1, c.a["M1"].count == c.a["M0"].count - 1))] + self.inv_post(c)

class EraseKey(Op):
    retkind = "bool"; params = [("map", "map"), ("key", "kref")]; map_mods = ("count",)
    def content_after(self, c): return z3.Store(c.a["M"], c.a["key"], z3.BoolVal(False)), c.a["V"]
    def post(self, c):
        was = Select(c.a["M"], c.a["key"])
        return [("the result tells whether the key was present", c.res == was), ("size shrinks exactly when the key was present", Implies(c.a["M0"].count >= 1, c.a["M1"].count == c.a["M0"].count - If(was, 1, 0))),
                ("an absent key leaves the size unchanged", Implies(Not(was), c.a["M1"].count == c.a["M0"].count))] + self.inv_post(c)

class IterOp(Op):
    """read-only operation returning an iterator (leaf, slot); end is (null, 0)"""
    readonly = True; retkind = "iter"; params = [("sret", "sret"), ("map", "map"), ("key", "kref")]; writes_args = (0,)
    def elem(self, c):
        l, s = c.res; t = self.tv(c, c.H0); v = t.v(l, False)
        return l, s, v, And(t.N(l), l > 0, Not(v.ty), 0 <= s, s < v.n, Select(c.a["M"], v.key(s)), pg(l) if bp.HYP[0] else True)
    def least(self, c, B):
        """smallest key >= B, or end"""
        l, s, v, e = self.elem(c); M = c.a["M"]
        x = z3.Int("x")
        return [("end is reported with slot 0", Implies(l == 0, s == 0)), ("end exactly when no later element exists", Implies(l == 0, FA([x], Implies(x >= B, Not(Select(M, x))), [Select(M, x)]))),
                ("the result designates an element not before the bound", Implies(l != 0, And(e, v.key(s) >= B))),
                ("no element is skipped", Implies(l != 0, FA([x], Implies(And(x >= B, x < v.key(s)), Not(Select(M, x))), [Select(M, x)])))]
    def greatest(self, c, B):
        l, s, v, e = self.elem(c); M = c.a["M"]; x = z3.Int("x")
        return [("end is reported with slot 0", Implies(l == 0, s == 0)), ("end exactly when no earlier element exists", Implies(l == 0, FA([x], Implies(x < B, Not(Select(M, x))), [Select(M, x)]))),
                ("the result designates an element before the bound", Implies(l != 0, And(e, v.key(s) < B))),
                ("no element is skipped", Implies(l != 0, FA([x], Implies(And(x > v.key(s), x < B), Not(Select(M, x))), [Select(M, x)])))]
    # iterator-moving loops: the iterator lives in a local object
    def iter_of(self, st):
        """(leaf, slot) of the iterator object being moved, if any"""
        it = self.u.lay.iter
        for b, cells in st.loc.items():
            if b is self.c0.a.get("map"): continue
            if it[1] in cells and it[2] in cells and b in getattr(self, "_iters", [b]):
                yield b, cells
    def loop_cands(self, X, entry, hv, info):
        out = TC.loop_cands(self, X, entry, hv, info)
        c = self.c0; t = self.tv(c, c.H0); it = self.u.lay.iter; M = c.a["M"]; x = z3.Int("x")
        B = self.bound(c)
        for blk in list(hv.loc):
            cells = hv.loc[blk]
            if not (it[1] in cells and it[2] in cells and isinstance(cells[it[1]][1], Ptr) and cells[it[1]][1].heap()): continue
            L = lambda s, blk=blk: s.loc[blk][it[1]][1].b.z()
            S = lambda s, blk=blk: X_lin(s.loc[blk][it[2]][1]).z()
            nm = blk.name
            def w(f): return lambda s: f(s, L(s), S(s), t.v(L(s), False))
            out += [(nm + ": leaf of the tree or null", w(lambda s, l, q, v: Implies(l != 0, And(pg(l), t.N(l), Not(v.ty), t.ht(l) == 0)))),
                    (nm + ": leaf not null", w(lambda s, l, q, v: l != 0)),
                    (nm + ": null has slot 0", w(lambda s, l, q, v: Implies(l == 0, q == 0))),
                    (nm + ": slot not negative", w(lambda s, l, q, v: q >= 0)), (nm + ": slot within the leaf", w(lambda s, l, q, v: Implies(l != 0, q <= v.n))), (nm + ": slot within the leaf (one past)", w(lambda s, l, q, v: Implies(l != 0, q <= v.n + 1))),
                    (nm + ": slot at least -1", w(lambda s, l, q, v: q >= -1)), (nm + ": slot at least -2", w(lambda s, l, q, v: q >= -2)), (nm + ": slot below the count", w(lambda s, l, q, v: Implies(l != 0, q < v.n)))]
            if B is not None:
                out += [(nm + ": the bound is not beyond the leaf", w(lambda s, l, q, v: Implies(l != 0, B <= v.hi))), (nm + ": the bound is not before the leaf", w(lambda s, l, q, v: Implies(l != 0, B >= v.lo))),
                        (nm + ": everything from the bound on lies ahead", w(lambda s, l, q, v: FA([x], Implies(And(x >= B, Select(M, x)), And(l != 0, x >= v.lo)), [Select(M, x)]))),
                        (nm + ": passed entries are before the bound", w(lambda s, l, q, v: Implies(l != 0, v.keys_below(B, 0, If(q < v.n, q, v.n), True)))),
                        (nm + ": entries ahead are from the bound on", w(lambda s, l, q, v: Implies(l != 0, v.keys_above(B, If(q > 0, q, 0), v.n, False)))),
                        (nm + ": everything before the bound lies behind", w(lambda s, l, q, v: FA([x], Implies(And(x < B, Select(M, x)), And(l != 0, x < v.hi)), [Select(M, x)]))),
                        (nm + ": entries behind are before the bound", w(lambda s, l, q, v: Implies(l != 0, v.keys_below(B, 0, If(q + 1 < v.n, q + 1, v.n), True)))),
                        (nm + ": entries after are from the bound on", w(lambda s, l, q, v: Implies(l != 0, v.keys_above(B, If(q + 1 > 0, q + 1, 0), v.n, False))))]
        return out
    def bound(self, c): return None
    def loop_measures(self, X, entry, hv, info):
        out = TC.loop_measures(self, X, entry, hv, info)
        c = self.c0; t = self.tv(c, c.H0); it = self.u.lay.iter
        for blk, cells in hv.loc.items():
            if it[1] in cells and isinstance(cells[it[1]][1], Ptr) and cells[it[1]][1].heap():
                f = lambda s, blk=blk: s.loc[blk][it[1]][1].b.z()
                out.append(("leaves ahead", lambda s, f=f: If(f(s) == 0, 0, 1 + BIG - t.lo(f(s)))))
                out.append(("leaves behind", lambda s, f=f: If(f(s) == 0, 0, 1 + BIG + t.hi(f(s)))))
        return out

class Find(IterOp):
    def post(self, c):
        l, s, v, e = self.elem(c); M, k = c.a["M"], c.a["key"]
        return [("an absent key is reported as end", Implies(Not(Select(M, k)), And(l == 0, s == 0))), ("a present key is found", Implies(Select(M, k), And(l != 0, e, v.key(s) == k))),
                ("the designated element carries the key's value", Implies(Select(M, k), v.val(s) == Select(c.a["V"], k)))]

class LowerB(IterOp):
    def bound(self, c): return c.a["key"]
    def post(self, c): return self.least(c, c.a["key"])
class UpperB(IterOp):
    def bound(self, c): return c.a["key"] + 1
    def post(self, c): return self.least(c, c.a["key"] + 1)
class Begin(IterOp):
    params = [("sret", "sret"), ("map", "map")]
    def bound(self, c): return z3.IntVal(-BIG)
    def post(self, c): return self.least(c, z3.IntVal(-BIG)) + self.allkeys(c)
    def allkeys(self, c): return []
class RBegin(IterOp):
    params = [("sret", "sret"), ("map", "map")]
    def bound(self, c): return z3.IntVal(BIG)
    def post(self, c): return self.greatest(c, z3.IntVal(BIG))
class End(IterOp):
    params = [("sret", "sret"), ("map", "map")]
    def post(self, c): l, s = c.res; return [("the end position is (null, 0)", And(l == 0, s == 0))]

class Move(IterOp):
    """operator++/-- of the four iterator kinds: forward moves to the next larger element"""
    forward = True; postfix = False; iter_ro = False
    @property
    def params(self): return [("sret", "sret"), ("it", "iter")] + ([("dummy", "int")] if self.postfix else [])
    writes_args = (0, 1)
    def tree_pre(self, c):
        t = self.tv(c, c.H0); l, s = c.a["it"]; v = t.v(l, False)
        rng = And(0 <= s, s <= v.n) if self.forward else And(-1 <= s, s < v.n)
        return Op.tree_pre(self, c) + [("the iterator designates a position of a leaf", And(t.N(l), l > 0, Not(v.ty), rng, pg(l) if bp.HYP[0] else True))]
    def bound(self, c):
        t = self.tv(c, c.H0); l, s = c.a["it"]; v = t.v(l, False)
        if self.forward: return If(s < v.n, v.key(s) + 1, v.hi)
        return If(s >= 0, v.key(s), v.lo)
    def decode(self, X, st, r):
        it = self.u.lay.iter
        out = PC.decode(self, X, st, r)
        cc = st.loc[self.c0.a["it_blk"]]
        moved = (cc[it[1]][1].b.z(), X.L(st, cc[it[2]][1]).z())
        if self.postfix:
            X.oblige(st, And(out[0] == self.c0.a["it"][0], out[1] == self.c0.a["it"][1]), "post: the postfix form returns the position before the move")
            return moved
        X.oblige(st, And(out[0] == moved[0], out[1] == moved[1]), "post: the result is a copy of the moved iterator")
        return out
    def result(self, X, st, a, ins):
        rv, (l, n) = IterOp.result(self, X, st, a, ins)
        it = self.u.lay.iter; cells = st.loc[a["it_blk"]]; o = a["it_o"]
        if self.postfix:
            sc = st.loc[a["sret"]]; so = a["sret_o"]; sc[so + it[1]] = (8, Ptr(a["it"][0], 0)); sc[so + it[2]] = (4, lin(a["it"][1]))
        cells[o + it[1]] = (8, Ptr(l, 0)); cells[o + it[2]] = (4, lin(n))
        return rv, (l, n)
    def post(self, c): return self.least(c, self.bound(c)) if self.forward else self.greatest(c, self.bound(c))

# ------------------------------------------------------------------ accessors
class MapGet(TC):
    readonly = True; retkind = "int"; params = [("map", "map")]; what = "count"
    def pre(self, c): return []
    def post(self, c): return [("the result is the map's %s" % self.what, c.res == getattr(c.a["M0"], self.what))]
class MapEmpty(MapGet):
    retkind = "bool"
    def post(self, c): return [("the result tells whether the size is 0", c.res == (c.a["M0"].count == 0))]

class Deref(TC):
    """*it, it->, key(), data(): the entry's own pair, or its key or value, inside the page"""
    readonly = True; retkind = "vaddr"; params = [("it", "iter")]; part = 0
    def tree_pre(self, c):
        t = self.tv(c, c.H0); l, s = c.a["it"]; v = t.v(l, False)
        return t.inv(c.a["M0"]) + [("the iterator designates an element", And(t.N(l), l > 0, Not(v.ty), 0 <= s, s < v.n, pg(l) if bp.HYP[0] else True))]
    def post(self, c):
        l, s = c.a["it"]; v = V(self.u, c.H0, l, False); b, o = c.res
        return [("the result designates the iterator's entry", And(b == l, o == v.slot(s) + (v.VO if self.part else 0)))]

class ItEq(TC):
    readonly = True; retkind = "bool"; params = [("it", "iter"), ("other", "iter")]; neg = False
    def pre(self, c): return []
    def post(self, c):
        same = And(c.a["it"][0] == c.a["other"][0], c.a["it"][1] == c.a["other"][1])
        return [("equal exactly when both designate the same position", c.res == (Not(same) if self.neg else same))]

def contracts():
    out = {}
    def add(nm, cls, **kw):
        def mk(u, name, cls=cls, kw=kw):
            k = cls(u, name)
            for x, y in kw.items(): setattr(k, x, y)
            return k
        out[nm] = mk
    for K in ("Leaf", "Inner"):
        for m, cls in (("find_parent", FindParent), ("trim_node", TrimNode), ("split_node", SplitNode), ("handle_overflow", HandleOverflow), ("insert_into_node", InsertIntoNode), ("remove_from_node", RemoveFromNode), ("merge_node", MergeNode)):
            add("Map::%s<%s>" % (m, K), cls, kindN=K)
    add("Map::get_leaf_containing", LeafFor); add("Map::get_upper_bound_leaf", LeafFor)
    add("Map::get_first_leaf", EdgeLeaf); add("Map::get_last_leaf", LastLeaf); add("Map::get_next_leaf", NeighbourLeaf); add("Map::get_prev_leaf", PrevLeaf)
    add("Map::operator[]", Subscript); add("Map::erase it", EraseIt); add("Map::erase key", EraseKey)
    for s in ("", " c"):
        add("Map::find" + s, Find); add("Map::lower_bound" + s, LowerB); add("Map::upper_bound" + s, UpperB); add("Map::begin" + s, Begin); add("Map::end" + s, End)
        add("Map::rbegin" + s, RBegin); add("Map::rend" + s, End)
    add("Map::size", MapGet); add("Map::height", MapGet, what="height"); add("Map::empty", MapEmpty)
    for k in ("ItFm", "ItRm", "ItFc", "ItRc"):
        add(k + "::operator*", Deref); add(k + "::operator->", Deref); add(k + "::key", Deref); add(k + "::data", Deref, part=1)
        add(k + "::operator==", ItEq); add(k + "::operator!=", ItEq, neg=True)
    add("Map::cbegin", Begin); add("Map::cend", End); add("Map::crbegin", RBegin); add("Map::crend", End)
    for d in "FR":
        for m in "mc":
            for op in ("++", "--"):
                for p in ("", " post"):
                    add("It%s%s::operator%s%s" % (d, m, op, p), Move, forward=(op == "++") == (d == "F"), postfix=bool(p))
    return out
