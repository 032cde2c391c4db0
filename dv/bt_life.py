"""Lifetime contracts: constructor, destructor and iterator conversion of btree::map.

The destructor walks the tree with a std::deque work list.  The container is trusted and seen as a set of pages without
repetition (pushing a page twice is refused) whose front/back are unspecified members, fixed until the next push to an empty
container or removal.  Ghost state: Q (members), R (pages whose subtree is still to be released), own (for each live page
the member of R whose subtree holds it), exp (the member being expanded), nlive (number of allocated pages, a natural that a
release decreases: the termination measure)."""
import re, z3
from core import *
from pagemem import *
from sx import *
from contract import *
import bt_page as bp
from bt_page import V, PC, FA, BIG, i_, b_, And, Or, Not, Implies, If, Select, pg, PTRTY
import bt_tree as bt
from bt_tree import TC, Op, AB_, AI_, TV

x_, q_, r_ = z3.Int("x"), z3.Int("q"), z3.Int("r")
QOPS = re.compile(r"std::(deque|vector)<[^()]*node_t\*[^()]*>::(~?\w+)(<[^()]*>)?\(")

def is_queue(d):
    """container of page pointers: name of the operation"""
    m = None
    for m in QOPS.finditer(d): pass
    return m.group(2) if m else None

class Q:
    """ghost state of the work list"""
    def __init__(s): s.Q = z3.K(z3.IntSort(), z3.BoolVal(False)); s.fr = fresh_int("fr"); s.bk = fresh_int("bk"); s.refs = (); s.dead = False
    def copy(s):
        n = Q.__new__(Q); n.__dict__.update(s.__dict__); return n

def sort_facts(q): return [Implies(Select(q.Q, q.fr), q.fr > 0), Select(q.Q, q.fr) == Select(q.Q, q.bk), pg(q.fr), pg(q.bk)]

def queue_op(unit, X, st, name, op, args):
    p = args[0]
    if not (isinstance(p, Ptr) and isinstance(p.b, Blk)): X.unsupported(st, "work list outside the function")
    dq = st.ghost.get("dq") or {}
    key = p.b; q = dq.get(key)
    def put(n): st.ghost["dq"] = dict(st.ghost.get("dq") or {}); st.ghost["dq"][key] = n
    def fresh_ends(n):
        n.fr, n.bk = fresh_int("fr"), fresh_int("bk")
        st.assume(FA([x_], Implies(Select(n.Q, x_), And(Select(n.Q, n.fr), x_ > 0)), [Select(n.Q, x_)]))
        for f in sort_facts(n): st.assume(f)
    if op in ("deque", "vector"):
        if len(args) != 1: X.unsupported(st, "construction of a work list from something")
        n = Q(); n.Q = fresh_const("Q", AB_); st.assume(FA([x_], Not(Select(n.Q, x_)), [Select(n.Q, x_)])); put(n); return None
    if q is None: X.unsupported(st, "work list used before its construction")
    n = q.copy()
    if op in ("~deque", "~vector"): n.dead = True; put(n); return None
    if q.dead: X.oblige(st, False, "the work list is not used after its destruction"); raise PathEnd()
    some = Select(q.Q, q.fr)
    if op in ("empty", "size"):
        e = fresh_bool("empty"); st.assume(e == Not(some)); st.assume(Implies(e, FA([x_], Not(Select(q.Q, x_)), [pg(x_), Select(q.Q, x_)])))
        if op == "empty": return e
        z = fresh_int("qsize"); st.assume(And(z >= 0, z < 2**60, (z == 0) == e)); return lin(z)
    if op in ("front", "back"):
        X.oblige(st, some, "an element is taken from a non-empty work list")
        e = q.fr if op == "front" else q.bk
        B_ = Blk("work list element", 8, ro=True); st.loc[B_] = {0: (8, Ptr(e, 0))}
        n.refs = n.refs + (B_,); put(n); st.ghost["exp"] = e
        return Ptr(B_, 0)
    if op in ("pop_front", "pop_back"):
        X.oblige(st, some, "an element is removed from a non-empty work list")
        e = q.fr if op == "pop_front" else q.bk
        for B_ in q.refs: st.loc[B_] = {}
        n.refs = (); n.Q = fresh_const("Q", AB_); st.assume(n.Q == z3.Store(q.Q, e, z3.BoolVal(False))); fresh_ends(n); put(n); return None
    if op in ("emplace_back", "push_back", "emplace_front", "push_front"):
        v = X.u.mem.load(X, st, args[1], PTRTY)
        if not (isinstance(v, Ptr) and v.heap() and v.o.is_const() and v.o.c == 0): X.unsupported(st, "work list element is not a page")
        c = v.b.z(); st.assume(pg(c))
        X.oblige(st, Not(Select(q.Q, c)), "a page enters the work list once")
        n.Q = fresh_const("Q", AB_); st.assume(n.Q == z3.Store(q.Q, c, z3.BoolVal(True)))
        if op.endswith("back"): n.fr = If(some, q.fr, c); n.bk = c
        else: n.bk = If(some, q.bk, c); n.fr = c
        if "vector" in name:                   # growing a vector moves its elements
            for B_ in q.refs: st.loc[B_] = {}
            n.refs = ()
        put(n)
        X.c.pushed(X, st, c)
        B_ = Blk("work list element", 8, ro=True); st.loc[B_] = {0: (8, Ptr(c, 0))}
        return Ptr(B_, 0)
    X.unsupported(st, "work list operation " + op)

class Dtor(Op):
    retkind = "void"; params = [("map", "map")]; map_mods = ("root", "count", "height")
    timeout_ms = 30000
    def can_write(self, X, st, b):
        return Not(Select(self.c0.a["E"], b)) if getattr(self, "in_free", False) else z3.BoolVal(False)
    def can_free(self, X, st, b): return Not(Select(self.c0.a["E"], b))
    def cov(self, a, x):
        t = self.tv(self.c0, self.c0.H0)
        return And(t.ht(x) <= t.ht(a), t.lo(a) <= t.lo(x), t.lo(x) < t.hi(a))
    def setup(self, X):
        st = Op.setup(self, X)
        R, own = fresh_const("R", AB_), fresh_const("own", AI_)
        st.assume(FA([x_], Not(Select(R, x_)), [Select(R, x_)])); st.assume(FA([x_], Select(own, x_) == 0, [Select(own, x_)]))
        n = fresh_int("nlive"); st.assume(n >= 0)
        st.ghost.update(R=R, own=own, exp=z3.IntVal(0), nlive=n, dq={}, stats=0)
        self.c0.st0 = st
        return st
    # ---- ghost steps
    def pushed(self, X, st, c):
        g = st.ghost; R, own = fresh_const("R", AB_), fresh_const("own", AI_)
        st.assume(R == z3.Store(g["R"], c, z3.BoolVal(True)))
        o = Select(g["own"], x_)
        st.assume(FA([x_], Select(own, x_) == If(And(self.cov(c, x_), Or(o == g["exp"], o == 0)), c, o), [Select(own, x_)]))
        g["R"], g["own"] = R, own
    def after_free(self, X, st, p):
        g = st.ghost; R = fresh_const("R", AB_)
        st.assume(R == z3.Store(g["R"], p, z3.BoolVal(False))); g["R"] = R
        g["exp"] = z3.IntVal(0) if g["exp"].eq(p) or Solve.quick(st.facts, g["exp"] == p) else g["exp"]
        n = fresh_int("nlive"); st.assume(And(n == g["nlive"] - 1, n >= 0)); g["nlive"] = n
    # ---- loops
    def loop_havoc(self, X, entry, hv):
        H = hv.heap = hv.heap.copy(); g = hv.ghost
        H.live = fresh_const("live", AB); g["R"], g["own"], g["nlive"] = fresh_const("R", AB_), fresh_const("own", AI_), fresh_int("nlive")
        hv.assume(g["nlive"] >= 0)
        g["dq"] = dict(g["dq"])
        for k, q in list(g["dq"].items()):
            n = q.copy(); n.Q = fresh_const("Q", AB_); n.fr, n.bk = fresh_int("fr"), fresh_int("bk"); n.refs = q.refs
            hv.assume(FA([x_], Implies(Select(n.Q, x_), And(Select(n.Q, n.fr), x_ > 0)), [Select(n.Q, x_)]))
            for f in sort_facts(n): hv.assume(f)
            g["dq"][k] = n
        if not any(entry is e for e, _ in self._loops): self._loops.append((entry, hv))
    _loops = ()
    def __init__(self, unit, name): Op.__init__(self, unit, name); self._loops = []
    def loop_cands(self, X, entry, hv, info):
        c = self.c0; t = self.tv(c, c.H0); E = c.a["E"]; m = c.a["M0"]; H0 = c.H0
        if not info["heap"]: return []
        N0 = lambda x: And(Select(H0.live, x), Not(Select(E, x)))
        G = lambda s: s.ghost
        live = lambda s, x: And(Select(s.heap.live, x), Not(Select(E, x)))
        def same(s):
            for n, a in s.heap.arrays().items():
                if n != "live" and not a.eq(entry.heap.arrays()[n]): return z3.BoolVal(False)
            if not s.ghost["exp"].eq(entry.ghost["exp"]): return z3.BoolVal(False)
            return z3.BoolVal(True)
        e = entry.ghost["exp"]
        ex = not z3.is_int_value(e)
        out = [("pages change only by being released, and the page being expanded is the same", same),
               ("only pages of the tree are released", lambda s: FA([x_], Implies(pg(x_), And(Implies(Select(s.heap.live, x_), Select(H0.live, x_)), Implies(And(Select(H0.live, x_), Select(E, x_)), Select(s.heap.live, x_)))), [pg(x_)])),
               ("pages whose subtree is left are allocated", lambda s: FA([q_], Implies(And(pg(q_), Select(G(s)["R"], q_)), And(live(s, q_), q_ > 0)), [pg(q_)])),
               ("pages below a page left are allocated", lambda s: FA([q_, x_], Implies(And(pg(q_), pg(x_), Select(G(s)["R"], q_), N0(x_), self.cov(q_, x_)), live(s, x_)), [z3.MultiPattern(pg(q_), pg(x_))])),
               ("every allocated page is below a page left", lambda s: FA([x_], Implies(And(pg(x_), live(s, x_)), And(Select(G(s)["R"], Select(G(s)["own"], x_)), self.cov(Select(G(s)["own"], x_), x_))), [pg(x_)]))]
        out.append(("the number of allocated pages is unchanged", lambda s: G(s)["nlive"] == entry.ghost["nlive"]))
        dj = lambda a, b: Or(t.hi(a) <= t.lo(b), t.hi(b) <= t.lo(a))
        out.append(("pages left have disjoint ranges", lambda s: FA([q_, r_], Implies(And(pg(q_), pg(r_), Select(G(s)["R"], q_), Select(G(s)["R"], r_), q_ != r_, q_ != e, r_ != e), dj(q_, r_)), [z3.MultiPattern(pg(q_), pg(r_))])))
        def qs(s): return list(G(s)["dq"].values())
        if len(entry.ghost["dq"]) == 1:
            out.append(("the work list holds the pages left", lambda s: FA([q_], Implies(And(pg(q_), q_ != e), Select(qs(s)[0].Q, q_) == Select(G(s)["R"], q_)), [pg(q_), Select(G(s)["R"], q_)])))
            if ex:
                out.append(("the page being expanded is in the work list", lambda s: Select(qs(s)[0].Q, e)))
                out.append(("the page being expanded is not in the work list", lambda s: Not(Select(qs(s)[0].Q, e))))
                out.append(("the front is the page being expanded", lambda s: qs(s)[0].fr == e))
                out.append(("the back is the page being expanded", lambda s: qs(s)[0].bk == e))
        if ex:
            w = V(self.u, H0, e, True)
            out.append(("the page being expanded is left", lambda s: Select(G(s)["R"], e)))
            for p, kind, x in info["phis"]:
                if kind != "int" or p.ty.width == 1: continue
                i = lambda s, p=p: X_lin(s.regs[p.id]).z()
                up = lambda s, i=i: If(i(s) >= w.n, w.hi, If(i(s) <= 0, w.lo, w.key(i(s))))        # lower separator of child i
                dn = lambda s, i=i: If(i(s) + 1 >= w.n, w.hi, If(i(s) + 1 <= 0, w.lo, w.key(i(s) + 1)))
                out += [("index not negative", lambda s, i=i: i(s) >= 0), ("index at least 1", lambda s, i=i: i(s) >= 1), ("index at most the number of children", lambda s, i=i: i(s) <= w.n), ("index at least -1", lambda s, i=i: i(s) >= -1), ("index below the number of children", lambda s, i=i: i(s) < w.n),
                        ("children before the index have been handed over", lambda s, up=up: FA([x_], Implies(And(pg(x_), live(s, x_), Select(G(s)["own"], x_) == e), Or(x_ == e, t.lo(x_) >= up(s))), [pg(x_)])),
                        ("children after the index have been handed over", lambda s, dn=dn: FA([x_], Implies(And(pg(x_), live(s, x_), Select(G(s)["own"], x_) == e), Or(x_ == e, t.lo(x_) < dn(s))), [pg(x_)])),
                        ("pages left are beside the page being expanded, or its children before the index", lambda s, up=up: FA([q_], Implies(And(pg(q_), Select(G(s)["R"], q_), q_ != e), Or(dj(q_, e), And(t.ht(q_) == t.ht(e) - 1, t.lo(q_) >= t.lo(e), t.hi(q_) <= up(s)))), [pg(q_)])),
                        ("pages left are beside the page being expanded, or its children after the index", lambda s, dn=dn: FA([q_], Implies(And(pg(q_), Select(G(s)["R"], q_), q_ != e), Or(dj(q_, e), And(t.ht(q_) == t.ht(e) - 1, t.lo(q_) >= dn(s), t.hi(q_) <= t.hi(e)))), [pg(q_)]))]
        return out
    def loop_measures(self, X, entry, hv, info):
        return [("pages allocated", lambda s: s.ghost["nlive"])] + default_measures(X, hv, info)
    # ---- result
    def frame_posts(self, c, hyp): return []
    def post(self, c):
        E = c.a["E"]
        return [("no page of the tree is left", FA([x_], Implies(And(pg(x_), pg(Select(c.st1.ghost["own"], x_)), Select(c.H1.live, x_)), Select(E, x_)), [pg(x_)])),
                ("pages outside the tree are not released", FA([x_], Implies(And(pg(x_), Select(c.H0.live, x_), Select(E, x_)), Select(c.H1.live, x_)), [pg(x_)])),
                ("the statistics object is released once", z3.BoolVal(c.st1.ghost.get("stats") == 1)),
                ("work lists are destroyed", z3.BoolVal(all(q.dead for q in c.st1.ghost["dq"].values())))]

class Ctor(TC):
    params = [("map", "rawmap")]; retkind = "void"; map_mods = ("root", "count", "height")
    def make(self, X, st, nm, kind, a):
        if kind != "rawmap": return TC.make(self, X, st, nm, kind, a)
        B_ = Blk("map", None); st.loc[B_] = {}; a["rawmap"] = B_; return Ptr(B_, 0)
    def pre(self, c): return []
    def can_write(self, X, st, b): return z3.BoolVal(False)
    def post(self, c):
        mv = self.mapview(c.st1, c.a["rawmap"]); m = self.u.lay.map; cells = c.st1.loc[c.a["rawmap"]]
        if mv.root is None or mv.count is None or mv.height is None: return [("every field of the map is initialised", z3.BoolVal(False))]
        s = cells.get(m["stats"], (0, None))[1]
        t = TV(self.u, c.H1, c.H1.live)      # every page allocated so far belongs to somebody else
        M, VV = z3.K(z3.IntSort(), z3.BoolVal(False)), c.a["V"]
        empty = fresh_const("M", AB_); c.st1.assume(FA([bt.k_], Not(Select(empty, bt.k_)), [Select(empty, bt.k_)]))
        return [("the map starts without pages, elements and height", And(mv.root == 0, mv.count == 0, mv.height == 0)), ("the statistics object belongs to the map", z3.BoolVal(isinstance(s, Ptr) and s.b is self.u.statsblk)),
                ("pages are not modified", z3.BoolVal(all(x.eq(c.H0.arrays()[n]) for n, x in c.H1.arrays().items())))] + t.inv(mv) + t.content(mv, empty, VV)
    def post_goal_only(self, c): return []

class Conv(TC):
    """iterator -> const_iterator"""
    readonly = True; retkind = "iter"; params = [("sret", "sret"), ("it", "iter")]
    def pre(self, c): return []
    def post(self, c): return [("the const iterator designates the same position", And(c.res[0] == c.a["it"][0], c.res[1] == c.a["it"][1]))]

def contracts():
    return {"Map::~map": lambda u, n: Dtor(u, n), "dv::ctor": lambda u, n: Ctor(u, n), "dv::conv": lambda u, n: Conv(u, n)}
