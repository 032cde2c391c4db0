"""Contracts of the ART map: the tree invariant and the abstract content.

Content: LF maps a key to the leaf holding it (0: absent).  The invariant relates LF to the live nodes through their ghost `end`
(number of key bytes consumed below the node) and F (byte -> child)."""
import z3
from core import *
from pagemem import *
from sx import *
from contract import *
from art_mem import *
from art_node import in_, ARR

card = z3.Function("card", AI, INT)          # number of keys with a leaf
def kid(H, y, x): return Select(H.row("F", y), byte(H.at("key", x), H.at("end", y)))

def inv(H, root, goal=False, thin=None):
    """(label, formula); goal: with the trigger marks a proof needs; thin: node that may have one child too few"""
    L = lambda x: Select(H.live, x)
    at = lambda n, x: H.at(n, x)
    inner = lambda x: at("ty", x) != LEAF
    def G(vs, marks, hyp, body, pats):
        h = hyp + (marks if goal else [])
        return z3.ForAll(vs, Implies(And(*h), body)) if goal else z3.ForAll(vs, Implies(And(*hyp), body), patterns=pats)
    P = pg(b_); out = []
    few = at("nch", b_) >= (2 if thin is None else If(b_ == thin, 1, 2))
    out.append(("nodes are sound", G([b_], [P], [L(b_)], And(b_ > 0, at("ak", b_) == at("ty", b_), in_(0, at("ty", b_), 5), 0 <= at("klen", b_), at("klen", b_) <= at("end", b_)), [P])))
    out.append(("leaves end at the last byte, inner nodes before", G([b_], [P], [L(b_)], If(inner(b_), in_(0, at("end", b_), 8), at("end", b_) == 8), [P])))
    out.append(("inner nodes are well formed", G([b_], [P], [L(b_), inner(b_)], WFP(at("ty", b_), at("nch", b_), H.row("K", b_), H.row("C", b_), H.row("FM", b_), H.row("F", b_)), [P])))
    out.append(("a smallest node has two children", G([b_], [P], [L(b_), at("ty", b_) == N4], few, [P])))
    c = Select(H.row("F", b_), i_)
    out.append(("children extend their parent's prefix", G([b_, i_], [P, pg(c)], [L(b_), inner(b_), c != 0], And(L(c), byte(at("key", c), at("end", b_)) == i_, pre(at("key", c), at("end", b_)) == pre(at("key", b_), at("end", b_)), in_(at("end", b_) + 1, at("end", c), 9), at("klen", c) == at("end", c) - at("end", b_)), [c])))
    k = kid(H, b_, x_); under = [L(b_), inner(b_), L(x_), x_ != b_, at("end", x_) > at("end", b_), pre(at("key", x_), at("end", b_)) == pre(at("key", b_), at("end", b_))]
    marks = [P, pg(x_), pg(k)]
    out.append(("every node below another is reached", G([b_, x_], marks, under, And(k != 0, at("end", k) <= at("end", x_), pre(at("key", x_), at("end", k)) == pre(at("key", k), at("end", k))), [z3.MultiPattern(P, pg(x_))])))
    out.append(("prefixes of the same length differ", G([b_, x_], [P, pg(x_)], [L(b_), L(x_), at("end", b_) == at("end", x_), pre(at("key", b_), at("end", b_)) == pre(at("key", x_), at("end", b_))], b_ == x_, [z3.MultiPattern(P, pg(x_))])))
    out.append(("the root is a node or null", And(root >= 0, Implies(root != 0, And(L(root), at("klen", root) == at("end", root))))))
    out.append(("every node is below the root", G([b_], [P], [L(b_)], And(root != 0, at("end", root) <= at("end", b_), pre(at("key", b_), at("end", root)) == pre(at("key", root), at("end", root))), [P])))
    out.append(("every leaf holds its key", G([b_], [P], [L(b_), Not(inner(b_))], Select(H.LF, at("key", b_)) == b_, [P])))
    l = Select(H.LF, k_)
    out.append(("every key has its leaf", G([k_], [pg(l)], [l != 0], And(l > 0, L(l), at("ty", l) == LEAF, at("key", l) == k_), [l])))
    return out

def has_val(X, st, r):
    """an optional<int> returned in a register: (present, value)"""
    def cond(v):
        if isinstance(v, Zx): v = v.v
        if isinstance(v, Lin) and v.is_const(): return v.c % 2 == 1
        if isinstance(v, BI): return v.b
        if isinstance(v, U8): return v.z % 2 == 1
        return X.cond(st, v)
    if isinstance(r, Lin) and r.is_const(): c = r.c % 2**64; h = bool(c >> 32 & 1); v = c % 2**32; return h, Lin(v - 2**32 if v >= 2**31 else v)
    if isinstance(r, Comp):
        h, v = r.parts.get(4), r.parts.get(0)
        low = {o: x for o, x in r.parts.items() if o < 4}
        if not low or all(n == 1 and isinstance(x, Lin) and x.is_const() for n, x in low.values()):
            c = sum(x.c % 256 << 8 * o for o, (n, x) in low.items()); v = (4, Lin(c - 2**32 if c >= 2**31 else c))
        if h is not None and h[0] == 1:
            h = cond(h[1]); v = v[1] if v is not None and v[0] == 4 else Opaque("no value")
            return h, (v.v if isinstance(v, Zx) else v)
        if h is None and not any(o <= 4 < o + x[0] for o, x in r.parts.items()): return False, Opaque("no value")
    if isinstance(r, Opaque): X.unsupported(st, "returned optional is undefined")
    X.unsupported(st, "form of the returned optional")

class TC(Contract):
    """map-level contract: post(H0, H1, a, ...) over the whole heap"""
    params = [("this", "map")]; ret = "opt"; const = False; whole = True
    houdini_ms = 4000
    def __init__(self, unit, name): self.u = unit; self.name = name
    @property
    def writes_heap(self): return not self.const
    # ---------------------------------------------------------------- verification side
    def mapblk(self, st, nm, root=None, size=None):
        L = self.u.lay; b = Blk(nm, 16)
        if root is not None: st.loc[b] = {L.root: (8, Ptr(root, 0)), L.msize: (8, lin(size))}
        return b
    def setup(self, X):
        st = State(); st.heap = H = AHeap("0"); self.H0 = H; self.a = a = {}; self.maps = {}
        st.assume(Not(Select(H.live, 0))); st.assume(pg(z3.IntVal(0)))
        if len(X.F.params) != len(self.params): raise Unsupported("signature changed: %d parameters, contract has %d" % (len(X.F.params), len(self.params)))
        self.root = z3.Int("root"); self.size = z3.Int("size")
        for k, (nm, kind) in enumerate(self.params):
            v = z3.Int(nm); a[nm] = v; r = "%%a%d" % k
            if kind == "map":
                st.assume(And(self.root >= 0, pg(self.root), 0 <= self.size, self.size < 2**60))
                b = self.maps[nm] = self.mapblk(st, nm, self.root, self.size); st.regs[r] = Ptr(b, 0)
            elif kind == "raw": b = self.maps[nm] = self.mapblk(st, nm); st.loc[b] = {}; st.regs[r] = Ptr(b, 0)
            elif kind == "node": st.assume(And(v >= 0, pg(v))); st.regs[r] = Ptr(v, 0)
            elif kind == "int": st.assume(in_(-2**31, v, 2**31)); st.regs[r] = lin(v)
            elif kind == "key": st.assume(in_(-2**63, v, 2**63)); st.regs[r] = lin(v)
        st.ghost["fresh"] = (); st.ghost["first"] = (); st.ghost["keys"] = tuple(a[n] for n, k in self.params if k == "key")
        for f in key_axioms(): st.assume(f)
        for l, f in self.pre(H, self.root, self.size, a, False): st.assume(f)
        for kx in st.ghost["keys"]:
            l = Select(H.LF, kx); st.assume(And(pg(l), pre(kx, 8) == kx))
        for f in self.extra(H, a): st.assume(f)
        return st
    def extra(self, H, a): return []
    def pre(self, H, root, size, a, goal): return inv(H, root, goal)
    def can_write(self, X, st, b): return z3.BoolVal(not self.const)
    def can_free(self, X, st, b): return z3.BoolVal(not self.const)
    def on_alloc(self, st, b): return []
    def on_add(self, st, b, child):
        if any(b.eq(f) for f, k in st.ghost["fresh"]) and not any(b.eq(f) for f, c in st.ghost["first"]): st.ghost["first"] += ((b, child),)
    def fields(self, X, st, nm="this"):
        L = self.u.lay; c = st.loc.get(self.maps[nm], {}); r, s = c.get(L.root), c.get(L.msize)
        if r is None or s is None or r[0] != 8 or s[0] != 8 or not isinstance(r[1], Ptr) or not r[1].heap(): X.unsupported(st, "the map's fields are not set")
        X.oblige(st, r[1].o.z() == 0, "the root pointer designates a node"); return r[1].b.z(), X.L(st, s[1]).z()
    def settle(self, X, st, has):
        """ghost steps at a return: positions of fresh nodes, leaves of changed keys"""
        H = st.heap = st.heap.copy()
        for b, kind in st.ghost["fresh"]:
            if kind == LEAF: H.put("end", b, z3.IntVal(8))
        for b, kind in st.ghost["fresh"]:
            if kind in (N4, N16, N48, N256):
                c = [x for f, x in st.ghost["first"] if f.eq(b)]
                if c: H.put("end", b, H.at("end", c[0]) - H.at("klen", c[0]))
        if not st.ghost.get("settled"): self.leaves(st, H, has)
    def leaves(self, st, H, has):
        for b, kind in st.ghost["fresh"]:
            if kind == LEAF and "key" in self.a: H.a["LF"] = z3.Store(H.LF, self.a["key"], b)
    def check_return(self, X, st, r):
        H0 = self.H0; has = val = None
        if self.ret == "opt":
            has, val = has_val(X, st, r); has = z3.BoolVal(has) if isinstance(has, bool) else has
        elif self.ret == "bool": has = B(X.cond(st, r))
        elif self.ret == "int": val = r
        if self.const: X.oblige(st, And(*[st.heap[n] == H0[n] for n in H0.a]) if any(not st.heap[n].eq(H0[n]) for n in H0.a) else True, "a const operation changes no node")
        else: self.settle(X, st, has)
        H1 = st.heap
        root, size = self.fields(X, st) if "this" in self.maps else (None, None)
        if "key" in self.a: st.assume(And(pg(Select(H1.LF, self.a["key"])), pg(Select(H0.LF, self.a["key"]))))
        def v(): return fresh_int("undefined") if isinstance(val, Opaque) else X.L(st, val).z()
        for l, f in self.post(H0, H1, self.a, (self.root, self.size), (root, size), has, v, True, X, st): X.oblige(st, f() if callable(f) else f, "post: " + l)
    # ---------------------------------------------------------------- call side
    def apply(self, X, st, args, ins):
        a = {}; blk = None
        if len(args) != len(self.params): X.unsupported(st, "call of %s with a different signature" % self.name)
        for (nm, kind), v in zip(self.params, args):
            if kind == "map":
                if not (isinstance(v, Ptr) and isinstance(v.b, Blk) and v.o.is_const() and v.o.c == 0): X.unsupported(st, "argument '%s' is not a map" % nm)
                blk = v.b; a[nm] = z3.IntVal(0)
            elif kind == "node":
                if not (isinstance(v, Ptr) and v.heap()): X.unsupported(st, "argument '%s' is not a node" % nm)
                X.oblige(st, v.o.z() == 0, "argument '%s' designates a node" % nm); a[nm] = v.b.z(); st.assume(pg(a[nm]))
            else: a[nm] = X.L(st, v).z()
        short = self.name.split("::")[-1]; L = self.u.lay; c = st.loc[blk]
        root0, size0 = c[L.root][1].b.z(), X.L(st, c[L.msize][1]).z(); H0 = st.heap
        for l, f in self.pre(H0, root0, size0, a, True): X.oblige(st, f, "pre of %s: %s" % (short, l))
        self.measure(X, st, H0, a)
        if self.const: H1, root1, size1 = H0, root0, size0
        else:
            H1 = st.heap = AHeap("c%d" % next(_n)); root1 = fresh_int("root"); size1 = fresh_int("size"); st.assume(And(pg(root1), root1 >= 0, in_(0, size1, 2**61)))
            st.loc[blk] = {L.root: (8, Ptr(root1, 0)), L.msize: (8, lin(size1))}; st.ghost["settled"] = True
            st.assume(Not(Select(H1.live, 0))); self.refine(X, st, H0, H1, a)
        has = fresh_bool("has"); v = fresh_int("val"); st.assume(in_(-2**31, v, 2**31))
        if "key" in a: st.assume(And(pg(Select(H1.LF, a["key"])), pg(Select(H0.LF, a["key"]))))
        for l, f in self.post(H0, H1, a, (root0, size0), (root1, size1), has, lambda: v, False, X, st): st.assume(f() if callable(f) else f)
        if self.ret == "opt": return Comp(8, {0: (4, lin(v)), 4: (1, BI(has)), 5: (3, Opaque("padding"))})
        if self.ret == "bool": return has
        return None
    def measure(self, X, st, H0, a): pass
    def refine(self, X, st, H0, H1, a): pass
    # ---------------------------------------------------------------- loops: a descent
    def loop_havoc(self, X, entry, hv): X.unsupported(entry, "loop that changes nodes at the level of the tree")
    def loop_cands(self, X, entry, hv, info):
        H = entry.heap; out = []; key = self.a.get("key"); root = self.root
        if key is None: return out
        E = lambda x: H.at("end", x); K = lambda x: H.at("key", x)
        ps = [(p.id, lambda s, p=p: s.regs[p.id].b.z()) for p, kind, x in info["phis"] if kind == "node"]
        ds = [(p.id, lambda s, p=p: (lambda v: None if v is None else v.z())(X_lin(s.regs[p.id]))) for p, kind, x in info["phis"] if kind == "int" and p.ty.width > 8]
        def add(n, f):
            def g(s):
                try: return f(s)
                except (TypeError, AttributeError, KeyError, z3.Z3Exception): return None
            out.append((n, g))
        l = Select(H.LF, key)
        for n, p in ps:
            add("%s marked" % n, lambda s, p=p: And(pg(p(s)), p(s) >= 0))
            add("%s null or a node" % n, lambda s, p=p: Or(p(s) == 0, Select(H.live, p(s))))
            add("%s null or sound" % n, lambda s, p=p: Or(p(s) == 0, And(p(s) > 0, H.at("ak", p(s)) == H.at("ty", p(s)), in_(0, H.at("ty", p(s)), 5), 0 <= H.at("klen", p(s)), H.at("klen", p(s)) <= E(p(s)))))
            add("%s null or well formed" % n, lambda s, p=p: Or(p(s) == 0, H.at("ty", p(s)) == LEAF, WFP(H.at("ty", p(s)), H.at("nch", p(s)), H.row("K", p(s)), H.row("C", p(s)), H.row("FM", p(s)), H.row("F", p(s)))))
            add("%s null or inner" % n, lambda s, p=p: Or(p(s) == 0, H.at("ty", p(s)) != LEAF))
            add("%s null or on the path" % n, lambda s, p=p: Or(p(s) == 0, pre(key, E(p(s))) == pre(K(p(s)), E(p(s)))))
            add("%s: above the key's leaf" % n, lambda s, p=p: Implies(l != 0, And(p(s) != 0, pre(key, E(p(s))) == pre(K(p(s)), E(p(s))))))
            for d, q in ds:
                add("%s ends at %s" % (n, d), lambda s, p=p, q=q: If(p(s) == 0, q(s) == 0, E(p(s)) == q(s)))
                add("%s begins at %s" % (n, d), lambda s, p=p, q=q: Implies(p(s) != 0, E(p(s)) - H.at("klen", p(s)) == q(s)))
                add("%s shares the key up to %s" % (n, d), lambda s, p=p, q=q: Implies(p(s) != 0, pre(key, q(s)) == pre(K(p(s)), q(s))))
            for m, q in ps:
                if n == m: continue
                add("%s is %s's child" % (n, m), lambda s, p=p, q=q: Implies(q(s) != 0, Select(H.row("F", q(s)), byte(key, E(q(s)))) == p(s)))
                add("%s is the root under null %s" % (n, m), lambda s, p=p, q=q: Implies(q(s) == 0, p(s) == root))
                add("%s is null or the root under null %s" % (n, m), lambda s, p=p, q=q: Implies(q(s) == 0, Or(p(s) == 0, p(s) == root)))
                add("%s is null under null %s" % (n, m), lambda s, p=p, q=q: Implies(q(s) == 0, p(s) == 0))
        for d, q in ds: add("0<=%s<=8" % d, lambda s, q=q: And(0 <= q(s), q(s) <= 8))
        return out
    def loop_measures(self, X, entry, hv, info):
        H = entry.heap; out = []
        for p, kind, x in info["phis"]:
            if kind == "node": out.append((p.id, lambda s, p=p: If(s.regs[p.id].b.z() == 0, 0, 9 - H.at("end", s.regs[p.id].b.z()))))
        return out + default_measures(X, hv, info)

import itertools
_n = itertools.count()

def content(H0, H1, key, has, v, new, stored, goal):
    """has/v: what the key held; new: whether the key is present afterwards; stored: its value then"""
    l0, l1 = Select(H0.LF, key), Select(H1.LF, key)
    same = z3.ForAll([k_], Implies(And(*([pg(Select(H0.LF, k_)), pg(Select(H1.LF, k_))] if goal else []), k_ != key, Select(H0.LF, k_) != 0), Select(H1.val, Select(H0.LF, k_)) == Select(H0.val, Select(H0.LF, k_))), patterns=[] if goal else [Select(H0.LF, k_)])
    return [("reports whether the key was present", has == (l0 != 0)), ("reports the value it had", lambda: Implies(has, v() == Select(H0.val, l0))),
            ("the key is present exactly when it should be", (l1 != 0) == new), ("the key has the value it should have", Implies(l1 != 0, Select(H1.val, l1) == stored)),
            ("other keys come and go with no one", H1.LF == z3.Store(H0.LF, key, l1)), ("other keys keep their values", same)]

class Insert_(TC):
    params = [("this", "map"), ("key", "key"), ("value", "int")]; op = 0
    def post(self, H0, H1, a, m0, m1, has, v, goal, X, st):
        l0 = Select(H0.LF, a["key"]); old = Select(H0.val, l0)
        new = l0 != 0 if self.op == 1 else z3.BoolVal(True)
        return inv(H1, m1[0], goal) + content(H0, H1, a["key"], has, v, new, If(l0 != 0, old, a["value"]) if self.op == 0 else a["value"], goal) + [("the count field is left alone", m1[1] == m0[1])]

class Erase(TC):
    params = [("this", "map"), ("node", "node"), ("parent", "node"), ("key", "key"), ("depth", "int")]
    def pre(self, H, root, size, a, goal):
        p, n, d, k = a["parent"], a["node"], a["depth"], a["key"]
        at = If(p == 0, And(n == root, d == 0), And(p > 0, Select(H.live, p), H.at("ty", p) != LEAF, H.at("end", p) == d, pre(k, d) == pre(H.at("key", p), d), Select(H.row("F", p), byte(k, d)) == n))
        return inv(H, root, goal) + [("called at a place on the key's path", at)]
    def measure(self, X, st, H0, a):
        if X.c is not self: return
        m = lambda H, p: If(p == 0, 100, 8 - H.at("end", p))
        X.oblige(st, And(m(H0, a["parent"]) >= 0, m(H0, a["parent"]) < m(self.H0, self.a["parent"])), "recursion goes down the tree")
    def refine(self, X, st, H0, H1, a):
        """write the part of the postcondition that fixes the parent's fields into the new heap"""
        p = a["parent"]
        if not X.provable(st.facts, p != 0, 1000): return
        for n in ("ak", "ty", "klen", "key", "end"): H1.put(n, p, H0.at(n, p))
        H1.put("F", p, z3.Store(H0.row("F", p), byte(a["key"], a["depth"]), fresh_int("below")))
    def leaves(self, st, H, has):
        h = z3.simplify(has)
        H.a["LF"] = z3.Store(H.LF, self.a["key"], z3.IntVal(0)) if z3.is_true(h) else H.LF if z3.is_false(h) else If(has, z3.Store(H.LF, self.a["key"], z3.IntVal(0)), H.LF)
    def post(self, H0, H1, a, m0, m1, has, v, goal, X, st):
        p, k = a["parent"], a["key"]; D = H0.at("end", p); i = byte(k, a["depth"])
        out = inv(H1, m1[0], goal, p) + content(H0, H1, k, has, v, z3.BoolVal(False), z3.IntVal(0), goal)
        ALL = ["ak", "ty", "klen", "nch", "key", "val", "end", "K", "C", "FM", "F"]
        P = pg(b_)
        def G(hyp, body, l): out.append((l, z3.ForAll([b_], Implies(And(*([P] if goal else []), *hyp), body), patterns=[] if goal else [P])))
        G([p != 0, Select(H0.live, b_), b_ != p, H0.at("end", b_) <= D], And(Select(H1.live, b_), *[Select(H1[n], b_) == Select(H0[n], b_) for n in ALL]), "nodes above are left alone")
        f0, f1 = Select(H0.row("F", p), i), Select(H1.row("F", p), i)
        out.append(("the parent changes at the key's byte only", Implies(p != 0, And(Select(H1.live, p), *[H1.at(n, p) == H0.at(n, p) for n in ("ak", "ty", "klen", "key", "end")], H1.row("F", p) == z3.Store(H0.row("F", p), i, f1), H1.at("nch", p) == H0.at("nch", p) - If(And(f0 != 0, f1 == 0), 1, 0)))))
        out.append(("the root changes only without a parent", Implies(Or(p != 0, Not(has)), m1[0] == m0[0])))
        out.append(("nothing changes when the key is absent", Implies(Not(has), And(*[H1[n] == H0[n] for n in ALL + ["live"]]))))
        return out + [("the count field is left alone", m1[1] == m0[1])]

class Public(TC):
    def pre(self, H, root, size, a, goal): return inv(H, root, goal) + [("the count is the number of keys", size == card(H.LF))]
    def extra(self, H, a):
        if "key" not in a: return []
        return [Implies(Select(H.LF, a["key"]) != 0, card(H.LF) >= 1), card(H.LF) >= 0]
    def counted(self, H0, H1, a, m1):
        l1 = Select(H1.LF, a["key"]); s = z3.Store(H0.LF, a["key"], l1)
        def f(): return Implies(card(s) == card(H0.LF) + NZ(l1) - NZ(Select(H0.LF, a["key"])), m1[1] == card(H1.LF))
        return [("the count is the number of keys", f)]
class Point(Public):
    params = [("this", "map"), ("key", "key"), ("value", "int")]; op = 0
    def post(self, H0, H1, a, m0, m1, has, v, goal, X, st):
        l0 = Select(H0.LF, a["key"]); old = Select(H0.val, l0)
        new = l0 != 0 if self.op == 1 else z3.BoolVal(self.op != 3)
        h = Not(has) if self.ret == "bool" else has
        cs = content(H0, H1, a["key"], h, v, new, If(l0 != 0, old, a["value"]) if self.op == 0 else a.get("value", z3.IntVal(0)), goal)
        if self.ret == "bool": cs = [x for x in cs if x[0] != "reports the value it had"]
        return inv(H1, m1[0], goal) + cs + self.counted(H0, H1, a, m1)
class Delete(Point): params = [("this", "map"), ("key", "key")]; op = 3
class InsertP(Point): ret = "bool"; op = 0
class UpdateP(Point): op = 1
class UpsertP(Point): op = 2
class Insert0(Insert_): op = 0
class Insert1(Insert_): op = 1
class Insert2(Insert_): op = 2
class Search(Public):
    params = [("this", "map"), ("key", "key")]; const = True
    def post(self, H0, H1, a, m0, m1, has, v, goal, X, st):
        l0 = Select(H0.LF, a["key"])
        return [("present exactly when inserted and not erased", has == (l0 != 0)), ("the value last stored", lambda: Implies(has, v() == Select(H0.val, l0))), ("the map is unchanged", And(m1[0] == m0[0], m1[1] == m0[1]))]
class Size(Public):
    ret = "int"; const = True
    def post(self, H0, H1, a, m0, m1, has, v, goal, X, st): return [("the number of keys", lambda: v() == card(H0.LF)), ("the map is unchanged", And(m1[0] == m0[0], m1[1] == m0[1]))]
class New(TC):
    params = [("this", "raw")]; ret = "void"
    def pre(self, H, root, size, a, goal): return [("no nodes yet", FA([b_], Not(Select(H.live, b_)), [Select(H.live, b_)])), ("no keys yet", FA([k_], Select(H.LF, k_) == 0, [Select(H.LF, k_)])), ("no keys, no count", card(H.LF) == 0)]
    def post(self, H0, H1, a, m0, m1, has, v, goal, X, st): return inv(H1, m1[0], goal) + [("the count is the number of keys", m1[1] == card(H1.LF))]
class Move(Public):
    params = [("this", "raw"), ("other", "map")]; ret = "void"
    def post(self, H0, H1, a, m0, m1, has, v, goal, X, st):
        r, s = self.fields(X, st, "other")
        return inv(H1, m1[0], goal) + [("the count is the number of keys", m1[1] == card(H1.LF)), ("the content moves unchanged", And(*[H1[n] == H0[n] for n in H0.a])), ("the source is empty", And(r == 0, s == 0))]

def contracts():
    return {"Map::insert<0>": Insert0, "Map::insert<1>": Insert1, "Map::insert<2>": Insert2, "Map::erase": Erase, "Map::Search": Search, "Map::Insert": InsertP, "Map::Upsert": UpsertP, "Map::Update": UpdateP, "Map::Delete": Delete, "Map::size": Size, "dv::ctor": New, "dv::move": Move}
