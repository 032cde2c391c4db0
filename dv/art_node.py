"""Contracts of the ART's node operations: each node is a map from byte to child, whatever its representation."""
import z3
from core import *
from pagemem import *
from sx import *
from contract import *
from art_mem import *

p_, q_ = z3.Ints("p q")
def in_(lo, v, hi): return And(lo <= v, v < hi)
def wf(kind, n, K, C, FM, F):
    """representation invariant of an inner node: (label, formula)"""
    out = [("the number of children is that of the map", cnt(F, 256) == n), ("the map has byte indices only", FA([i_], Implies(Not(in_(0, i_, 256)), Select(F, i_) == 0), [Select(F, i_)])),
           ("no child at a negative address", FA([i_], Select(F, i_) >= 0, [Select(F, i_)]))]
    cap = If(kind == N4, 4, If(kind == N16, 16, If(kind == N48, 48, 256)))
    out.append(("the number of children is within the capacity", And(0 <= n, n <= cap)))
    def g(c, l, f): out.append((l, Implies(c, f)))
    s = Or(kind == N4, kind == N16)
    g(s, "every entry is a child at its byte", FA([j_], Implies(in_(0, j_, n), And(Select(C, j_) != 0, Select(F, Select(K, j_)) == Select(C, j_), in_(0, Select(K, j_), 256))), [Select(K, j_)]))
    g(s, "every entry is a child at its byte (by child)", FA([j_], Implies(in_(0, j_, n), And(Select(C, j_) != 0, Select(F, Select(K, j_)) == Select(C, j_))), [Select(C, j_)]))
    g(s, "entries have different bytes", FA([i_, j_], Implies(And(in_(0, i_, n), in_(0, j_, n), i_ != j_), Select(K, i_) != Select(K, j_)), [z3.MultiPattern(Select(K, i_), Select(K, j_))]))
    g(s, "every child has an entry", FA([i_], Implies(Select(F, i_) != 0, z3.Exists([j_], And(in_(0, j_, n), Select(K, j_) == i_), patterns=[Select(K, j_)])), [Select(F, i_)]))
    t = kind == N48
    body = And(0 <= Select(K, i_), Select(K, i_) <= 48, Implies(Select(K, i_) == 0, Select(F, i_) == 0), Implies(Select(K, i_) != 0, And(Select(F, i_) == Select(C, Select(K, i_) - 1), Select(F, i_) != 0)))
    g(t, "the index array leads to the children", FA([i_], Implies(in_(0, i_, 256), body), [Select(K, i_)]))
    g(t, "the index array leads to the children (by byte)", FA([i_], Implies(in_(0, i_, 256), body), [Select(F, i_)]))
    g(t, "different bytes have different slots", FA([i_, j_], Implies(And(in_(0, i_, 256), in_(0, j_, 256), i_ != j_, Select(K, i_) != 0), Select(K, i_) != Select(K, j_)), [z3.MultiPattern(Select(K, i_), Select(K, j_))]))
    fmc = lambda p: Select(FM, 47 - p) == (Select(C, p) != 0)
    g(t, "the free map marks the slots in use", FA([p_], Implies(in_(0, p_, 48), fmc(p_)), [Select(C, p_)]))
    g(t, "the free map marks the slots in use (by bit)", FA([p_], Implies(in_(0, p_, 48), Select(FM, p_) == (Select(C, 47 - p_) != 0)), [Select(FM, p_)]))
    g(t, "slots in use are counted", cnt(C, 48) == n)
    g(kind == N256, "the child array is the map", And(FA([i_], Implies(in_(0, i_, 256), Select(F, i_) == Select(C, i_)), [Select(F, i_)]), FA([i_], Implies(in_(0, i_, 256), Select(F, i_) == Select(C, i_)), [Select(C, i_)])))
    return out

def cnt_axioms(F, m):
    """facts about the counts of one array, used as a source (each an instance of a lemma proved in this run)"""
    return [cnt(F, 0) == 0, FA([i_], Implies(0 <= i_, cnt(F, i_ + 1) == cnt(F, i_) + NZ(Select(F, i_))), [Select(F, i_)]),
            FA([i_, j_], Implies(And(0 <= i_, i_ < j_), And(cnt(F, i_) <= cnt(F, j_), Implies(Select(F, i_) != 0, cnt(F, i_) < cnt(F, j_)))), [z3.MultiPattern(cnt(F, i_), cnt(F, j_))]),
            FA([i_], Implies(0 <= i_, And(0 <= cnt(F, i_), cnt(F, i_) <= i_)), [cnt(F, i_)])]

ARR = ["ty", "klen", "nch", "key", "val", "K", "C", "FM"]
class NC(FnContract):
    params = [("this", "node")]; ret = "void"
    inner = True               # `this` is an inner node, well formed
    writes = False; kids = ()
    @property
    def writes_heap(self): return self.writes
    # ------------------------------------------------ verification side
    def setup(self, X):
        st = State(); st.heap = H = AHeap("0"); self.H0 = H; self.a = a = {}
        st.assume(Not(Select(H.live, 0)))
        if len(X.F.params) != len(self.params): raise Unsupported("signature changed: %d parameters, contract has %d" % (len(X.F.params), len(self.params)))
        for k, (nm, kind) in enumerate(self.params):
            v = z3.Int(nm); a[nm] = v; r = "%%a%d" % k
            if kind == "node": st.assume(v > 0); st.regs[r] = Ptr(v, 0)
            elif kind == "u8": st.assume(in_(0, v, 256)); st.regs[r] = U8(v)
            elif kind == "int": st.assume(in_(-2**31, v, 2**31)); st.regs[r] = lin(v)
            elif kind == "key": st.assume(in_(-2**63, v, 2**63)); st.regs[r] = lin(v)
        st.ghost["fresh"] = (); st.ghost["keys"] = tuple(self.keys(H, a))
        for f in key_ground(*st.ghost["keys"]): st.assume(f)
        for l, f in self.pre(X, H, a): st.assume(f)
        if self.inner:
            b = a["this"]; F = H.row("F", b); n = H.at("nch", b)
            for l, f in wf(H.at("ty", b), n, H.row("K", b), H.row("C", b), H.row("FM", b), F): st.assume(f)
            for f in cnt_axioms(F, 256): st.assume(f)
        self.extra(X, st, H, a)
        return st
    def extra(self, X, st, H, a): pass
    def keys(self, H, a): return ()
    def node_pre(self, H, a, nm="this"):
        b = a[nm]; return [("the node is allocated", Select(H.live, b)), ("the node is what its tag says", H.at("ak", b) == H.at("ty", b))]
    def pre(self, X, H, a):
        b = a["this"]; out = self.node_pre(H, a)
        if self.inner: out += [("the node is an inner node", in_(1, H.at("ty", b), 5))]
        return out + self.pre2(H, a)
    def pre2(self, H, a): return []
    def wfp(self, H, b, F=None): return WFP(H.at("ty", b), H.at("nch", b), H.row("K", b), H.row("C", b), H.row("FM", b), H.row("F", b) if F is None else F)
    def fold_axioms(self): return []
    def on_alloc(self, st, b): return []
    def on_add(self, st, b, child): pass
    def can_write(self, X, st, b): return Or(*([b == self.a["this"]] if self.writes else []), *[b == f for f, k in st.ghost["fresh"]], z3.BoolVal(False))
    def can_free(self, X, st, b): return z3.BoolVal(False)
    def loop_havoc(self, X, entry, hv):
        H = hv.heap = hv.heap.copy()
        for b in self.writable(entry):
            for n in ("klen", "nch", "key", "val"): H.put(n, b, fresh_int(n))
            for n in ("K", "C"): H.put(n, b, fresh_const(n, AI))
            H.put("FM", b, fresh_const("FM", AB))
    def writable(self, st): return ([self.a["this"]] if self.writes else []) + [f for f, k in st.ghost["fresh"]]
    def check_return(self, X, st, r):
        H1 = st.heap; H0 = self.H0; res = None
        if self.ret == "node":
            if not (isinstance(r, Ptr) and r.heap()): X.unsupported(st, "returns the address of a local")
            X.oblige(st, r.o.z() == 0, "the pointer returned designates a node"); res = r.b.z()
        elif self.ret == "bool": res = B(X.cond(st, r))
        elif self.ret in ("int", "key"): res = X.L(st, r).z()
        self.st_ = st
        for f in self.exit_facts(st, H0, H1, self.a, res): st.assume(f)
        for l, f in self.post(H0, H1, self.a, res, st): X.oblige(st, f, "post: " + l)
    def exit_facts(self, st, H0, H1, a, res): return []
    def inner_ok(self, H, b, F, st=None):
        def nm(r):       # a pattern cannot contain a conditional: such a row gets a name
            if st is None or z3.is_const(r): return r
            n = fresh_const("row", r.sort()); st.assume(n == r)
            if z3.is_store(r): st.assume(Select(n, r.arg(1)) == r.arg(2))      # of the last write; makes the entry a term
            return n
        return wf(H.at("ty", b), H.at("nch", b), nm(H.row("K", b)), nm(H.row("C", b)), nm(H.row("FM", b)), F)
    def same_but(self, H0, H1, b, *but):
        return [("the node's other fields are unchanged", And(*[H1.at(n, b) == H0.at(n, b) for n in ARR + ["ak", "live"] if n not in but]))]
    # ------------------------------------------------ loop candidates
    def loop_cands(self, X, entry, hv, info):
        H0 = entry.heap; L = X.u.lay; out = []
        def guard(f):
            def g(s):
                try: return f(s)
                except (TypeError, AttributeError, KeyError, z3.Z3Exception): return None
            return g
        add = lambda n, f: out.append((n, guard(f)))
        ws = self.writable(entry) if info["heap"] else []
        for b in ws:
            for n in ARR: add("%s of %s unchanged" % (n, b), lambda s, n=n, b=b: s.heap.at(n, b) == H0.at(n, b))
        ts = []      # index-like terms
        def idx(v): 
            if isinstance(v, U8): return v.z
            v = X_lin(v); return None if v is None else v.z()
        kinds = {b.get_id(): k for b, k in entry.ghost["fresh"]}
        def kd(b): return [kinds[b.get_id()]] if b.get_id() in kinds else [1, 2, 3, 4]
        for p, kind, x in info["phis"]:
            if kind == "int" and p.ty.width > 1: ts.append((p.id, lambda s, p=p: idx(s.regs[p.id]), idx(entry.regs[p.id])))
            elif kind == "ind":
                for k in L.children:
                    for base, w in ((L.children[k], 8),) + (((L.keys[k], 1),) if k in L.keys else ()):
                        def f(s, p=p, base=base, w=w):
                            d = (s.regs[p.id].o - base).div(w); return None if d is None else d.z()
                        e = f(entry)
                        if e is None or f(hv) is None: continue
                        ts.append(("%s/%d/%d" % (p.id, base, w), f, e))
        caps = [("4", 4), ("8", 8), ("16", 16), ("48", 48), ("256", 256)]
        this = self.a.get("this"); Hs = self.H0
        if this is not None: caps.append(("n", Hs.at("nch", this)))
        if "lcpl" in self.a: caps.append(("lcpl", self.a["lcpl"]))
        for n, t, e in ts:
            add(n + ">=0", lambda s, t=t: t(s) >= 0)
            add(n + ">=entry", lambda s, t=t, e=e: t(s) >= e)
            add(n + "<=entry", lambda s, t=t, e=e: t(s) <= e)
            for cn, c in caps: add(n + "<=" + cn, lambda s, t=t, c=c: t(s) <= c)
        self.more_cands(X, entry, info, ts, ws, add)
        return out
    def more_cands(self, X, entry, info, ts, ws, add): pass
    # ------------------------------------------------ call side
    def bind(self, X, st, args):
        a = {}
        if len(args) != len(self.params): X.unsupported(st, "call of %s with a different signature" % self.name)
        for (nm, kind), v in zip(self.params, args):
            if kind == "node":
                if not (isinstance(v, Ptr) and v.heap()): X.unsupported(st, "argument '%s' is not a node" % nm)
                X.oblige(st, v.o.z() == 0, "argument '%s' designates a node" % nm); a[nm] = v.b.z()
            elif kind == "u8": a[nm] = X.u8(st, v)
            else: a[nm] = X.L(st, v).z()
        return a
    def apply(self, X, st, args, ins):
        a = self.bind(X, st, args); H0 = st.heap; short = self.name.split("::")[-1]
        for l, f in self.pre(X, H0, a): X.oblige(st, f, "pre of %s: %s" % (short, l))
        if self.inner: X.oblige(st, self.wfp(H0, a["this"]), "pre of %s: the node is well formed" % short)
        if self.writes: X.oblige(st, X.c.can_write(X, st, a["this"]), "frame: %s writes only nodes this function may modify" % short)
        return self.effect(X, st, H0, a)
    def fresh_rows(self, H, b):
        for n in ("K", "C"): H.put(n, b, fresh_const(n, AI))
        H.put("FM", b, fresh_const("FM", AB))

# ---------------------------------------------------------------- reading
class Find(NC):
    params = [("this", "node"), ("ind", "u8")]; ret = "node"
    def post(self, H0, H1, a, res, st): return [("the child at the byte, or null", res == Select(H0.row("F", a["this"]), a["ind"]))]
    def more_cands(self, X, entry, info, ts, ws, add):
        K = self.H0.row("K", self.a["this"]); ind = self.a.get("ind")
        for n, t, e in ts:
            add(n + ": bytes before differ", lambda s, t=t: FA([t_], Implies(in_(0, t_, t(s)), Select(K, t_) != ind), [Select(K, t_)]))
            add(n + ": bytes from here differ", lambda s, t=t: FA([t_], Implies(And(t(s) <= t_, t_ < self.H0.at("nch", self.a["this"])), Select(K, t_) != ind), [Select(K, t_)]))
    def effect(self, X, st, H0, a):
        v = Select(H0.row("F", a["this"]), a["ind"]); st.assume(And(v >= 0, pg(v))); return Ptr(v, 0)

class Underfull(NC):
    ret = "bool"
    def val(self, H0, a):
        b = a["this"]; k, n = H0.at("ty", b), H0.at("nch", b)
        return If(k == N4, n <= 1, n == If(k == N16, 4, If(k == N48, 16, 48)))
    def post(self, H0, H1, a, res, st): return [("few enough children for the next smaller kind", res == self.val(H0, a))]
    def effect(self, X, st, H0, a): return self.val(H0, a)

class Lcp(NC):
    params = [("this", "node"), ("other", "key")]; ret = "int"; inner = False
    def pre(self, X, H, a): return self.node_pre(H, a)[:1]
    def keys(self, H, a): return (H.at("key", a["this"]), a["other"])
    def facts(self, H0, a, r):
        k, o = H0.at("key", a["this"]), a["other"]
        return [("within the key", And(0 <= r, r <= 8)), ("the keys agree before", pre(k, r) == pre(o, r)), ("the keys differ there", Implies(r < 8, byte(k, r) != byte(o, r)))]
    def post(self, H0, H1, a, res, st): return self.facts(H0, a, res)
    def more_cands(self, X, entry, info, ts, ws, add):
        k, o = self.keys(self.H0, self.a)
        for n, t, e in ts: add(n + ": the keys agree before", lambda s, t=t: pre(k, t(s)) == pre(o, t(s)))
    def effect(self, X, st, H0, a):
        r = fresh_int("lcp")
        for l, f in self.facts(H0, a, r): st.assume(f)
        return lin(r)

class Extract(NC):
    params = [("key", "key"), ("lcpl", "int")]; ret = "key"; inner = False
    def pre(self, X, H, a): return [("a length within the key", And(0 <= a["lcpl"], a["lcpl"] <= 8))]
    def keys(self, H, a): return (a["key"],)
    def post(self, H0, H1, a, res, st): return [("the prefix is kept", pre(res, a["lcpl"]) == pre(a["key"], a["lcpl"]))]
    def exit_facts(self, st, H0, H1, a, res): return key_ground(a["key"], res) + [same_bytes(res, a["key"], a["lcpl"])]
    def more_cands(self, X, entry, info, ts, ws, add):
        k = self.a["key"]
        for n, t, e in ts:
            for b in list(entry.loc):
                def f(s, b=b, t=t):
                    c = s.loc.get(b, {}).get(0)
                    if c is None or c[0] != 8 or not isinstance(c[1], Lin): return None
                    return And(*[Implies(i < t(s), byte(c[1].z(), i) == byte(k, i)) for i in range(8)])
                add("%s: bytes before are copied to %s" % (n, b.id), f)
    def effect(self, X, st, H0, a):
        r = fresh_int("prefix"); st.assume(And(in_(-2**63, r, 2**63), pre(r, a["lcpl"]) == pre(a["key"], a["lcpl"])))
        return lin(r)

# ---------------------------------------------------------------- changing
class Writer(Find):
    writes = True; newval = None
    def exit_facts(self, st, H0, H1, a, res): 
        F0 = H0.row("F", a["this"]); F1 = self.F1(H0, a)
        return [cnt_store(F1, F0, a["ind"], self.newval_(a), 256)]
    def newval_(self, a): return a["child"]
    def F1(self, H0, a): return z3.Store(H0.row("F", a["this"]), a["ind"], self.newval_(a))
    def shape(self, H0, H1, a, F1, n1, st):
        b = a["this"]
        return [("the count of children", H1.at("nch", b) == n1)] + self.inner_ok(H1, b, F1, st) + self.same_but(H0, H1, b, "nch", "K", "C", "FM")
    def change(self, st, H0, a, n1):
        H = st.heap = st.heap.copy(); b = a["this"]
        self.fresh_rows(H, b); H.put("nch", b, n1); H.put("F", b, self.F1(H0, a))
        st.assume(self.wfp(H, b))

class Add(Writer):
    params = [("this", "node"), ("child", "node"), ("ind", "u8")]; ret = "bool"
    def pre2(self, H, a): return [("no child at this byte yet", Select(H.row("F", a["this"]), a["ind"]) == 0)]
    def cap(self, H, a): k = H.at("ty", a["this"]); return If(k == N4, 4, If(k == N16, 16, If(k == N48, 48, 256)))
    def extra(self, X, st, H, a):
        b = a["this"]; st.assume(Implies(H.at("ty", b) == N48, cnt_free(H.row("C", b), 48)))
        F = H.row("F", b); st.assume(cnt(F, 256) < 256, "room")     # lemma full: F[ind] == 0 leaves the count below 256
    def post(self, H0, H1, a, res, st):
        b = a["this"]; n = H0.at("nch", b)
        ok = [(l, Implies(res, f)) for l, f in self.shape(H0, H1, a, self.F1(H0, a), n + 1, st)]
        return [("added unless the node is full", res == (n < self.cap(H0, a)))] + ok + [("a full node is unchanged", Implies(Not(res), And(*[H1.at(x, b) == H0.at(x, b) for x in ARR])))]
    def more_cands(self, X, entry, info, ts, ws, add):
        C = entry.heap.row("C", self.a["this"])
        for n, t, e in ts: add(n + ": slots before are in use", lambda s, t=t: FA([t_], Implies(in_(0, t_, t(s)), Select(C, t_) != 0), [Select(C, t_)]))
    def effect(self, X, st, H0, a):
        b = a["this"]; n = H0.at("nch", b); full = n >= self.cap(H0, a)
        st.assume(Implies(H0.at("ty", b) == N256, n < 256))
        st.assume(And(0 <= n, n <= self.cap(H0, a)))     # part of well-formedness, required above
        X.c.on_add(st, b, a["child"])
        if Solve.quick(st.facts, Not(full)): self.change(st, H0, a, n + 1); return True
        if Solve.quick(st.facts, full) or getattr(X.c, "whole", False) and X.provable(st.facts, full, 1000): return False
        if getattr(X.c, "whole", False):
            if X.provable(st.facts, Not(full), 1000): self.change(st, H0, a, n + 1); return True
            raise CaseSplit(full)
        r = fresh_bool("added"); st.assume(r == Not(full))
        H = st.heap = st.heap.copy()
        for k in ("K", "C"): H.put(k, b, If(r, fresh_const(k, AI), H0.row(k, b)))
        H.put("FM", b, If(r, fresh_const("FM", AB), H0.row("FM", b)))
        H.put("nch", b, If(r, n + 1, n)); H.put("F", b, If(r, self.F1(H0, a), H0.row("F", b)))
        st.assume(self.wfp(H, b)); return r

class Update(Writer):
    params = [("this", "node"), ("child", "node"), ("ind", "u8")]; ret = "node"
    def pre2(self, H, a): return [("there is a child at this byte", Select(H.row("F", a["this"]), a["ind"]) != 0)]
    def post(self, H0, H1, a, res, st):
        return [("the old child is returned", res == Select(H0.row("F", a["this"]), a["ind"]))] + self.shape(H0, H1, a, self.F1(H0, a), H0.at("nch", a["this"]), st)
    def effect(self, X, st, H0, a):
        v = Select(H0.row("F", a["this"]), a["ind"]); st.assume(And(v >= 0, pg(v)))
        self.change(st, H0, a, H0.at("nch", a["this"])); return Ptr(v, 0)

class Remove(Writer):
    params = [("this", "node"), ("ind", "u8")]; ret = "void"
    def newval_(self, a): return z3.IntVal(0)
    def pre2(self, H, a): return [("there is a child at this byte", Select(H.row("F", a["this"]), a["ind"]) != 0)]
    def post(self, H0, H1, a, res, st): return self.shape(H0, H1, a, self.F1(H0, a), H0.at("nch", a["this"]) - 1, st)
    def more_cands(self, X, entry, info, ts, ws, add):
        Find.more_cands(self, X, entry, info, ts, ws, add)
        for b in ws:
            for nm in ("K", "C"):
                R0 = entry.heap.row(nm, b)
                for n, t, e in ts:
                    def f(s, t=t, e=e, nm=nm, R0=R0, b=b):
                        R = s.heap.row(nm, b)
                        return And(FA([t_], Select(R, t_) == If(And(e <= t_, t_ < t(s)), Select(R0, t_ + 1), Select(R0, t_)), [Select(R, t_)]),
                                   FA([t_], Implies(And(e < t_, t_ <= t(s)), Select(R, t_ - 1) == Select(R0, t_)), [Select(R0, t_)]), FA([t_], Implies(Or(t_ < e, t_ >= t(s)), Select(R, t_) == Select(R0, t_)), [Select(R0, t_)]))
                    add("%s: %s shifted down before" % (n, nm), f)
                    def g(s, t=t, e=e, nm=nm, R0=R0, b=b):
                        R = s.heap.row(nm, b)
                        return And(FA([t_], Select(R, t_) == If(And(e <= t_ + 1, t_ + 1 < t(s)), Select(R0, t_ + 1), Select(R0, t_)), [Select(R, t_)]),
                                   FA([t_], Implies(And(e <= t_, t_ < t(s)), Select(R, t_ - 1) == Select(R0, t_)), [Select(R0, t_)]), FA([t_], Implies(Or(t_ < e - 1, t_ >= t(s) - 1), Select(R, t_) == Select(R0, t_)), [Select(R0, t_)]))
                    add("%s: %s shifted down below" % (n, nm), g)
    def effect(self, X, st, H0, a): self.change(st, H0, a, H0.at("nch", a["this"]) - 1); return None

class Free(NC):
    inner = False; params = [("this", "node")]; writes = False; writes_heap = True
    def pre(self, X, H, a): return self.node_pre(H, a) + [("a known kind", in_(0, H.at("ty", a["this"]), 5))]
    def can_free(self, X, st, b): return b == self.a["this"]
    def post(self, H0, H1, a, res, st): return [("released", And(H1.live == z3.Store(H0.live, a["this"], z3.BoolVal(False)), *[H1[n] == H0[n] for n in H0.a if n != "live"]))]
    def effect(self, X, st, H0, a):
        X.oblige(st, X.c.can_free(X, st, a["this"]), "frame: only nodes this function may release are released")
        H = st.heap = st.heap.copy(); H.put("live", a["this"], z3.BoolVal(False)); return None

# ---------------------------------------------------------------- making
class Ctor(NC):
    params = [("this", "node"), ("key", "key"), ("klen", "u8")]; inner = False; writes = True
    def kind(self): return {"4": N4, "16": N16, "48": N48, "256": N256}[self.name.split("::")[0][4:]]
    def pre(self, X, H, a): return [("storage for a node of this kind", And(Select(H.live, a["this"]), H.at("ak", a["this"]) == self.kind()))]
    def post(self, H0, H1, a, res, st): return self.facts(H0, H1, a) + self.same_but(H0, H1, a["this"], "ty", "klen", "nch", "key", "K", "C", "FM")
    def facts(self, H0, H1, a):
        b = a["this"]; k = self.kind(); K, C, FM = (H1.row(n, b) for n in ("K", "C", "FM")); m = {N4: 4, N16: 16, N48: 256, N256: 0}[k]
        out = [("an empty node of its kind", And(H1.at("ty", b) == k, H1.at("klen", b) == a["klen"], H1.at("nch", b) == 0, H1.at("key", b) == a["key"])),
               ("no children", FA([t_], Implies(in_(0, t_, CAP[k]), Select(C, t_) == 0), [Select(C, t_)]))]
        if m: out.append(("no bytes", FA([t_], Implies(in_(0, t_, m), Select(K, t_) == 0), [Select(K, t_)])))
        if k == N48: out.append(("no slot in use", FA([t_], Implies(in_(0, t_, 64), Not(Select(FM, t_))), [Select(FM, t_)])))
        return out
    def more_cands(self, X, entry, info, ts, ws, add):
        for b in ws:
            for nm in ("K", "C"):
                for n, t, e in ts:
                    def f(s, t=t, nm=nm, b=b):
                        R = s.heap.row(nm, b); return FA([t_], Implies(in_(0, t_, t(s)), Select(R, t_) == 0), [Select(R, t_)])
                    add("%s: %s zero before" % (n, nm), f)
    def effect(self, X, st, H0, a):
        b = a["this"]; H = st.heap = st.heap.copy(); k = self.kind()
        self.fresh_rows(H, b)
        H.put("ty", b, z3.IntVal(k)); H.put("klen", b, a["klen"]); H.put("nch", b, z3.IntVal(0)); H.put("key", b, a["key"])
        for l, f in self.facts(H0, H, a): st.assume(f)
        if not isinstance(X.c, NC):      # elsewhere the node is an empty map
            Z = z3.K(INT, z3.IntVal(0)); H.put("F", b, Z)
            st.assume(self.wfp(H, b))    # empty_ok, proved as an obligation of its own
        return None

class Conv(NC):
    """expand and shrink: a fresh node of the next kind with the same map"""
    ret = "node"; writes_heap = True
    def exit_facts(self, st, H0, H1, a, res):
        fr = st.ghost["fresh"]; F = H0.row("F", a["this"]); n = H0.at("nch", a["this"]); out = []
        for b, k in fr:
            if k == N48: out += [cnt_full(H1.row("C", b), n, 48), cnt_full(H1.row("C", b), H1.at("nch", b), 48)]
        return out
    def post(self, H0, H1, a, res, st):
        b = a["this"]; F = H0.row("F", b); d = self.dk(H0, b); k0 = H0.at("ty", b); big = self.big(k0)
        ok = [("a fresh node", And(res > 0, Not(Select(H0.live, res)), Select(H1.live, res))), ("of the next kind", And(H1.at("ty", res) == d, H1.at("ak", res) == d)), ("same key, prefix length and count", And(*[H1.at(n, res) == H0.at(n, b) for n in ("key", "klen", "nch")]))] + self.inner_ok(H1, res, F, self.st_)
        ok += [("nothing else changes", And(H1.live == z3.Store(H0.live, res, z3.BoolVal(True)), *[z3.ForAll([x_], Implies(x_ != res, Select(H1[n], x_) == Select(H0[n], x_))) for n in SC + ["K", "C", "FM", "F"]]))]
        return [(l, Implies(big, f)) for l, f in ok] + self.post2(H0, H1, a, res)
    def post2(self, H0, H1, a, res): return []
    def more_cands(self, X, entry, info, ts, ws, add):
        this = self.a["this"]; H0 = self.H0; F = H0.row("F", this); Ks, Cs = H0.row("K", this), H0.row("C", this)
        nz = lambda t: Select(F, t) != 0
        for b, k in entry.ghost["fresh"]:
            row = lambda s, n, b=b: s.heap.row(n, b)
            for n, t, e in ts:
                for nm, S in (("K", Ks), ("C", Cs), ("C", F)):
                    add("%s: %s copied before" % (n, nm), lambda s, t=t, nm=nm, S=S, row=row: FA([t_], Implies(in_(0, t_, t(s)), Select(row(s, nm), t_) == Select(S, t_)), [Select(row(s, nm), t_)]))
                    add("%s: %s copied before (by source)" % (n, nm), lambda s, t=t, nm=nm, S=S, row=row: FA([t_], Implies(in_(0, t_, t(s)), Select(row(s, nm), t_) == Select(S, t_)), [Select(S, t_)]))
                for nm in ("K", "C"):
                    m = CAP[k] if nm == "C" else 256
                    add("%s: %s zero from here" % (n, nm), lambda s, t=t, nm=nm, row=row, m=m: FA([t_], Implies(And(t(s) <= t_, t_ < m), Select(row(s, nm), t_) == 0), [Select(row(s, nm), t_)]))
                    add("%s: %s zero before" % (n, nm), lambda s, t=t, nm=nm, row=row: FA([t_], Implies(And(0 <= t_, t_ < t(s)), Select(row(s, nm), t_) == 0), [Select(row(s, nm), t_)]))
                    add("%s: %s not zero before" % (n, nm), lambda s, t=t, nm=nm, row=row: FA([t_], Implies(And(0 <= t_, t_ < t(s)), Select(row(s, nm), t_) != 0), [Select(row(s, nm), t_)]))
                if k == N48:
                    add("%s: slots below are marked" % n, lambda s, t=t, row=row: FA([t_], Implies(in_(0, t_, 48), Select(row(s, "FM"), t_) == (47 - t_ < t(s))), [Select(row(s, "FM"), t_)]))
                    add("%s: entries before are indexed" % n, lambda s, t=t, row=row: FA([t_], Implies(in_(0, t_, t(s)), Select(row(s, "K"), Select(Ks, t_)) == t_ + 1), [Select(Ks, t_)]))
                    add("%s: only entries before are indexed" % n, lambda s, t=t, row=row: FA([t_], Implies(in_(0, t_, 256), And(0 <= Select(row(s, "K"), t_), Select(row(s, "K"), t_) <= t(s), Implies(Select(row(s, "K"), t_) != 0, Select(Ks, Select(row(s, "K"), t_) - 1) == t_))), [Select(row(s, "K"), t_)]))
                    add("%s: children before have their slots" % n, lambda s, t=t, row=row: FA([t_], Implies(in_(0, t_, t(s)), If(nz(t_), And(Select(row(s, "K"), t_) == cnt(F, t_) + 1, Select(row(s, "C"), cnt(F, t_)) == Select(F, t_)), Select(row(s, "K"), t_) == 0)), [Select(row(s, "K"), t_)]))
                    add("%s: children before have their slots (by byte)" % n, lambda s, t=t, row=row: FA([t_], Implies(in_(0, t_, t(s)), If(nz(t_), And(Select(row(s, "K"), t_) == cnt(F, t_) + 1, Select(row(s, "C"), cnt(F, t_)) == Select(F, t_)), Select(row(s, "K"), t_) == 0)), [Select(F, t_)]))
                for n2, t2, e2 in ts:
                    if n2 == n: continue
                    add("%s counts the children before %s" % (n2, n), lambda s, t=t, t2=t2: t2(s) == cnt(F, t(s)))
                    if k in (N4, N16):
                        add("%s/%s: entries are children before" % (n, n2), lambda s, t=t, t2=t2, row=row: FA([t_], Implies(in_(0, t_, t2(s)), And(in_(0, Select(row(s, "K"), t_), t(s)), cnt(F, Select(row(s, "K"), t_)) == t_, Select(row(s, "C"), t_) != 0, Select(F, Select(row(s, "K"), t_)) == Select(row(s, "C"), t_))), [Select(row(s, "K"), t_)]))
                        add("%s/%s: children before are entries" % (n, n2), lambda s, t=t, t2=t2, row=row: FA([t_], Implies(And(in_(0, t_, t(s)), nz(t_)), And(cnt(F, t_) < t2(s), Select(row(s, "K"), cnt(F, t_)) == t_)), [Select(F, t_)]))
    def convert(self, X, st, H0, a, kd):
        """call side: the fresh node"""
        b = a["this"]; r = fresh_int("conv"); H = st.heap = st.heap.copy()
        st.assume(And(r > 0, Not(Select(H.live, r)), pg(r)))
        for f in X.c.on_alloc(st, r): st.assume(f)
        H.put("live", r, z3.BoolVal(True)); H.put("ak", r, kd); H.put("ty", r, kd)
        for n in ("key", "klen", "nch", "end", "F"): H.put(n, r, H0.at(n, b))
        H.put("val", r, fresh_int("raw")); self.fresh_rows(H, r)
        st.assume(self.wfp(H, r)); st.ghost["fresh"] = st.ghost.get("fresh", ()) + ((r, None),)
        return r

class Expand(Conv):
    def dk(self, H, b): return H.at("ty", b) + 1
    def big(self, k): return z3.BoolVal(True)
    def pre2(self, H, a): return [("not of the largest kind", H.at("ty", a["this"]) < 4)]
    def effect(self, X, st, H0, a): return Ptr(self.convert(X, st, H0, a, H0.at("ty", a["this"]) + 1), 0)

class Shrink(Conv):
    def dk(self, H, b): return H.at("ty", b) - 1
    def big(self, k): return k != N4
    def only(self, H, a): b = a["this"]; return Select(H.row("C", b), 0)
    def pre2(self, H, a):
        b = a["this"]; k, n = H.at("ty", b), H.at("nch", b); F = H.row("F", b)
        return [("few enough children", If(k == N4, n == 1, n <= If(k == N16, 4, If(k == N48, 16, 48)))),
                ("the only child of a node of the smallest kind is a node whose prefix can grow", Implies(k == N4, FA([i_], Implies(Select(F, i_) != 0, And(Select(F, i_) != b, Select(H.live, Select(F, i_)), H.at("klen", b) + Select(H.klen, Select(F, i_)) < 256, H.at("klen", b) >= 0, Select(H.klen, Select(F, i_)) >= 0)), [Select(F, i_)])))]
    def can_write(self, X, st, b): return Or(And(self.H0.at("ty", self.a["this"]) == N4, b == self.only(self.H0, self.a)), *[b == f for f, k in st.ghost["fresh"]])
    def post2(self, H0, H1, a, res):
        b = a["this"]; F = H0.row("F", b); s = H0.at("ty", b) == N4; i = Select(H0.row("K", b), 0)
        return [(l, Implies(s, f)) for l, f in [("the only child is returned", And(res != 0, Select(F, i) == res, FA([t_], Implies(t_ != i, Select(F, t_) == 0), [Select(F, t_)]))),
            ("its prefix grows by the node's", And(H1.at("klen", res) == H0.at("klen", res) + H0.at("klen", b), H1.klen == z3.Store(H0.klen, res, H1.at("klen", res)), *[H1[n] == H0[n] for n in H0.a if n != "klen"]))]]
    def effect(self, X, st, H0, a):
        b = a["this"]; k = H0.at("ty", b)
        if X.provable(st.facts, k == N4, 1000):
            F = H0.row("F", b); i, c = fresh_int("only_at"), fresh_int("only")
            st.assume(And(in_(0, i, 256), Select(F, i) == c, c > 0, pg(c), FA([t_], Implies(t_ != i, Select(F, t_) == 0), [Select(F, t_)])))
            X.oblige(st, X.c.can_write(X, st, c), "frame: shrink writes only nodes this function may modify")
            H = st.heap = st.heap.copy(); H.put("klen", c, H0.at("klen", c) + H0.at("klen", b))
            return Ptr(c, 0)
        if X.provable(st.facts, k != N4, 1000): return Ptr(self.convert(X, st, H0, a, k - 1), 0)
        raise CaseSplit(k == N4)

def of_kind4(C):
    """the same contract for the member function of the smallest layout, called with a node known to be one"""
    class K(C):
        def pre(self, X, H, a): return C.pre(self, X, H, a) + [("a node of the smallest kind", H.at("ty", a["this"]) == N4)]
    K.__name__ = C.__name__ + "4"; return K
def members(): return {"Node4::" + n: of_kind4(c) for n, c in (("find", Find), ("add", Add), ("update", Update), ("remove", Remove), ("is_underfull", Underfull))}
def contracts():
    out = {"Node::" + n: c for n, c in (("find", Find), ("add", Add), ("update", Update), ("remove", Remove), ("expand", Expand), ("shrink", Shrink), ("is_underfull", Underfull), ("free", Free),
           ("longest_common_prefix_length", Lcp), ("extract_common_prefix", Extract))}
    for n in ("4", "16", "48", "256"): out["Node%s::ctor" % n] = Ctor
    return out
