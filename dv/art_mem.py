"""Heap, byte words and bit sets for the ART unit (include/indexes/art/map.h).

Every node is one allocation of the size of one of five classes; `ak` is the class it was allocated as, `ty` the tag stored in
it.  Fields are total arrays node -> value; keys/children arrays are rows node -> (index -> value); the 64-bit free map of a
48-node is a set of bit numbers.  Ghost: F (the node's abstract map byte -> child, 0 for none), end (number of key bytes
consumed below the node).  A key is opaque but for byte(k,i) and pre(k,n), the key with all bytes from n on zeroed."""
import z3
from core import *
from pagemem import *
from sx import *
from contract import *

And, Or, Not, Implies, If, Select = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Select
INT, BOOL = z3.IntSort(), z3.BoolSort()
ASB = z3.ArraySort(INT, AB)
pg = z3.Function("pg", INT, BOOL)                     # trigger mark, true of everything
byte = z3.Function("byte", INT, INT, INT)
pre = z3.Function("pre", INT, INT, INT)
cnt = z3.Function("cnt", AI, INT, INT)                # number of non-null entries among the first n
WFP = z3.Function("node_ok", INT, INT, AI, AI, AB, AI, BOOL)
b_, i_, j_, t_, k_, x_, y_, n_, m_ = (z3.Int(s) for s in "bijtkxynm")
def FA(vs, body, pats): return z3.ForAll(vs, body, patterns=pats)
LEAF, N4, N16, N48, N256 = range(5)
CAP = {N4: 4, N16: 16, N48: 48, N256: 256}

SC = ["ak", "ty", "klen", "nch", "key", "val", "end"]
class AHeap:
    def __init__(s, tag="0"):
        s.a = {n: fresh_const(n + tag, AI) for n in SC}
        s.a.update(live=fresh_const("live" + tag, AB), K=fresh_const("K" + tag, AAI), C=fresh_const("C" + tag, AAI), FM=fresh_const("FM" + tag, ASB), F=fresh_const("F" + tag, AAI), LF=fresh_const("LF" + tag, AI))
    def copy(s): n = AHeap.__new__(AHeap); n.a = dict(s.a); return n
    def __getitem__(s, k): return s.a[k]
    def __getattr__(s, k):
        try: return s.__dict__["a"][k]
        except KeyError: raise AttributeError(k)
    def put(s, k, b, v): s.a[k] = z3.Store(s.a[k], b, v)
    def at(s, k, b): return sel(s.a[k], b)
    def row(s, k, b): return sel(s.a[k], b)

class U8:
    """a byte by its unsigned value"""
    __slots__ = ("z",)
    def __init__(s, z): s.z = z if not isinstance(z, int) else z3.IntVal(z)
class BS:
    """a 64-bit word as a set of bit numbers"""
    def __init__(s, a): s.a = a

def key_ground(*ks):
    """facts about prefixes of the given keys at every length"""
    out = []
    for i, x in enumerate(ks):
        out += [pre(x, 0) == 0, pre(x, 8) == x]
        for y in ks[:i]:
            for n in range(8): out.append((pre(x, n + 1) == pre(y, n + 1)) == And(pre(x, n) == pre(y, n), byte(x, n) == byte(y, n)))
    return out
def key_axioms():
    return [FA([x_, y_, n_, m_], Implies(And(pre(x_, n_) == pre(y_, n_), m_ <= n_), pre(x_, m_) == pre(y_, m_)), [z3.MultiPattern(pre(x_, n_), pre(y_, n_), pre(x_, m_))]),
            FA([x_, y_, n_, m_], Implies(And(pre(x_, n_) == pre(y_, n_), 0 <= m_, m_ < n_, m_ < 8), byte(x_, m_) == byte(y_, m_)), [z3.MultiPattern(pre(x_, n_), pre(y_, n_), byte(x_, m_))]),
            FA([x_], pre(x_, 8) == x_, [pre(x_, 8)]), FA([x_], pre(x_, 0) == 0, [pre(x_, 0)]),
            FA([x_, n_], And(0 <= byte(x_, n_), byte(x_, n_) < 256), [byte(x_, n_)])]
def step(x, y, n): return Implies(And(0 <= n, n < 8), (pre(x, n + 1) == pre(y, n + 1)) == And(pre(x, n) == pre(y, n), byte(x, n) == byte(y, n)))
def same_bytes(x, y, n):
    """two keys with the same first n bytes have the same prefix of length n (0 <= n <= 8)"""
    return Implies(And(0 <= n, n <= 8, *[Implies(i < n, byte(x, i) == byte(y, i)) for i in range(8)]), pre(x, n) == pre(y, n))
NZ = lambda v: If(v != 0, 1, 0)
def cnt_store(new, old, k, v, m): return Implies(0 <= k, cnt(new, m) == cnt(old, m) + If(k < m, NZ(v) - NZ(Select(old, k)), 0))
def cnt_full(a, n, m): return Implies(And(0 <= n, n <= m, FA([t_], Implies(And(0 <= t_, t_ < n), Select(a, t_) != 0), [Select(a, t_)]), FA([t_], Implies(And(n <= t_, t_ < m), Select(a, t_) == 0), [Select(a, t_)])), cnt(a, m) == n)
def cnt_free(a, m):
    p = fresh_int("free"); return Implies(cnt(a, m) < m, And(0 <= p, p < m, Select(a, p) == 0))
def cnt_bound(a, m): return And(0 <= cnt(a, m), cnt(a, m) <= m)

class ArtMem(PageMem):
    def __init__(self, unit): self.u = unit; self.L = unit.lay
    # ---- where an access falls
    def kind(self, X, st, b, want=None):
        a = z3.simplify(st.heap.at("ak", b))
        if z3.is_int_value(a): return a.as_long()
        memo = st.ghost.get("kinds") or {}
        k = memo.get(b.get_id())
        if k is not None: return k
        order = list(range(5)) if want is None else want
        for k in order:
            if Solve.quick(st.facts, st.heap.at("ak", b) == k): break
        else:
            if want is None or len(want) > 2: return None
            for k in want:
                if X.provable(st.facts, st.heap.at("ak", b) == k): break
            else: return None
        st.ghost["kinds"] = dict(memo); st.ghost["kinds"][b.get_id()] = k
        return k
    def live(self, X, st, p, what):
        if p.isnull(): X.oblige(st, False, "no access through a null pointer")
        X.oblige(st, Select(st.heap.live, p.b.z()), "%s: the node is allocated" % what)
    def place(self, X, st, p, size, isptr, what):
        """(array, index or None)"""
        L = self.L; o = p.o; b = p.b.z()
        if o.is_const():
            n = L.hdr.get((o.c, size))
            if n: return n, None
            if size == 1 and L.key <= o.c < L.key + 8: return "keybyte", o - L.key
            if size == 4 and o.c == L.val:
                k = self.kind(X, st, b, [LEAF])
                if k == LEAF: return "val", None
        if size == 1 and not o.is_const() and Solve.quick(st.facts, And(o.z() >= L.key, o.z() < L.key + 8)): return "keybyte", o - L.key
        k = self.kind(X, st, b)
        if k is None: 
            if size == 1 and not o.is_const() and L.key <= o.c < L.keys[N4]:
                X.oblige(st, And(o.z() >= L.key, o.z() < L.key + 8), "%s: a byte of the key" % what); return "keybyte", o - L.key
            X.unsupported(st, "%s at offset %s of a node of unknown kind" % (what, o))
        if size == 1 and k in L.keys:
            i = o - L.keys[k]; m = L.nkeys[k]
            X.oblige(st, And(i.z() >= 0, i.z() < m), "%s: inside the node's key array" % what); return "K", i
        if size == 8 and k in L.children:
            if k == N48 and o.is_const() and o.c == L.freemap and not isptr: return "FM", None
            d = (o - L.children[k]).div(8)
            if d is None: X.unsupported(st, "%s between the children of a node" % what)
            X.oblige(st, And(d.z() >= 0, d.z() < CAP[k]), "%s: inside the node's child array" % what); return "C", d
        X.oblige(st, False, "%s: %d bytes at offset %s are a field of the node" % (what, size, o)); raise PathEnd()
    def load(self, X, st, p, ty):
        if not p.heap(): return self.blk_load(X, st, p.b, p.o, ty)
        b = p.b.z(); H = st.heap
        self.live(X, st, p, "read")
        n, i = self.place(X, st, p, ty.size, ty.kind == "ptr", "read")
        if n in ("ty", "klen"):
            v = H.at(n, b); st.assume(And(v >= 0, v < 256)); return U8(v)
        if n == "keybyte":
            v = byte(H.at("key", b), i.z()); st.assume(And(v >= 0, v < 256)); return U8(v)
        if n == "K":
            v = Select(H.row("K", b), i.z()); st.assume(And(v >= 0, v < 256)); return U8(v)
        if n == "C":
            v = Select(H.row("C", b), i.z()); st.assume(And(v >= 0, pg(v)))
            if ty.kind != "ptr": X.unsupported(st, "child read as an integer")
            return Ptr(v, 0)
        if n == "FM": return BS(H.at("FM", b))
        v = H.at(n, b); h = 1 << (8 * ty.size - 1); st.assume(And(v >= -h, v < h))
        return lin(v)
    def store(self, X, st, p, v, ty):
        if not p.heap():
            if not p.o.is_const() and ty.size == 1: return self.key_byte_store(X, st, p, v)
            return self.blk_store(X, st, p.b, p.o, v, ty.size)
        b = p.b.z()
        self.live(X, st, p, "write")
        self.frame(X, st, b)
        n, i = self.place(X, st, p, ty.size, ty.kind == "ptr", "write")
        H = st.heap = st.heap.copy()
        if n == "keybyte": X.unsupported(st, "write into the key of a node")
        if n in ("ty", "klen"): H.put(n, b, X.u8(st, v)); return
        if n == "K": H.put("K", b, z3.Store(H.row("K", b), i.z(), X.u8(st, v))); return
        if n == "C":
            if not isinstance(v, Ptr):
                if isinstance(v, Opaque): v = Ptr(fresh_int("undef"), 0)
                else: X.unsupported(st, "non-pointer stored as a child")
            if not v.heap(): X.oblige(st, False, "address of a local object is not stored in a node"); return
            X.oblige(st, v.o.z() == 0, "stored pointer designates a node")
            old = H.row("C", b); new = z3.Store(old, i.z(), v.b.z())
            st.assume(cnt_store(new, old, i.z(), v.b.z(), 48), "cnt")
            H.put("C", b, new); return
        if n == "FM":
            H.put("FM", b, X.bits(st, v).a); return
        if isinstance(v, Opaque): v = lin(fresh_int("undef"))
        if isinstance(v, Comp): X.unsupported(st, "composite word stored in a node")
        H.put(n, b, X.L(st, v).z())
    # ---- bytes of a key held in a local
    def key_cell(self, X, st, b, o):
        c = st.loc.get(b, {}).get(0)
        if c is None or c[0] != 8: X.unsupported(st, "byte access to a local object")
        return X.L(st, c[1]).z()
    def key_byte_load(self, X, st, b, off):
        k = self.key_cell(X, st, b, off)
        X.oblige(st, And(off.z() >= 0, off.z() < 8), "byte access inside the key")
        v = byte(k, off.z()); st.assume(And(v >= 0, v < 256)); return U8(v)
    def key_byte_store(self, X, st, p, v):
        k = self.key_cell(X, st, p.b, p.o); r = fresh_int("key"); o = p.o.z()
        X.oblige(st, And(o >= 0, o < 8), "byte access inside the key")
        u = X.u8(st, v); self.new_key(X, st, p.b, r)
        for i in range(8): st.assume(byte(r, i) == If(o == i, u, byte(k, i)))
    def new_key(self, X, st, b, r):
        st.assume(And(r >= -2**63, r < 2**63)); st.loc[b] = {0: (8, lin(r))}
        st.ghost["newkeys"] = st.ghost.get("newkeys", ()) + (r,)
    def blk_load(self, X, st, b, off, ty, size=None):
        if ty is not None and ty.kind == "int" and ty.size == 1 and (not off.is_const() or st.loc.get(b, {}).get(0, (0,))[0] == 8 and isinstance(st.loc[b][0][1], (Lin, Zx))):
            return self.key_byte_load(X, st, b, off)
        return PageMem.blk_load(self, X, st, b, off, ty, size)
    def blk_store(self, X, st, b, off, v, size):
        if size == 1 and off.is_const() and st.loc.get(b, {}).get(0, (0,))[0] == 8 and isinstance(st.loc[b][0][1], (Lin, Zx)):
            p = Ptr(0, off); p.b = b; return self.key_byte_store(X, st, p, v)
        return PageMem.blk_store(self, X, st, b, off, v, size)
    # ---- block moves
    def memmove(self, X, st, d, s, n):
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)): X.unsupported(st, "memmove")
        if not d.heap() and not s.heap():
            if n.is_const() and d.o.is_const() and s.o.is_const() and not (n.c < 8 and st.loc.get(s.b, {}).get(0, (0,))[0] == 8): return PageMem.memmove(self, X, st, d, s, n)
            if not (d.o.is_const() and s.o.is_const() and d.o.c == 0 and s.o.c == 0): X.unsupported(st, "copy of some bytes of a key")
            k, old = self.key_cell(X, st, s.b, s.o), self.key_cell(X, st, d.b, d.o); z = n.z()
            X.oblige(st, And(z >= 0, z <= 8), "copy inside the key")
            r = fresh_int("key"); self.new_key(X, st, d.b, r)
            for i in range(8): st.assume(byte(r, i) == If(i < z, byte(k, i), byte(old, i)))
            return
        if not (d.heap() and s.heap()): 
            if d.heap() and not s.heap() or n.is_const() and n.c == 0: X.unsupported(st, "block copy between a node and a local")
            X.unsupported(st, "block copy between a node and a local")
        if n.is_const() and n.c == 0: return
        L = self.L; db, sb = d.b.z(), s.b.z()
        self.live(X, st, d, "block move"); self.live(X, st, s, "block move"); self.frame(X, st, db)
        dk, sk = self.kind(X, st, db), self.kind(X, st, sb)
        if dk is None or sk is None: X.unsupported(st, "block move in a node of unknown kind")
        def where(k, o):
            if k in L.children and Solve.quick(st.facts, o.z() >= L.children[k]): return "C", (o - L.children[k]).div(8), CAP[k]
            if k in L.keys and Solve.quick(st.facts, And(o.z() >= L.keys[k], o.z() <= L.keys[k] + L.nkeys[k])): return "K", o - L.keys[k], L.nkeys[k]
            X.unsupported(st, "block move in a node")
        (da, di, dm), (sa, si, sm) = where(dk, d.o), where(sk, s.o)
        c = n.div(8) if da == "C" else n
        if da != sa or di is None or si is None or c is None: X.unsupported(st, "block move between different fields")
        di, si, c = di.z(), si.z(), c.z()
        X.oblige(st, And(c >= 0, di + c <= dm, si + c <= sm, di >= 0, si >= 0), "block move: inside the arrays of the nodes")
        H = st.heap = st.heap.copy(); D0, S0 = H.row(da, db), H.row(sa, sb); R = fresh_const("mv", AI)
        st.assume(FA([t_], Select(R, t_) == If(And(di <= t_, t_ < di + c), Select(S0, t_ - di + si), Select(D0, t_)), [Select(R, t_)]))
        st.assume(FA([t_], Implies(And(si <= t_, t_ < si + c), Select(R, t_ - si + di) == Select(S0, t_)), [Select(S0, t_)]))
        st.assume(FA([t_], Implies(Or(t_ < di, t_ >= di + c), Select(R, t_) == Select(D0, t_)), [Select(D0, t_)]))
        H.put(da, db, R)
    def memset(self, X, st, d, v, n):
        if not d.heap(): return PageMem.memset(self, X, st, d, v, n)
        if n.is_const() and n.c == 0: return
        db = d.b.z(); self.live(X, st, d, "block fill"); self.frame(X, st, db)
        k = self.kind(X, st, db); L = self.L
        if k is None: X.unsupported(st, "block fill in a node of unknown kind")
        H = st.heap = st.heap.copy()
        u = X.u8(st, v)
        if k in L.keys and Solve.quick(st.facts, And(d.o.z() >= L.keys[k], d.o.z() + n.z() <= L.keys[k] + L.nkeys[k])): a, i, c, w = "K", d.o - L.keys[k], n, u
        elif k in L.children and Solve.quick(st.facts, And(d.o.z() >= L.children[k], d.o.z() + n.z() <= L.children[k] + 8 * CAP[k])):
            X.oblige(st, u == 0, "children are filled with null"); a, i, c, w = "C", (d.o - L.children[k]).div(8), n.div(8), z3.IntVal(0)
        else: X.unsupported(st, "block fill in a node")
        if i is None or c is None: X.unsupported(st, "block fill in a node")
        i, c = i.z(), c.z(); D0 = H.row(a, db); R = fresh_const("fill", AI)
        st.assume(FA([t_], Select(R, t_) == If(And(i <= t_, t_ < i + c), w, Select(D0, t_)), [Select(R, t_)]))
        H.put(a, db, R)
    # ---- allocation
    def alloc(self, X, st, kind):
        b = fresh_int("node"); H = st.heap = st.heap.copy()
        st.assume(And(b > 0, Not(Select(H.live, b)), pg(b)))
        for f in X.c.on_alloc(st, b): st.assume(f)
        H.put("live", b, z3.BoolVal(True)); H.put("ak", b, z3.IntVal(kind))
        for n in SC[1:]: H.put(n, b, fresh_int("raw"))
        for n in ("K", "C"): H.put(n, b, fresh_const(n + "raw", AI))
        H.put("FM", b, fresh_const("FMraw", AB)); H.put("F", b, fresh_const("Fraw", AI))
        st.ghost["fresh"] = st.ghost.get("fresh", ()) + ((b, kind),)
        return b
    def free(self, X, st, p, size):
        if not p.heap(): X.oblige(st, False, "only heap objects are released"); return
        b = p.b.z()
        X.oblige(st, p.o.z() == 0, "release of a whole allocation")
        X.oblige(st, Select(st.heap.live, b), "the node released is allocated (no double release)")
        if size is not None: X.oblige(st, Or(*[And(st.heap.at("ak", b) == k, size == s) for k, s in self.L.size.items()]), "size given at release is the node's")
        X.oblige(st, X.c.can_free(X, st, b), "frame: only nodes this function may release are released")
        H = st.heap = st.heap.copy(); H.put("live", b, z3.BoolVal(False))

class ArtExec(Exec):
    def u8(self, st, v):
        """unsigned value of a byte"""
        if isinstance(v, U8): return v.z
        if isinstance(v, Opaque):
            r = fresh_int("undef"); st.assume(And(r >= 0, r < 256)); return r
        if isinstance(v, BI): return v.lin().z()
        if isinstance(v, Zx) and v.w <= 8: v = v.v
        return self.unsigned(st, self.L(st, v), 8).z()
    def bits(self, st, v):
        if isinstance(v, BS): return v
        if isinstance(v, Opaque): return BS(fresh_const("undef", AB))
        v = self.L(st, v)
        if not v.is_const(): self.unsupported(st, "bit set from a computed word")
        c = v.c % 2**64; on = [i for i in range(64) if c >> i & 1]
        a = fresh_const("bits", AB)
        lo = [i for i in range(64) if not (c >> i & 1)]
        body = z3.BoolVal(False)
        i = 0
        rs = []
        while i < 64:
            if c >> i & 1:
                j = i
                while j < 64 and c >> j & 1: j += 1
                rs.append(And(i <= t_, t_ < j)); i = j
            else: i += 1
        st.assume(FA([t_], Select(a, t_) == (Or(*rs) if rs else z3.BoolVal(False)), [Select(a, t_)]))
        return BS(a)
    def L(self, st, v, w=64):
        if isinstance(v, U8):
            if z3.is_int_value(v.z): c = v.z.as_long(); return Lin(c - 256 if c >= 128 else c)
            if Solve.quick(st.facts, v.z < 128): return lin(v.z)
            return lin(If(v.z < 128, v.z, v.z - 256))
        if isinstance(v, BS): self.unsupported(st, "arithmetic on a bit set")
        return Exec.L(self, st, v, w)
    def merge(self, c, a, b):
        if isinstance(a, U8) and isinstance(b, U8) and not isinstance(c, bool): return U8(If(c, a.z, b.z))
        return Exec.merge(self, c, a, b)
    def unsigned(self, st, x, w):
        return Exec.unsigned(self, st, x, w)
    def ins(self, st, ins):
        op = ins.op
        if op == "icmp" and ins.x["tys"][0].kind == "int":
            a, b = (self.val(st, o) for o in ins.args); w = ins.x["tys"][0].width
            if w == 8 and (isinstance(a, U8) or isinstance(b, U8)) and ins.x["pred"][0] != "s":
                x, y = self.u8(st, a), self.u8(st, b); p = ins.x["pred"]
                r = {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[p]
                return z3.simplify(r) if z3.is_int_value(x) and z3.is_int_value(y) else r
            if isinstance(a, BS) or isinstance(b, BS):
                if isinstance(b, BS): a, b = b, a
                if ins.x["pred"] in ("eq", "ne") and not isinstance(b, BS):
                    y = self.bits(st, b); e = fresh_bool("seteq"); d = fresh_int("bit")
                    st.assume(Implies(e, FA([t_], Implies(And(0 <= t_, t_ < 64), Select(a.a, t_) == Select(y.a, t_)), [Select(a.a, t_)])))
                    st.assume(Implies(Not(e), And(0 <= d, d < 64, Select(a.a, d) != Select(y.a, d))))
                    return e if ins.x["pred"] == "eq" else Not(e)
                self.unsupported(st, "comparison of bit sets")
        if op in ("zext", "sext", "trunc", "freeze"):
            v = self.val(st, ins.args[0])
            if isinstance(v, U8):
                if op == "zext": return lin(v.z)
                if op == "freeze": return v
                if op == "trunc" and ins.ty.width == 1: return v.z % 2 == 1
            if op == "trunc" and ins.ty.width == 8 and isinstance(v, Lin) and not v.is_const():
                z = v.z()
                if Solve.quick(st.facts, And(z >= 0, z < 256)): return U8(z)
                if Solve.quick(st.facts, And(z >= 0, z < 512)): return U8(If(z < 256, z, z - 256))
        if op in ("or", "and", "xor", "shl", "lshr") and ins.ty.kind == "int" and ins.ty.width == 64:
            a, b = (self.val(st, o) for o in ins.args)
            if op == "shl" and isinstance(a, Lin) and a.is_const() and a.c == 1 and not (isinstance(b, Lin) and b.is_const()):
                n = self.L(st, b).z(); self.oblige(st, And(n >= 0, n < 64), "shift amount below the word size")
                r = fresh_const("bit", AB); st.assume(FA([t_], Select(r, t_) == (t_ == n), [Select(r, t_)])); return BS(r)
            if isinstance(a, BS) or isinstance(b, BS):
                if op == "xor" and any(isinstance(x, Lin) and x.is_const() and x.c == -1 for x in (a, b)):
                    x = a if isinstance(a, BS) else b
                    r = fresh_const("bits", AB); st.assume(FA([t_], Select(r, t_) == And(0 <= t_, t_ < 64, Not(Select(x.a, t_))), [Select(r, t_)])); st.assume(FA([t_], Implies(And(0 <= t_, t_ < 64), Select(r, t_) == Not(Select(x.a, t_))), [Select(x.a, t_)])); return BS(r)
                if op in ("or", "and", "xor"):
                    x, y = self.bits(st, a), self.bits(st, b); r = fresh_const("bits", AB)
                    f = {"or": Or, "and": And, "xor": z3.Xor}[op]
                    e = f(Select(x.a, t_), Select(y.a, t_))
                    st.assume(FA([t_], Select(r, t_) == e, [Select(r, t_)])); st.assume(FA([t_], Select(r, t_) == e, [Select(x.a, t_)])); st.assume(FA([t_], Select(r, t_) == e, [Select(y.a, t_)])); return BS(r)
                if op == "lshr" and isinstance(a, BS):
                    n = self.L(st, b).z(); r = fresh_const("bits", AB)
                    self.oblige(st, And(n >= 0, n < 64), "shift amount below the word size")
                    st.assume(FA([t_], Select(r, t_) == And(0 <= t_, t_ + n < 64, Select(a.a, t_ + n)), [Select(r, t_)])); return BS(r)
                self.unsupported(st, op + " on a bit set")
        if op == "trunc" :
            v = self.val(st, ins.args[0])
            if isinstance(v, BS):
                if ins.ty.width == 1: return Select(v.a, z3.IntVal(0))
                self.unsupported(st, "truncation of a bit set")
        return Exec.ins(self, st, ins)
    def intrinsic(self, st, n, a, ins):
        if n.startswith(("llvm.ctlz.i64", "llvm.cttz.i64")):
            v = self.bits(st, a[0]).a; r = fresh_int("clz"); top = "ctlz" in n
            z = self.cond(st, a[1]); g = fresh_int("bit")
            some = z3.Exists([t_], And(0 <= t_, t_ < 64, Select(v, t_)), patterns=[Select(v, t_)])
            if z is True: self.oblige(st, some, "count of leading zeroes of a non-zero word")
            else: self.unsupported(st, "count of leading zeroes of a word that may be zero")
            st.assume(And(0 <= r, r < 64))
            if top: st.assume(Select(v, 63 - r)); st.assume(FA([t_], Implies(And(t_ > 63 - r, t_ < 64), Not(Select(v, t_))), [Select(v, t_)]))
            else: st.assume(Select(v, r)); st.assume(FA([t_], Implies(And(t_ < r, t_ >= 0), Not(Select(v, t_))), [Select(v, t_)]))
            return lin(r)
        return Exec.intrinsic(self, st, n, a, ins)
    def phi_const(self, v): return v
