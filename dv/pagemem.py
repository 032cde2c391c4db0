"""Memory model for functions over B+tree pages.

Named blocks (locals, *this of the map, by-reference arguments) hold typed cells.  Heap pages are NODE_SIZE bytes:
header cells are separate total arrays block->value; the body is seen through three typed views (K: 4-byte words by
offset, S: the same words by slot index, P: 8-byte pointers by offset).  Every store updates or clobbers all views it
overlaps.  Every access proves: the page is allocated, the access is inside it, aligned, and a symbolic offset never
reaches the header; every store also proves the function's frame (the page may be written)."""
import z3
from core import *
from sx import comp_get, same_blk, Zx

AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
AAI = z3.ArraySort(z3.IntSort(), AI)
AB = z3.ArraySort(z3.IntSort(), z3.BoolSort())

class Layout:
    def __init__(self, d):
        self.__dict__.update(d)

# cells: name -> (field, size, isbool)
HC = [("lps", 4, 0), ("n", 4, 0), ("nso", 4, 0), ("lvo", 4, 0), ("ty", 1, 1), ("ht", 4, 0), ("dead", 4, 0),
      ("loV", 4, 0), ("loE", 1, 1), ("hiV", 4, 0), ("hiE", 1, 1)]

class Heap:
    def __init__(self, tag="0"):
        self.h = {n: fresh_const(n + tag, AB if b else AI) for n, s, b in HC}
        self.K = fresh_const("K" + tag, AAI); self.S = fresh_const("S" + tag, AAI); self.P = fresh_const("P" + tag, AAI)
        self.live = fresh_const("live" + tag, AB); self.ak = fresh_const("ak" + tag, AI)
    def copy(self):
        n = Heap.__new__(Heap); n.h = dict(self.h); n.K, n.S, n.P, n.live, n.ak = self.K, self.S, self.P, self.live, self.ak
        return n
    def __getitem__(self, k): return self.h[k]
    def arrays(self):
        return dict(self.h, K=self.K, S=self.S, P=self.P, live=self.live, ak=self.ak)
    def set(self, name, arr):
        if name in self.h: self.h[name] = arr
        else: setattr(self, name, arr)

def sel(a, i):
    """select with read-over-write simplification on syntactically equal indices"""
    n = 0
    while z3.is_app_of(a, z3.Z3_OP_STORE) and n < 64:
        if a.arg(1).eq(i): return a.arg(2)
        if z3.is_int_value(a.arg(1)) and z3.is_int_value(i): a = a.arg(0); n += 1; continue
        break
    return z3.Select(a, i)

class PageMem:
    def __init__(self, unit):
        self.u = unit; self.L = unit.lay
        self.off = {}
        for n, s, b in HC: self.off[(self.L.off[n], s)] = n

    # ---- named blocks
    def blk_load(self, X, st, b, off, ty, size=None):
        size = size or ty.size
        cells = st.loc.get(b)
        if cells is None: cells = st.loc.setdefault(b, {})
        if not off.is_const(): return self.u.blk_sym_load(X, st, b, off, ty)
        o = off.c
        if b.size is not None: X.oblige(st, 0 <= o and o + size <= b.size, "access inside the object '%s'" % b.name)
        if o in cells and cells[o][0] == size: return cells[o][1]
        part = {k - o: v for k, v in cells.items() if o <= k and k + v[0] <= o + size}
        over = [k for k, v in cells.items() if k < o + size and k + v[0] > o]
        if part and len(over) == len(part):
            if len(part) == 1 and 0 in part and ty is not None and ty.kind == "int" and part[0][0] < size:
                return Comp(size, part)
            return Comp(size, part)
        if over:
            k = over[0]; sz, v = cells[k]
            if isinstance(v, Zx): v = Comp(sz, {0: (v.w // 8, v.v)})
            if isinstance(v, Comp):
                r = comp_get(v, o - k, size)
                if r is not None: return r
            if isinstance(v, Opaque): return v
            X.unsupported(st, "partial read of a local object")
        if b.tag == "lazy" and ty is not None:
            v = self.u.lazy(X, st, b, o, ty); cells[o] = (size, v); return v
        return Opaque("an uninitialised local")
    def blk_store(self, X, st, b, off, v, size):
        if b.ro: X.oblige(st, False, "object '%s' is not written" % b.name)
        if not off.is_const(): return self.u.blk_sym_store(X, st, b, off, v, size)
        o = off.c
        if b.size is not None: X.oblige(st, 0 <= o and o + size <= b.size, "access inside the object '%s'" % b.name)
        cells = st.loc.setdefault(b, {})
        for k in [k for k, c in cells.items() if k < o + size and k + c[0] > o]:
            sz, old = cells.pop(k)
            if isinstance(old, Comp) and (k < o or k + sz > o + size):
                for po, (ps, pv) in old.parts.items():
                    a = k + po
                    if a + ps <= o or a >= o + size: cells[a] = (ps, pv)
        if isinstance(v, Zx) and v.w // 8 < size: v = Comp(size, {0: (v.w // 8, v.v)}) if isinstance(v.v, (Opaque, Comp)) else v
        if isinstance(v, Comp):
            for po, (ps, pv) in v.parts.items(): cells[o + po] = (ps, pv)
            return
        if isinstance(v, Agg):
            X.unsupported(st, "aggregate store")
        cells[o] = (size, v)
    def havoc_blk(self, X, st, b):
        """returns the cells holding addresses of other named objects: kept, and checked to be unchanged by the loop"""
        cells = st.loc.get(b); stable = []
        if cells is None: return stable
        for o, (s, v) in list(cells.items()):
            if isinstance(v, Ptr) and isinstance(v.b, Blk): stable.append((b, o, v)); continue
            if isinstance(v, Lin): 
                j = fresh_int("h_" + b.name); h = 1 << (8 * s - 1); st.assume(z3.And(j >= -h, j < h)); cells[o] = (s, lin(j))
            elif isinstance(v, BI): cells[o] = (s, BI(fresh_bool("h_" + b.name)))
            elif isinstance(v, Ptr) and v.heap() and v.o.is_const(): cells[o] = (s, Ptr(fresh_int("h_" + b.name), v.o))
            else: cells[o] = (s, Opaque("a loop-modified local"))
        return stable

    # ---- heap pages
    def slot_index(self, o):
        d = (o - self.L.HDR).div(4)
        return d
    def access(self, X, st, p, size, what):
        L = self.L; b, o = p.b.z(), p.o
        if p.isnull(): X.oblige(st, False, "no access through a null pointer"); 
        X.oblige(st, z3.Select(st.heap.live, b), "%s: the page is allocated" % what)
        if o.is_const():
            X.oblige(st, 0 <= o.c and o.c + size <= L.NODE, "%s: inside the page" % what)
            X.oblige(st, o.c % size == 0, "%s: aligned" % what)
        else:
            z = o.z()
            X.oblige(st, z3.And(z >= L.HDR, z + size <= L.NODE), "%s: inside the body of the page" % what)
            if o.c % size or any(k % size for k, _ in o.t.values()):
                X.oblige(st, z % size == 0, "%s: aligned" % what)
    def load(self, X, st, p, ty):
        if not p.heap(): return self.blk_load(X, st, p.b, p.o, ty)
        L = self.L; size = ty.size; b = p.b.z(); H = st.heap
        self.access(X, st, p, size, "read")
        o = p.o
        if o.is_const() and o.c < L.HDR:
            n = self.off.get((o.c, size))
            if n is None: X.unsupported(st, "read of header bytes %d+%d" % (o.c, size))
            v = sel(H[n], b)
            return self.wrap_cell(st, n, v)
        if ty.kind == "ptr":
            v = z3.Select(z3.Select(H.P, b), o.z()); st.assume(z3.And(v >= 0, self.u.mark_page(v)))
            return Ptr(v, 0)
        if ty.kind == "int" and size == 4:
            i = self.slot_index(o)
            v = z3.Select(z3.Select(H.S, b), i.z()) if i is not None else z3.Select(z3.Select(H.K, b), o.z())
            st.assume(z3.And(v >= -2**31, v < 2**31))
            if i is not None: st.assume(self.u.mark_entry(b, i.z()))
            return lin(v)
        X.unsupported(st, "read of %d bytes in a page body" % size)
    def wrap_cell(self, st, n, v):
        if n in ("ty", "loE", "hiE"): return BI(v)
        if not z3.is_int_value(v): st.assume(z3.And(v >= -2**31, v < 2**31))
        return lin(v)
    def frame(self, X, st, b):
        X.oblige(st, X.c.can_write(X, st, b), "frame: only pages this function may modify are written")
    def store(self, X, st, p, v, ty):
        if not p.heap():
            return self.blk_store(X, st, p.b, p.o, v, ty.size)
        L = self.L; size = ty.size; b = p.b.z(); o = p.o
        self.access(X, st, p, size, "write"); self.frame(X, st, b)
        H0 = st.heap; H = st.heap = st.heap.copy()
        if o.is_const() and o.c < L.HDR:
            n = self.off.get((o.c, size))
            if n is None: X.unsupported(st, "write of header bytes %d+%d" % (o.c, size))
            self.put_cell(X, st, H, n, b, v); return
        if ty.kind == "ptr":
            if not isinstance(v, Ptr): 
                if isinstance(v, Opaque): v = Ptr(fresh_int("undef"), 0)
                else: X.unsupported(st, "non-pointer stored as pointer")
            if not v.heap(): X.oblige(st, False, "address of a local object is not stored in a page"); return
            X.oblige(st, v.o.z() == 0, "stored pointer designates an object")
            z = o.z()
            H.P = z3.Store(H.P, b, z3.Store(z3.Select(H.P, b), z, v.b.z()))
            self.clob4(st, H, b, o, 2)
            if not X.infer: X.c.after_child_store(X, st, H0, b, o, v.b.z())
            return
        if ty.kind == "int" and size == 4:
            if isinstance(v, Opaque): v = lin(fresh_int("undef"))
            x = X.L(st, v).z()
            self.put4(st, H, b, o, x); return
        X.unsupported(st, "write of %d bytes in a page body" % size)
    def put4(self, st, H, b, o, x):
        z = o.z(); L = self.L
        i = self.slot_index(o)
        if i is None:
            q = fresh_int("si"); st.assume(4 * q == z - L.HDR)
        else: q = i.z()
        H.S = z3.Store(H.S, b, z3.Store(z3.Select(H.S, b), q, x))
        H.K = z3.Store(H.K, b, z3.Store(z3.Select(H.K, b), z, x))
        f1, f2 = fresh_int("cl"), fresh_int("cl")
        H.P = z3.Store(H.P, b, z3.Store(z3.Store(z3.Select(H.P, b), z, f1), z - 4, f2))
    def clob4(self, st, H, b, o, words):
        z = o.z(); L = self.L; s, k = z3.Select(H.S, b), z3.Select(H.K, b)
        i = self.slot_index(o)
        if i is None:
            q = fresh_int("si"); st.assume(4 * q == z - L.HDR)
        else: q = i.z()
        for w in range(words):
            s = z3.Store(s, q + w, fresh_int("cl")); k = z3.Store(k, z + 4 * w, fresh_int("cl"))
        H.S = z3.Store(H.S, b, s); H.K = z3.Store(H.K, b, k)
    def put_cell(self, X, st, H, n, b, v):
        if n in ("ty", "loE", "hiE"):
            if isinstance(v, Opaque): x = fresh_bool("undef")
            elif isinstance(v, (Lin, int)) and not lin(v).is_const():
                z = X.L(st, v).z(); X.oblige(st, z3.Or(z == 0, z == 1), "a bool holds 0 or 1"); x = z == 1
            else: x = B(X.cond(st, v))
        else:
            x = fresh_int("undef") if isinstance(v, Opaque) else X.L(st, v).z()
        H.h[n] = z3.Store(H.h[n], b, x)
    def peek4(self, st, p):
        """spec-level read of a 4-byte value (no obligations)"""
        if not p.heap():
            c = st.loc[p.b].get(p.o.c)
            return c[1] if c and c[0] == 4 else None
        b = p.b.z(); o = p.o
        if o.is_const() and o.c < self.L.HDR:
            return lin(sel(st.heap[self.off[(o.c, 4)]], b))
        i = self.slot_index(o)
        return lin(z3.Select(z3.Select(st.heap.S, b), i.z()) if i is not None else z3.Select(z3.Select(st.heap.K, b), o.z()))

    def memmove(self, X, st, d, s, n):
        L = self.L
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)): X.unsupported(st, "memmove")
        if d.heap() and s.heap() and not (d.o.is_const() and d.o.c < L.HDR):
            if not same_blk(d, s): X.unsupported(st, "block copy between pages")
            di, si, cnt = self.slot_index(d.o), self.slot_index(s.o), n.div(4)
            if di is None or si is None or cnt is None: X.unsupported(st, "block move of entries")
            b = d.b.z(); k = cnt.z(); di, si = di.z(), si.z()
            if n.is_const() and n.c == 0: return
            X.oblige(st, z3.Select(st.heap.live, b), "block move: the page is allocated")
            X.oblige(st, z3.And(k >= 0, z3.Implies(k > 0, z3.And(di >= 0, si >= 0, L.HDR + 4 * (di + k) <= L.NODE, L.HDR + 4 * (si + k) <= L.NODE))), "block move: inside the body of the page")
            self.frame(X, st, b)
            H = st.heap = st.heap.copy()
            S0, K0, P0 = z3.Select(H.S, b), z3.Select(H.K, b), z3.Select(H.P, b)
            S1, K1, P1 = fresh_const("Smv", AI), fresh_const("Kmv", AI), fresh_const("Pmv", AI)
            i = z3.Int("i")
            st.assume(z3.ForAll([i], z3.Select(S1, i) == z3.If(z3.And(di <= i, i < di + k), z3.Select(S0, i - di + si), z3.Select(S0, i)), patterns=[z3.Select(S1, i)]))
            lo, hi = L.HDR + 4 * di, L.HDR + 4 * (di + k)
            st.assume(z3.ForAll([i], z3.Implies(z3.Or(i + 4 <= lo, i >= hi), z3.Select(K1, i) == z3.Select(K0, i)), patterns=[z3.Select(K1, i)]))
            st.assume(z3.ForAll([i], z3.Implies(z3.Or(i + 8 <= lo, i >= hi), z3.Select(P1, i) == z3.Select(P0, i)), patterns=[z3.Select(P1, i)]))
            H.S = z3.Store(H.S, b, S1); H.K = z3.Store(H.K, b, K1); H.P = z3.Store(H.P, b, P1)
            return
        if not n.is_const(): X.unsupported(st, "block copy of variable length")
        ln = n.c
        # cell-wise copy
        items = []
        if s.heap():
            if not s.o.is_const() or s.o.c >= L.HDR: X.unsupported(st, "block copy from a page body")
            self.access(X, st, Ptr_(s, 0), 4, "read")
            for (o, sz), nm in self.off.items():
                if s.o.c <= o and o + sz <= s.o.c + ln: items.append((o - s.o.c, sz, self.wrap_cell(st, nm, sel(st.heap[nm], s.b.z()))))
        else:
            if not s.o.is_const(): X.unsupported(st, "block copy")
            if s.b.size is not None: X.oblige(st, s.o.c >= 0 and s.o.c + ln <= s.b.size, "copy inside the object '%s'" % s.b.name)
            for o, (sz, v) in st.loc.get(s.b, {}).items():
                if s.o.c <= o and o + sz <= s.o.c + ln: items.append((o - s.o.c, sz, v))
                elif o < s.o.c + ln and o + sz > s.o.c: X.unsupported(st, "partial block copy")
        if d.heap():
            if not d.o.is_const() or d.o.c + ln > L.HDR: X.unsupported(st, "block copy into a page body")
            self.access(X, st, Ptr_(d, 0), 4, "write"); self.frame(X, st, d.b.z())
            H = st.heap = st.heap.copy(); b = d.b.z()
            done = {(o, sz): v for o, sz, v in items}
            for (o, sz), nm in self.off.items():
                if d.o.c <= o and o + sz <= d.o.c + ln:
                    v = done.get((o - d.o.c, sz), Opaque("undef"))
                    self.put_cell(X, st, H, nm, b, v)
        else:
            if not d.o.is_const(): X.unsupported(st, "block copy")
            if d.b.size is not None: X.oblige(st, d.o.c >= 0 and d.o.c + ln <= d.b.size, "copy inside the object '%s'" % d.b.name)
            cells = st.loc.setdefault(d.b, {})
            for k in [k for k, c in cells.items() if k < d.o.c + ln and k + c[0] > d.o.c]: del cells[k]
            for o, sz, v in items: cells[d.o.c + o] = (sz, v)
    def memset(self, X, st, d, v, n):
        if not d.heap() and d.o.is_const() and n.is_const() and isinstance(v, Lin) and v.is_const() and v.c == 0:
            cells = st.loc.setdefault(d.b, {})
            for k in [k for k, c in cells.items() if k < d.o.c + n.c and k + c[0] > d.o.c]: del cells[k]
            cells[d.o.c] = (n.c, Comp(n.c, {})); return
        X.unsupported(st, "memset")

    def alloc(self, X, st, kind):
        b = fresh_int("page")
        H = st.heap = st.heap.copy()
        st.assume(z3.And(b > 0, z3.Not(z3.Select(H.live, b))))
        H.live = z3.Store(H.live, b, z3.BoolVal(True)); H.ak = z3.Store(H.ak, b, z3.IntVal(kind))
        for nm in ("K", "S", "P"): H.set(nm, z3.Store(getattr(H, nm), b, fresh_const(nm + "raw", AI)))
        for nm, s, isb in HC: H.h[nm] = z3.Store(H.h[nm], b, fresh_const("raw", z3.BoolSort() if isb else z3.IntSort()))
        st.ghost["fresh"] = st.ghost.get("fresh", ()) + (b,)
        return b
    def free(self, X, st, p, kind):
        if not p.heap(): X.oblige(st, False, "only heap objects are released"); return
        b = p.b.z()
        X.oblige(st, p.o.z() == 0, "release of a whole allocation")
        X.oblige(st, z3.Select(st.heap.live, b), "the page released is allocated (no double release)")
        X.oblige(st, z3.Select(st.heap.ak, b) == kind, "deallocation form matches the allocation form")
        X.oblige(st, X.c.can_free(X, st, b), "frame: only pages this function may release are released")
        H = st.heap = st.heap.copy()
        H.live = z3.Store(H.live, b, z3.BoolVal(False))

def Ptr_(p, o):
    r = Ptr(0, 0); r.b = p.b; r.o = lin(o); return r
