"""Units decided by the bit-vector executor: compound keys, the 64-bit hash, the YCSB generators, the string helpers."""
import os, tempfile, shutil, time, z3, itertools, random
import llvmir, prove
from core import Unsupported
import bvx
from bvx import BX, Obj, P, NULLP, St, Stop, UNDEF, bv, fresh

HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("DV_REPO", "/repo")
INCS = ["/include", "/src/benchmark", "/src/benchmark/utils"]

def agg(obs):
    out = {}
    for o in obs:
        a = out.setdefault(o["label"], {"label": o["label"], "n": 0, "proved": 0, "by": {}, "time": 0.0, "fail": None}); a["n"] += 1; a["time"] += o["time"]
        if o["status"] == "proved": a["proved"] += 1; a["by"]["z3 (bit-vectors)"] = a["by"].get("z3 (bit-vectors)", 0) + 1
        elif a["fail"] is None: a["fail"] = {"status": o["status"], "goal": o.get("goal", "-"), "trail": o.get("trail", []), "detail": o.get("detail", ""), "skipped": False}
    return list(out.values())
def result(fn, obs, t0, err=None, paths=0, assumed=(), vac=False):
    return {"fn": fn, "obs": agg(obs), "time": time.time() - t0, "assumed": sorted(assumed), "error": err, "paths": paths, "vacuous": vac}
def prove_formula(c, label, pre=()):
    t = time.time(); s = z3.Solver(); s.set("timeout", 20000); s.add(*pre); s.add(z3.Not(c)); r = s.check()
    return {"label": label, "status": {"unsat": "proved", "sat": "sat"}.get(str(r), "unknown"), "goal": str(c)[:400], "detail": str(s.model())[:300] if r == z3.sat else "", "time": time.time() - t, "trail": []}

class Unit:
    src = None; flags = []
    def __init__(self, config="std"):
        self.config = config; self.hint_key = "misc"; tmp = tempfile.mkdtemp(prefix="dvm_"); bc = os.path.join(tmp, "u.bc")
        try:
            self.cmd = llvmir.compile_bc(os.path.join(HERE, "harness", self.src), bc, [REPO + i for i in INCS], self.flags)
            self.load(bc)
        finally: shutil.rmtree(tmp, ignore_errors=True)
    def load(self, bc): self.M = llvmir.load(bc, self.keep)
    def keep(self, dem): return False
    def find(self, pref): return sorted(n for n in self.M.fns if self.M.dem.get(n, n).startswith(pref) or n.startswith(pref))
    def one(self, fn, budget): raise NotImplementedError
    def guarded(self, fn, budget):
        t0 = time.time()
        if prove.failed(): return result(fn, [], t0)
        try: r = self.one(fn, budget)
        except Unsupported as e: r = result(fn, [], t0, "outside the verifier's reach: " + str(e)[:400])
        except Exception as e:
            if os.environ.get("DV_TRACE"): raise
            r = result(fn, [], t0, "executor: %s: %s" % (type(e).__name__, str(e)[:300]))
        if r["error"] or any(o["fail"] for o in r["obs"]): prove.FAILED.value = 1
        return r
    def run(self, fns, jobs=8, budget=200.0):
        bvx.DEADLINE[0] = time.time() + budget
        rs = prove.pool(len(fns), lambda i: self.guarded(fns[i], budget), False) if len(fns) > 1 else [self.guarded(fns[0], budget)]
        return [r if r is not None else result(f, [], time.time(), "the worker ended without a result") for f, r in zip(fns, rs)]

def c_lib(x, st, n, dem, a, I):
    """the C and C++ library functions met here"""
    if n == "__assert_fail": x.oblige(st, False, "assertion in the code holds"); raise Stop()
    if n in ("__cxa_guard_acquire",): return bv(1, 32)
    if n in ("__cxa_guard_release", "__cxa_atexit", "__cxa_thread_atexit"): return bv(0, 32)
    if n in ("pthread_mutex_lock", "pthread_mutex_unlock"):
        k = (a[0].obj, a[0].off); held = st.ghost.get(k, False)
        x.oblige(st, held == (n == "pthread_mutex_unlock"), "the mutex is taken once and released by its holder"); st.ghost[k] = not held; return bv(0, 32)
    if n in ("pow", "log", "exp", "sqrt", "floor", "ceil", "fabs"): return fresh(64, "fp")
    if n == "strlen":
        i = 0
        while True:
            b = x.load(st, P(a[0].obj, a[0].off + i), BYTE)
            if x.must(st, b == 0): return bv(i, 64)
            if not x.must(st, b != 0): raise Unsupported("strlen of an unknown text")
            i += 1
    if n in ("memcpy", "memmove"):
        k = z3.simplify(a[2])
        if not z3.is_bv_value(k): raise Unsupported("copy of a symbolic number of bytes")
        for i, b in enumerate([x.load(st, P(a[1].obj, a[1].off + i), BYTE) for i in range(k.as_long())]): x.store(st, P(a[0].obj, a[0].off + i), b, 1)
        return a[0]
    if n == "memchr":
        k = z3.simplify(a[2]); c = z3.Extract(7, 0, x.num(st, a[1]))
        if not z3.is_bv_value(k): raise Unsupported("search in a symbolic number of bytes")
        bs = [x.num(st, x.load(st, P(a[0].obj, a[0].off + i), BYTE)) for i in range(k.as_long())]
        no = lambda m: z3.And([z3.BoolVal(True)] + [b != c for b in bs[:m]])
        pos = bv(0, 64)
        for i in range(len(bs) - 1, -1, -1): pos = z3.If(bs[i] == c, bv(i, 64), pos)
        base = a[0].off if not isinstance(a[0].off, int) else bv(a[0].off, 64)
        return bvx.Many([(z3.Not(no(len(bs))), P(a[0].obj, z3.simplify(base + pos)), None), (no(len(bs)), NULLP, None)])
    if n in ("memcmp", "strcmp", "strncmp"): return compare(x, st, n, a)
    if n in ("_Znwm", "malloc") and z3.is_bv_value(z3.simplify(a[0])): return x.alloc(st, "heap", z3.simplify(a[0]).as_long(), heap=True)
    if n in ("_ZdlPv", "_ZdlPvm", "free"):
        if a[0].obj is not None:
            x.oblige(st, a[0].obj.heap and a[0].off == 0 and a[0].obj not in st.dead, "released memory was allocated and not released before"); st.dead.add(a[0].obj)
        return None
    if n in ("tolower", "toupper", "isspace"):
        c = x.num(st, a[0])
        sp = z3.Or(c == 32, z3.And(c >= 9, c <= 13))
        return z3.simplify(z3.If(z3.And(c >= 65, c <= 90), c + 32, c) if n == "tolower" else z3.If(z3.And(c >= 97, c <= 122), c - 32, c) if n == "toupper" else z3.If(sp, bv(8192, 32), bv(0, 32)))
    return NotImplemented
class _T: kind = "int"; width = 8; size = 1
BYTE = _T()
def compare(x, st, n, a):
    r = bv(0, 32); k = z3.simplify(a[2]).as_long() if n != "strcmp" else 64; terms = []
    for i in range(k):
        p, q = (x.load(st, P(b.obj, b.off + i), BYTE) for b in a[:2]); p, q = x.num(st, p), x.num(st, q)
        terms.append((p, q))
        if n != "memcmp" and (x.must(st, p == 0) or x.must(st, q == 0)): break
    for p, q in reversed(terms):
        d = z3.ZeroExt(24, p) - z3.ZeroExt(24, q)
        r = z3.If(p != q, d, z3.If(p == 0, bv(0, 32), r) if n != "memcmp" else r)
    return z3.simplify(r)

# ------------------------------------------------------------------ compound keys
RANK = z3.Function("rank", z3.BitVecSort(32), z3.BitVecSort(32))     # an arbitrary strict total order on the values of an unknown type
class KeyUnit(Unit):
    src = "keys.cpp"
    def keep(self, dem): return False
    def ext(self, x, st, n, dem, a, I):
        for op, f in (("operator<=", lambda p, q: z3.ULE(p, q)), ("operator>=", lambda p, q: z3.UGE(p, q)), ("operator<", lambda p, q: z3.ULT(p, q)), ("operator>", lambda p, q: z3.UGT(p, q)), ("operator==", lambda p, q: p == q), ("operator!=", lambda p, q: p != q)):
            if dem.startswith(op + "(Opq"):
                p, q = (RANK(x.num(st, x.load(st, P(v.obj, v.off), I32))) for v in a); return z3.If(f(p, q), bv(1, 1), bv(0, 1))
        return c_lib(x, st, n, dem, a, I)
    def fns(self): return ["shape %d: %d x %d" % (S, m, n) for S in (0, 1) for m in range(1, 5) for n in range(1, 5)] + ["order lemmas"]
    KIND = {0: ["opq"] * 4, 1: ["s", "u", "opq", "s"]}
    def lt(self, S, i, a, b):
        k = self.KIND[S][i]
        return z3.ULT(RANK(a), RANK(b)) if k == "opq" else a < b if k == "s" else z3.ULT(a, b)
    def eq(self, S, i, a, b): return RANK(a) == RANK(b) if self.KIND[S][i] == "opq" else a == b
    def less(self, S, a, b):
        """lexicographic order; a proper prefix comes first"""
        r = z3.BoolVal(len(a) < len(b))
        for i in range(min(len(a), len(b)) - 1, -1, -1): r = z3.Or(self.lt(S, i, a[i], b[i]), z3.And(self.eq(S, i, a[i], b[i]), r))
        return r
    def equal(self, S, a, b): return z3.And([self.eq(S, i, p, q) for i, (p, q) in enumerate(zip(a, b))]) if len(a) == len(b) else z3.BoolVal(False)
    def one(self, fn, budget):
        t0 = time.time()
        if fn == "order lemmas": return self.lemmas(t0)
        S, m, n = int(fn[6]), int(fn[9]), int(fn[13]); obs = []; paths = 0
        W = {0: [32] * 4, 1: [32, 64, 32, 8]}[S]
        for op in ("lt", "gt", "le", "ge", "eq", "ne"):
            name = "dvk_%s_%d_%d_%d" % (op, S, m, n); F = self.M.fns[name]
            a = [z3.BitVec("a%d" % i, W[i]) for i in range(m)]; b = [z3.BitVec("b%d" % i, W[i]) for i in range(n)]
            args = []
            for (pid, t, nm), v in zip(F.params, a + b):
                args.append(v if t.width == v.size() else z3.SignExt(t.width - v.size(), v))
            x = BX(self.M, self.ext, budget); rs = x.run(name, args, St()); paths += len(rs)
            want = {"lt": self.less(S, a, b), "gt": self.less(S, b, a), "le": z3.Not(self.less(S, b, a)), "ge": z3.Not(self.less(S, a, b)), "eq": self.equal(S, a, b), "ne": z3.Not(self.equal(S, a, b))}[op]
            for st, r in rs:
                x.oblige(st, (x.num(st, r) == 1) == want, "post: %s is the lexicographic relation with the prefix rule (%s)" % ({"lt": "<", "gt": ">", "le": "<=", "ge": ">=", "eq": "==", "ne": "!="}[op], {"lt": "a before b", "gt": "b before a", "le": "not b before a", "ge": "not a before b", "eq": "same length, equal components", "ne": "not equal"}[op]))
            if not rs: return result(fn, obs, t0, "no path returns: the contract would hold vacuously")
            obs += x.obs
        return result(fn, obs, t0, paths=paths)
    def lemmas(self, t0):
        """the relation of the contracts is a strict total order on keys of all shapes"""
        obs = []; v = lambda c, n: [z3.BitVec("%s%d" % (c, i), [32, 64, 32, 8][i]) for i in range(n)]; S = 1
        N = range(1, 5)
        for m in N:
            a, a2 = v("a", m), v("b", m)
            obs.append(prove_formula(z3.Not(self.less(S, a, a)), "lemma: irreflexive"))
            for n in N:
                b = v("b", n); L, G, E = self.less(S, a, b), self.less(S, b, a), self.equal(S, a, b)
                obs.append(prove_formula(z3.And(z3.Or(L, G, E), z3.Not(z3.And(L, G)), z3.Not(z3.And(L, E)), z3.Not(z3.And(G, E))), "lemma: exactly one of a<b, a==b, b<a"))
                for k in N:
                    c = v("c", k); obs.append(prove_formula(z3.Implies(z3.And(L, self.less(S, b, c)), self.less(S, a, c)), "lemma: transitive"))
        return result("order lemmas", obs, t0)
class _I32: kind = "int"; width = 32; size = 4
I32 = _I32()
class _I64: kind = "int"; width = 64; size = 8
I64 = _I64()

# ------------------------------------------------------------------ hash
class HashUnit(Unit):
    src = "hash.cpp"; flags = ["-fexceptions"]
    def fns(self): return ["FNVHash64", "Hash"]
    def one(self, fn, budget):
        t0 = time.time(); v = z3.BitVec("val", 64); x = BX(self.M, c_lib, budget); st = St(); rs = x.run("dvh_" + fn, [v], st)
        h = bv(0xCBF29CE484222325, 64)
        for i in range(8): h = (h ^ z3.ZeroExt(56, z3.Extract(8 * i + 7, 8 * i, v))) * bv(1099511628211, 64)
        for st, r in rs:
            x.oblige(st, x.num(st, r) == z3.simplify(h), "post: the FNV-1a value of the eight little-endian bytes")
            x.oblige(st, not any(k.name.startswith("@") and c for k, c in st.mem.items()), "frame: no global state is written")
        return result(fn, x.obs, t0, paths=len(rs), err=None if rs else "no path returns")

# ------------------------------------------------------------------ string helpers (bounded length)
class StrUnit(Unit):
    src = "strs.cpp"; flags = ["-fexceptions", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
    MAX = {"quick": 7, "thorough": 11}
    def ext(self, x, st, n, dem, a, I):
        if n == "__cxa_allocate_exception": return x.alloc(st, "exc", z3.simplify(a[0]).as_long())
        if n == "__cxa_throw": self.thrown.append(st.copy()); raise Stop()
        if dem.startswith("utils::Exception::"): return None
        return c_lib(x, st, n, dem, a, I)
    def keep(self, dem): return dem.startswith(("utils::Exception::Exception", "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > std::operator+<char"))
    def fns(self, tier="quick"): return ["%s, %d characters" % (f, n) for f in ("Trim", "StrToBool") for n in range(0, self.MAX[tier] + 1)]
    def one(self, fn, budget):
        t0 = time.time(); n = int(fn.split(", ")[1].split()[0]); self.thrown = []; x = BX(self.M, self.ext, budget)
        src = Obj("text", max(n, 1)); ch = [z3.BitVec("text.%d" % i, 8) for i in range(n)]; st = St()
        if fn.startswith("Trim"):
            out = Obj("out", max(n, 1), lazy=False); st.mem[out] = {}
            rs = x.run("dvs_trim", [P(src), bv(n, 64), P(out)], st)
            sp = [z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13))) for c in ch]
            for st, r in rs:
                r = z3.simplify(r)
                if not z3.is_bv_value(r): raise Unsupported("result length is not determined on a path")
                k = r.as_long(); alt = []
                if k == 0: alt.append(z3.And([z3.BoolVal(True)] + sp))
                for i in range(0, n - k + 1):
                    if k: alt.append(z3.And([*sp[:i], *sp[i + k:], z3.Not(sp[i]), z3.Not(sp[i + k - 1])] + [x.byte(st, out, j) == ch[i + j] for j in range(k)]))
                x.oblige(st, z3.Or(alt) if alt else False, "post: the text without its leading and trailing white space, nothing else removed")
            return result(fn, x.obs, t0, paths=len(rs), err=None if rs else "no path returns")
        rs = x.run("dvs_bool", [P(src), bv(n, 64)], st)
        low = [z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c) for c in ch]
        word = lambda w: z3.And([z3.BoolVal(len(w) == n)] + [c == ord(d) for c, d in zip(low, w)])
        yes, no = z3.Or(word("true"), word("1")), z3.Or(word("false"), word("0"))
        for st, r in rs:
            x.oblige(st, z3.Or(z3.And(yes, x.num(st, r) == 1), z3.And(no, x.num(st, r) == 0)), "post: a result means one of the documented spellings, with its value")
        for st in self.thrown: x.oblige(st, z3.Not(z3.Or(yes, no)), "post: no documented spelling is rejected")
        return result(fn, x.obs, t0, paths=len(rs) + len(self.thrown), err=None if rs or self.thrown else "no path returns")

# ------------------------------------------------------------------ generators
class GenUnit(Unit):
    """each generator as an object with an inferred invariant: established by the constructor, kept by every call; the results' contract follows"""
    src = "gens.cpp"; flags = ["-fexceptions"]
    def load(self, bc):
        self.M_zip = llvmir.load(bc, self.keep0); self.M_main = llvmir.load(bc, self.keep1); self.M = self.M_main
    def keep0(self, dem): return "uniform_int_distribution<unsigned long>::operator()" in dem or "mersenne_twister_engine<" in dem and "uniform_int" not in dem.split("(")[0] or dem.startswith("utils::RandomDouble") or dem.startswith("ycsbc::ZipfianGenerator::Zeta")
    def keep1(self, dem): return self.keep0(dem) or dem.startswith("ycsbc::ZipfianGenerator::") or dem.startswith("utils::FNVHash64")
    OBJ = {"uni": "UniformGenerator", "cnt": "CounterGenerator", "con": "ConstGenerator", "scr": "ScrambledZipfianGenerator", "zip": "ZipfianGenerator (Last)", "lat": "SkewedLatestGenerator"}
    def fns(self): return [self.OBJ[k] for k in self.OBJ]
    def ext(self, x, st, n, dem, a, I):
        head = dem.split("(")[0]
        if "uniform_int_distribution<unsigned long>::operator()" in dem:
            p = a[0] if len(a) == 2 else a[2]
            lo, hi = (x.num(st, x.load(st, P(p.obj, p.off + 8 * i), I64)) for i in range(2)); r = fresh(64, "draw")
            x.oblige(st, z3.ULE(lo, hi), "pre: the distribution's bounds are ordered"); st.pc.append(z3.And(z3.ULE(lo, r), z3.ULE(r, hi))); self.used.add("std::uniform_int_distribution"); return r
        if "mersenne_twister_engine<" in dem:
            if I.ty.kind == "int": return fresh(I.ty.width, "draw")
            return None
        if dem.startswith("utils::RandomDouble") or dem.startswith("ycsbc::ZipfianGenerator::Zeta"): self.used.add(head); return fresh(64, "fp")
        if dem.startswith("utils::FNVHash64"): self.used.add("FNVHash64 (pure)"); return FNV(a[0])
        if dem.startswith("ycsbc::ZipfianGenerator::"):
            self.used.add(head); m = head.split("::")[-1]; cell = P(a[0].obj, a[0].off)      # abstract state of the zipfian generator: item count, last value
            if m == "ZipfianGenerator":
                for i in range(16): x.cells(st, cell.obj)[cell.off + i] = z3.Extract(7, 0, fresh(8, "z"))
                if len(a) >= 3: num = z3.simplify(a[2] - a[1] + 1)
                else: num = a[1]
                x.oblige(st, z3.And(z3.UGE(num, 2), z3.ULT(num, bv((1 << 64) - 1 >> 24, 64))), "pre: the zipfian generator is built for 2 .. 2^40 items")
                x.store(st, cell, num, 8); x.store(st, P(cell.obj, cell.off + 8), fresh(64, "zlast"), 8); return None
            if m.startswith("Next"):
                num = a[1] if len(a) > 1 else x.load(st, cell, I64); r = fresh(64, "zipf")
                x.oblige(st, z3.And(z3.UGE(num, 2), z3.ULT(num, bv((1 << 64) - 1 >> 24, 64))), "pre: the zipfian generator is asked for one of 2 .. 2^40 items")
                if self.kind == "lat": st.pc.append(z3.ULT(r, num))
                x.store(st, P(cell.obj, cell.off + 8), r, 8); return r
            if m.startswith("Last"): return x.load(st, P(cell.obj, cell.off + 8), I64)
            return NotImplemented
        if n == "dv_check":
            if not self.infer: x.oblige(st, x.num(st, a[0]) == 1, {1: "post: the value is in the declared range", 2: "post: Last() reports the value most recently returned and consumes none", 3: "post: consecutive values without gaps"}[z3.simplify(a[1]).as_long()])
            else: st.pc.append(a[0] == 1)
            return None
        if n == "dv_assume": st.pc.append(a[0] == 1); return None
        return c_lib(x, st, n, dem, a, I)
    def exec(self, name, args, st, budget=60.0):
        x = BX(self.M, self.ext, budget); x.abstract = True
        if self.infer: x.oblige = lambda st, c, label: st.pc.append(z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)) or True
        x.callback = True; return x, x.run(name, args, st)
    def word(self, x, st, o, off):
        b = [x.byte(st, o, off + i) for i in range(8)]
        if any(not z3.is_expr(c) for c in b): return None
        return z3.simplify(z3.Concat(*reversed(b)))
    def one(self, fn, budget):
        t0 = time.time(); k = self.kind = next(k for k in self.OBJ if self.OBJ[k] == fn); self.used = set()
        self.M = self.M_zip if k == "zip" else self.M_main; M = self.M
        size = M.globs["dv_sz_" + k][1][1]; names = [n for n in M.fns if M.dem.get(n, n).split("(")[0].startswith(k + "_")]
        dn = lambda n: M.dem.get(n, n).split("(")[0]
        inits = [n for n in names if "_init" in dn(n)]; steps = [n for n in names if "_step" in dn(n)]
        def fargs(n, o): return [P(o)] + [z3.BitVec("arg%d" % i, t.width) for i, (pid, t, nm) in enumerate(M.fns[n].params[1:])]
        self.infer = True; obj = Obj("S", size, lazy=False); starts = []
        for n in inits:
            st = St(); st.mem[obj] = {}; x, rs = self.exec(n, fargs(n, obj), st, budget); starts += rs
        if not starts: return result(fn, [], t0, "no path of the constructor returns")
        offs = list(range(0, size - 7, 8)); ptr = {}; W = []
        for st, _ in starts:
            w = {}
            for o in offs:
                c = st.mem[obj].get(o)
                if isinstance(c, tuple): ptr.setdefault(o, c[0])
                else:
                    v = self.word(x, st, obj, o)
                    if v is not None: w[o] = v
            W.append((st, w))
        obsv = [n for n in names if "_inv" in dn(n)]
        def observe(st, o, w):
            for n in obsv:
                c = st.copy(); k0 = len(c.pc); x, rs = self.exec(n, [P(o)], c, budget); w[n] = z3.Or([z3.And([r == 1] + s2.pc[k0:]) for s2, r in rs]) if rs else z3.BoolVal(False)
            return w
        for st, w in W: observe(st, obj, w)
        com = [o for o in offs if all(o in w for st, w in W)]
        com = [o for o in com if not all(z3.is_bv_value(w[o]) and w[o].as_long() == 0 for st, w in W) or o % 8 == 0]
        zero = [o for o in com if all(z3.is_bv_value(w[o]) for st, w in W)]; live = [o for o in com if o not in zero]
        cands = [("const", o, W[0][1][o].as_long()) for o in zero if all(w[o].as_long() == W[0][1][o].as_long() for st, w in W)]
        for p in live:
            for q in live:
                if p < q: cands.append(("eq", p, q))
                if p != q: cands += [("succ", p, q), ("ule", p, q), ("rng", p, q), ("sext", p, q)]
        for q in live:
            for r in live:
                if len(live) <= 10:
                    for p in live: 
                        if len({p, q, r}) == 3: cands.append(("size", p, q, r))
        cands += [("obs", n) for n in obsv]
        def F(c, w):
            if c[0] == "obs": return w.get(c[1], z3.BoolVal(False))
            if any(o not in w for o in c[1:] if c[0] != "const") or c[1] not in w: return z3.BoolVal(False)
            if c[0] == "const": return w[c[1]] == bv(c[2], 64)
            a, b = w[c[1]], w[c[2]]
            if c[0] == "size": return a == b - w[c[3]] + 1
            return {"eq": a == b, "succ": a == b + 1, "ule": z3.ULE(a, b), "sext": a == z3.SignExt(32, z3.Extract(31, 0, b)), "rng": z3.And(z3.ULE(2, a), z3.ULT(a, bv((1 << 64) - 1 >> 24, 64))) if c[1] < c[2] else z3.BoolVal(False)}[c[0]]
        def filt(states, cands):
            for st, w in states:
                s = z3.Solver(); s.set("timeout", 4000); s.add(*st.pc)
                while True:      # counterexample-guided: one model drops many candidates
                    left = [c for c in cands]
                    if not left: break
                    g = z3.Not(z3.And([F(c, w) for c in left])); r = s.check(g)
                    if r == z3.unsat: break
                    if r == z3.sat:
                        m = s.model(); cands = [c for c in left if z3.is_true(m.eval(F(c, w), model_completion=True))]
                        if len(cands) == len(left): cands = [c for c in left if s.check(z3.Not(F(c, w))) == z3.unsat]; break
                    else: cands = [c for c in left if s.check(z3.Not(F(c, w))) == z3.unsat]; break
            return cands
        cands = filt(W, cands)
        if os.environ.get("DV_DEBUG"): print([c for c in cands if c[0] != "const"])
        def generic():
            was, self.infer = self.infer, True
            try: return generic_()
            finally: self.infer = was
        def generic_():
            o = Obj("S", size, lazy=True); st = St(); st.mem[o] = {}
            for off, p in ptr.items():
                q = P(o, p.off) if isinstance(p, P) and p.obj is obj else p
                for i in range(8): st.mem[o][off + i] = (q, i, 8)
            xx = BX(self.M, self.ext); w = observe(st, o, {q: self.word(xx, st, o, q) for q in com})
            st.pc += [F(c, w) for c in cands]; return o, st
        def after(o, rs):
            xx = BX(self.M, self.ext); out = []
            was, self.infer = self.infer, True
            for st, _ in rs: out.append((st, observe(st, o, {q: v for q, v in ((q, self.word(xx, st, o, q)) for q in com) if v is not None})))
            self.infer = was
            return out
        while True:
            n0 = len(cands)
            for n in steps:
                o, st = generic(); x, rs = self.exec(n, fargs(n, o), st, budget); cands = filt(after(o, rs), cands)
                if os.environ.get("DV_DEBUG"): print(n, [c for c in cands if c[0] != "const"])
            if len(cands) == n0: break
        self.infer = False; obs = []; paths = 0
        for n in inits:
            st = St(); st.mem[obj] = {}; x, rs = self.exec(n, fargs(n, obj), st, budget); paths += len(rs)
            for st, w in after(obj, rs): x.oblige(st, z3.And([F(c, w) for c in cands]) if cands else True, "invariant: established by the constructor"); x.oblige(st, not any(st.ghost.get(g) for g in st.ghost if isinstance(g, tuple)), "no mutex is left taken")
            obs += x.obs
        for n in steps:
            o, st = generic(); x, rs = self.exec(n, fargs(n, o), st, budget); paths += len(rs)
            if not rs: return result(fn, obs + x.obs, t0, None if any(q["status"] != "proved" for q in x.obs) else "no path of %s returns" % dn(n))
            for st, w in after(o, rs):
                x.oblige(st, z3.And([F(c, w) for c in cands]) if cands else True, "invariant: kept by " + dn(n)); x.oblige(st, not any(st.ghost.get(g) for g in st.ghost if isinstance(g, tuple)), "no mutex is left taken")
                for off, p in ptr.items():
                    c = st.mem[o].get(off); x.oblige(st, isinstance(c, tuple) and isinstance(c[0], P) and isinstance(p, P) and c[0].off == p.off and (c[0].obj is p.obj or p.obj is obj and c[0].obj is o), "frame: the generator's references stay as built")
            obs += x.obs
        self.inv = cands
        return result(fn, obs, t0, paths=paths, assumed=self.used)
FNV = z3.Function("FNVHash64", z3.BitVecSort(64), z3.BitVecSort(64))

UNITS = {"keys": KeyUnit, "hash": HashUnit, "strs": StrUnit, "gens": GenUnit}
if __name__ == "__main__":
    import sys
    u = UNITS[sys.argv[1]](); fs = sys.argv[2:] or u.fns(); t = time.time()
    for r in u.run(fs):
        prove.show(r)
    print("%.1f s" % (time.time() - t))
