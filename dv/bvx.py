"""Exact bit-vector executor over the IR of llvmir.py, for code whose data is a handful of objects of fixed size (compound keys,
generators, hash, radix-tree nodes).  Integers are bit-vectors (machine arithmetic exactly as compiled), memory is bytes at
constant offsets, floating-point values are unknowns.  Paths are enumerated with the solver deciding feasibility; loops are followed
until the solver shows the next iteration impossible (a loop it cannot finish makes the function out of reach, never a pass)."""
import z3, time
from core import Unsupported

class Stop(Exception): pass
_n = [0]
def fresh(w, tag="v"):
    _n[0] += 1; return z3.BitVec("%s!%d" % (tag, _n[0]), w)
def bv(c, w): return z3.BitVecVal(c, w)

class Obj:
    """a memory object: size in bytes, read-only flag; bytes never written read as the named unknown (or as undefined)"""
    _k = [0]
    def __init__(s, name, size=None, lazy=True, const=None, heap=False):
        Obj._k[0] += 1; s.name, s.size, s.lazy, s.const, s.heap, s.key = name, size, lazy, const, heap, Obj._k[0]
    def __repr__(s): return s.name
class P:
    """pointer: object and byte offset (a Python int, or a 64-bit term when the index is symbolic); obj None = the address `off`"""
    __slots__ = ("obj", "off")
    def __init__(s, obj, off=0): s.obj, s.off = obj, off
    def __repr__(s): return "%s+%s" % (s.obj, s.off)
NULLP = P(None, 0)
class PI:      # a pointer converted to an integer
    def __init__(s, p): s.p = p
class Undef: pass
UNDEF = Undef()
class Thr:     # path that ends by throwing
    pass

class St:
    def __init__(s): s.pc = []; s.regs = {}; s.mem = {}; s.ghost = {}; s.dead = set(); s.stack = []
    def copy(s):
        n = St(); n.pc = list(s.pc); n.regs = dict(s.regs); n.mem = {k: dict(v) for k, v in s.mem.items()}; n.ghost = dict(s.ghost); n.dead = set(s.dead); n.stack = [list(f) for f in s.stack]; return n

DEADLINE = [1e18]      # of the whole run
class BX:
    abstract = False
    MAXPATHS = 20000; MAXVISIT = 4096
    def __init__(s, M, ext, limit=60.0, glob=None):
        s.M, s.ext, s.deadline, s.glob = M, ext, time.time() + limit, glob
        s.obs = []; s.paths = 0; s.gobj = {}; s.calls = set(); s.sv = z3.Solver(); s.sv.set("timeout", 5000); s.nq = 0; s.tq = 0.0
    # ---- solver
    def sat(s, cs):
        t = time.time(); s.sv.push(); s.sv.add(*cs); r = s.sv.check(); s.sv.pop(); s.nq += 1; s.tq += time.time() - t; return r
    def must(s, st, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return s.sat(st.pc) == z3.unsat
        return s.sat(st.pc + [z3.Not(c)]) == z3.unsat
    def oblige(s, st, c, label):
        if isinstance(c, bool): c = z3.BoolVal(c)
        c = z3.simplify(c); t = time.time(); status = "proved"; det = ""
        if not z3.is_true(c):
            left = min(20.0, DEADLINE[0] - time.time()); sv = z3.Solver(); sv.set("timeout", max(1, int(1000 * left)))
            sv.add(*st.pc); sv.add(z3.Not(c)); r = sv.check() if left > 0 else z3.unknown
            if r == z3.sat:
                m = sv.model(); status = "sat"; det = " ".join("%s=%s" % (d, m[d]) for d in sorted(m.decls(), key=str) if d.arity() == 0)[:1200]
            elif r != z3.unsat: status = "unknown"
        s.obs.append({"label": label, "status": status, "goal": str(c)[:600], "detail": det, "time": time.time() - t, "trail": [str(x)[:80] for x in st.pc[-12:]]})
        st.pc.append(c)
        return status == "proved"
    # ---- memory
    def cells(s, st, o): return st.mem.setdefault(o, {})
    def byte(s, st, o, i):
        c = s.cells(st, o).get(i)
        if c is not None: return c
        if o.const is not None: return bv(o.const[i], 8) if isinstance(o.const[i], int) else o.const[i]
        if o.lazy: return z3.BitVec("%s.%d" % (o.name, i), 8)
        return UNDEF
    def check(s, st, p, n, what):
        if not isinstance(p, P): raise Unsupported("%s through a value that is no pointer" % what)
        if p.obj is None: s.oblige(st, False, "%s through the null pointer" % what); raise Stop()
        if p.obj in st.dead: s.oblige(st, False, "%s of released memory" % what); raise Stop()
        if isinstance(p.off, int):
            if p.obj.size is not None and not 0 <= p.off <= p.obj.size - n: s.oblige(st, False, "%s inside its object" % what); raise Stop()
        else: s.oblige(st, z3.And(z3.ULE(p.off, p.obj.size - n), z3.BoolVal(p.obj.size >= n)), "%s inside its object" % what)
    def ptr_hook(s, st, o, off): return None
    def load(s, st, p, ty):
        s.check(st, p, ty.size, "load")
        if not isinstance(p.off, int): return s.symload(st, p, ty)
        n = ty.size; b = [s.byte(st, p.obj, p.off + i) for i in range(n)]
        if isinstance(b[0], tuple):
            if all(isinstance(x, tuple) and x[0] is b[0][0] and x[1] == i for i, x in enumerate(b)) and len(b) == b[0][2]: return b[0][0]
            raise Unsupported("partial load of a pointer")
        if any(isinstance(x, tuple) for x in b): raise Unsupported("partial load of a pointer")
        if any(x is UNDEF for x in b):
            if ty.kind == "int": return UNDEF
            return UNDEF
        if ty.kind == "ptr":
            h = s.ptr_hook(st, p.obj, p.off)
            if h is not None: return h
            v = z3.simplify(z3.Concat(*reversed(b)))
            if z3.is_bv_value(v): return P(None, v.as_long())
            raise Unsupported("a pointer read from %s+%d that the contract does not describe" % (p.obj, p.off))
        v = b[0] if n == 1 else z3.simplify(z3.Concat(*reversed(b)))
        if ty.kind == "int" and ty.width < n * 8: v = z3.simplify(z3.Extract(ty.width - 1, 0, v))
        return v
    def symload(s, st, p, ty):
        """load at a symbolic offset: decided by the possible offsets, which the alignment of the access and the object bound"""
        if ty.kind == "ptr": raise Unsupported("pointer at a symbolic offset")
        r = None
        for o in range(0, p.obj.size - ty.size + 1, 1 if ty.size == 1 else ty.size):
            if not s.sat(st.pc + [p.off == o]) == z3.unsat:
                v = s.load(st, P(p.obj, o), ty)
                if v is UNDEF: s.oblige(st, p.off != o, "load of an initialised byte"); continue
                r = v if r is None else z3.If(p.off == o, v, r)
        if r is None: raise Stop()
        return r
    def store(s, st, p, v, n, w=None):
        s.check(st, p, n, "store")
        if p.obj.const is not None: s.oblige(st, False, "store to writable memory"); raise Stop()
        if not isinstance(p.off, int):
            if isinstance(v, (P, PI)): raise Unsupported("pointer stored at a symbolic offset")
            for o in range(0, p.obj.size - n + 1, 1 if n == 1 else n):
                if s.sat(st.pc + [p.off == o]) != z3.unsat:
                    for i in range(n):
                        old = s.byte(st, p.obj, o + i)
                        if old is UNDEF: old = fresh(8, "u")
                        s.cells(st, p.obj)[o + i] = z3.simplify(z3.If(p.off == o, z3.Extract(8 * i + 7, 8 * i, v), old))
            return
        c = s.cells(st, p.obj)
        if isinstance(v, PI): v = v.p
        for i in range(n):
            if v is UNDEF: c[p.off + i] = UNDEF
            elif isinstance(v, (P, tuple)): c[p.off + i] = (v, i, n)
            else: c[p.off + i] = z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))
    def alloc(s, st, name, size, **k):
        o = Obj("%s#%d" % (name, len(st.mem)), size, lazy=False, **k); st.mem[o] = {}; return P(o, 0)
    # ---- values
    def g(s, n):
        if n not in s.gobj:
            t, init, const = s.M.globs[n]; o = Obj("@" + n, t.size, lazy=True); s.gobj[n] = o
            def fill(t, c, off, out):
                k = c[0] if c else None
                if k == "zero" or k == "null":
                    for i in range(t.size): out[off + i] = 0
                elif k == "f":
                    for i in range(8): out[off + i] = (c, i, 8)
                elif k == "c":
                    for i in range(t.size): out[off + i] = (c[1] >> (8 * i)) & 255
                elif k == "agg":
                    if t.kind == "array":
                        for i, x in enumerate(c[1]): fill(t.elem, x, off + i * t.elem.size, out)
                    else:
                        for i, x in enumerate(c[1]): fill(t.elems[i], x, off + t.offs[i], out)
            if init is not None and const:
                o.const = {i: z3.BitVec("%s.%d" % (o.name, i), 8) for i in range(t.size)}; fill(t, init, 0, o.const)
        return s.gobj[n]
    def val(s, st, o, ty):
        k = o[0]
        if k == "v": return st.regs[o[1]]
        if k == "c": return bv(o[1], ty.width)
        if k == "null": return NULLP
        if k == "undef": return UNDEF
        if k == "d": return fresh(ty.width, "fp")
        if k == "f": return o
        if k == "g": return P(s.g(o[1]), 0)
        if k in ("zero", "agg") and ty.kind in ("struct", "array"):
            return [s.val(st, o[1][i] if k == "agg" else ("zero",), t) for i, t in enumerate(ty.elems if ty.kind == "struct" else [ty.elem] * ty.n)]
        if k == "zero": return NULLP if ty.kind == "ptr" else bv(0, ty.width)
        if k == "ce":
            _, op, t, args, src, tys = o
            if op == "gep": return s.gep(st, s.val(st, args[0], tys[0]), src, [(s.val(st, a, t2), t2) for a, t2 in zip(args[1:], tys[1:])])
            if op == "bitcast": return s.val(st, args[0], tys[0])
            if op == "inttoptr": return P(None, s.val(st, args[0], tys[0]).as_long())
        raise Unsupported("constant %s" % (o,))
    def num(s, st, v, why="use"):
        if v is UNDEF: s.oblige(st, False, "no %s of an uninitialised value" % why); raise Stop()
        if isinstance(v, (P, PI)): raise Unsupported("arithmetic on an address")
        return v
    def gep(s, st, base, src, idx):
        if base is UNDEF: s.oblige(st, False, "no use of an uninitialised pointer"); raise Stop()
        if not isinstance(base, P): raise Unsupported("address computation on a non-pointer")
        off = base.off; t = src
        def add(off, i, it, size):
            i = s.num(st, i)
            i = z3.simplify(i if it.width == 64 else z3.SignExt(64 - it.width, i))
            if z3.is_bv_value(i):
                k = i.as_signed_long() * size
                return off + k if isinstance(off, int) else z3.simplify(off + bv(k, 64))
            return z3.simplify((bv(off, 64) if isinstance(off, int) else off) + i * bv(size, 64))
        for n, (i, it) in enumerate(idx):
            if n == 0: off = add(off, i, it, t.size)
            elif t.kind == "struct":
                k = i.as_long(); off = off + t.offs[k] if isinstance(off, int) else off + bv(t.offs[k], 64); t = t.elems[k]
            else: t = t.elem; off = add(off, i, it, t.size)
        if not isinstance(off, int):
            off = z3.simplify(off)
            if z3.is_bv_value(off): off = off.as_signed_long()
        return P(base.obj, off)
    # ---- running
    def run(s, fname, args, st):
        """all paths of fname from st: list of (state, return value)"""
        out = []; base = len(st.stack); s.enter(st, s.M.fns[fname], args, None)
        todo = [st]
        while todo:
            st = todo.pop()
            if time.time() > min(s.deadline, DEADLINE[0]): raise Unsupported("time limit while following the paths of %s" % s.M.dem.get(fname, fname)[:120])
            try: r = s.steps(st, base)
            except Stop: continue
            if r[0] == "ret":
                s.paths += 1; out.append((st, r[1]))
                if s.paths > s.MAXPATHS: raise Unsupported("too many paths in %s" % s.M.dem.get(fname, fname)[:120])
                continue
            if r[0] == "states": todo += r[1]; continue
            for st2, t in r[1]:
                s.goto(st2, t); todo.append(st2)
        return out
    def enter(s, st, F, args, ins):
        if len(st.stack) > 60: raise Unsupported("call depth")
        st.stack.append([F, 0, 0, st.regs, ins, {}]); st.regs = {p[0]: a for p, a in zip(F.params, args)}
    def goto(s, st, t):
        fr = st.stack[-1]; b = fr[1]
        if t <= b:
            fr[5] = dict(fr[5]); fr[5][t] = fr[5].get(t, 0) + 1
            if fr[5][t] > s.MAXVISIT: raise Unsupported("a loop of %s does not end" % fr[0].dem[:120])
        F = fr[0]; phis = []
        for I in F.blocks[t]:
            if I.op != "phi": break
            phis.append((I.id, s.val(st, next(a for a, pb in I.args if pb == b), I.ty)))
        for i, v in phis: st.regs[i] = v
        fr[1] = t; fr[2] = len(phis)
    def fork(s, st, cs):
        """cs: [(condition or True, target)]: the feasible successors"""
        out = []
        for c, t in cs:
            c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
            if z3.is_true(c): return [(st, t)]
            if z3.is_false(c): continue
            out.append((c, t))
        live = [(c, t) for c, t in out if s.sat(st.pc + [c]) != z3.unsat]
        res = []
        for c, t in live:
            n = st.copy() if len(live) > 1 else st
            n.pc.append(c); res.append((n, t))
        return res
    def steps(s, st, base):
        """run the top frame to its next fork, or to the return of the frame above `base`"""
        while True:
            fr = st.stack[-1]; I = fr[0].blocks[fr[1]][fr[2]]; op = I.op
            if op == "ret":
                v = s.val(st, I.args[0], I.x["tys"][0]) if I.args else None
                st.stack.pop(); st.regs = fr[3]
                if len(st.stack) == base: return ("ret", v)
                s.returned(st, fr[4], v)
                continue
            if op == "unreachable": raise Stop()
            if op == "br":
                su = I.x["succ"]
                if len(su) == 1: s.goto(st, su[0]); continue
                c = s.num(st, s.val(st, I.args[0], BOOL), "branch on") == 1
                return ("go", s.fork(st, [(c, su[0]), (z3.Not(c), su[1])]))
            if op == "switch":
                v = s.num(st, s.val(st, I.args[0], SWI), "switch on"); cs = []; other = []
                for k, t in zip(I.x["cases"], I.x["succ"][1:]):
                    e = v == bv(k[1], v.size()); cs.append((e, t)); other.append(z3.Not(e))
                return ("go", s.fork(st, cs + [(z3.And(*other) if other else True, I.x["succ"][0])]))
            if op in ("call", "invoke"):
                f = s.target(st, I)
                if f is not None:
                    F, args = f
                    if op == "call": fr[2] += 1
                    s.enter(st, F, args, I); continue
                r = s.call(st, I)
                if isinstance(r, Many):      # the contract leaves several outcomes: [(condition, value)]
                    outs = []
                    for c, v, act in r.alts:
                        n = st.copy(); n.pc.append(c)
                        if s.sat(n.pc) == z3.unsat: continue
                        if act: act(n)
                        nf = n.stack[-1]
                        if v is not None: n.regs[I.id] = v
                        nf[2] += 1; outs.append(n)
                    return ("states", outs)
                if r is not None: st.regs[I.id] = r
                if op == "invoke": s.goto(st, I.x["succ"][0])
                else: fr[2] += 1
                continue
            r = s.ins(st, I)
            if r is not None: st.regs[I.id] = r
            fr[2] += 1
    def returned(s, st, I, v):
        if v is not None: st.regs[I.id] = v
        if I.op == "invoke": s.goto(st, I.x["succ"][0])
    def target(s, st, I):
        """(function, arguments) when the call goes to a body that is followed rather than taken by contract"""
        cal = I.x["callee"]
        n = cal[1] if cal[0] == "f" else None
        if cal[0] == "v":
            v = st.regs[cal[1]]
            if isinstance(v, tuple) and v[0] == "f": n = v[1]
            else: raise Unsupported("indirect call " + I.text[:100])
        if n is None: raise Unsupported("indirect call " + I.text[:100])
        I.x["target"] = n
        if n.startswith("llvm.") or n not in s.M.fns or s.has_contract(n): return None
        return s.M.fns[n], [s.val(st, a, t) if a[0] != "meta" else None for a, t in zip(I.args, I.x["tys"])]
    def has_contract(s, n): return bool(s.M.all.get(n, (None, False))[1])
    def ins(s, st, I):
        op = I.op
        if op == "alloca":
            o = Obj("%s.%s" % (I.id, len(st.mem)), I.x["aty"].size, lazy=False); st.mem[o] = {}; return P(o, 0)
        tys = I.x.get("tys")
        a = [s.val(st, x, t) for x, t in zip(I.args, tys)]
        if op == "load":
            if I.ty.kind in ("struct", "array", "other", "vector"): raise Unsupported("aggregate load")
            return s.load(st, a[0], I.ty)
        if op == "store":
            v = a[0]; n = tys[0].size
            if tys[0].kind == "int" and tys[0].width < 8 * n and not isinstance(v, (P, PI)) and v is not UNDEF: v = z3.ZeroExt(8 * n - tys[0].width, v)
            if tys[0].kind in ("struct", "array", "other", "vector"): raise Unsupported("aggregate store")
            s.store(st, a[1], v, n); return None
        if op == "gep": return s.gep(st, a[0], I.x["src"], list(zip(a[1:], tys[1:])))
        if op in ("bitcast", "freeze", "addrspacecast"): return a[0]
        if op == "ptrtoint": return PI(a[0])
        if op == "inttoptr":
            if isinstance(a[0], PI): return a[0].p
            if z3.is_bv_value(z3.simplify(a[0])): return P(None, z3.simplify(a[0]).as_long())
            raise Unsupported("integer converted to a pointer")
        if op == "icmp":
            p = I.x["pred"]; x, y = a
            if isinstance(x, PI): x = x.p
            if isinstance(y, PI): y = y.p
            if isinstance(x, P) and isinstance(y, P):
                if p in ("eq", "ne"): r = s.ptr_eq(st, x, y)
                elif x.obj is y.obj and isinstance(x.off, int) and isinstance(y.off, int): r = z3.BoolVal({"ult": x.off < y.off, "ule": x.off <= y.off, "ugt": x.off > y.off, "uge": x.off >= y.off}[p])
                else: raise Unsupported("order of pointers")
                if p == "ne": r = z3.Not(r)
            elif isinstance(x, P) or isinstance(y, P): raise Unsupported("pointer compared with an integer")
            else:
                x = s.num(st, x, "comparison"); y = s.num(st, y, "comparison")
                r = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
                     "slt": lambda: x < y, "sle": lambda: x <= y, "sgt": lambda: x > y, "sge": lambda: x >= y}[p]()
            return z3.simplify(z3.If(r, bv(1, 1), bv(0, 1)))
        if op in ("fcmp",): return fresh(1, "fc")
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "uitofp", "sitofp", "fpext", "fptrunc", "fptoui", "fptosi"): return fresh(I.ty.width, "fp")
        if op == "sub" and isinstance(a[0], PI) and isinstance(a[1], PI):
            x, y = a[0].p, a[1].p
            if x.obj is y.obj:
                z = lambda o: bv(o, 64) if isinstance(o, int) else o
                return z3.simplify(z(x.off) - z(y.off))
        if op in ("zext", "sext", "trunc"):
            v = a[0]; w = I.ty.width
            if v is UNDEF: return UNDEF
            v = s.num(st, v)
            return z3.simplify(z3.ZeroExt(w - v.size(), v) if op == "zext" else z3.SignExt(w - v.size(), v) if op == "sext" else z3.Extract(w - 1, 0, v))
        if op == "select":
            c = s.num(st, a[0], "branch on"); c = z3.simplify(c)
            if z3.is_bv_value(c): return a[1] if c.as_long() else a[2]
            if s.must(st, c == 1): return a[1]
            if s.must(st, c == 0): return a[2]
            if any(isinstance(x, (P, PI)) or x is UNDEF for x in a[1:]):
                if isinstance(a[1], P) and isinstance(a[2], P) and a[1].obj is a[2].obj and a[1].obj is not None:
                    z = lambda o: bv(o, 64) if isinstance(o, int) else o
                    return P(a[1].obj, z3.simplify(z3.If(c == 1, z(a[1].off), z(a[2].off))))
                raise Unsupported("selection between two objects")
            return z3.simplify(z3.If(c == 1, a[1], a[2]))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            if a[0] is UNDEF or a[1] is UNDEF: s.num(st, UNDEF, "arithmetic")
            x, y = s.num(st, a[0]), s.num(st, a[1]); w = x.size()
            if op in ("add", "sub", "mul") and I.x.get("nsw"):
                c = {"add": lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), "sub": lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)), "mul": lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[op]()
                s.oblige(st, c, "signed arithmetic does not overflow")
            if op in ("udiv", "sdiv", "urem", "srem"): s.oblige(st, y != 0, "no division by zero")
            if op in ("shl", "lshr", "ashr"): s.oblige(st, z3.ULT(y, w), "shift amount below the width")
            if op in ("urem", "udiv") and s.abstract and not z3.is_bv_value(y):      # an unknown function with the facts used
                f = z3.Function("%s%d" % (op, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w)); r = f(x, y)
                st.pc.append(z3.ULT(r, y) if op == "urem" else z3.ULE(r, x))
                return r
            return z3.simplify({"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "udiv": lambda: z3.UDiv(x, y), "sdiv": lambda: x / y, "urem": lambda: z3.URem(x, y), "srem": lambda: z3.SRem(x, y),
                                "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]())
        if op == "atomicrmw":
            m = I.text.split("atomicrmw")[1].split()[0:2]; k = m[1] if m[0] == "volatile" else m[0]
            old = s.num(st, s.load(st, a[0], tys[1])); n = tys[1].size
            new = {"add": lambda: old + a[1], "sub": lambda: old - a[1], "xchg": lambda: a[1], "or": lambda: old | a[1], "and": lambda: old & a[1], "xor": lambda: old ^ a[1]}.get(k)
            if new is None: raise Unsupported("atomic " + k)
            s.store(st, a[0], z3.simplify(new()), n); return old
        if op == "fence": return None
        if op == "extractvalue":
            v = a[0]
            for i in I.x["idx"]:
                if v is UNDEF: return UNDEF
                v = v[i]
            return v
        if op == "insertvalue":
            def ins(v, t, ix, x):
                v = list(v) if v is not UNDEF else [UNDEF] * (len(t.elems) if t.kind == "struct" else t.n)
                v[ix[0]] = x if len(ix) == 1 else ins(v[ix[0]], t.elems[ix[0]] if t.kind == "struct" else t.elem, ix[1:], x); return v
            return ins(a[0], I.ty, I.x["idx"], a[1])
        raise Unsupported("instruction " + I.text[:120])
    def ptr_eq(s, st, x, y):
        if x.obj is not y.obj: return z3.BoolVal(False)
        if isinstance(x.off, int) and isinstance(y.off, int): return z3.BoolVal(x.off == y.off)
        z = lambda o: bv(o, 64) if isinstance(o, int) else o
        return z(x.off) == z(y.off)
    def call(s, st, I):
        n = I.x["target"]; args = [s.val(st, a, t) if a[0] != "meta" else None for a, t in zip(I.args, I.x["tys"])]
        if n.startswith("llvm."):
            if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.stacksave", "llvm.stackrestore", "llvm.experimental.noalias", "llvm.assume")): return None
            if n.startswith(("llvm.memcpy", "llvm.memmove")):
                k = z3.simplify(args[2])
                if not z3.is_bv_value(k): raise Unsupported("copy of a symbolic number of bytes")
                k = k.as_long()
                if k == 0: return None
                s.check(st, args[1], k, "load"); s.check(st, args[0], k, "store")
                if not isinstance(args[0].off, int) or not isinstance(args[1].off, int): raise Unsupported("copy at a symbolic offset")
                b = [s.byte(st, args[1].obj, args[1].off + i) for i in range(k)]; c = s.cells(st, args[0].obj)
                for i in range(k): c[args[0].off + i] = b[i]
                return None
            if n.startswith("llvm.memset"):
                k = z3.simplify(args[2])
                if not z3.is_bv_value(k): raise Unsupported("set of a symbolic number of bytes")
                k = k.as_long()
                if k:
                    s.check(st, args[0], k, "store"); c = s.cells(st, args[0].obj)
                    for i in range(k): c[args[0].off + i] = args[1]
                return None
            if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                x, y = s.num(st, args[0]), s.num(st, args[1]); c = {"umi": z3.ULE(x, y), "uma": z3.UGE(x, y), "smi": x <= y, "sma": x >= y}[n[5:8]]
                return z3.simplify(z3.If(c, x, y))
            if n.startswith("llvm.ctpop") or n.startswith("llvm.cttz") or n.startswith("llvm.ctlz"):
                x = s.num(st, args[0]); w = x.size()
                if "ctpop" in n: return z3.simplify(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]))
                if len(args) > 1 and z3.is_true(z3.simplify(args[1] == 1)): s.oblige(st, x != 0, "count of zeros of a non-zero word")
                r = bv(w, w)
                for i in (range(w - 1, -1, -1) if "cttz" in n else range(w)): r = z3.If(z3.Extract(i, i, x) == 1, bv(i if "cttz" in n else w - 1 - i, w), r)
                return z3.simplify(r)
            if n.startswith(("llvm.fmuladd", "llvm.pow", "llvm.floor", "llvm.fabs", "llvm.sqrt", "llvm.exp", "llvm.log")): return fresh(I.ty.width, "fp")
            if n.startswith("llvm.trap"): s.oblige(st, False, "no trap is reached"); raise Stop()
        r = s.ext(s, st, n, s.M.dem.get(n, n), args, I)
        if r is NotImplemented: raise Unsupported("call of %s, which has no contract" % s.M.dem.get(n, n)[:160])
        return r
class Many:
    def __init__(s, alts): s.alts = alts
class _S: width = 64; kind = "int"; size = 8
SWI = _S()
class _B: width = 1; kind = "int"; size = 1
BOOL = _B()
