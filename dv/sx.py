"""Symbolic executor over the IR objects of llvmir.py."""
import z3, time
from core import *

class CaseSplit(Exception):
    def __init__(s, cond): s.cond = cond
class PathEnd(Exception):
    pass

def wrapterm(z, w):
    m = 1 << w; h = 1 << (w - 1)
    return (z + h) % m - h

class Exec:
    MAXPATHS = 6000
    def __init__(self, unit, F, contract, timeout_ms=20000):
        self.u, self.F, self.c = unit, F, contract
        self.M = unit.M
        self.obs = []          # obligations in check mode
        self.infer = 0
        self.returns = []
        self.paths = 0
        self.timeout_ms = timeout_ms
        self.loops = self.find_loops()
        self.assumed = set()
        self.active = {}
        self.notes = []
        self.deadline = None

    # ------------------------------------------------------------ CFG
    def succ(self, b):
        t = self.F.blocks[b][-1]
        return t.x.get("succ", [])
    def find_loops(self):
        n = len(self.F.blocks); color = {}; back = []
        stack = [(0, iter(self.succ(0)))]; color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in color:
                    color[s] = 1; stack.append((s, iter(self.succ(s)))); break
                elif color[s] == 1: back.append((b, s))
            else:
                color[b] = 2; stack.pop()
        preds = {i: [] for i in range(n)}
        for b in color:
            for s in self.succ(b): preds[s].append(b)
        loops = {}
        for src, h in back:
            body = {h}; st = [src]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x); st.extend(preds[x])
            loops.setdefault(h, set()).update(body)
        return loops

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, label):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.infer: 
            st.assume(goal)
            return
        for g in split_goal(z3.simplify(goal) if z3.is_true(z3.simplify(goal)) else goal):
            o = Ob(self.F.dem, label, None, g, list(st.trail))
            if z3.is_true(g) or Solve.quick(st.facts, g):
                o.status = "proved"; o.by = "z3"
            else:
                o.facts = list(st.facts); o.tags = list(st.tags)
            self.obs.append(o)
        st.assume(goal, self.c.goal_tag(label))

    def unsupported(self, st, why):
        if self.infer: raise PathEnd()
        o = Ob(self.F.dem, "outside the verifier's reach: " + why, list(st.facts), z3.BoolVal(False), list(st.trail))
        # the path may be infeasible
        self.obs.append(o)
        raise PathEnd()

    def feasible(self, st, c):
        return not Solve.quick(st.facts, z3.Not(c), 250)

    # ------------------------------------------------------------ ints
    def L(self, st, v, w=64):
        if isinstance(v, (Lin, int, BI)): return lin(v)
        if isinstance(v, Zx): return v.to_lin(self, st)
        if isinstance(v, Comp):
            self.unsupported(st, "arithmetic on composite word")
        if isinstance(v, Opaque): self.unsupported(st, "use of " + v.why)
        if isinstance(v, PtrInt): self.unsupported(st, "arithmetic on an address")
        return lin(v)
    def fits(self, st, x, w):
        if x.is_const(): return -(1 << (w - 1)) <= x.c < (1 << (w - 1))
        z = x.z()
        return Solve.quick(st.facts, z3.And(z >= -(1 << (w - 1)), z < (1 << (w - 1))))
    def norm(self, st, x, w):
        """reduce a mathematical value to the signed reading of a w-bit word"""
        if x.is_const():
            m = 1 << w; c = x.c % m
            return Lin(c - m if c >= m >> 1 else c)
        if self.fits(st, x, w): return x
        v = fresh_int("wrap")
        st.assume(v == wrapterm(x.z(), w))
        return lin(v)
    def unsigned(self, st, x, w):
        if x.is_const(): return Lin(x.c % (1 << w))
        z = x.z()
        if Solve.quick(st.facts, z >= 0): return x
        return lin(z3.If(z < 0, z + (1 << w), z))

    # ------------------------------------------------------------ operands
    def val(self, st, o):
        k = o[0]
        if k == "v":
            return st.regs[o[1]]
        if k == "c": return Lin(o[1])
        if k == "null": return NULL
        if k == "undef": return Opaque("an undefined value")
        if k == "g":
            t, init, const = self.M.globs[o[1]]
            b = self.u.gblk(o[1]); return Ptr(b, 0)
        if k == "f": return o
        if k == "d": return Opaque("floating-point constant")
        if k == "zero": return Agg(None)
        if k == "agg": return Agg([self.val(st, x) for x in o[1]])
        if k == "ce":
            _, op, ty, args, src, tys = o
            if op == "gep":
                return self.gep(st, self.val(st, args[0]), src, [(self.val(st, a), t) for a, t in zip(args[1:], tys[1:])])
            if op in ("bitcast",): return self.val(st, args[0])
        return Opaque("constant %s" % (o,))

    def gep(self, st, base, src, idx):
        if not isinstance(base, Ptr): self.unsupported(st, "address computation on %s" % type(base).__name__)
        off = base.o; t = src
        for n, (i, it) in enumerate(idx):
            if n == 0:
                off = off + self.L(st, i).scale(t.size)
            elif t.kind == "struct":
                k = self.L(st, i).c; off = off + t.offs[k]; t = t.elems[k]
            else:
                t = t.elem; off = off + self.L(st, i).scale(t.size)
        p = Ptr(NULL.b, off); p.b = base.b
        return p

    # ------------------------------------------------------------ main loop
    def run(self):
        st = self.c.setup(self)
        self.st0 = st.copy()
        self.explore(st, 0, None, {}, None)

    def explore(self, st, bb, prev, active, within):
        """active: header -> callback(state, prev) for back edges; within: set of blocks to stay in (infer mode)"""
        wl = [(st, bb, prev)]
        while wl:
            st, bb, prev = wl.pop()
            self.paths += 1
            if self.paths > self.MAXPATHS or (self.deadline and time.time() > self.deadline):
                raise Unsupported("path/time budget exceeded")
            try:
                if within is not None and bb not in within: continue
                if bb in self.loops:
                    if prev in self.loops[bb] and bb in active:
                        self.phis(st, bb, prev)
                        active[bb](st); continue
                    if prev not in self.loops[bb]:
                        hv = self.enter_loop(st, bb, prev, active)
                        if hv is None: continue
                        st = hv
                        self.body(st, bb, prev, wl, skip_phi=True); continue
                    # back edge of a loop entered outside `active`
                    self.unsupported(st, "irregular loop")
                self.body(st, bb, prev, wl)
            except PathEnd:
                pass

    def phis(self, st, bb, prev):
        new = {}
        for ins in self.F.blocks[bb]:
            if ins.op != "phi": break
            for o, p in ins.args:
                if p == prev:
                    new[ins.id] = self.val(st, o); break
        st.regs.update(new)

    def body(self, st, bb, prev, wl, skip_phi=False):
        if not skip_phi: self.phis(st, bb, prev)
        st.trail.append(bb)
        blk = self.F.blocks[bb]; i = 0
        while blk[i].op == "phi": i += 1
        self.cont(st, bb, i, wl)

    def fork(self, st, cond):
        """yield feasible (state, truth)"""
        if isinstance(cond, bool): return [(st, cond)]
        c = z3.simplify(cond)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        out = []
        f1 = self.feasible(st, cond)
        f2 = self.feasible(st, z3.Not(cond)) if f1 else True
        if f1:
            s1 = st.copy() if f2 else st
            s1.assume(cond); out.append((s1, True))
        if f2:
            st.assume(z3.Not(cond)); out.append((st, False))
        return out

    def cont(self, st, bb, i, wl):
        blk = self.F.blocks[bb]
        while i < len(blk):
            ins = blk[i]; op = ins.op
            if op == "br":
                su = ins.x["succ"]
                if len(su) == 1:
                    wl.append((st, su[0], bb)); return
                c = self.cond(st, self.val(st, ins.args[0]))
                for s, t in self.fork(st, c):
                    wl.append((s, su[0] if t else su[1], bb))
                return
            if op == "switch":
                v = self.L(st, self.val(st, ins.args[0]))
                rest = st; su = ins.x["succ"]
                for k, c in enumerate(ins.x["cases"]):
                    cv = self.val(st, c)
                    fs = self.fork(rest, v.c == cv.c if v.is_const() else v.z() == cv.c)
                    rest = None
                    for s, t in fs:
                        if t: wl.append((s, su[k + 1], bb))
                        else: rest = s
                    if rest is None: return
                wl.append((rest, su[0], bb)); return
            if op == "ret":
                r = self.val(st, ins.args[0]) if ins.args else None
                self.at_return(st, r); return
            if op == "unreachable":
                self.oblige(st, False, "unreachable code is not reached")
                return
            if op == "select":
                c = self.cond(st, self.val(st, ins.args[0]))
                a, b = self.val(st, ins.args[1]), self.val(st, ins.args[2])
                m = self.merge(c, a, b)
                if m is None:
                    for s, t in self.fork(st, c):
                        s.regs[ins.id] = a if t else b
                        self.cont(s, bb, i + 1, wl)
                    return
                st.regs[ins.id] = m; i += 1; continue
            if op == "call":
                before, n = st.copy(), len(self.obs)
                try: self.call(st, ins)
                except CaseSplit as e:       # the contract distinguishes cases this path does not: explore each
                    del self.obs[n:]
                    fs = self.fork(before, e.cond)
                    if len(fs) < 2: self.unsupported(before, "case split of %s has one case" % ins.x["callee"][1])
                    for s, t in fs: self.cont(s, bb, i, wl)
                    return
                i += 1; continue
            r = self.ins(st, ins)
            if r is not None: st.regs[ins.id] = r
            i += 1

    def merge(self, c, a, b):
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        if isinstance(a, (Lin, BI)) and isinstance(b, (Lin, BI)):
            x, y = lin(a), lin(b)
            if x.is_const() and y.is_const() and {x.c, y.c} <= {0, 1}:
                if x.c == y.c: return x
                return BI(c if x.c == 1 else z3.Not(c))
            return None if not self.c.merge_ints else lin(z3.If(c, x.z(), y.z()))
        if z3.is_expr(a) or z3.is_expr(b) or isinstance(a, bool):
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                return z3.If(c, B(a), B(b))
        return None

    def cond(self, st, v):
        if isinstance(v, (bool, z3.BoolRef)): return v
        if isinstance(v, BI): return v.b
        if isinstance(v, (Lin, int)):
            v = lin(v)
            return v.c % 2 == 1 if v.is_const() else v.z() % 2 == 1
        if isinstance(v, Opaque): self.unsupported(st, "branch on " + v.why)
        self.unsupported(st, "condition")

    # ------------------------------------------------------------ loops
    def loop_writes(self, bb):
        """static over-approximation: (set of alloca/param roots written, heap may be written)"""
        roots, heap = set(), False
        byid = {ins.id: ins for blk in self.F.blocks for ins in blk}
        def trace(o, seen):
            if o[0] == "ce" and o[1] in ("gep", "bitcast"): return trace(o[3][0], seen)
            if o[0] != "v": return {("?",)}
            if o[1] in seen: return set()
            seen = seen | {o[1]}
            if o[1].startswith("%a"): return {o[1]}
            i = byid[o[1]]
            if i.op == "alloca": return {i.id}
            if i.op in ("gep", "bitcast"): return trace(i.args[0], seen)
            if i.op == "select": return trace(i.args[1], seen) | trace(i.args[2], seen)
            if i.op == "phi": return set().union(*[trace(a, seen) for a, _ in i.args])
            return {("?",)}
        for b in self.loops[bb]:
            for i in self.F.blocks[b]:
                ds = []
                if i.op == "store": ds = [i.args[1]]
                elif i.op in ("cmpxchg", "atomicrmw"): ds = [i.args[0]]
                elif i.op == "call":
                    cal = i.x["callee"]
                    n = cal[1] if cal[0] == "f" else ""
                    if n.startswith("llvm.mem"): ds = [i.args[0]]
                    elif n.startswith("llvm."): pass
                    else:
                        k = self.u.contract_for(n)
                        if k is None: heap = True; ds = [a for a in i.args]
                        else:
                            if k.writes_heap: heap = True
                            ds = [i.args[j] for j in k.writes_args if j < len(i.args)]
                for d in ds:
                    for r in trace(d, frozenset()):
                        if isinstance(r, tuple): heap = True
                        else: roots.add(r)
        return roots, heap

    def ptr_induction(self, phi, bb):
        byid = {ins.id: ins for blk in self.F.blocks for ins in blk}
        import math
        g = [0]
        def walk(o, seen):
            if o[0] != "v": return False
            if o[1] == phi.id: return True
            if o[1] in seen: return True
            if o[1].startswith("%a"): return False
            i = byid[o[1]]
            seen = seen | {o[1]}
            if i.op == "gep":
                t = i.x["src"]
                if len(i.args) != 2: return False
                a = i.args[1]
                g[0] = math.gcd(g[0], abs(a[1]) * t.size if a[0] == "c" else t.size)
                return walk(i.args[0], seen)
            if i.op == "select": return walk(i.args[1], seen) and walk(i.args[2], seen)
            if i.op == "phi": return all(walk(a, seen) for a, p in i.args)
            return False
        ok = all(walk(a, frozenset()) for a, p in phi.args if p in self.loops[bb])
        return (g[0] or 1) if ok else None

    def enter_loop(self, st, bb, prev, active):
        self.phis(st, bb, prev)
        entry = st
        phis = [i for i in self.F.blocks[bb] if i.op == "phi"]
        roots, heap = self.loop_writes(bb)
        hv = st.copy()
        info = {"phis": [], "entry": entry, "bb": bb}
        for p in phis:
            v = st.regs[p.id]; nm = self.F.vnames.get(p.id) or "phi"
            if p.ty.kind == "ptr":
                step = self.ptr_induction(p, bb)
                if step and isinstance(v, Ptr):
                    j = fresh_int("j_" + nm); q = Ptr(0, v.o + lin(j).scale(step)); q.b = v.b
                    hv.regs[p.id] = q; info["phis"].append((p, "ind", j))
                elif isinstance(v, Ptr) and v.heap() and v.o.is_const():
                    hv.regs[p.id] = Ptr(fresh_int("p_" + nm), v.o); info["phis"].append((p, "node", v.o.c))
                else:
                    self.unsupported(st, "loop-carried pointer")
            elif p.ty.kind == "int":
                if p.ty.width == 1:
                    hv.regs[p.id] = fresh_bool("b_" + nm)
                elif p.ty.width == 8 and isinstance(v, BI): hv.regs[p.id] = BI(fresh_bool("b_" + nm))
                else:
                    j = fresh_int("i_" + nm); h = 1 << (p.ty.width - 1)
                    hv.regs[p.id] = lin(j); hv.assume(z3.And(j >= -h, j < h))
                info["phis"].append((p, "int", None))
            elif p.ty.kind in ("double", "float"):
                hv.regs[p.id] = Opaque("floating-point value")
            else: self.unsupported(st, "loop-carried " + p.ty.kind)
        stable = []
        for r in roots:
            v = st.regs.get(r)
            if v is None: continue   # alloca inside the loop: re-created
            if isinstance(v, Ptr) and isinstance(v.b, Blk):
                stable += self.u.mem.havoc_blk(self, hv, v.b)
            else: heap = True
        info["heap"] = heap; info["stable"] = stable
        if heap: self.c.loop_havoc(self, entry, hv)
        base = len(hv.facts)
        cands = [(n, f) for n, f in self.c.loop_cands(self, entry, hv, info)]
        kept = []
        for n, f in cands:
            try: g = f(entry)
            except KeyError: continue
            if g is None: continue
            if self.provable(entry.facts, g): kept.append((n, f))
        t_rounds = 0
        within = self.loops[bb]
        while True:
            t_rounds += 1
            cur = hv.copy()
            for n, f in kept: cur.assume(f(cur))
            arr = []
            self.infer += 1
            try:
                a2 = {bb: lambda s: arr.append(s)}
                wl = []
                try: self.body(cur, bb, prev, wl, skip_phi=True)
                except PathEnd: pass
                for (s, b2, p2) in wl:
                    self.explore(s, b2, p2, a2, within)
            finally: self.infer -= 1
            bad = set()
            for s in arr:
                if not self.ptr_ok(s, info, hv): 
                    self.unsupported(st, "loop-carried pointer changes provenance")
                for k, (n, f) in enumerate(kept):
                    if k in bad: continue
                    if not self.provable(s.facts, f(s)): bad.add(k)
            if not bad: break
            if os.environ.get("DV_DEBUG"): print("   drop", [kept[k][0] for k in bad])
            kept = [x for k, x in enumerate(kept) if k not in bad]
        if self.infer:
            pass
        if os.environ.get("DV_DEBUG"):
            print("  loop", self.F.dem[-60:], "bb", bb, "rounds", t_rounds, "kept", [n for n, _ in kept])
        for n, f in kept: self.oblige(entry.copy(), f(entry), "loop invariant holds on entry: " + n)
        cur = hv.copy()
        for n, f in kept: cur.assume(f(cur))
        snap = cur.copy()
        meas = self.c.loop_measures(self, entry, snap, info)
        def back(s, kept=kept, snap=snap, info=info):
            if not self.ptr_ok(s, info, hv): self.unsupported(s, "loop-carried pointer changes provenance")
            for p, kind, x in info["phis"]:
                if kind == "node":
                    v = s.regs[p.id]
                    self.oblige(s, isinstance(v, Ptr) and v.heap() and (v.o.z() == x), "loop-carried pointer designates an object")
            for n, f in kept:
                self.oblige(s.copy(), f(s), "loop invariant preserved: " + n)
            if self.infer: return
            # termination
            ok = False
            for n, m in meas:
                a, b = m(snap), m(s)
                if a is None or b is None: continue
                if self.provable(s.facts, z3.And(I(a) >= 0, I(b) < I(a)), 3000):
                    ok = True; break
            o = Ob(self.F.dem, "loop terminates (a measure decreases)", list(s.facts), z3.BoolVal(False), list(s.trail))
            if ok: o.status = "proved"; o.by = "z3"
            self.obs.append(o)
        active[bb] = back
        return cur

    def ptr_ok(self, s, info, hv):
        for p, kind, x in info["phis"]:
            v = s.regs[p.id]
            if kind == "node":
                if not (isinstance(v, Ptr) and v.heap()): return False
            if kind == "ind":
                if not (isinstance(v, Ptr)): return False
        for b, o, v in info["stable"]:
            c = s.loc.get(b, {}).get(o)
            if c is None or not isinstance(c[1], Ptr) or c[1].b is not v.b or not (c[1].o - v.o).is_const() or (c[1].o - v.o).c: return False
        return True

    def provable(self, facts, g, ms=None):
        if isinstance(g, bool): return g
        if Solve.quick(facts, g): return True
        for x in split_goal(g):
            if z3.is_true(x): continue
            r, dt, s = Solve.full(facts, x, (ms or self.c.houdini_ms) / 4, **NX2)
            if r != z3.unsat and r != z3.sat: r, dt, s = Solve.full(facts, x, ms or self.c.houdini_ms)
            if r != z3.unsat: return False
        return True

    # ------------------------------------------------------------ returns
    def at_return(self, st, r):
        if self.infer: return
        self.returns.append(st)
        self.c.check_return(self, st, r)

    # ------------------------------------------------------------ calls
    def call(self, st, ins):
        cal = ins.x["callee"]
        args = [None if a[0] == "meta" else self.val(st, a) for a in ins.args]
        if cal[0] != "f":
            self.unsupported(st, "indirect call")
        n = cal[1]; r = None
        if n.startswith("llvm."):
            r = self.intrinsic(st, n, args, ins)
        else:
            k = self.u.contract_for(n)
            if k is not None:
                self.assumed.add(k.name)
                r = k.apply(self, st, args, ins)
            else:
                r = self.u.external(self, st, n, args, ins)
        if ins.ty.kind != "void":
            st.regs[ins.id] = r

    def intrinsic(self, st, n, a, ins):
        if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.stacksave", "llvm.stackrestore")): return None
        if n.startswith("llvm.is.constant"): return False
        if n.startswith("llvm.expect"): return a[0]
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            self.u.mem.memmove(self, st, a[0], a[1], self.L(st, a[2])); return None
        if n.startswith("llvm.memset"):
            self.u.mem.memset(self, st, a[0], a[1], self.L(st, a[2])); return None
        if n.startswith(("llvm.smin", "llvm.smax", "llvm.umin", "llvm.umax")):
            x, y = self.L(st, a[0]), self.L(st, a[1])
            if n[5] == "u": 
                w = ins.ty.width; ux, uy = self.unsigned(st, x, w), self.unsigned(st, y, w)
            else: ux, uy = x, y
            c = (ux.z() <= uy.z()) if "min" in n[:10] else (ux.z() >= uy.z())
            return lin(z3.If(c, x.z(), y.z()))
        if n.startswith("llvm.abs"):
            x = self.L(st, a[0]).z(); return lin(z3.If(x < 0, -x, x))
        if n.startswith(("llvm.fmuladd", "llvm.pow", "llvm.floor", "llvm.fabs", "llvm.sqrt")): return Opaque("floating-point value")
        if n.startswith(("llvm.trap",)):
            self.oblige(st, False, "trap is not reached"); raise PathEnd()
        self.unsupported(st, "intrinsic " + n)

    # ------------------------------------------------------------ plain instructions
    def ins(self, st, ins):
        op = ins.op
        if op == "alloca":
            t = ins.x["aty"]
            b = Blk(self.F.vnames.get(ins.id) or "tmp", t.size); st.loc[b] = {}
            return Ptr(b, 0)
        a = [self.val(st, o) for o in ins.args]
        if op == "load":
            p = a[0]
            if not isinstance(p, Ptr): self.unsupported(st, "load through %s" % type(p).__name__)
            return self.u.mem.load(self, st, p, ins.ty)
        if op == "store":
            p = a[1]
            if not isinstance(p, Ptr): self.unsupported(st, "store through %s" % type(p).__name__)
            self.u.mem.store(self, st, p, a[0], ins.x["tys"][0]); return None
        if op == "gep":
            return self.gep(st, a[0], ins.x["src"], list(zip(a[1:], ins.x["tys"][1:])))
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fptrunc", "fpext", "uitofp", "sitofp"):
            return Opaque("floating-point value")
        if op == "fcmp": return fresh_bool("fcmp")
        if op in ("fptoui", "fptosi"):
            v = fresh_int("fpint"); h = 1 << (ins.ty.width - 1); st.assume(z3.And(v >= -h, v < h)); return lin(v)
        if op == "freeze": return a[0]
        w = ins.ty.width
        if op == "ptrtoint": return PtrInt(a[0])
        if op == "inttoptr":
            if isinstance(a[0], PtrInt): return a[0].p
            self.unsupported(st, "inttoptr")
        if op == "bitcast": return a[0]
        if op == "extractvalue":
            v = a[0]
            for k in ins.x["idx"]:
                if not isinstance(v, Agg) or v.xs is None: self.unsupported(st, "extractvalue")
                v = v.xs[k]
            return v
        if op == "insertvalue":
            v = a[0]
            n = len(ins.ty.elems) if ins.ty.kind == "struct" else ins.ty.n
            xs = list(v.xs) if isinstance(v, Agg) and v.xs else [Opaque("an undefined value")] * n
            if len(ins.x["idx"]) != 1: self.unsupported(st, "nested insertvalue")
            xs[ins.x["idx"][0]] = a[1]
            return Agg(xs)
        if op == "icmp": return self.icmp(st, ins.x["pred"], a[0], a[1], ins.x["tys"][0])
        if op in ("and", "or", "xor") and w == 1:
            x, y = self.cond(st, a[0]), self.cond(st, a[1])
            if isinstance(x, bool) and isinstance(y, bool):
                return {"and": x and y, "or": x or y, "xor": x != y}[op]
            x, y = B(x), B(y)
            return z3.simplify({"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](x, y))
        if op == "trunc":
            v = a[0]
            if w == 1: return self.cond(st, v)
            if isinstance(v, Comp):
                r = comp_get(v, 0, (w + 7) // 8)
                if r is None: self.unsupported(st, "truncation of composite word")
                return r
            if isinstance(v, Zx):
                if v.w <= w: return v if v.w < w else v.v
                v = v.to_lin(self, st)
            if isinstance(v, BI): return v
            if isinstance(v, Opaque): return v
            return self.norm(st, self.L(st, v), w)
        if op == "zext":
            v = a[0]; sw = ins.x["tys"][0].width
            if sw == 1:
                c = self.cond(st, v); return BI(c)
            if isinstance(v, (BI,)): return v
            if isinstance(v, (Opaque, Comp)): return Zx(v, sw)
            if isinstance(v, Zx): return v
            v = self.L(st, v)
            if v.is_const(): return Lin(v.c % (1 << sw))
            return Zx(v, sw)
        if op == "sext":
            v = a[0]; sw = ins.x["tys"][0].width
            if sw == 1:
                c = self.cond(st, v)
                return lin(z3.If(B(c), z3.IntVal(-1), z3.IntVal(0)))
            if isinstance(v, BI): 
                return v
            return self.L(st, v)
        if op == "shl" and isinstance(a[0], (Zx, Comp)) and isinstance(a[1], Lin) and a[1].is_const() and a[1].c % 8 == 0:
            k = a[1].c // 8; v = a[0]
            parts = {0: (v.w // 8, v.v)} if isinstance(v, Zx) else v.parts
            return Comp(w // 8, {o + k: x for o, x in parts.items() if o + k < w // 8})
        if op == "shl" and isinstance(a[0], BI) and isinstance(a[1], Lin) and a[1].is_const() and a[1].c % 8 == 0 and a[1].c:
            return Comp(w // 8, {a[1].c // 8: (1, a[0])})
        if op == "lshr" and isinstance(a[0], Comp) and a[1].is_const() and a[1].c % 8 == 0:
            k = a[1].c // 8
            return Comp(w // 8, {o - k: x for o, x in a[0].parts.items() if o >= k})
        if op in ("or", "and") and any(isinstance(x, (Comp,)) or (isinstance(x, Zx)) or (isinstance(x, Opaque)) for x in a):
            r = self.comp_bits(op, a[0], a[1], w)
            if r is not None: return r
        x, y = None, None
        if op == "sub" and isinstance(a[0], PtrInt) and isinstance(a[1], PtrInt):
            p, q = a[0].p, a[1].p
            if same_blk(p, q): return p.o - q.o
            if p.heap() and q.heap() and Solve.quick(st.facts, p.b.z() == q.b.z()): return p.o - q.o
            self.unsupported(st, "difference of pointers into different objects")
        if isinstance(a[0], PtrInt) or (len(a) > 1 and isinstance(a[1], PtrInt)):
            if op == "add":
                p, d = (a[0].p, a[1]) if isinstance(a[0], PtrInt) else (a[1].p, a[0])
                r = Ptr(0, p.o + self.L(st, d)); r.b = p.b; return PtrInt(r)
            if op == "sub" and isinstance(a[0], PtrInt):
                r = Ptr(0, a[0].p.o - self.L(st, a[1])); r.b = a[0].p.b; return PtrInt(r)
            self.unsupported(st, "address arithmetic")
        x, y = self.L(st, a[0]), self.L(st, a[1]) if len(a) > 1 else None
        if op in ("add", "sub", "mul", "shl"):
            if op == "add": r = x + y
            elif op == "sub": r = x - y
            elif op == "shl":
                if not y.is_const(): return self.u.bitop(self, st, op, x, y, w)
                r = x.scale(1 << y.c)
            else:
                if y.is_const(): r = x.scale(y.c)
                elif x.is_const(): r = y.scale(x.c)
                else:
                    r = lin(x.z() * y.z())
            if ins.x.get("nsw"):
                if not self.fits(st, r, w):
                    z = r.z(); self.oblige(st, z3.And(z >= -(1 << (w - 1)), z < (1 << (w - 1))), "no signed overflow in '%s'" % op)
                return r
            return self.norm(st, r, w)
        if op in ("sdiv", "srem", "udiv", "urem"):
            if op[0] == "u": x, y = self.unsigned(st, x, w), self.unsigned(st, y, w)
            if not y.is_const(): self.oblige(st, y.z() != 0, "no division by zero")
            elif y.c == 0: self.oblige(st, False, "no division by zero")
            if x.is_const() and y.is_const():
                q = abs(x.c) // abs(y.c); q = q if (x.c < 0) == (y.c < 0) else -q
                return Lin(q) if "div" in op else Lin(x.c - q * y.c)
            if y.is_const() and y.c > 0:
                if op.endswith("div"):
                    d = x.div(y.c)
                    if d is not None: return d
                q, r = fresh_int("q"), fresh_int("r")
                nonneg = op[0] == "u" or Solve.quick(st.facts, x.z() >= 0)
                st.assume(x.z() == q * y.c + r)
                if nonneg: st.assume(z3.And(r >= 0, r < y.c, q >= 0))
                else: st.assume(z3.If(x.z() >= 0, z3.And(r >= 0, r < y.c), z3.And(r <= 0, r > -y.c)))
                v = q if "div" in op else r
                return self.norm(st, lin(v), w)
            if op == "urem":
                r = fresh_int("r"); st.assume(z3.And(r >= 0, r < y.z())); st.assume(z3.Implies(x.z() < y.z(), r == x.z()))
                return self.norm(st, lin(r), w)
            if op == "udiv":
                r = fresh_int("q"); st.assume(z3.And(r >= 0, r <= x.z())); return self.norm(st, lin(r), w)
            self.unsupported(st, op + " by a non-constant")
        if op in ("ashr", "lshr") and y.is_const():
            if op == "lshr": x = self.unsigned(st, x, w)
            if x.is_const(): return Lin(x.c >> y.c)
            k = 1 << y.c
            d = x.div(k)
            if d is not None: return d
            q, r = fresh_int("q"), fresh_int("r")
            st.assume(x.z() == q * k + r); st.assume(z3.And(r >= 0, r < k))
            return lin(q)
        if op in ("and", "or", "xor", "lshr", "ashr"):
            if x.is_const() and y.is_const():
                return Lin({"and": x.c & y.c, "or": x.c | y.c, "xor": x.c ^ y.c}.get(op, 0)) if op in ("and", "or", "xor") else self.unsupported(st, op)
            if op == "and":
                if x.is_const(): x, y = y, x
                if y.is_const() and y.c > 0 and (y.c & (y.c + 1)) == 0:
                    q, r = fresh_int("q"), fresh_int("r")
                    st.assume(x.z() == q * (y.c + 1) + r); st.assume(z3.And(r >= 0, r <= y.c))
                    return lin(r)
            if op == "xor" and y.is_const() and y.c == -1:
                return x.scale(-1) - 1
            return self.u.bitop(self, st, op, x, y, w)
        self.unsupported(st, "instruction " + ins.text)

    def comp_bits(self, op, x, y, w):
        n = w // 8
        def parts(v):
            if isinstance(v, Comp): return dict(v.parts)
            if isinstance(v, Zx): return {0: (v.w // 8, v.v)}
            if isinstance(v, BI): return {0: (1, v)}
            if isinstance(v, Opaque): return {0: (n, v)}
            if isinstance(v, Lin) and v.is_const(): return {i: (1, Lin(v.c >> (8 * i) & 255)) for i in range(n) if v.c >> (8 * i) & 255}
            return None
        if op == "and":
            if isinstance(x, Lin): x, y = y, x
            if not (isinstance(y, Lin) and y.is_const()): return None
            m = y.c % (1 << w); keep = [i for i in range(n) if (m >> (8 * i)) & 255]
            if any(((m >> (8 * i)) & 255) not in (0, 255) for i in range(n)): return None
            p = parts(x)
            if p is None: return None
            out = {}
            for o, (s, v) in p.items():
                byts = [i for i in range(o, o + s)]
                if all(b in keep for b in byts): out[o] = (s, v)
                elif not any(b in keep for b in byts): pass
                elif isinstance(v, Opaque):
                    for b in byts:
                        if b in keep: out[b] = (1, v)
                else: return None
            return Comp(n, out)
        p, q = parts(x), parts(y)
        if p is None or q is None: return None
        occ = lambda d: {i for o, (s, v) in d.items() for i in range(o, o + s)}
        if occ(p) & occ(q): return None
        p.update(q)
        return Comp(n, p)

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, PtrInt) and isinstance(b, PtrInt): a, b = a.p, b.p
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): self.unsupported(st, "pointer comparison")
            if pred in ("eq", "ne"):
                if same_blk(a, b):
                    d = a.o - b.o
                    r = (d.c == 0) if d.is_const() else d.z() == 0
                elif a.heap() and b.heap():
                    r = a.b.z() == b.b.z()
                    d = a.o - b.o
                    if not (d.is_const() and d.c == 0): r = z3.And(r, d.z() == 0)
                else: r = False
                if pred == "ne": r = (not r) if isinstance(r, bool) else z3.Not(r)
                return r
            if same_blk(a, b): x, y = a.o, b.o
            else: self.unsupported(st, "ordering of unrelated pointers")
            pred = {"u": "s"}.get(pred[0], pred[0]) + pred[1:]
            return self.icmp_int(pred, x, y)
        w = ty.width
        if w == 1:
            x, y = self.cond(st, a), self.cond(st, b)
            if isinstance(x, bool) and isinstance(y, bool): r = x == y
            elif isinstance(y, bool): r = x if y else z3.Not(x)
            elif isinstance(x, bool): r = y if x else z3.Not(y)
            else: r = x == y
            if pred == "eq": return r
            if pred == "ne": return (not r) if isinstance(r, bool) else z3.simplify(z3.Not(r))
            self.unsupported(st, "i1 comparison")
        if isinstance(a, BI) and isinstance(b, Lin) and b.is_const() and pred in ("eq", "ne") and b.c in (0, 1):
            t = (b.c == 1) == (pred == "eq")
            if isinstance(a.b, bool): return a.b if t else not a.b
            return a.b if t else z3.Not(a.b)
        x, y = self.L(st, a), self.L(st, b)
        if pred[0] == "u" :
            x, y = self.unsigned(st, x, w), self.unsigned(st, y, w); pred = "s" + pred[1:]
        return self.icmp_int(pred, x, y)
    def icmp_int(self, pred, x, y):
        d = x - y
        if d.is_const():
            c = d.c
            return {"eq": c == 0, "ne": c != 0, "slt": c < 0, "sle": c <= 0, "sgt": c > 0, "sge": c >= 0}[pred]
        a, b = x.z(), y.z()
        return {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[pred]

class Zx:
    """zero extension of a narrower value, kept symbolic until used"""
    __slots__ = ("v", "w")
    def __init__(s, v, w): s.v, s.w = v, w
    def to_lin(s, X, st):
        if isinstance(s.v, BI): return s.v.lin()
        if isinstance(s.v, (Opaque, Comp)): X.unsupported(st, "arithmetic on undefined or composite value")
        return X.unsigned(st, X.L(st, s.v), s.w)

def same_blk(p, q):
    if isinstance(p.b, Blk) or isinstance(q.b, Blk): return p.b is q.b
    d = p.b - q.b
    return d.is_const() and d.c == 0

def comp_get(v, off, size):
    if off in v.parts and v.parts[off][0] == size: return v.parts[off][1]
    sub = {o - off: x for o, x in v.parts.items() if off <= o and o + x[0] <= off + size}
    over = [o for o, x in v.parts.items() if o < off + size and o + x[0] > off]
    if len(over) != len(sub): return None
    if not over: return Lin(0)
    if len(sub) == 1 and 0 in sub: return Zx(sub[0][1], sub[0][0] * 8)
    return Comp(size, sub)
