"""Unit: map<int,int,Traits> of include/indexes/btree/map.h.  Compiles the harness, discovers the object layout from the
compiler, names the functions under contract and gives the semantics of the few external calls."""
import re, os, tempfile, z3
import llvmir
from core import *
from pagemem import *
from sx import *
from contract import *
import bt_page as bp
import bt_life

CONFIGS = {"small": ["-DDV_NODE_SIZE=192", "-DDV_THRESHOLD=80", "-DDV_DEBUG=true"],
           "default": ["-DDV_NODE_SIZE=8192", "-DDV_THRESHOLD=20", "-DDV_DEBUG=false"]}
MAPT = "indexes::btree::map<int, int, DVTraits, std::less<int>, indexes::btree::btree_empty_stats_t>"
DEF_LAY = [192, 48, 48, 8, 16, 4, 8, 4, 8, 0, 4, 8, 12, 16, 20, 24, 28, 36, 0, 8, 16, 24, 0, 8, 16, 0, 8, 16, 0, 8, 16, 0, 1, 2]

def shorten(d):
    s = d.replace(MAPT, "Map").replace("Map::inherited_node_t<int, (Map::NodeType)0>", "Leaf").replace("Map::inherited_node_t<Map::node_t*, (Map::NodeType)1>", "Inner")
    for a, t in (("Map, Leaf", "m"), ("Map const, Leaf const", "c")):
        for k, n in (("1", "F"), ("0", "R")):
            s = s.replace("Map::iterator_impl<(Map::IteratorType)%s, %s>" % (k, a), "It%s%s" % (n, t))
    return s

def shortname(d):
    """demangled name -> 'Owner::method<targ> [c]' or None for functions that are not members of the map"""
    s = shorten(d); depth = 0; i = 0; n = len(s)
    par = None
    while i < n:
        ch = s[i]
        if s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            m = re.match(r"operator(\(\)|\[\]|->\*?|[-+*/%^&|~!=<>]+|\s*new\[\]|\s*delete\[\])", s[i:])
            if m: i += len(m.group(0)); continue
        if ch == "<": depth += 1
        elif ch == ">": depth -= 1
        elif ch == "(" and depth == 0: par = i; break
        i += 1
    if par is None: return None
    head = s[:par]; rest = s[par:]
    d2 = 0
    for j, ch in enumerate(rest):
        if ch == "(": d2 += 1
        elif ch == ")":
            d2 -= 1
            if d2 == 0: break
    tail = rest[j + 1:]
    if "::" in tail: return None
    args = rest[1:j]
    # strip template arguments of the method
    targ = ""
    if head.endswith(">") and not re.search(r"operator(>|->|>=|>>)$", head):
        dd = 0
        for k in range(len(head) - 1, -1, -1):
            if head[k] == ">": dd += 1
            elif head[k] == "<":
                dd -= 1
                if dd == 0: break
        targ = head[k:]; head = head[:k]
    # strip the return type
    dd = 0; cut = 0
    mo = re.search(r"operator.*$", head)
    end = mo.start() if mo else len(head)
    for k in range(end):
        if head[k] == "<": dd += 1
        elif head[k] == ">": dd -= 1
        elif head[k] == " " and dd == 0: cut = k + 1
    name = head[cut:]
    if name.startswith("dv_"): return "dv::" + name[3:]
    m = re.match(r"(Leaf|Inner|Map::node_t|Map|It[FR][mc])::(~?\w+|operator.+)$", name)
    if not m: return None
    own = m.group(1).replace("Map::node_t", "Node")
    nm = own + "::" + m.group(2)
    t0 = targ[1:-1].split(",")[0].strip() if targ else ""
    if t0 in ("Leaf", "Inner"): nm += "<%s>" % t0
    if m.group(2) in ("operator++", "operator--") and args == "int": nm += " post"
    if own == "Map" and m.group(2) == "erase": nm += " it" if args.startswith("It") else " key"
    if own == "Map" and tail.strip() == "const" and m.group(2) in ("find", "begin", "end", "rbegin", "rend", "lower_bound", "upper_bound"): nm += " c"
    return nm

PUBLIC = {"Map::" + m for m in ("operator[]", "erase it", "erase key", "find", "find c", "lower_bound", "lower_bound c", "upper_bound", "upper_bound c", "begin", "begin c", "end", "end c", "rbegin", "rbegin c",
          "rend", "rend c", "cbegin", "cend", "crbegin", "crend", "size", "empty", "height", "~map")} | {"dv::ctor", "dv::conv"} | {"It%s%s::%s" % (d, m, o) for d in "FR" for m in "mc" for o in ("operator++", "operator--", "operator++ post", "operator-- post", "operator*", "operator->", "operator==", "operator!=")}

def callees(unit, roots):
    """functions under contract that the roots reach, each through the contracts of the ones it calls"""
    out = []; todo = list(roots)
    while todo:
        s = todo.pop()
        if s in out or s not in unit.contracts: continue
        out.append(s); n = unit.fn_of.get(s)
        if n is None or n not in unit.M.fns: continue
        for blk in unit.M.fns[n].blocks:
            for i in blk:
                if i.op == "call" and i.x["callee"][0] == "f":
                    t = unit.short.get(i.x["callee"][1])
                    if t: todo.append(t)
    return out

class BtreeUnit:
    def __init__(self, config="small", repo=os.environ.get("DV_REPO", "/repo"), contracts=None, src="btree_int.cpp"):
        self.config = self.hint_key = config
        here = os.path.dirname(os.path.abspath(__file__))
        self.contracts_spec = contracts if contracts is not None else all_contracts()
        tmp = tempfile.mkdtemp(prefix="dv_")
        bc = os.path.join(tmp, "u.bc")
        self.cmd = None; self.layout_source = "compiler"
        srcp = os.path.join(here, "harness", src)
        try:
            try:
                self.cmd = llvmir.compile_bc(srcp, bc, [repo + "/include"], CONFIGS[config] + ["-DDV_LAYOUT"])
            except llvmir.CompileError:
                self.cmd = llvmir.compile_bc(srcp, bc, [repo + "/include"], CONFIGS[config]); self.layout_source = "committed defaults"
            names = set(self.contracts_spec)
            def isc(d):
                if bt_life.is_queue(d): return True
                return shortname(d) in names
            self.M = llvmir.load(bc, isc, dump=os.environ.get("DV_DUMP"))
        finally:
            import shutil; shutil.rmtree(tmp, ignore_errors=True)
        self.read_layout()
        self.statsblk = Blk("stats", 64)
        self.mem = PageMem(self)
        self.short = {}
        self.fn_of = {}
        for n in self.M.fns:
            s = shortname(self.M.fns[n].dem)
            if s: self.short[n] = s; self.fn_of.setdefault(s, n)
        self.contracts = {s: mk(self, s) for s, mk in self.contracts_spec.items()}
        self.gb = {}
        self.required = PUBLIC & set(self.contracts_spec)
    def read_layout(self):
        g = self.M.globs.get("dv_layout")
        v = [x[1] for x in g[1][1]] if g and g[1] else list(DEF_LAY)
        if not g and self.config != "small": v[0] = 8192
        (NODE, hl, hi, kvl, kvi, vol, voi, al, ai, lps, nv, nso, lvo, ty, ht, dead, lo, hk, mr, mc, mh, ms, sl, sr, sk, ib, il, ic, ma, mb, mn, OV, DU, IN) = v
        if hl != hi: raise Unsupported("leaf and inner page headers differ in size")
        self.lay = Layout(dict(NODE=NODE, HDR=hl, KVL=kvl, KVI=kvi, VOL=vol, VOI=voi, ALL=al, ALI=ai,
            off=dict(lps=lps, n=nv, nso=nso, lvo=lvo, ty=ty, ht=ht, dead=dead, loV=lo, loE=lo + 4, hiV=hk, hiE=hk + 4),
            map=dict(root=mr, count=mc, height=mh, stats=ms), split=(sl, sr, sk), iter=(ib, il, ic), mi=(ma, mb, mn), OVFLOW=OV, DUPLICATE=DU, INSERTED=IN))
    # ---- unit interface
    def mark_page(self, b): return bp.pg(b)
    def mark_entry(self, b, i): return bp.at(b, i)
    def contract_for(self, n):
        s = self.short.get(n)
        return self.contracts.get(s) if s else None
    def gblk(self, n):
        if n not in self.gb:
            t = self.M.globs[n][0]; self.gb[n] = Blk(n, t.size, ro=True)
        return self.gb[n]
    def lazy(self, X, st, b, o, ty): return Opaque("unknown object contents")
    def blk_sym_load(self, X, st, b, off, ty): X.unsupported(st, "symbolic index into a local object")
    def blk_sym_store(self, X, st, b, off, v, size): X.unsupported(st, "symbolic index into a local object")
    def bitop(self, X, st, op, x, y, w): X.unsupported(st, "bit operation " + op)
    def external(self, X, st, n, args, ins):
        if n in ("_Znam", "_Znwm"):
            sz = X.L(st, args[0])
            if sz.is_const() and sz.c >= self.lay.NODE and n == "_Znam" and sz.c == self.lay.NODE:
                b = self.mem.alloc(X, st, 1); return Ptr(b, 0)
            if sz.is_const() and n == "_Znwm" and sz.c <= self.statsblk.size and not st.ghost.get("stats"):
                st.ghost["stats"] = 1; st.loc[self.statsblk] = {}; return Ptr(self.statsblk, 0)
            X.unsupported(st, "allocation of %s bytes" % sz)
        if n in ("_ZdaPv", "_ZdaPvm", "_ZdlPv", "_ZdlPvm", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvSt11align_val_t"):
            p = args[0]
            if isinstance(p, Ptr) and p.isnull(): return None
            if isinstance(p, Ptr) and p.b is self.statsblk:
                X.oblige(st, st.ghost.get("stats") == 0 and n.startswith("_Zdl") and p.o.is_const() and p.o.c == 0, "the statistics object is released once, in its form"); st.ghost["stats"] = 1; return None
            self.mem.free(X, st, p, 1 if n.startswith("_Zda") and "align" not in n else 2); return None
        op = bt_life.is_queue(self.M.dem.get(n, n))
        if op and hasattr(X.c, "pushed"): return bt_life.queue_op(self, X, st, self.M.dem.get(n, n), op, args)
        if n == "__assert_fail":
            X.oblige(st, False, "assertion in the code holds"); raise PathEnd()
        if n == "__clang_call_terminate" or n == "_ZSt9terminatev" or n == "abort" or n.startswith("_ZSt") and "throw" in n:
            X.oblige(st, False, "no exception or abort is raised (%s)" % n); raise PathEnd()
        X.unsupported(st, "call of %s, which has no contract" % self.M.dem.get(n, n)[:160])

def page_contracts():
    out = {}
    def add(nm, cls, inner):
        def mk(u, name, cls=cls, inner=inner):
            k = cls(u, name); k.inner = inner; return k
        out[nm] = mk
    for own, inner in (("Leaf", False), ("Inner", True)):
        for m, cls in (("lower_bound_pos", bp.LowerBoundPos), ("upper_bound_pos", bp.UpperBoundPos), ("lower_bound", bp.LowerBound), ("insert_into_pos", bp.InsertIntoPos),
                       ("insert", bp.Insert), ("append", bp.Append), ("copy_from", bp.CopyFrom), ("remove", bp.Remove), ("alloc", bp.Alloc), ("trim", bp.Trim), ("split", bp.Split), ("merge", bp.Merge)):
            add(own + "::" + m, cls, inner)
    for m, cls in (("search_inner", bp.SearchInner), ("get_child_for_key", bp.ChildForKey), ("get_value_lower_than", bp.ChildLower), ("insert_neg_infinity", bp.NegInf), ("update", bp.Update)):
        add("Inner::" + m, cls, True)
    add("Node::free", bp.Free, False)
    return out

def all_contracts():
    out = dict(page_contracts())
    import bt_tree
    out.update(bt_tree.contracts())
    out.update(bt_life.contracts())
    return out
