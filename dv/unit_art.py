"""Unit: map<int, art_traits_default> of include/indexes/art/map.h."""
import re, os, tempfile, shutil, z3
import llvmir
from core import *
from pagemem import *
from sx import *
from art_mem import *

MAPT = "indexes::art::map<int, indexes::art::art_traits_default>"
DEF_LAY = [0, 1, 4, 8, 24, 56, 160, 664, 2064, 16, 16, 24, 16, 32, 16, 272, 280, 16, 0, 8, 0, 1, 2, 3, 4]
NODEFN = ("find", "add", "update", "remove", "expand", "shrink", "is_underfull", "free", "longest_common_prefix_length", "extract_common_prefix")

def shortname(d):
    s = d.replace(MAPT, "Map")
    m = re.match(r"(?:\S.* )??dv_(\w+)\(", s)
    if m: return "dv::" + m.group(1)
    m = re.search(r"(?:^| )Map::node_t::(\w+)\(", s)
    if m and m.group(1) in NODEFN: return "Node::" + m.group(1)
    m = re.search(r"(?:^| )Map::node4_t::(\w+)\((Map::node_t\*, unsigned char|unsigned char|)\)(?: const)?$", s)
    if m and m.group(1) in ("add", "find", "update", "remove", "is_underfull"): return "Node4::" + m.group(1)
    m = re.match(r"Map::node(\d+)_t::node\1_t\(unsigned long, unsigned char\)", s)
    if m: return "Node%s::ctor" % m.group(1)
    m = re.search(r"(?:^| )Map::insert<\(Map::UpdateOp\)(\d)>\(", s)
    if m: return "Map::insert<%s>" % m.group(1)
    m = re.search(r"(?:^| )Map::(erase|Search|Insert|Upsert|Update|Delete|size)\(", s)
    if m: return "Map::" + m.group(1)
    return None

class Lay: pass
class ArtUnit:
    exec_class = ArtExec
    def __init__(self, config=None, repo=os.environ.get("DV_REPO", "/repo"), contracts=None):
        self.config = self.hint_key = config = config or "art"
        here = os.path.dirname(os.path.abspath(__file__))
        self.contracts_spec = contracts if contracts is not None else all_contracts(config)
        tmp = tempfile.mkdtemp(prefix="dv_"); bc = os.path.join(tmp, "u.bc"); srcp = os.path.join(here, "harness", "art.cpp")
        incs = [repo + "/include", os.path.join(here, "harness", "stub")]
        self.cmd = None; self.layout_source = "compiler"
        try:
            try: self.cmd = llvmir.compile_bc(srcp, bc, incs, ["-DDV_LAYOUT"])
            except llvmir.CompileError:
                self.cmd = llvmir.compile_bc(srcp, bc, incs, []); self.layout_source = "committed defaults"
            names = set(self.contracts_spec)
            self.M = llvmir.load(bc, lambda d: shortname(d) in names, dump=os.environ.get("DV_DUMP"))
        finally: shutil.rmtree(tmp, ignore_errors=True)
        g = self.M.globs.get("dv_layout"); v = [x[1] for x in g[1][1]] if g and g[1] else list(DEF_LAY)
        (ty, kl, nc, key, s0, s4, s16, s48, s256, val, k4, c4, k16, c16, k48, fm, c48, c256, root, size, e0, e1, e2, e3, e4) = v
        if (e0, e1, e2, e3, e4) != (0, 1, 2, 3, 4): raise Unsupported("node type tags renumbered")
        L = self.lay = Lay()
        L.hdr = {(ty, 1): "ty", (kl, 1): "klen", (nc, 4): "nch", (key, 8): "key"}
        L.key, L.val = key, val
        L.keys = {N4: k4, N16: k16, N48: k48}; L.nkeys = {N4: 4, N16: 16, N48: 256}
        L.children = {N4: c4, N16: c16, N48: c48, N256: c256}; L.freemap = fm
        L.size = {LEAF: s0, N4: s4, N16: s16, N48: s48, N256: s256}
        L.root, L.msize = root, size
        self.mem = ArtMem(self); self.short = {}; self.fn_of = {}
        for n in self.M.fns:
            s = shortname(self.M.fns[n].dem)
            if s: self.short[n] = s; self.fn_of.setdefault(s, n)
        self.contracts = {s: mk(self, s) for s, mk in self.contracts_spec.items()}
        self.gb = {}
        self.required = {s for s in self.contracts_spec if s.startswith("Node::") or s in ("Map::Search", "Map::Insert", "Map::Upsert", "Map::Update", "Map::Delete", "Map::size", "dv::ctor", "dv::move")}
    def mark_page(self, b): return pg(b)
    def contract_for(self, n):
        s = self.short.get(n); return self.contracts.get(s) if s else None
    def gblk(self, n):
        if n not in self.gb: self.gb[n] = Blk(n, self.M.globs[n][0].size, ro=True)
        return self.gb[n]
    def lazy(self, X, st, b, o, ty): return Opaque("unknown object contents")
    def blk_sym_load(self, X, st, b, off, ty): X.unsupported(st, "symbolic index into a local object")
    def blk_sym_store(self, X, st, b, off, v, size): X.unsupported(st, "symbolic index into a local object")
    def bitop(self, X, st, op, x, y, w): X.unsupported(st, "bit operation " + op)
    def external(self, X, st, n, args, ins):
        if n == "_Znwm":
            sz = X.L(st, args[0])
            for k, s in self.lay.size.items():
                if sz.is_const() and sz.c == s: return Ptr(self.mem.alloc(X, st, k), 0)
            X.unsupported(st, "allocation of %s bytes" % sz)
        if n in ("_ZdlPv", "_ZdlPvm"):
            p = args[0]
            if isinstance(p, Ptr) and p.isnull(): return None
            self.mem.free(X, st, p, X.L(st, args[1]).z() if len(args) > 1 else None); return None
        if n == "__assert_fail": X.oblige(st, False, "assertion in the code holds"); raise PathEnd()
        if n in ("__clang_call_terminate", "_ZSt9terminatev", "abort") or n.startswith("_ZSt") and "throw" in n:
            X.oblige(st, False, "no exception or abort is raised (%s)" % n); raise PathEnd()
        X.unsupported(st, "call of %s, which has no contract" % self.M.dem.get(n, n)[:160])

def all_contracts(config):
    """art: the node operations; artmember: member functions of the smallest layout the tree calls directly; arttree: the map over both"""
    import art_node, art_tree
    if config == "art": return art_node.contracts()
    if config == "artmember": return art_node.members()
    return dict(art_node.contracts(), **art_node.members(), **art_tree.contracts())
