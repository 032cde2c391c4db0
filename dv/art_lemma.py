"""The lemmas the ART contracts use, proved in every run: counting (by induction) and key prefixes (by bit vectors)."""
import time, z3
from core import *
from art_mem import *
import art_node as an

a_ = z3.Const("a", AI)
def count():
    """cnt is defined by cnt(a,0) = 0 and cnt(a,n+1) = cnt(a,n) + [a[n] != 0]; each lemma: base case and step"""
    D = lambda a, n: [cnt(a, 0) == 0, Implies(n >= 0, cnt(a, n + 1) == cnt(a, n) + NZ(Select(a, n)))]
    m, k, v, n, i, j = z3.Ints("m k v n i j"); a = a_; out = []
    def ind(name, stmt, var, lo, hyp=(), also=()):
        base = [stmt(lo)]; h = list(hyp)
        out.append((name + ": base case", h + D(a, lo) + [x for q in also for x in D(q, lo)], stmt(lo)))
        out.append((name + ": step", h + [var >= lo, stmt(var)] + D(a, var) + [x for q in also for x in D(q, var)], stmt(var + 1)))
    ind("counts lie between 0 and the length", lambda m: And(0 <= cnt(a, m), cnt(a, m) <= m), m, z3.IntVal(0))
    st = z3.Store(a, k, v)
    ind("count after one write", lambda m: cnt(st, m) == cnt(a, m) + If(k < m, NZ(v) - NZ(Select(a, k)), 0), m, z3.IntVal(0), [k >= 0], [st])
    full = FA([t_], Implies(And(0 <= t_, t_ < n), Select(a, t_) != 0), [Select(a, t_)]); zero = FA([t_], Implies(And(n <= t_, t_ < j), Select(a, t_) == 0), [Select(a, t_)])
    ind("count of a full prefix", lambda m: Implies(m <= n, cnt(a, m) == m), m, z3.IntVal(0), [full])
    ind("count of a full prefix and a null rest", lambda m: Implies(And(n <= m, m <= j), cnt(a, m) == n), m, n, [n >= 0, zero, cnt(a, n) == n])
    ind("counts grow, strictly over an entry", lambda j: Implies(j > i, And(cnt(a, i) <= cnt(a, j), Implies(Select(a, i) != 0, cnt(a, i) < cnt(a, j)))), j, i, [i >= 0])
    ind("a null entry leaves room", lambda m: Implies(And(0 <= k, k < m, Select(a, k) == 0), cnt(a, m) < m), m, z3.IntVal(0), [FA([m], Implies(m >= 0, cnt(a, m) <= m), [cnt(a, m)])])
    # if every entry among the first m is non-null the count is m: so a smaller count has a null entry
    out.append(("a count below the length has a null entry", [n >= 0, cnt(a, n) < n, FA([m], Implies(And(0 <= m, m <= n, FA([t_], Implies(And(0 <= t_, t_ < n), Select(a, t_) != 0), [Select(a, t_)])), cnt(a, m) == m), [cnt(a, m)])], z3.Exists([t_], And(0 <= t_, t_ < n, Select(a, t_) == 0), patterns=[Select(a, t_)])))
    return out

def keys():
    """byte(k,i) is byte i of the word in memory (little endian), pre(k,n) the word with bytes n.. zeroed"""
    x, y = z3.BitVecs("x y", 64); out = []
    by = lambda x, i: z3.Extract(8 * i + 7, 8 * i, x)
    pr = lambda x, n: x & z3.BitVecVal((1 << 8 * n) - 1, 64)
    out.append(("no bytes and all bytes", [], And(pr(x, 0) == 0, pr(x, 8) == x)))
    for n in range(8): out.append(("one more byte of the prefix", [], (pr(x, n + 1) == pr(y, n + 1)) == And(pr(x, n) == pr(y, n), by(x, n) == by(y, n))))
    for n in range(9):
        for m in range(n + 1):
            out.append(("equal prefixes have equal shorter prefixes", [pr(x, n) == pr(y, n)], pr(x, m) == pr(y, m)))
            if m < n: out.append(("equal prefixes have equal bytes", [pr(x, n) == pr(y, n)], by(x, m) == by(y, m)))
        out.append(("words with equal bytes have equal prefixes", [by(x, i) == by(y, i) for i in range(n)], pr(x, n) == pr(y, n)))
    return out

def empty():
    """a node as its constructor leaves it satisfies the representation invariant for the empty map"""
    out = []; K, C = z3.Const("K", AI), z3.Const("C", AI); FM = z3.Const("FM", AB); F = z3.K(INT, z3.IntVal(0))
    for k in (N4, N16, N48, N256):
        class U(an.Ctor):
            def kind(self): return k
        u = U(None, "c"); H = AHeap("e"); b = z3.Int("b")
        fs = [f for l, f in u.facts(H, H, {"this": b, "key": z3.Int("key"), "klen": z3.Int("klen")})] + [cnt_full(F, z3.IntVal(0), 256), cnt_full(H.row("C", b), z3.IntVal(0), 48)]
        for l, f in wfF(H, b, F): out.append(("empty node: " + l, fs, f))
    return out
def wfF(H, b, F):
    Fc = z3.Const("Fz", AI); d = And(Fc == F, FA([t_], Select(Fc, t_) == 0, [Select(Fc, t_)]))
    return [(l, Implies(And(d, cnt(Fc, 256) == cnt(F, 256)), f)) for l, f in an.wf(H.at("ty", b), H.at("nch", b), H.row("K", b), H.row("C", b), H.row("FM", b), Fc)]

SETS = {"lemmas: counting": count, "lemmas: key prefixes": keys, "lemmas: the empty node": empty}
class LemmaUnit:
    cmd = None; M = None
    def __init__(self, config=None): pass
    def fns(self): return list(SETS)
    def run(self, fns, jobs=8, budget=120):
        out = []
        for fn in fns:
            t0 = time.time(); agg = {}
            for l, hyp, goal in SETS[fn]():
                a = agg.setdefault(l, {"label": l, "n": 0, "proved": 0, "by": {}, "time": 0.0, "fail": None}); t = time.time(); ok = False
                for cfg in ({}, {"mbqi": False, "auto_config": False}):
                    s = z3.SimpleSolver(); s.set("timeout", 20000)
                    for k, v in cfg.items(): s.set(k, v)
                    s.add(*hyp); s.add(z3.Not(goal)); r = s.check()
                    if r == z3.unsat: ok = True; break
                a["n"] += 1; a["time"] += time.time() - t
                if ok: a["proved"] += 1; a["by"]["z3"] = a["by"].get("z3", 0) + 1
                elif a["fail"] is None: a["fail"] = {"status": str(r), "goal": str(goal)[:600], "trail": [], "detail": "", "skipped": False}
            out.append({"fn": fn, "obs": list(agg.values()), "time": time.time() - t0, "assumed": [], "error": None, "paths": 1})
        return out
if __name__ == "__main__":
    import prove
    for r in LemmaUnit().run(list(SETS)): prove.show(r)
