"""Verification driver: runs the executor over functions under contract and discharges the obligations."""
import hashlib, sys, os, time, traceback, multiprocessing as mp, json, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
from core import *
import sx

FAILFAST = [False]; FAILED = mp.Value("i", 0)      # with FAILFAST, the first failure stops the rest of the work
def failed(): return FAILFAST[0] and FAILED.value
def verify_fn(unit, short, budget=300.0):
    with SEM:
        if failed(): return {"fn": short, "obs": [], "time": 0, "assumed": [], "error": None, "paths": 0, "skipped": True}
        r = verify_fn_(unit, short, budget)
        if r["error"] or r.get("vacuous") or any(o["fail"] for o in r["obs"]): FAILED.value = 1
        return r

def verify_fn_(unit, short, budget):
    t0 = time.time()
    n = unit.fn_of.get(short)
    r = {"fn": short, "obs": [], "time": 0, "assumed": [], "error": None, "paths": 0}
    if n is None or n not in unit.M.fns:
        if short not in unit.required: r["missing"] = True; return r
        r["error"] = "function under contract not found in the compiled code"; return r
    k = unit.contracts[short]; F = unit.M.fns[n]
    X = getattr(unit, "exec_class", sx.Exec)(unit, F, k, k.timeout_ms); X.deadline = t0 + budget
    try:
        X.run()
    except sx.PathEnd: pass
    except Unsupported as e: r["error"] = str(e)
    except Exception as e:
        r["error"] = "executor: %s: %s" % (type(e).__name__, e)
        if os.environ.get("DV_TRACE"): traceback.print_exc()
    if not X.returns and not r["error"]: r["error"] = "no path returns: the contract would hold vacuously"
    r["paths"] = X.paths; r["assumed"] = sorted(X.assumed)
    t1 = time.time()
    for o in X.obs: o.short = short
    discharge_all([o for o in X.obs if o.status is None], k, t0 + budget)
    agg = {}
    for o in X.obs:
        a = agg.setdefault(o.label, {"label": o.label, "n": 0, "proved": 0, "by": {}, "time": 0.0, "fail": None})
        a["n"] += 1; a["time"] += o.time
        if o.time > 4 and os.environ.get("DV_DEBUG"): print("    slow %.1f %s %s %s" % (o.time, o.label, o.trail, o.status), o.detail[:80])
        if o.status == "proved": a["proved"] += 1; a["by"][o.by] = a["by"].get(o.by, 0) + 1
        elif a["fail"] is None or a["fail"]["skipped"] and not getattr(o, "skipped", False): a["fail"] = {"status": o.status, "goal": str(o.goal)[:1500], "trail": o.trail[-40:], "detail": o.detail, "skipped": getattr(o, "skipped", False)}
    r["hints"] = [h for o in X.obs for h in getattr(o, "hints", [])]
    r["obs"] = list(agg.values()); r["time"] = time.time() - t0; r["exec_time"] = t1 - t0
    # vacuity: the precondition is satisfiable and a return is reachable
    r["vacuous"] = vacuity(X)
    return r

SEM = mp.Semaphore(int(os.environ.get("DV_JOBS", "0")) or min(8, os.cpu_count() or 4))   # one token per busy solver process

def pool(n, work, tokens=True):
    """run work(i) for i in range(n) in forked workers drawing from a common counter; results by index (None when lost)"""
    nxt = mp.Value("i", 0); kids = []; out = [None] * n
    for w in range(min(n, 8)):
        rd, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            res = []
            try:
                os.close(rd)
                while True:
                    with nxt.get_lock(): i = nxt.value; nxt.value += 1
                    if i >= n: break
                    if tokens:
                        with SEM: res.append((i, work(i)))
                    else: res.append((i, work(i)))
                with os.fdopen(wr, "wb") as f: pickle.dump(res, f)
            finally: os._exit(0)
        os.close(wr); kids.append((pid, rd))
    for pid, rd in kids:
        with os.fdopen(rd, "rb") as f: data = f.read()
        os.waitpid(pid, 0)
        try:
            for i, x in pickle.loads(data): out[i] = x
        except Exception: pass
    return out

def discharge_all(obs, k, deadline):
    """obligations are independent: a quick attempt at each, then the rest one solver configuration per process"""
    if not obs: return
    def run(f):
        def g(i):
            o = todo[i]; t = time.time()
            try: f(o, k, deadline)
            except Exception as e: o.status = "unknown"; o.detail = "solver: %s" % e
            o.time += time.time() - t
            rec = list(RECORD); RECORD.clear()
            return o.status, o.by, o.detail, o.time, rec, getattr(o, 'skipped', False)
        return g
    SEM.release()                              # the parent only waits
    for f, tok in ((discharge_quick, True), (discharge_hard, False)):
        todo = [o for o in obs if o.status != "proved"]
        if not todo: break
        for o, r in zip(todo, pool(len(todo), run(f), tok)):
            if r is None: o.status = "unknown"; o.detail = "the solver process ended without a result"
            else:
                o.status, o.by, o.detail, o.time, rec, o.skipped = r
                if o.status == "proved": o.hints = getattr(o, "hints", []) + rec
    SEM.acquire()

def vacuity(X):
    """False may not follow from the assumptions on every returning path"""
    if not X.returns: return True
    for st in X.returns[:6]:
        r, dt, s = Solve.full(st.facts, z3.BoolVal(False), 1500)
        if r != z3.unsat: return False
    return len(X.returns) <= 6

CFG = {"NX": NX, "NX2": NX2, "NX3": NX3, "OLD": OLD, "OLD3": OLD3, "D": {}}
HINTS = {}; RECORD = []        # which strategy proved an obligation last time: tried first; never trusted as a result
HINT_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "hints.json")
def load_hints():
    try: HINTS.update(json.load(open(HINT_FILE)))
    except Exception: pass

def use_hints(config):
    h = {k[len(config) + 1:]: v for k, v in HINTS.items() if k.startswith(config + ":")}
    HINTS.clear(); HINTS.update(h)

def solve1(variants, goal, strat, ms):
    """one strategy: (hypothesis set, name arrays?, solver configuration, seed)"""
    v, name, cfg, seed = strat
    fs = variants[v if v < len(variants) else -1]; g = goal
    if name: fs, g = name_arrays(fs, g, 1, False)
    r, dt, s = Solve.full(fs, g, ms, seed < 0, max(seed, 0), **CFG[cfg])
    return r, dt, s

QUICK = ((0, True, "NX2", 0), (0, True, "NX", 0))
def attempt(variants, goal, deadline, o, key, plan=QUICK, ms=1200):
    h = HINTS.get(key)
    if h and h[0] == "s": plan = ((tuple(h[1]), max(3000, 6000 * h[2])),) + tuple((p, ms) for p in plan)
    else: plan = tuple((p, ms) for p in plan)
    for st, m in plan:
        left = (deadline - time.time()) * 1000
        if left < 200 or failed(): return None
        res, dt, s = solve1(variants, goal, st, min(m, left))
        if res == z3.unsat:
            if st != QUICK[0]: RECORD.append((key, ("s", st, round(dt, 2))))
            return True
        if res == z3.sat and len(variants[st[0] if st[0] < len(variants) else -1]) == len(variants[-1]):
            try: o.detail = model_text(s.model())
            except Exception: pass
            return False
    return None

def race(variants, goal, ms, deadline, o, key):
    """the same goal under several strategies at once, one process each; the first proof counts"""
    n = len(variants); m = max(0, n - 2); a = n - 1
    plan = [(0, True, "NX2", 0), (0, True, "NX", 0), (0, True, "NX3", 0)] if n > 2 else []
    plan += [(m, True, "NX", 0), (m, True, "NX2", 0), (m, True, "NX3", 0), (m, False, "NX", 1), (m, True, "OLD", 0), (a, True, "NX", 3), (a, False, "NX3", 0), (a, True, "NX2", 5),
             (m, True, "NX", 7), (a, False, "OLD3", 2), (a, False, "D", -1), (a, True, "NX2", -1)]
    live = {}; i = 0; ok = None
    def left(): return 0 if failed() else (deadline - time.time()) * 1000
    import select, signal
    while ok is None and (i < len(plan) or live):
        if left() < 200: break
        if i < len(plan) and SEM.acquire(timeout=0.01 if live else 0.3):
            st = plan[i]; i += 1
            rd, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    r, dt, s = solve1(variants, goal, st, max(200, min(ms, left())))
                    os.write(wr, b"u" if r == z3.unsat else b"x")
                finally: os._exit(0)
            os.close(wr); live[rd] = (pid, st, time.time()); continue
        if not live: continue
        rs = select.select(list(live), [], [], 0.02)[0]
        for rd in rs:
            d = os.read(rd, 1); pid, st, t0 = live.pop(rd); os.close(rd); os.waitpid(pid, 0); SEM.release()
            if d == b"u" and ok is None: ok = st; RECORD.append((key, ("s", st, round(time.time() - t0, 2))))
    for rd, (pid, st, t0) in live.items():
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass
        os.close(rd); os.waitpid(pid, 0); SEM.release()
    return ok is not None

def prove_goal(variants, goal, ms, deadline, o, key):
    with SEM: ok = attempt(variants, goal, deadline, o, key)
    return ok or (ok is None and race(variants, goal, ms, deadline, o, key))

def page_terms(facts):
    out = []
    for f in facts:
        if z3.is_app(f) and f.decl().name() == "pg" and not z3.is_int_value(f.arg(0)) and not any(f.arg(0).eq(x) for x in out): out.append(f.arg(0))
    return out

def by_cases(o, variants, deadline, key):
    """a goal about every page is split: one case for each page the path mentions, one for all the others"""
    g = o.goal; hyp = None
    if z3.is_implies(g): hyp, g = g.children()
    if not (z3.is_quantifier(g) and g.is_forall() and g.num_vars() and g.var_name(0) == "b"): return None
    T = page_terms(o.facts)[-12:]
    n = g.num_vars(); vs = [z3.Const("%s!cs%d" % (g.var_name(i), i), g.var_sort(i)) for i in range(n)]
    body = z3.substitute_vars(g.body(), *reversed(vs))
    if hyp is not None: body = z3.Implies(hyp, body)
    T = T[::-1]
    for i, t in enumerate(T + [None]):      # in order, each case without the pages of the earlier ones
        ck = "%s|case%d" % (key, i)
        if t is not None: goal = resolve(z3.substitute(body, (vs[0], t)), t, T[:i]); add = [t != x for x in T[:i]]
        else: goal = resolve(body, vs[0], T); add = [vs[0] != x for x in T]
        vv = [fs + add for fs in variants]; tc = time.time()
        h = HINTS.get(ck)
        if not (h and h[0] == "split") and prove_goal(vv, goal, 6000, deadline, o, ck): ok = True
        else:
            ok = split_further(vv, goal, t, T[i + 1:], deadline, o, vs[1] if n > 1 else None, ck)
            if ok: RECORD.append((ck, ("split",)))
        if not ok: o.detail = "case %s; %s" % (t if t is not None else "any other page", o.detail); return False
        if os.environ.get("DV_DEBUG2"): print("      case", t, round(time.time() - tc, 1), flush=True)
    return True

def resolve(g, t, distinct):
    """Select(Store(A, u, v), t) with u known to differ from t is Select(A, t)"""
    ids = {u.get_id() for u in distinct}; memo = {}
    def go(x):
        k = x.get_id()
        if k in memo: return memo[k][0]
        if z3.is_quantifier(x) or not x.children(): r = x
        else:
            cs = [go(c) for c in x.children()]
            r = x.decl()(*cs) if any(not c.eq(o) for c, o in zip(cs, x.children())) else x
            if z3.is_select(r) and r.arg(1).eq(t):
                A = r.arg(0)
                while z3.is_store(A) and A.arg(1).get_id() in ids: A = A.arg(0)
                if z3.is_store(A) and A.arg(1).eq(t): r = A.arg(2)
                elif not A.eq(r.arg(0)): r = z3.Select(A, t)
        memo[k] = (r, x); return r
    return go(g)

def by_index(variants, goal, t, idx, o, deadline, key):
    """by which marked entry of the page it is"""
    if t is None or idx is None: return False
    if idx.decl().name().startswith("x!"):        # the second variable ranges over pages too
        T = page_terms(o.facts)[-12:][::-1]
        for j, u in enumerate(T + [None]):
            if u is not None: g = resolve(z3.substitute(goal, (idx, u)), u, T[:j]); add = [u != w for w in T[:j]]; sub = lambda f: z3.substitute(f, (idx, u))
            else: g = resolve(goal, idx, T); add = [idx != w for w in T]; sub = lambda f: resolve(f, idx, T)
            if not prove_goal([[sub(f) if f is fs[-1] else f for f in fs] + add for fs in variants], g, 8000, deadline, o, "%s|x%d" % (key, j)): return False
        return True
    if idx.decl().name().startswith("i!"):        # an index of a page's own map: by the bytes the path mentions
        B = []
        def bytes_in(x):
            if x.decl().name() == "byte" and not any(x.eq(y) for y in B): B.append(x)
            for y in x.children(): bytes_in(y)
        for u in page_terms(o.facts): bytes_in(u)
        for j in range(len(B) + 1):
            sub = (lambda f: z3.substitute(f, (idx, B[j]))) if j < len(B) else (lambda f: resolve(f, idx, B))
            if not prove_goal([[sub(f) if f is fs[-1] else f for f in fs] + [(B[j] if j < len(B) else idx) != w for w in B[:j]] for fs in variants], sub(goal), 8000, deadline, o, "%s|b%d" % (key, j)): return False
        return bool(B)
    X = []
    for f in o.facts:
        if z3.is_app(f) and f.decl().name() == "at" and any(f.arg(0).eq(x) for x in t) and not any(f.arg(1).eq(x) for x in X): X.append(f.arg(1))
    X = X[-2:]; cs = [idx == x + d for x in X for d in (0, -1)]
    if not cs: return False
    for j, c in enumerate(cs + [z3.And(*[z3.Not(c) for c in cs])]):
        if not prove_goal([fs + [c] for fs in variants], goal, 8000, deadline, o, "%s|i%d" % (key, j)): return False
    return True

def split_further(variants, goal, t, T, deadline, o, idx, key):
    """by which other page of the path the page is, conjunct by conjunct"""
    hyp = []; g = goal
    while z3.is_implies(g): hyp.append(g.arg(0)); g = g.arg(1)
    cs = split_goal(g)
    others = [u for u in T if not u.eq(t)] if t is not None else []; H = z3.And(*hyp) if hyp else z3.BoolVal(True)
    for j in range(len(others) + 1):
        dist = others[:j]; sub = lambda x: x; tt = t; add = [t != u for u in dist] if t is not None else []
        if j < len(others):
            u = others[j]; tt = u; add = [t == u] + [u != w for w in dist]
            if not z3.is_int_value(t): sub = lambda x, u=u: z3.substitute(x, (t, u))
        rs = (lambda x: resolve(sub(x), tt, dist)) if t is not None else sub
        H1 = rs(H); todo = [rs(g1) for g1 in cs]; vv = [fs + add + [H1] for fs in variants]
        ck = "%s|as%d" % (key, j); h = HINTS.get(ck)
        if not (h and h[0] == "conj"):
            with SEM: ok = attempt(vv, z3.And(*todo), deadline, o, ck)
            if ok: continue
        for n, g1 in enumerate(todo):
            gk = "%s|c%d" % (ck, n); h = HINTS.get(gk); ok = False
            if not (h and h[0] == "idx"):
                with SEM: ok = attempt(vv, g1, deadline, o, gk)
            if not ok and by_index(vv, g1, [t, tt] if t is not None else None, idx, o, deadline, gk): ok = True; RECORD.append((gk, ("idx",)))
            if not ok and not race(vv, g1, 12000, deadline, o, gk):
                o.detail = "page %s as %s: %s" % (t, others[j] if j < len(others) else "none of the others", str(g1)[:200]); return False
        RECORD.append((ck, ("conj",)))
    return True

def okey(o): return "%s|%s" % (o.short, hashlib.sha1(("%s|%s" % (o.label, o.trail)).encode()).hexdigest()[:10])

def discharge_quick(o, k, deadline):
    o.status = "unknown"; h = HINTS.get(okey(o))
    if h and h[0] in ("cases", "a"): return
    sl = k.slim(o)
    r = attempt([sl, o.facts] if sl is not None else [o.facts], o.goal, deadline, o, okey(o), QUICK)
    if r: o.status = "proved"; o.by = "z3"
    elif r is False: o.status = "sat"

def discharge_hard(o, k, deadline):
    if o.status == "sat": FAILED.value = 1; return
    discharge_hard_(o, k, deadline)
    if o.status != "proved":
        if failed(): o.skipped = True; o.detail = "stopped after an earlier failure"
        FAILED.value = 1

def discharge_hard_(o, k, deadline):
    if failed(): o.detail = "not attempted after an earlier failure"; o.skipped = True; return
    sl = k.slim(o); variants = [sl, o.facts] if sl is not None else [o.facts]; key = okey(o)
    sr = k.slimmer(o) if hasattr(k, "slimmer") else None
    if sr is not None: variants = [sr] + variants
    def done(by="z3"): o.status = "proved"; o.by = by
    h = HINTS.get(key)
    if not (h and h[0] == "cases"):
        st = (len(variants) - 1, False, "NX2", 0)
        if h and h[0] == "a":
            with SEM: r = attempt(variants, o.goal, deadline, o, key + "|r", (tuple(h[1]),), max(3000, 6000 * h[2]))
            if r: RECORD.append((key, h)); return done()
        with SEM: r = attempt(variants, o.goal, deadline, o, key + "|f", (st,))
        if r: return done()
        if r is False: o.status = "sat"; return
        n = len(RECORD)
        if race(variants, o.goal, 4000, deadline, o, key + "|r"): RECORD.append((key, ("a",) + RECORD[-1][1][1:])); return done()
    if by_cases(o, variants, deadline, key): RECORD.append((key, ("cases",))); return done()
    if race(variants[-1:], o.goal, 15000, deadline, o, key + "|z"): return done()
    if not os.environ.get("DV_NOCVC5"):
        left = (deadline - time.time()) * 1000
        with SEM:
            if left > 1000 and cvc5_check(o.facts, o.goal, min(10000, left)) == "unsat": return done("cvc5")

def model_text(m):
    out = []
    for d in m.decls():
        if d.arity() == 0 and d.range().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT) and "!" not in d.name(): out.append("%s=%s" % (d.name(), m[d]))
    return " ".join(sorted(out))[:1500]

_U = None
def _work(a):
    short, budget = a
    return verify_fn(_U, short, budget)

def run_unit(unit, fns=None, jobs=8, budget=300.0, verbose=False):
    global _U
    _U = unit
    fns = fns or sorted(unit.contracts, key=lambda s: -unit.contracts[s].cost if hasattr(unit.contracts[s], "cost") else 0)
    out = []
    if jobs == 1: return [verify_fn(unit, f, budget) for f in fns]
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_work, [(f, budget) for f in fns], chunksize=1):
            out.append(r)
            if verbose: show(r)
    return out

def cost_order(unit, fns):
    """long functions first"""
    def c(f):
        n = unit.fn_of.get(f); big = ("split_node", "merge_node", "operator[]", "trim_node", "handle_overflow", "insert_into_node", "::split", "::merge", "~map")
        return (0 if any(b in f for b in big) else 1, -len(unit.M.fns[n].blocks) if n in unit.M.fns else 0)
    return sorted(fns, key=c)

def show(r):
    n = sum(o["n"] for o in r["obs"]); p = sum(o["proved"] for o in r["obs"])
    print("%-34s %4d/%4d  %6.1fs (exec %.1f) paths %d %s%s" % (r["fn"], p, n, r["time"], r.get("exec_time", 0), r["paths"], "ERROR " + r["error"] if r["error"] else "", " VACUOUS" if r.get("vacuous") else ""))
    for o in r["obs"]:
        if o["fail"]: print("     FAIL %s [%d/%d] %s  %s" % (o["label"], o["proved"], o["n"], o["fail"]["status"], o["fail"]["detail"][:300]))
    sys.stdout.flush()

if __name__ == "__main__":
    import unit_btree, unit_art
    a = sys.argv[1:]
    load_hints()
    HINTS_ALL = dict(HINTS); pre = a[0] + ":"
    u = unit_art.ArtUnit(a[0]) if a[0].startswith("art") else unit_btree.BtreeUnit(a[0])
    use_hints(a[0])
    rs = run_unit(u, a[1:] or None, jobs=1 if len(a) == 2 else 8, verbose=True)
    if len(a) == 2: show(rs[0])
    print("total", sum(o["n"] for r in rs for o in r["obs"]), "proved", sum(o["proved"] for r in rs for o in r["obs"]))
    if os.environ.get("DV_RECORD"):
        for r in rs:
            if r["error"] or any(o["fail"] for o in r["obs"]): continue
            for k in [k for k in HINTS_ALL if k.startswith(pre + r["fn"] + "|")]: del HINTS_ALL[k]
            for k, v in r["hints"]: HINTS_ALL[pre + k] = v
        json.dump(HINTS_ALL, open(HINT_FILE, "w"), indent=0, sort_keys=True)
