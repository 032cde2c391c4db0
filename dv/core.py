"""Values, states, obligations and the path-wise symbolic executor (the VC generator).

The executor runs one function's IR at a time.  A call to a function under contract is replaced by its
contract (precondition proved, frame havocked, postcondition assumed); loops are cut at their headers with
invariants inferred from a candidate pool (Houdini: every kept candidate is proved initially and inductively).
Integers are mathematical integers carrying the *signed* reading of the machine word; every operation that could
wrap either proves that it does not, or is modelled with an explicit modular term.  Signed overflow (nsw) is an
obligation."""
import z3, time, itertools, os

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- linear terms
class Lin:
    __slots__ = ("c", "t")
    def __init__(s, c=0, t=None):
        s.c = c; s.t = t or {}
    def is_const(s): return not s.t
    def z(s):
        if not s.t: return z3.IntVal(s.c)
        xs = [v if k == 1 else z3.IntVal(k) * v for (k, v) in s.t.values()]
        if s.c: xs.append(z3.IntVal(s.c))
        return xs[0] if len(xs) == 1 else z3.Sum(xs)
    def __add__(s, o):
        if isinstance(o, int): return Lin(s.c + o, s.t)
        t = dict(s.t)
        for k, (a, v) in o.t.items():
            if k in t:
                b = t[k][0] + a
                if b: t[k] = (b, v)
                else: del t[k]
            else: t[k] = (a, v)
        return Lin(s.c + o.c, t)
    def scale(s, k):
        if k == 0: return Lin(0)
        return Lin(s.c * k, {i: (a * k, v) for i, (a, v) in s.t.items()})
    def __sub__(s, o):
        if isinstance(o, int): return Lin(s.c - o, s.t)
        return s + o.scale(-1)
    def div(s, k):
        if s.c % k or any(a % k for a, _ in s.t.values()): return None
        return Lin(s.c // k, {i: (a // k, v) for i, (a, v) in s.t.items()})
    def __repr__(s): return str(s.z())

def lin(x):
    if isinstance(x, Lin): return x
    if isinstance(x, bool): return Lin(1 if x else 0)
    if isinstance(x, int): return Lin(x)
    if isinstance(x, BI): return x.lin()
    if z3.is_int_value(x): return Lin(x.as_long())
    return Lin(0, {x.get_id(): (1, x)})

def I(x):
    """to z3 Int"""
    if isinstance(x, Lin): return x.z()
    if isinstance(x, BI): return x.lin().z()
    if isinstance(x, int): return z3.IntVal(x)
    return x

def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

class BI:  # integer that is 0/1
    __slots__ = ("b",)
    def __init__(s, b): s.b = b
    def lin(s):
        if isinstance(s.b, bool): return Lin(1 if s.b else 0)
        if z3.is_true(s.b): return Lin(1)
        if z3.is_false(s.b): return Lin(0)
        return lin(z3.If(s.b, z3.IntVal(1), z3.IntVal(0)))

class Blk:
    n = itertools.count()
    def __init__(s, name, size=None, ro=False, cells=None):
        s.name, s.size, s.ro = name, size, ro; s.id = next(Blk.n); s.tag = None
    def __repr__(s): return "<%s>" % s.name

class Ptr:
    __slots__ = ("b", "o")
    def __init__(s, b, o=0):
        s.b = b if isinstance(b, Blk) else lin(b)
        s.o = lin(o)
    def heap(s): return not isinstance(s.b, Blk)
    def isnull(s): return s.heap() and s.b.is_const() and s.b.c == 0
    def __repr__(s): return "Ptr(%s,%s)" % (s.b, s.o)

NULL = Ptr(0, 0)

class Comp:  # composite integer: disjoint byte parts {off: (size, val)}
    def __init__(s, size, parts): s.size, s.parts = size, parts

class Agg:
    def __init__(s, xs): s.xs = xs

class PtrInt:  # result of ptrtoint (possibly with added constant)
    def __init__(s, p): s.p = p

class Opaque:  # doubles, undef etc.
    def __init__(s, why): s.why = why

_fresh = itertools.count()
def fresh_int(n): return z3.Int("%s!%d" % (n, next(_fresh)))
def fresh_bool(n): return z3.Bool("%s!%d" % (n, next(_fresh)))
def fresh_const(n, sort): return z3.Const("%s!%d" % (n, next(_fresh)), sort)

_hasq = {}
def has_quant(f):
    k = f.get_id()
    r = _hasq.get(k)
    if r is not None and r[1] is f: return r[0]
    seen = set(); st = [f]; q = False
    while st:
        x = st.pop()
        if z3.is_quantifier(x): q = True; break
        i = x.get_id()
        if i in seen: continue
        seen.add(i); st.extend(x.children())
    _hasq[k] = (q, f)
    return q

class State:
    def __init__(s):
        s.regs = {}; s.loc = {}; s.heap = None; s.facts = []; s.trail = []; s.ghost = {}; s.inl = 0; s.derived = (); s.tags = []
    def copy(s):
        n = State.__new__(State)
        n.regs = dict(s.regs); n.loc = {b: dict(c) for b, c in s.loc.items()}
        n.heap = s.heap; n.facts = list(s.facts); n.trail = list(s.trail); n.ghost = dict(s.ghost); n.inl = s.inl; n.derived = s.derived; n.tags = list(s.tags)
        return n
    def assume(s, f, tag=None):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f): return
        if z3.is_and(f):
            for c in f.children(): s.assume(c, tag)
            return
        s.facts.append(f); s.tags.append(tag)

class Ob:
    def __init__(s, fn, label, facts, goal, trail):
        s.fn, s.label, s.facts, s.goal, s.trail = fn, label, facts, goal, trail
        s.status = None; s.time = 0; s.by = None; s.detail = ""; s.derived = (); s.tags = None

# ---------------------------------------------------------------- solving
class Solve:
    stats = {"z3": 0, "cvc5": 0, "time": 0.0, "quick": 0}
    quick_ms = int(os.environ.get("DV_QUICK_MS", "400"))
    @staticmethod
    def quick(facts, goal, ms=None):
        """cheap proof attempt with quantifier-free facts only; sound"""
        if isinstance(goal, bool): 
            if goal: return True
            goal = z3.BoolVal(False)
        if z3.is_true(goal): return True
        if has_quant(goal): return False
        t = time.time()
        s = z3.SolverFor("QF_AUFLIA") if False else z3.SimpleSolver()
        s.set("timeout", ms or Solve.quick_ms)
        for f in facts:
            if not has_quant(f): s.add(f)
        s.add(z3.Not(goal))
        r = s.check() == z3.unsat
        Solve.stats["quick"] += 1; Solve.stats["time"] += time.time() - t
        return r
    @staticmethod
    def full(facts, goal, ms, mbqi=False, seed=0, **glob):
        for k, v in glob.items(): z3.set_param("smt." + k, v)
        try: return Solve._full(facts, goal, ms, mbqi, seed)
        finally:
            if glob: z3.reset_params()
    @staticmethod
    def _full(facts, goal, ms, mbqi, seed):
        # a context of its own: term numbering, and with it the search, does not depend on what was proved before
        t = time.time()
        ctx = z3.Context(); s = z3.SimpleSolver(ctx=ctx)
        s.set("timeout", int(ms)); s.set("auto_config", False); s.set("mbqi", mbqi)
        s.set("random_seed", seed)
        s.set("qi.eager_threshold", 50.0)
        for f in facts: s.add(f.translate(ctx))
        s.add(z3.Not(goal).translate(ctx))
        r = s.check(); dt = time.time() - t
        Solve.stats["time"] += dt; Solve.stats["z3"] += 1
        return r, dt, s

NX = {"array.extensional": False}; NX2 = {"array.extensional": False, "arith.solver": 2}; NX3 = {"array.extensional": False, "arith.solver": 2, "case_split": 3}
OLD = {"arith.solver": 2}; OLD3 = {"arith.solver": 2, "case_split": 3}

# ---- naming: a quantifier pattern over Select(Store(..), x) is not matched by the solver (the rewriter removes the
# Store under the Select); each ground Select of a Store (mode 1) and each ground Store (mode 2) gets a name with a
# defining equality.
_named = {}; _nm_memo = {}; _bound = {}; _keep = []
def _nm(x, mode):
    """(renamed term, ground?, ids of the definitions used)"""
    k = (x.get_id(), mode); r = _nm_memo.get(k)
    if r is not None: return r
    _keep.append(x)
    if z3.is_quantifier(x):
        vs = []
        for i in range(x.num_vars()):
            v = z3.Const("%s!nm%d" % (x.var_name(i), len(_bound)), x.var_sort(i)); _bound[v.get_id()] = v; vs.append(v)
        rv = list(reversed(vs))
        b, g, d = _nm(z3.substitute_vars(x.body(), *rv), mode)
        pats = []
        for i in range(x.num_patterns()):
            ts = [_nm(z3.substitute_vars(c, *rv), mode) for c in x.pattern(i).children()]
            for tt in ts: d = d | tt[2]
            pats.append(z3.MultiPattern(*[tt[0] for tt in ts]) if len(ts) > 1 else ts[0][0])
        if d or True: y = (z3.ForAll if x.is_forall() else z3.Exists)(vs, b, patterns=pats)
        r = (y if d else x, False, d)
    elif x.get_id() in _bound: r = (x, False, frozenset())
    else:
        cs = [_nm(c, mode) for c in x.children()]
        g = all(c[1] for c in cs); d = frozenset().union(*[c[2] for c in cs]) if cs else frozenset()
        y = x
        if any(not c[0].eq(o) for c, o in zip(cs, x.children())): y = x.decl()(*[c[0] for c in cs])
        if g and ((z3.is_store(y) and mode == 2) or (z3.is_select(y) and (z3.is_store(y.arg(0)) or y.arg(0).get_id() in _storenames) and (mode == 1 or z3.is_array(y)))):
            n = _named.get(y.get_id())
            if n is None:
                n = (z3.Const("nm!%d" % len(_named), y.sort()), y); _named[y.get_id()] = n
                if z3.is_store(y): _storenames[n[0].get_id()] = n[0]
            d = d | {y.get_id()}; y = n[0]
        r = (y, g, d)
    _nm_memo[k] = r
    return r
GSFACTS = bool(os.environ.get('DV_GSF')); _gsf = {}
def ground_selects(f, out, memo):
    """ground array reads that occur only under a quantifier: the solver does not see them as terms until it instantiates"""
    def go(x, inq):
        """is x ground"""
        k = (x.get_id(), inq); r = memo.get(k)
        if r is not None: return r
        if z3.is_var(x): r = False
        elif z3.is_quantifier(x): go(x.body(), True); r = False
        else:
            r = all([go(c, inq) for c in x.children()])
            if r and inq and z3.is_select(x): out[x.get_id()] = x
        memo[k] = r; return r
    go(f, False)

def skolem(goal, cnt):
    """(hypotheses, conclusion) with the outer universals replaced by constants"""
    hyp = []
    while True:
        if z3.is_implies(goal): hyp.append(goal.arg(0)); goal = goal.arg(1)
        elif z3.is_quantifier(goal) and goal.is_forall():
            n = goal.num_vars(); vs = [z3.Const("%s!sk%d" % (goal.var_name(i), next(cnt)), goal.var_sort(i)) for i in range(n)]
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        else: return hyp, goal

def name_arrays(facts, goal, mode=1, infacts=True):
    used = set(); out = []
    for d in (_named, _nm_memo, _bound, _storenames): d.clear()
    _keep.clear(); cnt = itertools.count()
    hyp, goal = skolem(goal, cnt)
    for f in facts:
        if not infacts: out.append(f); continue
        y, g, d = _nm(f, mode); out.append(y); used |= d
    n0 = len(out)
    for f in hyp: y, g, d = _nm(f, mode); out.append(y); used |= d
    y, g, d = _nm(goal, mode); used |= d
    gs = {}
    ground_selects(y, gs, {})
    for f in hyp: ground_selects(f, gs, {})
    if GSFACTS:
        for f in out[:n0]:
            if has_quant(f):
                r = _gsf.get(f.get_id())
                if r is None: d = {}; ground_selects(f, d, {}); r = _gsf[f.get_id()] = (d, f)
                gs.update(r[0])
    for i in (k for k in _named if k in used): out.append(_named[i][0] == _named[i][1])
    for i in gs: out.append(z3.Const("gs!%d" % next(cnt), gs[i].sort()) == gs[i])
    return out, y
_storenames = {}

def split_goal(goal):
    """Conjunctive goals are proved conjunct by conjunct."""
    if z3.is_and(goal):
        out = []
        for c in goal.children(): out += split_goal(c)
        return out
    if z3.is_implies(goal):
        a, c = goal.children()
        cs = split_goal(c)
        if len(cs) > 1: return [z3.Implies(a, x) for x in cs]
    return [goal]

def cvc5_check(facts, goal, ms):
    """second back end: export to SMT-LIB and run the cvc5 Python API"""
    try:
        import cvc5
    except Exception:
        return None
    s = z3.Solver(); s.add(*facts); s.add(z3.Not(goal))
    txt = s.to_smt2()
    t = time.time()
    try:
        tm = cvc5.TermManager(); slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(ms)))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt.replace("(check-sat)", ""), "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            c.invoke(slv, sm)
        r = slv.checkSat()
        Solve.stats["time"] += time.time() - t; Solve.stats["cvc5"] += 1
        return "unsat" if r.isUnsat() else ("sat" if r.isSat() else "unknown")
    except Exception as e:
        return "error %s" % str(e)[:100]
