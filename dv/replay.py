"""Concrete search on the real code after a failed obligation: builds the property's driver against /repo and looks for a run
that breaks the property.  Time-boxed; all random choices derive from the seed."""
import os, subprocess, tempfile, shutil, time, threading, random, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("DV_REPO", "/repo")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")

def run(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(ENV, **(env or {})))
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace")

def crash_text(out):
    for l in out.splitlines():
        if "runtime error" in l or "ERROR: AddressSanitizer" in l or "Assertion" in l or "assert" in l.lower(): return l.strip()[:300]
    ls = [l for l in out.splitlines() if l.strip()]
    return ls[-1][:300] if ls else "the program crashed"

def verdict(rc, out, cats):
    """None: passes; else a description of the failure"""
    if rc is None: return "does not terminate within the time limit" if "hang" in cats else None
    if rc == 0: return None
    m = re.search(r"^FAIL (\w+) (.*)$", out, re.M)
    if m: return "%s: %s" % (m.group(1), m.group(2)) if m.group(1) in cats else None
    if rc == 9 or "DRIVER" in out: return None
    if "crash" in cats: return "crash (exit %s): %s" % (rc, crash_text(out))
    return None

def search(prop, P, bad, seed, tier, limit):
    t0 = time.time(); tmp = tempfile.mkdtemp(prefix="dvreplay_")
    try:
        return DRIVERS[P["driver"]](prop, P, bad, seed, limit, t0, tmp)
    except Exception as e:
        return {"found": False, "note": "the search itself failed: %s: %s" % (type(e).__name__, str(e)[:300])}
    finally: shutil.rmtree(tmp, ignore_errors=True)

FLAGS = ["-std=c++17", "-O1", "-g", "-fno-access-control", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,null", "-fno-sanitize-recover=all", "-I" + REPO + "/include"]
def build(src, out, defs, flags=FLAGS, walk=True):
    for extra in ((["-DDV_WALK"], []) if walk else ([],)):
        rc, o = run(["clang++-18"] + flags + extra + defs + [src, "-o", out], 300)
        if rc == 0: return True
    return False

def btree(prop, P, bad, seed, limit, t0, tmp):
    src = os.path.join(HERE, "replay", "btree_fuzz.cpp"); cats = set(P["cats"]); bins = {}
    def mk(c):
        b = os.path.join(tmp, "f%d" % c)
        if build(src, b, ["-DDV_ONLY=%d" % (1 << c)]): bins[c] = b
    with ThreadPoolExecutor(8) as ex: list(ex.map(mk, range(10)))
    if not bins: return {"found": False, "note": "the driver does not compile against the changed code"}
    stop = threading.Event(); found = []; n = [0]; lock = threading.Lock()
    order = [0, 2, 0, 1, 7, 0, 2, 8, 3, 0, 5, 4, 2, 6, 9, 1]
    env = {"DV_MASK": ",".join(cats)}
    def one(k):
        if stop.is_set() or time.time() - t0 > limit: return
        c = order[k % len(order)]
        if c not in bins: return
        s = seed * 100000 + k; f = os.path.join(tmp, "o%d" % k)
        ops = [300, 1500, 4000, 12000][(k // len(order)) % 4] * (4 if c == 2 else 1)
        rc, out = run([bins[c], "gen", str(c), str(s), str(ops), f], 60, env); v = verdict(rc, out, cats)
        with lock: n[0] += 1
        if v:
            with lock:
                if not found: found.append((c, f, v, rc is None))
            stop.set()
        else:
            try: os.unlink(f)
            except OSError: pass
    with ThreadPoolExecutor(8) as ex:
        for k in range(100000):
            if stop.is_set() or time.time() - t0 > limit: break
            while ex._work_queue.qsize() > 16 and not stop.is_set() and time.time() - t0 <= limit: time.sleep(0.02)
            ex.submit(one, k)
    note = "%d random runs over %d instances in %.0f s" % (n[0], len(bins), time.time() - t0)
    if not found: return {"found": False, "note": note + "; none breaks the property"}
    c, f, v, hang = found[0]
    lines = open(f).read().split("\n"); head, ops = lines[0], [l for l in lines[1:] if l]
    m = re.search(r"op=(\d+)", v)
    if m: ops = ops[:int(m.group(1)) + 1]
    g = os.path.join(tmp, "shrink")
    def fails(o):
        with open(g, "w") as h: h.write("\n".join([head] + o) + "\n")
        rc, out = run([bins[c], "run", g], 15 if hang else 30, env); return verdict(rc, out, cats)
    v0 = fails(ops)
    if v0 is None: ops = [l for l in lines[1:] if l]
    else: v = v0
    end = min(t0 + limit + 60, time.time() + 45); size = max(1, len(ops) // 2)
    while size >= 1 and time.time() < end:
        i = 0; cut = False
        while i < len(ops) and time.time() < end:
            o = ops[:i] + ops[i + size:]; w = fails(o) if o else None
            if w: ops = o; v = w; cut = True
            else: i += size
        if not cut or size > 1: size //= 2
    text = "driver: /verif/dv/replay/btree_fuzz.cpp, configuration %d, categories %s\nreplay: clang++-18 %s -DDV_WALK -DDV_ONLY=%d /verif/dv/replay/btree_fuzz.cpp -o bf && DV_MASK=%s ./bf run <the lines below>\noperations (i insert/assign, g access, e erase key, x erase iterator, f find, l lower_bound, u upper_bound, w full walk, R reverse walk; key; value):\n%s\n%s" % (
        c, ",".join(sorted(cats)), " ".join(FLAGS), 1 << c, env["DV_MASK"], head, "\n".join(ops))
    return {"found": True, "note": note + "; failing run found and shrunk to %d operations" % len(ops), "failure": v, "text": text}

def misc(prop, P, bad, seed, limit, t0, tmp):
    src = os.path.join(HERE, "replay", "misc.cpp"); b = os.path.join(tmp, "m")
    fl = FLAGS + ["-I" + REPO + "/src/benchmark", "-I" + REPO + "/src/benchmark/utils", "-DDV_" + P["define"], "-lpthread"]
    if not build(src, b, [], fl, False): return {"found": False, "note": "the driver does not compile against the changed code"}
    n = 0
    while time.time() - t0 < limit and n < 8:
        s = seed * 1000 + n; n += 1; rc, out = run([b, str(s)], 60); v = verdict(rc, out, set(P["cats"]))
        if v: return {"found": True, "note": "run %d of the driver fails" % n, "failure": v, "text": "driver: /verif/dv/replay/misc.cpp -DDV_%s, argument %d" % (P["define"], s)}
    return {"found": False, "note": "%d runs; none breaks the property" % n}

def art(prop, P, bad, seed, limit, t0, tmp):
    src = os.path.join(HERE, "replay", "art_fuzz.cpp"); cats = set(P["cats"]); node = "node" in cats; b = os.path.join(tmp, "a")
    fl = FLAGS + ["-I" + os.path.join(HERE, "harness", "stub")]
    if node and not build(src, b, ["-DDV_NODE"], fl, False): node = False
    if not os.path.exists(b) and not build(src, b, [], fl, False): return {"found": False, "note": "the driver does not compile against the changed code"}
    stop = threading.Event(); found = []; n = [0]
    def one(k):
        if stop.is_set() or time.time() - t0 > limit: return
        a = ["node" if node and k % 4 else "tree", str(seed * 100000 + k), str([200, 800, 3000, 12000][(k // 4) % 4])]
        rc, out = run([b] + a, 60); v = verdict(rc, out, cats); n[0] += 1
        if v and not stop.is_set():
            stop.set(); m = re.search(r"^operations: (.*)$", out, re.M); found.append((a, v, m.group(1) if m else ""))
    with ThreadPoolExecutor(8) as ex:
        for k in range(100000):
            if stop.is_set() or time.time() - t0 > min(limit, 120): break
            while ex._work_queue.qsize() > 16 and not stop.is_set(): time.sleep(0.02)
            ex.submit(one, k)
        stop.set()
    note = "%d random runs in %.0f s" % (n[0], time.time() - t0)
    if not found: return {"found": False, "note": note + "; none breaks the property"}
    a, v, ops = found[0]
    return {"found": True, "note": note + "; failing run found", "failure": v, "text": "replay: clang++-18 %s%s %s -o af && ./af %s\noperations: %s" % (" ".join(fl), " -DDV_NODE" if node else "", src, " ".join(a), ops[-20000:])}

DRIVERS = {"art": art, "btree": btree, "misc": misc}
