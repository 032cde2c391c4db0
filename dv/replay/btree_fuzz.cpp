// Runs operation sequences on the real map and compares every answer with std::map.
// usage: btree_fuzz gen <config> <seed> <nops> <out>   generate a sequence, run it; on failure write it to <out>
//        btree_fuzz run <file>                           run a recorded sequence
#include <indexes/btree/map.h>
#include <indexes/btree/key.h>
#include <map>
#include <set>
#include <cstring>
#include <tuple>
#include <string>
#include <vector>
#include <random>
#include <fstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <climits>
#include <type_traits>
#include <optional>
static long live_arrays = 0, live_objs = 0;
static const char *bad_free = nullptr;
static std::set<std::string> *g_mask = nullptr;
struct Hdr { unsigned long magic; unsigned long arr; };                       // in front of every block: which form allocated it
static void *dv_alloc(std::size_t n, bool arr) {
  if (arr) ++live_arrays; else ++live_objs;
  char *p = (char *)malloc(n + sizeof(Hdr)); ((Hdr *)p)->magic = 0x51f15eedL; ((Hdr *)p)->arr = arr; memset(p + sizeof(Hdr), 0xA7, n); return p + sizeof(Hdr);
}
static void dv_free(void *q, bool arr) {
  if (!q) return;
  if (((unsigned long)q & 15) != 0) { bad_free = "a pointer that was never allocated is freed"; return; }
  Hdr *h = (Hdr *)((char *)q - sizeof(Hdr));
  if (h->magic != 0x51f15eedL) { bad_free = "a block is freed twice, or one that was never allocated"; return; }
  if (h->arr != (unsigned long)arr) bad_free = "deallocation form does not match the allocation";
  if (h->arr) --live_arrays; else --live_objs;
  h->magic = 0; free(h);
}
void *operator new[](std::size_t n) { return dv_alloc(n, true); }
void *operator new(std::size_t n) { return dv_alloc(n, false); }
void operator delete[](void *p) noexcept { dv_free(p, true); }
void operator delete(void *p) noexcept { dv_free(p, false); }
void operator delete[](void *p, std::size_t) noexcept { dv_free(p, true); }
void operator delete(void *p, std::size_t) noexcept { dv_free(p, false); }
struct Skip {};
struct Op { char c; long a, b; };
using Ops = std::vector<Op>;
static int g_op = -1;
[[noreturn]] static void fail(const char *cat, const std::string &why) {
  if (g_mask && !g_mask->count(cat)) throw Skip();
  std::printf("FAIL %s op=%d: %s\n", cat, g_op, why.c_str()); std::fflush(stdout); _Exit(3);
}
template <int N, int T, bool D> struct TR { static constexpr int NODE_SIZE = N; static constexpr int NODE_MERGE_THRESHOLD = T; static constexpr bool DEBUG = D; static constexpr bool STAT = true; };
template <typename K> struct KeyOf { static K mk(long x) { return (K)x; } };
template <> struct KeyOf<std::string> { static std::string mk(long x) { char b[64]; std::snprintf(b, sizeof b, "%020lu-longer-than-sso-buffer", (unsigned long)(x + (1L << 40))); return b; } };
template <typename V> struct ValOf { static V mk(long x) { return (V)x; } };
template <> struct ValOf<std::string> { static std::string mk(long x) { return "value-longer-than-the-small-buffer-" + std::to_string(x); } };
using CK = indexes::btree::compound_key<int, std::string, long>;
template <> struct KeyOf<CK> { static CK mk(long x) { return CK{(int)(x >> 8), std::string(1, (char)('a' + ((x >> 4) & 15))), x & 15}; } };
using RK = std::tuple<int, std::string, long>;
template <typename K> struct RefKey { using T = K; };
template <> struct RefKey<CK> { using T = RK; };
template <typename K> typename RefKey<K>::T ref(long x) { if constexpr (std::is_same<K, CK>::value) return RK{(int)(x >> 8), std::string(1, (char)('a' + ((x >> 4) & 15))), x & 15}; else return KeyOf<K>::mk(x); }
template <typename K> bool same(const K &k, const typename RefKey<K>::T &r) {
  if constexpr (std::is_same<K, CK>::value) return std::get<0>(k) == std::get<0>(r) && std::get<1>(k) == std::get<1>(r) && std::get<2>(k) == std::get<2>(r);
  else return k == r;
}
template <typename K, typename V, typename Tr> struct Run {
  using M = indexes::btree::map<K, V, Tr>; using R = std::map<typename RefKey<K>::T, V>;
  std::optional<M> mm; R r; long hmax = 0;
  M &m() { return *mm; }
  const M &cm() { return *mm; }
  template <typename It> void elem(const char *cat, It it, typename R::iterator q, const char *w) {
    if (!same<K>((*it).first, q->first)) fail(cat, std::string(w) + ": wrong key");
    if (!((*it).second == q->second)) fail(cat, std::string(w) + ": wrong value");
    if (!same<K>(it->first, q->first)) fail(cat, std::string(w) + ": wrong key through ->");
  }
#ifdef DV_WALK
  // the tree itself: balance, fences, routing, accounting, and exactly the reachable pages allocated
  long walk_pages = 0;
  void str(const char *cat, bool ok, const char *w) { if (!ok) fail(cat, w); }
  void page(typename M::node_t *n, int h, const std::optional<K> &lo, const std::optional<K> &hi) {
    using L = typename M::leaf_node_t; using I = typename M::inner_node_t;
    if (++walk_pages > 1000000) fail("struct", "the tree has a cycle");
    auto eq = [](const std::optional<K> &a, const std::optional<K> &b) { if (a.has_value() != b.has_value()) return false; return !a || !(*a < *b || *b < *a); };
    str("struct", n->height == h, "a page is at the wrong height"); str("struct", n->isLeaf() == (h == 0), "leaves and inner pages are mixed up");
    str("struct", eq(n->lowkey, lo) && eq(n->highkey, hi), "a page's range differs from the one its parent gives it");
    int kv = h ? (int)sizeof(typename I::key_value_t) : (int)sizeof(typename L::key_value_t), hd = h ? (int)sizeof(I) : (int)sizeof(L), nv = n->num_values, d = n->num_dead_values, N = TrN, f = h ? 1 : 0;
    str("layout", nv >= f && d >= 0 && n->next_slot_offset == hd + 4 * nv && n->next_slot_offset <= n->last_value_offset, "slot array accounting is wrong");
    str("layout", n->last_value_offset == N - (h ? 8 : 0) - kv * (nv - f + d), "free space accounting is wrong"); str("layout", n->logical_pagesize == (h ? 12 : 0) + (nv - f) * (kv + 4), "fill accounting is wrong");
    int *sl = (int *)((char *)n + hd); std::vector<int> o(sl + f, sl + nv); std::sort(o.begin(), o.end());
    for (size_t i = 0; i < o.size(); i++) { str("layout", o[i] >= n->last_value_offset && o[i] + kv <= N - (h ? 8 : 0), "an entry lies outside the entry area"); if (i) str("layout", o[i - 1] + kv <= o[i], "two entries overlap"); }
    for (int i = f; i < nv; i++) {
      const K &k = h ? ((typename I::key_value_t *)((char *)n + sl[i]))->first : ((typename L::key_value_t *)((char *)n + sl[i]))->first;
      str("struct", (!lo || !(k < *lo)) && (!hi || k < *hi), "a key lies outside the range of its page");
      if (i > f) { const K &p = h ? ((typename I::key_value_t *)((char *)n + sl[i - 1]))->first : ((typename L::key_value_t *)((char *)n + sl[i - 1]))->first; str("struct", p < k, "the keys of a page are not ascending"); }
    }
    if (h) { I *in = (I *)n; for (int i = 0; i < nv; i++) { std::optional<K> a = lo, b = hi; if (i) a = ((typename I::key_value_t *)((char *)n + sl[i]))->first; if (i + 1 < nv) b = ((typename I::key_value_t *)((char *)n + sl[i + 1]))->first; page(in->get_child(i), h - 1, a, b); } }
  }
  long base_arrays = 0; static constexpr int TrN = Tr::NODE_SIZE;
  void tree() {
    walk_pages = 0; auto *r0 = m().m_root;
    try { if (r0) { page(r0, m().height(), std::nullopt, std::nullopt); } } catch (Skip &) { return; }
    if (live_arrays - base_arrays != walk_pages) fail("lifetime", "allocated pages: " + std::to_string(live_arrays - base_arrays) + ", pages in the tree: " + std::to_string(walk_pages));
    if (bad_free) fail("lifetime", bad_free);
  }
#else
  long base_arrays = 0;
  void tree() { if (bad_free) fail("lifetime", bad_free); }
#endif
  void sizes() {
    if (m().size() != (decltype(m().size()))r.size()) fail("size", "size() is " + std::to_string(m().size()) + ", should be " + std::to_string(r.size()));
  }
  void full() {
    try { sizes(); } catch (Skip &) {}
    try { tree(); } catch (Skip &) {}
    try { auto q = r.begin(); long n = 0; for (auto it = m().begin(); it != m().end(); ++it, ++q) { if (q == r.end()) fail("iter", "forward iteration yields too many elements"); elem("iter", it, q, "forward iteration"); }
      if (q != r.end()) fail("iter", "forward iteration ends early"); } catch (Skip &) {}
    try { auto q = r.begin(); for (auto it = cm().begin(); it != cm().end(); it++, ++q) { if (q == r.end()) fail("const", "const iteration yields too many elements"); elem("const", it, q, "const iteration"); }
      if (q != r.end()) fail("const", "const iteration ends early"); } catch (Skip &) {}
    try { auto q = r.begin(); for (auto it = cm().cbegin(); it != cm().cend(); ++it, ++q) { if (q == r.end()) fail("const", "cbegin iteration yields too many elements"); elem("const", it, q, "cbegin iteration"); }
      if (q != r.end()) fail("const", "cbegin iteration ends early"); } catch (Skip &) {}
    try { auto q = r.end(); for (auto it = m().rbegin(); it != m().rend(); ++it) { if (q == r.begin()) fail("iter", "reverse iteration yields too many elements"); --q; elem("iter", it, q, "reverse iteration"); }
      if (q != r.begin()) fail("iter", "reverse iteration ends early"); } catch (Skip &) {}
    try { auto q = r.end(); for (auto it = cm().crbegin(); it != cm().crend(); it++) { if (q == r.begin()) fail("const", "crbegin iteration yields too many elements"); --q; elem("const", it, q, "crbegin iteration"); }
      if (q != r.begin()) fail("const", "crbegin iteration ends early"); } catch (Skip &) {}
    try { auto q = r.end(); for (auto it = cm().rbegin(); it != cm().rend(); ++it) { if (q == r.begin()) fail("const", "const reverse iteration yields too many elements"); --q; elem("const", it, q, "const reverse iteration"); }
      if (q != r.begin()) fail("const", "const reverse iteration ends early"); } catch (Skip &) {}
  }
  template <typename I, typename E> void pos(const char *cat, I it, E e, typename R::iterator q, const char *w) {
    if (q == r.end()) { if (it != e) fail(cat, std::string(w) + " should be end()"); }
    else { if (it == e) fail(cat, std::string(w) + " is end() though an element exists"); elem(cat, it, q, w); }
  }
  template <typename I> void walk(const char *cat, I it, typename R::iterator q, const I &e, long steps) {   // mixed ++/-- around a position, both forms
    unsigned long s = (unsigned long)steps * 2654435761u + 12345;
    for (int i = 0; i < 12; i++) {
      s = s * 6364136223846793005UL + 1442695040888963407UL; int d = (s >> 40) & 3;
      if (d < 2) { if (q == r.end() || it == e) break; auto n = q; ++n; if (d == 0) ++it; else { auto o = it++; elem(cat, o, q, "value of it++"); } q = n; pos(cat, it, e, q, "after ++"); if (q == r.end()) break; }
      else { if (q == r.begin() || q == r.end()) break; if (d == 2) --it; else { auto o = it--; elem(cat, o, q, "value of it--"); } --q; pos(cat, it, e, q, "after --"); }
    }
  }
  void ht() {
    // every page costs one array allocation; the tree may not be higher than its pages and size allow
    long h = m().height(); long n = (long)r.size();
    (void)n; if (h < 0 || h > 64) fail("size", "height() out of range"); hmax = std::max(hmax, h);
  }
  void run(const Ops &ops, bool big) {
    long a0 = live_arrays; base_arrays = a0;
    mm.emplace(); g_op = -1; full();
    for (size_t i = 0; i < ops.size(); i++) {
      g_op = (int)i; auto o = ops[i]; K k = KeyOf<K>::mk(o.a); auto rk = ref<K>(o.a); V v = ValOf<V>::mk(o.b);
      try {
      switch (o.c) {
      case 'i': { bool had = r.count(rk); long h0 = m().height(); auto &x = m()[k]; auto &y = r[rk];
        bool ini = had || x == V{}, okv = !had || x == y; x = v; y = v;
        if (!ini) fail("init", "a new element is not value-initialised"); if (!okv) fail("point", "operator[] returns a wrong value");
        if (had && m().height() != h0) fail("size", "height changed by an access"); auto it = m().find(k); pos("point", it, m().end(), r.find(rk), "find after insertion"); break; }
      case 'g': { bool had = r.count(rk); auto &x = m()[k]; auto &y = r[rk]; bool e = x == y; x = y; if (!e) fail(had ? "point" : "init", had ? "operator[] returns a wrong value" : "a new element is not value-initialised"); break; }
      case 'e': { bool had = r.erase(rk); bool got = m().erase(k); if (got != had) fail("point", "erase(key) reports the wrong result"); if (m().find(k) != m().end()) fail("point", "erased key is still found"); break; }
      case 'x': { auto it = m().find(k); auto q = r.find(rk); pos("point", it, m().end(), q, "find"); if (q != r.end()) { m().erase(it); r.erase(q); if (m().find(k) != m().end()) fail("point", "erased element is still found"); } break; }
      case 'f': { pos("point", m().find(k), m().end(), r.find(rk), "find"); pos("const", cm().find(k), cm().end(), r.find(rk), "const find"); auto q = r.find(rk); if (q != r.end()) { auto it = m().find(k); walk("iter", it, q, m().end(), o.b); walk("const", cm().find(k), q, cm().end(), o.b); } break; }
      case 'l': { auto q = r.lower_bound(rk); pos("bound", m().lower_bound(k), m().end(), q, "lower_bound"); pos("bound", cm().lower_bound(k), cm().end(), q, "const lower_bound"); if (q != r.end()) walk("bound", m().lower_bound(k), q, m().end(), o.b); break; }
      case 'u': { auto q = r.upper_bound(rk); pos("bound", m().upper_bound(k), m().end(), q, "upper_bound"); pos("bound", cm().upper_bound(k), cm().end(), q, "const upper_bound"); if (q != r.end()) walk("bound", cm().upper_bound(k), q, cm().end(), o.b); break; }
      case 'w': full(); break;
      case 'R': if (!r.empty()) { auto it = m().rbegin(); auto q = r.end(); --q; int n = 0; unsigned long s = (unsigned long)o.b; for (; n < 10; n++) { if (it == m().rend()) fail("iter", "reverse end too early"); elem("iter", it, q, "reverse"); s = s * 6364136223846793005UL + 1442695040888963407UL; if ((s >> 33) & 1) { if (q == r.begin()) break; --q; if ((s >> 34) & 1) ++it; else it++; } else { auto p = q; ++p; if (p == r.end()) continue; q = p; if ((s >> 34) & 1) --it; else it--; } } } break;
      }
      } catch (Skip &) {}
      try { sizes(); ht(); } catch (Skip &) {}
      if (big ? i % 64 == 0 : i % 16 == 0) full(); else if (!big || i % 8 == 0) { try { tree(); } catch (Skip &) {} }
    }
    g_op = (int)ops.size(); full();
    mm.reset();
    if (bad_free) fail("lifetime", bad_free);
    if (live_arrays != a0) fail("lifetime", "pages still allocated after the map is destroyed: " + std::to_string(live_arrays - a0));
  }
};
#define CONFIGS X(0, int, int, 192, 80) X(1, std::string, std::string, 448, 80) X(3, long, int, 192, 80) X(4, CK, int, 512, 80) X(5, int, std::string, 384, 50) X(6, unsigned long, long, 256, 90) X(7, int, int, 192, 30)
#ifdef DV_ONLY
#define DV_ON(n) (C == 0 && ((DV_ONLY >> n) & 1))
#else
#define DV_ON(n) (C == 0)
#endif
template <int C = 0> static void run_cfg(int c, const Ops &ops) {
  switch (c) {
#define X(n, K, V, S, T) case n: if constexpr (DV_ON(n)) { Run<K, V, TR<S, T, true>> x; x.run(ops, false); break; }
    CONFIGS
#undef X
  case 2: if constexpr (DV_ON(2)) { Run<int, int, indexes::btree::btree_traits_default> x; x.run(ops, true); break; }
  case 8: if constexpr (DV_ON(8)) { Run<int, int, TR<192, 80, false>> x; x.run(ops, false); break; }
  case 9: if constexpr (DV_ON(9)) { Run<int, char, TR<200, 60, false>> x; x.run(ops, false); break; }
  }
}
static Ops gen(int cfg, unsigned long seed, int n) {
  std::mt19937_64 g(seed * 1000003 + cfg); Ops o; long range; int style = g() % 6;
  static const long ranges[] = {8, 40, 120, 400, 3000, 1L << 30}; range = ranges[g() % 6]; if (cfg == 2) range = 600 + (long)(g() % 6) * 500;
  bool neg = cfg != 1 && cfg != 4 && cfg != 6 && (g() & 1);
  long seqk = 0; int bias = 70;
  for (int i = 0; i < n; i++) {
    if (g() % 97 == 0) { static const int bs[] = {10, 35, 60, 85, 98, 99}; bias = bs[g() % 6]; if (cfg == 2 && g() % 2) bias = 99; }
    long k = (long)(g() % (unsigned long)range); if (style == 1) k = seqk++ % range; else if (style == 2) k = range - 1 - (seqk++ % range); else if (style == 3 && g() % 3) k = (k / 7) * 7;
    if (neg) k -= range / 2; if (cfg != 1 && cfg != 4 && cfg != 6 && g() % 61 == 0) k = (g() & 1) ? INT_MAX : INT_MIN;
    int d = (int)(g() % 100); long b = (long)(g() % 1000000) + 1; if (cfg == 9) b = b % 120 + 1;
    if (d < 62) o.push_back({(int)(g() % 100) < bias ? 'i' : ((g() & 1) ? 'e' : 'x'), k, b});
    else if (d < 72) o.push_back({'f', k, b}); else if (d < 82) o.push_back({'l', k, b}); else if (d < 92) o.push_back({'u', k, b}); else if (d < 95) o.push_back({'R', k, b}); else if (d < 97) o.push_back({'g', k, b}); else o.push_back({'w', k, b});
  }
  return o;
}
int main(int c, char **v) {
  if (const char *k = getenv("DV_MASK")) { g_mask = new std::set<std::string>; std::string t; for (const char *q = k;; q++) { if (*q == ',' || !*q) { g_mask->insert(t); t.clear(); if (!*q) break; } else t += *q; } }
  if (c >= 6 && std::string(v[1]) == "gen") {
    int cfg = atoi(v[2]); Ops o = gen(cfg, strtoul(v[3], 0, 10), atoi(v[4]));
    std::ofstream f(v[5]); f << cfg << "\n"; for (auto &x : o) f << x.c << ' ' << x.a << ' ' << x.b << "\n"; f.close();
    run_cfg<>(cfg, o);
  } else if (c >= 3 && std::string(v[1]) == "run") {
    std::ifstream f(v[2]); int cfg; f >> cfg; Ops o; Op x; while (f >> x.c >> x.a >> x.b) o.push_back(x); f.close();
    run_cfg<>(cfg, o);
  } else return 9;
  std::printf("ok\n");
  return 0;
}
