// Concrete search for the small units: exhaustive / random runs of the real code against direct oracles.  argv: seed
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <random>
#include <stdexcept>
#include <atomic>
static void fail(const char *cat, const std::string &m) { printf("FAIL %s %s\n", cat, m.c_str()); fflush(stdout); _exit(1); }
#include <unistd.h>
using u64 = uint64_t;
static std::string S(u64 x) { return std::to_string(x); }
#ifdef DV_C10
#include <indexes/btree/key.h>
using indexes::btree::compound_key;
template <class T> std::string T2S(const std::vector<T> &v) { std::string r = "("; for (auto &x : v) { if constexpr (std::is_same_v<T, std::string>) r += x + ","; else r += std::to_string(x) + ","; } return r + ")"; }
template <class T> compound_key<T> mk1(const std::vector<T> &v) { return compound_key<T>(v[0]); }
template <class T> compound_key<T, T> mk2(const std::vector<T> &v) { return compound_key<T, T>(v[0], v[1]); }
template <class T> compound_key<T, T, T> mk3(const std::vector<T> &v) { return compound_key<T, T, T>(v[0], v[1], v[2]); }
template <class T> compound_key<T, T, T, T> mk4(const std::vector<T> &v) { return compound_key<T, T, T, T>(v[0], v[1], v[2], v[3]); }
template <class T, class A, class B> void cmp(const std::vector<T> &a, const std::vector<T> &b, const A &x, const B &y) {
  bool l = a < b, e = a == b; auto bad = [&](const char *op) { fail("order", std::string(op) + " of " + T2S(a) + " and " + T2S(b) + " is not the lexicographic relation"); };
  if ((x < y) != l) bad("<"); if ((x > y) != (b < a)) bad(">"); if ((x <= y) != !(b < a)) bad("<="); if ((x >= y) != !l) bad(">="); if ((x == y) != e) bad("=="); if ((x != y) == e) bad("!=");
}
template <class T, class A> void row(const std::vector<T> &a, const A &x, const std::vector<T> &b) {
  switch (b.size()) { case 1: cmp(a, b, x, mk1(b)); break; case 2: cmp(a, b, x, mk2(b)); break; case 3: cmp(a, b, x, mk3(b)); break; case 4: cmp(a, b, x, mk4(b)); }
}
template <class T> void pair(const std::vector<T> &a, const std::vector<T> &b) {
  switch (a.size()) { case 1: row(a, mk1(a), b); break; case 2: row(a, mk2(a), b); break; case 3: row(a, mk3(a), b); break; case 4: row(a, mk4(a), b); }
}
template <class T> void all(const std::vector<T> &dom, int maxlen, std::mt19937_64 &r, long rnd) {
  std::vector<std::vector<T>> ks; std::vector<std::vector<T>> cur{{}};
  for (int l = 1; l <= maxlen; l++) { std::vector<std::vector<T>> nx; for (auto &c : cur) for (auto &d : dom) { auto e = c; e.push_back(d); nx.push_back(e); } cur = nx; ks.insert(ks.end(), cur.begin(), cur.end()); }
  if (!rnd) { for (auto &a : ks) for (auto &b : ks) pair(a, b); }
  else for (long i = 0; i < rnd; i++) pair(ks[r() % ks.size()], ks[r() % ks.size()]);
}
static void go(u64 seed) { std::mt19937_64 r(seed); all<int>({0, 1, 2}, 4, r, 0); all<int>({INT32_MIN, -1, 0, INT32_MAX}, 4, r, 60000); all<u64>({0, 1, ~0ull}, 4, r, 20000); all<signed char>({-128, 0, 127}, 4, r, 20000); all<std::string>({"", "a", "b"}, 3, r, 20000); }
#endif
#ifdef DV_C20
#include "utils/uniform_generator.h"
#include "utils/counter_generator.h"
#include "utils/scrambled_zipfian_generator.h"
#include "utils/skewed_latest_generator.h"
#include "utils/const_generator.h"
#include "utils/zipfian_generator.h"
using namespace ycsbc;
template <class G> void drive(const std::string &nm, G &g, u64 lo, u64 hi, std::mt19937_64 &r, int n, bool range = true) {
  u64 last = g.Last(); auto in = [&](u64 v, const char *w) { if (range && (v < lo || v > hi)) fail("gen", nm + ": " + w + " " + S(v) + " outside [" + S(lo) + "," + S(hi) + "]"); };
  in(last, "first Last()");
  for (int i = 0; i < n; i++) {
    if (r() % 3) { last = g.Next(); in(last, "Next()"); }
    u64 l = g.Last(); in(l, "Last()"); if (l != last) fail("gen", nm + " over [" + S(lo) + "," + S(hi) + "]: Last() is " + S(l) + " after Next() returned " + S(last));
  }
}
static void go(u64 seed) {
  std::mt19937_64 r(seed); const u64 M = ~0ull;
  for (int i = 0; i < 400; i++) {
    u64 lo = i < 20 ? i % 5 : i % 4 == 0 ? M - r() % 100 : r() >> (r() % 64), hi = i < 20 ? lo + i % 3 : lo + std::min(M - lo, r() >> (r() % 64));
    if (i % 50 == 7) { lo = 0; hi = M; }
    { UniformGenerator g(lo, hi); drive("uniform", g, lo, hi, r, 200); u64 v = g.NextUnlocked(); if (v < lo || v > hi || g.LastUnlocked() != v) fail("gen", "uniform: NextUnlocked/LastUnlocked"); }
    { u64 s = i < 10 ? i : r() >> (r() % 64); CounterGenerator g(s); for (int j = 0; j < 50; j++) { if (r() % 9 == 0) { s = r() >> (r() % 64); g.Set(s); } u64 v = g.Next(); if (v != s) fail("gen", "counter: Next() is " + S(v) + ", not " + S(s)); s++; if (g.Last() != v || g.Last() != v) fail("gen", "counter: Last() is not the value just returned"); } }
    { int c = (int)r(); ConstGenerator g(c); if (g.Next() != (u64)c || g.Last() != (u64)c) fail("gen", "const"); }
    if (i < 120) {
      u64 a = i % 3 ? r() % 1000 : M - 5000 - r() % 100, n = 2 + r() % (i < 40 ? 5 : 300);
      { ScrambledZipfianGenerator g(a, a + n - 1); drive("scrambled", g, a, a + n - 1, r, 300); }
      { ScrambledZipfianGenerator g(n); drive("scrambled(n)", g, 0, n - 1, r, 100); }
      { ZipfianGenerator g(0, n - 1); drive("zipfian", g, 0, n - 1, r, 100, false); }
      { u64 s = 3 + r() % 200; CounterGenerator c(s); SkewedLatestGenerator g(c); for (int j = 0; j < 200; j++) { if (r() % 4 == 0) { c.Next(); s++; } u64 v = g.Next(); if (v > s - 1) fail("gen", "latest: " + S(v) + " above the counter's last value " + S(s - 1)); if (g.Last() != v || g.Last() != v) fail("gen", "latest: Last()"); } }
    }
  }
}
#endif
#ifdef DV_C23
#include "utils/utils.h"
static void go(u64 seed) {
  std::mt19937_64 r(seed);
  for (long i = 0; i < 3000000; i++) {
    u64 v = i < 70000 ? i : i < 70064 ? 1ull << (i - 70000) : i % 3 ? r() : r() >> (r() % 64), h = 0xCBF29CE484222325ull;
    for (int k = 0; k < 8; k++) { h ^= (v >> (8 * k)) & 255; h *= 1099511628211ull; }
    if (utils::FNVHash64(v) != h || utils::FNVHash64(v) != h || utils::Hash(v) != h) fail("hash", "hash of " + S(v) + " is " + S(utils::FNVHash64(v)) + ", not " + S(h));
  }
}
#endif
#ifdef DV_C24
#include "utils/utils.h"
static std::string hex(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) { snprintf(b, 8, c > 32 && c < 127 ? "%c" : "\\x%02x", c); r += b; } return "\"" + r + "\""; }
static void chk(const std::string &s) {
  size_t a = 0, b = s.size(); auto sp = [](char c) { return c == 32 || (c >= 9 && c <= 13); };
  while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--;
  std::string w = s.substr(a, b - a), t = utils::Trim(s); if (t != w) fail("str", "Trim(" + hex(s) + ") is " + hex(t) + ", not " + hex(w));
  std::string l = s; for (auto &c : l) if (c >= 'A' && c <= 'Z') c += 32;
  bool y = l == "true" || l == "1", n = l == "false" || l == "0", thr = false, v = false;
  try { v = utils::StrToBool(s); } catch (...) { thr = true; }
  if (thr == (y || n) || (!thr && v != y)) fail("str", "StrToBool(" + hex(s) + ")");
}
static void go(u64 seed) {
  std::mt19937_64 r(seed); const char *al = " \t\n\v\f\raB01tTrRuUeEfFlLsS\x80\xff"; size_t n = strlen(al); const char *ws[] = {"true", "false", "1", "0", "yes", "no", "on", "off", "t", "f", "y", "n", "", "tru", "truee", "01", "2"};
  for (auto w : ws) for (int m = 0; m < 32; m++) { std::string s = w; for (size_t i = 0; i < s.size(); i++) if (m >> i & 1) s[i] = toupper(s[i]); chk(s); chk(" " + s); chk(s + "\n"); chk(" " + s + " x "); }
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) chk(std::string() + al[i] + al[j] + al[k]);
  for (long i = 0; i < 300000; i++) { std::string s; for (int k = r() % 40; k > 0; k--) s += al[r() % n]; chk(s); }
}
#endif
int main(int c, char **v) { go(c > 1 ? strtoull(v[1], 0, 10) : 1); puts("ok"); return 0; }
