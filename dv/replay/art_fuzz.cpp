// Concrete search for the ART map: random runs of the real code against std::map oracles.  argv: mode (node|tree) seed ops
// tree keys: words whose bytes come from small alphabets, so that prefixes are shared at every depth.
#include <indexes/art/map.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <new>
#include <random>
#include <string>
using M = indexes::art::map<int, indexes::art::art_traits_default>;
using u64 = uint64_t;
static std::string S(u64 x) { return std::to_string(x); }
static std::string log_;
static void fail(const char *cat, const std::string &m) { printf("FAIL %s %s\noperations: %s\n", cat, m.c_str(), log_.c_str()); fflush(stdout); _exit(1); }
#ifdef DV_NODE
static void node_run(u64 seed, int ops) {
  std::mt19937_64 r(seed);
  std::map<uint8_t, M::node_t *> mod; u64 key = r(); int kl = r() % 8;
  M::node_t *n = new M::node4_t(key, kl); int caps[] = {0, 4, 16, 48, 256}; int span = (int[]){3, 6, 20, 60, 256}[r() % 5];
  auto t = [&] { return (int)n->node_type; };
  auto check = [&](const char *what) {
    if ((size_t)n->num_children != mod.size()) fail("node", std::string("child count wrong after ") + what);
    if (memcmp(&n->key, &key, 8) || n->keylen != kl) fail("node", std::string("prefix changed by ") + what);
    for (int i = 0; i < 256; i++) { auto it = mod.find(i); M::node_t *e = it == mod.end() ? nullptr : it->second; if (n->find(i) != e) fail("node", std::string("find of byte ") + S(i) + " wrong after " + what); }
  };
  check("construction");
  int bias = 50;
  for (int o = 0; o < ops; o++) {
    if (o % 40 == 0) bias = 20 + r() % 61;
    uint8_t b = r() % span; auto it = mod.find(b); log_ += (it == mod.end() ? "+" : (int)(r() % 100) < 30 ? "=" : "-") + S(b) + " ";
    if (it == mod.end()) {
      if ((int)(r() % 100) >= bias) continue;
      auto *l = new M::leaf_t(r(), 1, 1 + r() % 8); bool full = n->num_children == caps[t()]; bool ok = n->add(l, b);
      if (ok == full) fail("node", full ? "a full node accepts a child" : "a node with room refuses a child");
      if (!ok) { check("a refused add"); int k = t(); auto *m = n->expand(); if ((int)m->node_type != k + 1) fail("node", "expand gives the wrong kind"); n->free(); n = m; check("expand"); ok = n->add(l, b); if (!ok) fail("node", "expanded node refuses a child"); }
      mod[b] = l; check("add");
    } else if (r() % 100 < 25) {
      auto *l = new M::leaf_t(r(), 2, 1 + r() % 8); auto *old = n->update(l, b); if (old != it->second) fail("node", "update does not return the old child"); old->free(); it->second = l; check("update");
    } else {
      n->remove(b); it->second->free(); mod.erase(it); check("remove");
      bool want = t() == 1 ? mod.size() <= 1 : (int)mod.size() == caps[t() - 1];
      if (n->is_underfull() != want) fail("node", "is_underfull wrong");
      if (want && t() > 1) { int k = t(); auto *m = n->shrink(); if ((int)m->node_type != k - 1) fail("node", "shrink gives the wrong kind"); n->free(); n = m; check("shrink"); }
      else if (want && mod.size() == 1) { M::node_t *leaf = mod.begin()->second, *inner = new M::node4_t(r(), r() % 3); if (r() % 2) { n->update(inner, mod.begin()->first); } auto *c = n->find(mod.begin()->first); int k0 = c->keylen; if (n->shrink() != c || c->keylen != k0 + kl) fail("node", "shrink of a node with one child"); c->keylen = k0; n->update(leaf, mod.begin()->first); inner->free(); }
    }
  }
  for (auto &p : mod) p.second->free();
  n->free();
  M::leaf_t a(r(), 1, 1); 
  for (int i = 0; i < 300; i++) { u64 k = a.key; int c = r() % 9; unsigned char *p = (unsigned char *)&k; if (c < 8) p[c] ^= 1 + r() % 255; for (int j = c + 1; j < 8; j++) p[j] = r();
    if (a.longest_common_prefix_length(k) != c) fail("node", "common prefix length wrong");
    u64 e = 0; memcpy(&e, &k, c); if (memcmp(&e, &(const u64 &)(u64)M::node_t::extract_common_prefix(k, c), c)) fail("node", "extracted prefix wrong"); }
}
#endif
static void tree_run(u64 seed, int ops) {
  std::mt19937_64 r(seed); M m; std::map<u64, int> mod;
  unsigned char al[8][256]; int as[8]; int shape = r() % 4;
  for (int i = 0; i < 8; i++) { as[i] = shape == 0 ? 1 + r() % 3 : shape == 1 ? (i == (int)(seed % 8) ? 256 : 1 + r() % 2) : shape == 2 ? (r() % 3 ? 1 : 1 + r() % 60) : 2 + r() % 5; int off = r() % 3 ? 0 : r() % 256; for (int j = 0; j < 256; j++) al[i][j] = off + j; }
  auto key = [&] { u64 k = 0; unsigned char *p = (unsigned char *)&k; for (int i = 0; i < 8; i++) p[i] = al[i][r() % as[i]]; return k; };
  auto chk = [&](u64 k, const char *w) { auto o = m.Search(k); auto it = mod.find(k); if (o.has_value() != (it != mod.end())) fail("map", std::string("Search of ") + S(k) + (o ? " finds an absent key" : " misses a present key") + " after " + w); if (o && *o != it->second) fail("map", std::string("Search of ") + S(k) + " gives an old or foreign value after " + w); };
  int bias = 60;
  for (int o = 0; o < ops; o++) {
    if (o % 150 == 0) bias = 10 + r() % 81;
    u64 k; if (!mod.empty() && r() % 2) { auto it = mod.lower_bound(r() % 2 ? key() : mod.begin()->first + r() % 3); if (it == mod.end()) it = mod.begin(); k = it->first; } else k = key();
    auto it = mod.find(k); bool in = it != mod.end(); int v = r() % 2 ? (int)(r() % 3) : (int)r(); int op = (int)(r() % 100) < bias ? r() % 3 : 3; if (op == 2 && in == (r() % 3 == 0)) op = 0;
    log_ += std::string(1, "iuUd"[op]) + S(k) + " "; const char *w[] = {"Insert", "Upsert", "Update", "Delete"};
    if (op == 0) { bool b = m.Insert(k, v); if (b == in) fail("map", "Insert of " + S(k) + (in ? " reports a present key as new" : " reports a new key as present")); if (!in) mod[k] = v; }
    else if (op == 1) { auto q = m.Upsert(k, v); if (q.has_value() != in || (in && *q != it->second)) fail("map", "Upsert of " + S(k) + " returns the wrong old value"); mod[k] = v; }
    else if (op == 2) { auto q = m.Update(k, v); if (q.has_value() != in || (in && *q != it->second)) fail("map", "Update of " + S(k) + " returns the wrong old value"); if (in) mod[k] = v; }
    else { auto q = m.Delete(k); if (q.has_value() != in || (in && *q != it->second)) fail("map", "Delete of " + S(k) + " returns the wrong old value"); if (in) mod.erase(it); }
    if (m.size() != mod.size()) fail("size", "size() is " + S(m.size()) + " for " + S(mod.size()) + " keys after " + w[op]);
    chk(k, w[op]);
    if (o % 16 == 0 || mod.size() < 24) for (auto &p : mod) chk(p.first, w[op]);
    for (int j = 0; j < 2; j++) chk(key(), w[op]);
    if (o % 211 == 210) {
      log_ += "move "; M t(std::move(m)); if (m.size()) fail("size", "a map moved from is not empty");
      for (auto &p : mod) if (m.Search(p.first)) fail("map", "a map moved from still holds " + S(p.first));
      m.~M(); new (&m) M(std::move(t)); if (m.size() != mod.size()) fail("size", "size() changes when the map is moved");
      for (auto &p : mod) chk(p.first, "a move");
    }
  }
}
int main(int c, char **v) {
  u64 seed = strtoull(v[2], 0, 10); int ops = atoi(v[3]);
#ifdef DV_NODE
  if (v[1][0] == 'n') node_run(seed, ops);
#endif
  if (v[1][0] == 't') tree_run(seed, ops);
  fflush(stdout); _exit(0);
}
