// Clients of the YCSB generators: *_init builds one, *_step is one call on it; the object invariant between calls is inferred.
#include <new>
#include <string>
#include <cstdint>
#include "utils/uniform_generator.h"
#include "utils/counter_generator.h"
#include "utils/scrambled_zipfian_generator.h"
#include "utils/skewed_latest_generator.h"
#include "utils/const_generator.h"
#include "utils/zipfian_generator.h"
using namespace ycsbc; using u64 = uint64_t;
extern "C" { void dv_check(bool, int); void dv_assume(bool); }
#define RANGE 1
#define LAST 2
#define SEQ 3

struct Uni { u64 lo, hi, last; UniformGenerator g; Uni(u64 a, u64 b) : lo(a), hi(b), last(0), g(a, b) { last = g.Last(); } };
void uni_init(void *p, u64 lo, u64 hi) { dv_assume(lo <= hi); auto *s = new (p) Uni(lo, hi); dv_check(lo <= s->last && s->last <= hi, RANGE); }
void uni_step_next(Uni *s) { u64 r = s->g.UniformGenerator::Next(); dv_check(s->lo <= r && r <= s->hi, RANGE); s->last = r; dv_check(s->g.UniformGenerator::Last() == r, LAST); dv_check(s->g.UniformGenerator::Last() == r, LAST); }
void uni_step_last(Uni *s) { dv_check(s->g.UniformGenerator::Last() == s->last, LAST); }
void uni_step_nextu(Uni *s) { u64 r = s->g.NextUnlocked(); dv_check(s->lo <= r && r <= s->hi, RANGE); s->last = r; dv_check(s->g.LastUnlocked() == r, LAST); }

struct Cnt { u64 nxt; CounterGenerator g; Cnt(u64 a) : nxt(a), g(a) {} };
void cnt_init(void *p, u64 a, u64) { new (p) Cnt(a); }
void cnt_step_next(Cnt *s) { u64 r = s->g.CounterGenerator::Next(); dv_check(r == s->nxt, SEQ); s->nxt++; dv_check(s->g.CounterGenerator::Last() == r, LAST); }
void cnt_step_last(Cnt *s) { dv_check(s->g.CounterGenerator::Last() == s->nxt - 1, LAST); }
void cnt_step_set(Cnt *s, u64 a) { s->g.Set(a); s->nxt = a; }

struct Con { u64 v; ConstGenerator g; Con(int a) : v((u64)a), g(a) {} };
void con_init(void *p, u64 a, u64) { new (p) Con((int)a); }
void con_step_next(Con *s) { dv_check(s->g.ConstGenerator::Next() == s->v, RANGE); dv_check(s->g.ConstGenerator::Last() == s->v, LAST); }

struct Scr { u64 lo, hi, last; ScrambledZipfianGenerator g; Scr(u64 a, u64 b, double z) : lo(a), hi(b), last(0), g(a, b, z) { last = g.Last(); } Scr(u64 n) : lo(0), hi(n - 1), last(0), g(n) { last = g.Last(); } };
void scr_init(void *p, u64 lo, u64 hi, double z) { dv_assume(lo <= hi && hi - lo + 1 >= 2 && hi - lo + 1 < (UINT64_MAX >> 24)); auto *s = new (p) Scr(lo, hi, z); dv_check(lo <= s->last && s->last <= hi, RANGE); }
void scr_init_n(void *p, u64 n, u64) { dv_assume(n >= 2 && n < (UINT64_MAX >> 24)); auto *s = new (p) Scr(n); dv_check(s->last < n, RANGE); }
void scr_step_next(Scr *s) { u64 r = s->g.ScrambledZipfianGenerator::Next(); dv_check(s->lo <= r && r <= s->hi, RANGE); s->last = r; dv_check(s->g.ScrambledZipfianGenerator::Last() == r, LAST); dv_check(s->g.ScrambledZipfianGenerator::Last() == r, LAST); }
void scr_step_last(Scr *s) { dv_check(s->g.ScrambledZipfianGenerator::Last() == s->last, LAST); }

// the zipfian generator itself: Last() reports the value returned by the latest Next (the range is a floating-point matter)
struct Zip { u64 last, n; ZipfianGenerator g; Zip(u64 a, u64 b, double z) : last(0), n(b - a + 1), g(a, b, z) { last = g.Last(); } };
void zip_init(void *p, u64 lo, u64 hi, double z) { dv_assume(lo <= hi && hi - lo + 1 >= 2 && hi - lo + 1 < (UINT64_MAX >> 24)); new (p) Zip(lo, hi, z); }
void zip_step_next(Zip *s) { u64 r = s->g.ZipfianGenerator::Next(); s->last = r; dv_check(s->g.ZipfianGenerator::Last() == r, LAST); dv_check(s->g.LastUnlocked() == r, LAST); }
void zip_step_nextn(Zip *s, u64 n) { dv_assume(n >= 2 && n < (UINT64_MAX >> 24)); u64 r = s->g.Next(n); s->last = r; dv_check(s->g.ZipfianGenerator::Last() == r, LAST); }
void zip_step_last(Zip *s) { dv_check(s->g.ZipfianGenerator::Last() == s->last, LAST); }

struct Lat { u64 nxt, last; CounterGenerator c; SkewedLatestGenerator g; Lat(u64 a) : nxt(a), last(0), c(a), g(c) { last = g.Last(); } };
void lat_init(void *p, u64 a, u64) { dv_assume(a >= 3 && a < (UINT64_MAX >> 25)); auto *s = new (p) Lat(a); dv_check(s->last <= a - 1, RANGE); }
void lat_step_next(Lat *s) { dv_assume(s->nxt >= 3 && s->nxt < (UINT64_MAX >> 25)); u64 r = s->g.SkewedLatestGenerator::Next(); dv_check(r <= s->nxt - 1, RANGE); s->last = r; dv_check(s->g.SkewedLatestGenerator::Last() == r, LAST); }
void lat_step_last(Lat *s) { dv_check(s->g.SkewedLatestGenerator::Last() == s->last, LAST); }
void lat_step_insert(Lat *s) { s->c.CounterGenerator::Next(); s->nxt++; dv_check(s->c.CounterGenerator::Last() == s->nxt - 1, SEQ); }
// candidate facts between calls (assumed only when proved to hold after every call)
bool uni_inv(Uni *s) { return s->g.UniformGenerator::Last() == s->last; }
bool cnt_inv(Cnt *s) { return s->g.CounterGenerator::Last() == s->nxt - 1; }
bool con_inv(Con *s) { return s->g.ConstGenerator::Last() == s->v; }
bool scr_inv(Scr *s) { return s->g.ScrambledZipfianGenerator::Last() == s->last; }
bool zip_inv(Zip *s) { return s->g.ZipfianGenerator::Last() == s->last; }
bool lat_inv(Lat *s) { return s->g.SkewedLatestGenerator::Last() == s->last; }
bool lat_inv2(Lat *s) { return s->c.CounterGenerator::Last() == s->nxt - 1; }
#define SZ(n, T) extern "C" { extern const u64 dv_sz_##n; const u64 dv_sz_##n = sizeof(T); }
SZ(uni, Uni) SZ(cnt, Cnt) SZ(con, Con) SZ(scr, Scr) SZ(zip, Zip) SZ(lat, Lat)
