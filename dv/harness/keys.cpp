// Compound-key comparisons of /repo/include/indexes/btree/key.h for every pair of shapes up to DV_MAXA components.
#include <cstdint>
#include <cstddef>
#include <indexes/btree/key.h>
using indexes::btree::compound_key;
struct Opq { int id; };      // a component of unknown type: only its comparison operators are known (a strict total order)
bool operator<(const Opq &, const Opq &); bool operator>(const Opq &, const Opq &); bool operator<=(const Opq &, const Opq &); bool operator>=(const Opq &, const Opq &);
bool operator==(const Opq &, const Opq &); bool operator!=(const Opq &, const Opq &);
template <int S, int I> struct comp { using type = Opq; };
template <> struct comp<1, 0> { using type = int; };
template <> struct comp<1, 1> { using type = unsigned long; };
template <> struct comp<1, 2> { using type = Opq; };
template <> struct comp<1, 3> { using type = signed char; };
template <int S, int I> using C = typename comp<S, I>::type;
#define A1(S) C<S,0> a0
#define A2(S) A1(S), C<S,1> a1
#define A3(S) A2(S), C<S,2> a2
#define A4(S) A3(S), C<S,3> a3
#define B1(S) C<S,0> b0
#define B2(S) B1(S), C<S,1> b1
#define B3(S) B2(S), C<S,2> b2
#define B4(S) B3(S), C<S,3> b3
#define T1(S) C<S,0>
#define T2(S) T1(S), C<S,1>
#define T3(S) T2(S), C<S,2>
#define T4(S) T3(S), C<S,3>
#define V1(x) x##0
#define V2(x) x##0, x##1
#define V3(x) x##0, x##1, x##2
#define V4(x) x##0, x##1, x##2, x##3
#define F(S, m, n, name, op) extern "C" bool dvk_##name##_##S##_##m##_##n(A##m(S), B##n(S)) { compound_key<T##m(S)> x(V##m(a)); compound_key<T##n(S)> y(V##n(b)); return x op y; }
#define ALL(S, m, n) F(S, m, n, lt, <) F(S, m, n, gt, >) F(S, m, n, le, <=) F(S, m, n, ge, >=) F(S, m, n, eq, ==) F(S, m, n, ne, !=)
#define ROW(S, m) ALL(S, m, 1) ALL(S, m, 2) ALL(S, m, 3) ALL(S, m, 4)
ROW(0, 1) ROW(0, 2) ROW(0, 3) ROW(0, 4)
ROW(1, 1) ROW(1, 2) ROW(1, 3) ROW(1, 4)
