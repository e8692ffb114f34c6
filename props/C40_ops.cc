// Reduction operators: all operand values, all groupings of three contributions, chains of messages.
#include "sym.h"
#include "vt/config.h"
#include <thread>
#include <queue>
#include <random>
#include <functional>
#include <variant>
#include <unordered_map>
#include <sstream>
#include <fstream>
#include <iomanip>
#define private public
#include "vt/transport.h"
#include "vt/collective/collective_ops.h"
#include "vt/collective/reduce/reduce.h"
#include "vt/vrt/collection/balance/stats_msg.h"
#include <array>
#include <tuple>
#include <vector>
using namespace vt; using namespace vt::collective;
#ifndef VSIZE
#define VSIZE 2
#endif
template <typename T> struct Mk { static T any() { return (T)sym_u64("operand"); } };
template <> struct Mk<bool> { static bool any() { return sym_bool("operand"); } };
template <typename T> struct Mk<std::vector<T>> { static std::vector<T> any(); };
static std::size_t vlen;
template <typename T> std::vector<T> Mk<std::vector<T>>::any() { std::vector<T> v(vlen); for (std::size_t i = 0; i < vlen; i++) v[i] = Mk<T>::any(); return v; }
template <typename T, std::size_t N> struct Mk<std::array<T, N>> { static std::array<T, N> any() { std::array<T, N> v; for (auto& x : v) x = Mk<T>::any(); return v; } };
template <typename... T> struct Mk<std::tuple<T...>> { static std::tuple<T...> any() { return std::tuple<T...>{Mk<T>::any()...}; } };
// expected result of one element-wise combination, written from the definition of each operator
enum Kind { Plus, Max, Min, And, Or, BAnd, BOr, BXor };
template <Kind K, typename T> static bool is(T r, T a, T b) {
  if constexpr (K == Plus) return r == (T)(a + b); else if constexpr (K == Max) return (r == a || r == b) && !(r < a) && !(r < b); else if constexpr (K == Min) return (r == a || r == b) && !(a < r) && !(b < r);
  else if constexpr (K == And) return r == (T)(a != 0 && b != 0); else if constexpr (K == Or) return r == (T)(a != 0 || b != 0); else if constexpr (K == BAnd) return r == (T)(a & b); else if constexpr (K == BOr) return r == (T)(a | b); else return r == (T)(a ^ b); }
template <Kind K, typename T> struct Is { static bool ok(T const& r, T const& a, T const& b) { return is<K, T>(r, a, b); } };
template <Kind K, typename T> struct Is<K, std::vector<T>> { static bool ok(std::vector<T> const& r, std::vector<T> const& a, std::vector<T> const& b) { bool o = r.size() == a.size(); for (std::size_t i = 0; o && i < a.size(); i++) o &= Is<K, T>::ok(r[i], a[i], b[i]); return o; } };
template <Kind K, typename T, std::size_t N> struct Is<K, std::array<T, N>> { static bool ok(std::array<T, N> const& r, std::array<T, N> const& a, std::array<T, N> const& b) { bool o = true; for (std::size_t i = 0; i < N; i++) o &= Is<K, T>::ok(r[i], a[i], b[i]); return o; } };
template <Kind K, typename... T> struct Is<K, std::tuple<T...>> { using U = std::tuple<T...>; template <std::size_t... I> static bool go(U const& r, U const& a, U const& b, std::index_sequence<I...>) { return (true & ... & Is<K, T>::ok(std::get<I>(r), std::get<I>(a), std::get<I>(b))); } static bool ok(U const& r, U const& a, U const& b) { return go(r, a, b, std::index_sequence_for<T...>{}); } };
template <Kind K, typename Op, typename T> static void one(char const* what) {
  T a = Mk<T>::any(), b = Mk<T>::any(), c = Mk<T>::any(); T r = a; Op{}(r, b); T const b0 = b;
  sym_assert(Is<K, T>::ok(r, a, b), "the combination is exact, element by element"); sym_assert(b == b0, "the second operand is left alone");
  T l = r; Op{}(l, c); T bc = b; Op{}(bc, c); T rr = a; Op{}(rr, bc); sym_assert(l == rr, "the grouping of three contributions does not matter"); sym_cover(what);
}
template <Kind K, template <typename> class Op> static void arith(int t, bool containers) {
  switch (t) { case 0: one<K, Op<int32_t>, int32_t>("scalar"); break; case 1: one<K, Op<uint64_t>, uint64_t>("scalar"); break; case 2: one<K, Op<uint8_t>, uint8_t>("scalar"); break;
  default: one<K, Op<std::tuple<int32_t, uint16_t, uint64_t>>, std::tuple<int32_t, uint16_t, uint64_t>>("tuple"); } (void)containers; }
template <Kind K, template <typename> class Op> static void boxes(int t) {
  switch (t) { case 0: one<K, Op<std::vector<int32_t>>, std::vector<int32_t>>("vector"); break; case 1: one<K, Op<std::array<uint32_t, 3>>, std::array<uint32_t, 3>>("array"); break;
  default: one<K, Op<std::tuple<std::vector<int32_t>, int64_t>>, std::tuple<std::vector<int32_t>, int64_t>>("tuple with vector"); } }
#if WHAT == 0
extern "C" void symx_main() {
  vlen = 0; int t = (int)sym_choose("type", 8); vlen = (t == 4 || t == 6) ? sym_choose("length", VSIZE + 1) : 0; int op = (int)sym_choose("operator", 8);
  if (t < 4) switch (op) { case 0: arith<Plus, PlusOp>(t, 0); break; case 1: arith<Max, MaxOp>(t, 0); break; case 2: arith<Min, MinOp>(t, 0); break; case 3: arith<And, AndOp>(t, 0); break; case 4: arith<Or, OrOp>(t, 0); break; case 5: arith<BAnd, BitAndOp>(t, 0); break; case 6: arith<BOr, BitOrOp>(t, 0); break; default: arith<BXor, BitXorOp>(t, 0); }
  else if (t < 7) switch (op) { case 0: boxes<Plus, PlusOp>(t - 4); break; case 1: boxes<Max, MaxOp>(t - 4); break; case 2: boxes<Min, MinOp>(t - 4); break; case 3: boxes<And, AndOp>(t - 4); break; case 4: if (t == 4) one<Or, OrOp<std::vector<int32_t>>, std::vector<int32_t>>("vector"); break; default: sym_end(); }
  else { vlen = VSIZE; switch (op) { case 0: one<Or, PlusOp<std::vector<bool>>, std::vector<bool>>("flags"); break; case 3: one<And, AndOp<std::vector<bool>>, std::vector<bool>>("flags"); break; case 4: one<Or, OrOp<std::vector<bool>>, std::vector<bool>>("flags"); break; case 5: one<And, AndOp<bool>, bool>("flags"); break; case 6: one<Or, OrOp<bool>, bool>("flags"); break; default: sym_end(); } }
}
#elif WHAT == 1
// messages chained at a tree node: every one is combined into the first, once
using M = ReduceTMsg<int32_t>; using MV = ReduceVecMsg<int32_t>;
extern "C" void symx_main() {
  int n = 1 + (int)sym_choose("messages", 4); uint32_t sum = 0; int32_t big = INT32_MIN, v[4]; M* m[4]; alignas(M) static char room[4][sizeof(M)];
  for (int i = 0; i < n; i++) { v[i] = sym_i32("value"); m[i] = ::new (room[i]) M{v[i]}; if (i) m[i - 1]->next_ = m[i]; sum += (uint32_t)v[i]; big = v[i] > big ? v[i] : big; }
  if (sym_choose("operator", 2)) { reduce::operators::ReduceCombine<>::msgHandler<M, PlusOp<int32_t>, reduce::operators::NoCombine>(m[0]); sym_assert((uint32_t)m[0]->getVal() == sum, "the combined message holds the sum of all of them"); }
  else { reduce::operators::ReduceCombine<>::msgHandler<M, MaxOp<int32_t>, reduce::operators::NoCombine>(m[0]); sym_assert(m[0]->getVal() == big, "the combined message holds the largest of all of them"); }
  for (int i = 1; i < n; i++) sym_assert(m[i]->getVal() == v[i], "the other contributions are left alone"); sym_cover("chain");
}
#else
// statistics of loads: combination in pairs of pairs
using vt::vrt::collection::balance::LoadData;
static double moment(int const* x, int n, int p) { int s = 0; for (int i = 0; i < n; i++) s += x[i]; long r = 0; for (int i = 0; i < n; i++) { long d = (long)x[i] * n - s, q = 1; for (int k = 0; k < p; k++) q *= d; r += q; } return (double)r; }
extern "C" void symx_main() {
  int n = 2 << sym_choose("pairs", 2), x[4]; LoadData d[4]; int s = 0, lo = 1 << 20, hi = 0, nz = 0;
  for (int i = 0; i < n; i++) { x[i] = n == 4 && i < 2 ? (int)sym_choose("first loads", MASK + 1) : sym_u8("load") & MASK; d[i] = LoadData{vt::vrt::collection::lb::Statistic::Object_load_modeled, (double)x[i]}; s += x[i]; lo = x[i] < lo ? x[i] : lo; hi = x[i] > hi ? x[i] : hi; nz += x[i] != 0; }
  LoadData a = d[0]; PlusOp<LoadData>{}(a, d[1]); if (n == 4) { LoadData b = d[2]; PlusOp<LoadData>{}(b, d[3]); PlusOp<LoadData>{}(a, b); sym_cover("four"); }
  sym_assert(a.sum() == (double)s && a.N_ == n && a.npr() == nz, "sum and counts are exact"); sym_assert(a.min() == (double)lo && a.max() == (double)hi, "extremes are exact"); sym_assert(a.avg() * n == (double)s, "the mean is exact");
  sym_assert(a.M2_ * (n * n) == moment(x, n, 2), "the second moment is exact"); sym_assert(a.M3_ * (n * n * n) == moment(x, n, 3), "the third moment is exact"); sym_assert(a.M4_ * (n * n * n * n) == moment(x, n, 4), "the fourth moment is exact");
}
#endif
