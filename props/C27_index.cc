#include "sym.h"
#include "vt/config.h"
#include "vt/topos/index/index.h"
#include "vt/utils/bits/bits_common.h"
using namespace vt;
#ifndef DIM
#define DIM 4
#endif
template <typename T, int8_t N> using Ix = index::DenseIndexArray<T, N>;
template <typename T, int8_t N> static Ix<T, N> mk(char const* n) { std::array<T, N> a; for (int i = 0; i < N; i++) a[i] = (T)sym_u64(n); return Ix<T, N>(a); }
template <typename T, int8_t N> static bool same(Ix<T, N> const& a, Ix<T, N> const& b) { bool r = true; for (int i = 0; i < N; i++) r = r & (a.raw()[i] == b.raw()[i]); return r; }
template <typename T, int8_t N> static bool fits(Ix<T, N> const& a) { // coordinates that fit into 64/N bits (negative ones fit when a whole coordinate does)
  bool r = true; unsigned nb = 64 / N; for (int i = 0; i < N; i++) if (nb < sizeof(T) * 8) r = r & (a.raw()[i] >= 0) & ((uint64_t)a.raw()[i] < (1ull << nb)); return r; }
template <typename T, int8_t N> static void pack() {
  auto a = mk<T, N>("a"), b = mk<T, N>("b"); sym_assume(fits(a) & fits(b)); auto pa = a.uniqueBits(), pb = b.uniqueBits();
  auto c = Ix<T, N>::uniqueBitsToIndex(pa); sym_assert(same<T, N>(c, a), "packing and rebuilding an index gives the index back");
  sym_assert((pa == pb) == same<T, N>(a, b), "packed forms agree exactly when the indices do"); sym_cover("pack");
}
template <typename T, int8_t N> static void order() {
  auto a = mk<T, N>("a"), b = mk<T, N>("b"), c = mk<T, N>("c"); bool eq = same<T, N>(a, b);
  bool e = a == b, l = a < b, g = b < a, bc = b < c, ac = a < c;
  sym_assert(e == eq, "equality is equality of all coordinates"); sym_assert((int)l + (int)g + (int)e == 1, "exactly one of less, greater, equal"); sym_assert(!(l & bc) || ac, "the order is transitive");
  if (eq) sym_assert(std::hash<Ix<T, N>>()(a) == std::hash<Ix<T, N>>()(b), "equal indices hash alike");
  auto p = a + b, m = p - b; sym_assert(same<T, N>(m, a), "adding and subtracting an index cancels");
  bool ok = true; for (int i = 0; i < N; i++) ok = ok & (a[i] == a.raw()[i]) & (a.get(i) == a.raw()[i]) & (p.raw()[i] == (T)(a.raw()[i] + b.raw()[i])); sym_assert(ok, "coordinates read back and add up");
  sym_assert(a.x() == a.raw()[0], "x"); if constexpr (N >= 2) sym_assert(a.y() == a.raw()[1], "y"); if constexpr (N >= 3) sym_assert(a.z() == a.raw()[2], "z");
  if constexpr (N >= 4) sym_assert(a.u() == a.raw()[3], "u"); if constexpr (N >= 5) sym_assert(a.v() == a.raw()[4], "v"); if constexpr (N >= 6) sym_assert(a.w() == a.raw()[5], "w");
  sym_cover("order");
}
template <typename T, int8_t N> static void each(unsigned lim) { // any range with extents 0..lim: an arbitrary index of the box is visited exactly once, and nothing else is
  std::array<T, N> e; for (int i = 0; i < N; i++) e[i] = (T)sym_choose("extent", lim + 1); Ix<T, N> max(e); uint64_t vol = 1; for (int i = 0; i < N; i++) vol *= (uint64_t)e[i];
  uint64_t size = max.getSize(); sym_assert(size == vol, "the size is the product of the extents");
  std::array<T, N> q; bool in = true; for (int i = 0; i < N; i++) { q[i] = (T)sym_range("probe", 0, lim); in = in & (q[i] < e[i]); } Ix<T, N> probe(q);
  uint64_t n = 0, hits = 0; bool ok = true; bool two = sym_bool("form"); auto f = [&](Ix<T, N> x) { n++; hits += x == probe; for (int i = 0; i < N; i++) ok = ok & (x[i] >= 0) & (x[i] < e[i]); };
  if (two) { Ix<T, N> any = max; any.foreach(max, f); } else max.foreach(f);
  sym_assert(n == vol && ok, "only indices of the box are visited"); sym_assert(hits == (in ? 1 : 0), "each index of the box is visited exactly once"); sym_cover("foreach");
}
extern "C" void symx_main() {
  switch (sym_choose("what", 21)) {
  case 0: pack<int, 1>(); break; case 1: pack<int, 2>(); break; case 2: pack<int, 3>(); break; case 3: pack<int, 4>(); break; case 4: pack<int, 5>(); break; case 5: pack<int, 6>(); break;
  case 6: pack<int64_t, 1>(); break; case 7: pack<int64_t, 2>(); break; case 8: pack<int16_t, 3>(); break; case 9: pack<int8_t, 7>(); break; case 10: pack<uint32_t, 2>(); break; case 11: pack<int8_t, 9>(); break;
  case 12: order<int, 1>(); break; case 13: order<int, 2>(); break; case 14: order<int, 3>(); break; case 15: order<int16_t, 4>(); break; case 16: order<int8_t, 6>(); break; case 17: order<int64_t, 2>(); break;
  case 18: each<int, 1>(DIM + 2); break; case 19: each<int, 2>(DIM); break; default: each<int16_t, 3>(DIM - 1); break;
  }
}
