#include "sym.h"
#include "vt/config.h"
#include "vt/topos/index/index.h"
#include "vt/topos/mapping/mapping_headers.h"
#include "vt/topos/mapping/dense/unbounded_default.h"
#include "vt/topos/mapping/dense/unbounded_default.impl.h"
using namespace vt; using namespace vt::mapping;
#ifndef EXT
#define EXT 6
#define RANKS 5
#define FLAT uint8_t
#define FR 8
#endif
template <int8_t N> using Ix = index::DenseIndexArray<int, N>;
template <int8_t N> static Ix<N> box(unsigned lim) { std::array<int, N> e; for (int i = 0; i < N; i++) e[i] = (int)sym_range("extent", 1, lim); return Ix<N>(e); }
template <int8_t N> static Ix<N> in(Ix<N> m) { std::array<int, N> e; for (int i = 0; i < N; i++) { e[i] = (int)sym_u32("coord"); sym_assume((e[i] >= 0) & (e[i] < m.raw()[i])); } return Ix<N>(e); }
template <int8_t N> static int64_t vol(Ix<N> const& m) { int64_t v = 1; for (int i = 0; i < N; i++) v *= m.raw()[i]; return v; }
template <int8_t N> static void linear() {
  unsigned lim = N == 1 ? 40 : N == 2 ? 12 : EXT; auto m = box<N>(lim); auto a = in<N>(m), b = in<N>(m); int64_t v = vol<N>(m);
  bool row = sym_bool("row major"); auto lin = [&](Ix<N>& x) { return row ? linearizeDenseIndexRowMajor<int, N>(&x, &m) : linearizeDenseIndexColMajor<int, N>(&x, &m); };
  int64_t la = lin(a), lb = lin(b); sym_assert(la >= 0 && la < v, "a linear position lies in 0..size-1"); sym_assert((la == lb) == (a == b), "positions agree exactly when the indices do"); sym_cover("linear");
}
// blocks of consecutive positions: in range, monotone, no empty-versus-double: the block of rank r is exactly [r*q+min(r,rem), ...)
static void flat() {
  NodeType p = (NodeType)(1 + sym_choose("ranks", FR)); FLAT n0 = (FLAT)sym_u16("elems"), i0 = (FLAT)sym_u16("pos"); int n = n0, i = i0; sym_assume(i < n);
  int pos = i, num = n; NodeType r = blockMapDenseFlatIndex<int, NodeType>(&pos, &num, p); sym_assert(r >= 0 && r < p, "the rank is valid");
  int q = n / p, rem = n % p; int lo = r * q + (r < rem ? r : rem), hi = lo + q + (r < rem ? 1 : 0);
  sym_assert(i >= lo && i < hi, "ranks own contiguous blocks in order, sizes differing by at most one"); sym_assert(pos == i && num == n, "the arguments are unchanged"); sym_cover("flat");
}
template <int8_t N> static NodeType blockOf(Ix<N>& a, Ix<N>& m, NodeType p, int form) {
  if constexpr (N == 1) return form == 0 ? dense1DBlockMap<int>(&a, &m, p) : form == 1 ? defaultDenseIndex1DMap<int>(&a, &m, p) : dense1DRoundRobinMap<int>(&a, &m, p);
  else if constexpr (N == 2) return form == 0 ? dense2DBlockMap<int>(&a, &m, p) : form == 1 ? defaultDenseIndex2DMap<int>(&a, &m, p) : dense2DRoundRobinMap<int>(&a, &m, p);
  else if constexpr (N == 3) return form == 0 ? dense3DBlockMap<int>(&a, &m, p) : form == 1 ? defaultDenseIndex3DMap<int>(&a, &m, p) : dense3DRoundRobinMap<int>(&a, &m, p);
  else return form == 0 ? denseNDBlockMap<int, N>(&a, &m, p) : form == 1 ? defaultDenseIndexNDMap<int, N>(&a, &m, p) : denseNDRoundRobinMap<int, N>(&a, &m, p);
}
template <int8_t N> static void maps() {
  auto m = box<N>(N == 1 ? 4 * EXT : EXT); for (int i = 0; i < N; i++) m[i] = (int)sym_concretize((uint64_t)m[i]);
  auto a = in<N>(m); NodeType p = (NodeType)sym_choose("ranks", RANKS) + 1; int form = (int)sym_choose("form", 3);
  int64_t n = vol<N>(m), l = 0; for (int i = 0; i < N; i++) l = l * m.raw()[i] + a.raw()[i]; // first coordinate outermost
  NodeType r = blockOf<N>(a, m, p, form); sym_assert(r >= 0 && r < p, "the rank is valid");
  if (form == 2) sym_assert(r == l % p, "round robin is position modulo ranks");
  else { int64_t q = n / p, rem = n % p, lo = r * q + (r < rem ? r : rem); sym_assert(l >= lo && l < lo + q + (r < rem ? 1 : 0), "block mapping splits the linear order evenly"); }
  sym_cover("maps");
}
template <typename I, int N> static void unbounded() {
  NodeType p = (NodeType)sym_range("ranks", 1, 32767); I a; for (int i = 0; i < N; i++) a[i] = (typename I::DenseIndexType)sym_u64("coord"); I b = a;
  UnboundedDefaultMap<I> m; NodeType r = m.map(&a, N, p); sym_assert(r >= 0 && r < p, "an unbounded index is mapped to a valid rank"); sym_assert(m.map(&b, N, p) == r, "always the same one"); sym_cover("unbounded");
}
extern "C" void symx_main() {
  switch (WHAT == 0 ? sym_choose("what", 3) : WHAT == 1 ? 3 : WHAT == 2 ? 4 + sym_choose("what", 3) : 7 + sym_choose("what", 3)) {
  case 0: linear<1>(); break; case 1: linear<2>(); break; case 2: linear<3>(); break; case 3: flat(); break;
  case 4: maps<1>(); break; case 5: maps<2>(); break; case 6: maps<3>(); break;
  case 7: unbounded<Ix<1>, 1>(); break; case 8: unbounded<Ix<2>, 2>(); break; default: unbounded<index::DenseIndexArray<int64_t, 3>, 3>(); break;
  }
}
