// Interval set of integers against a bit-mask model: symbolic values at a symbolic base.
#include "sym.h"
#include "vt/config.h"
#include <limits>
#ifndef THOROUGH
#define THOROUGH 0
#endif
#include <type_traits>
#include "vt/termination/interval/integral_set.h"
#include "vt/termination/interval/strong_integral_set.h"
#include "vt/epoch/epoch_type.h"
#ifndef OPS
#define OPS 4
#endif
#ifndef WIN
#define WIN 14
#endif
// The model is the list of operations: membership of q is decided by folding it.
template <typename D> struct Base {
  vt::IntegralSet<D> s;
  struct Op { bool add; D lo, hi; } ops[OPS + 8]; int n = 0;
  uint64_t size = 0, runs = 0;
  bool has(D q) const { bool r = false; for (int i = 0; i < n; i++) { bool in = (q >= ops[i].lo) & (q <= ops[i].hi); r = ops[i].add ? (r | in) : (r & !in); } return r; }
  static D inner(char const* nm) { D v = static_cast<D>(sym_u64(nm)); 
    if (sizeof(D) == 1) sym_assume(v >= (std::numeric_limits<D>::is_signed ? -WIN - 1 : 2) && v <= WIN); else sym_assume(v > std::numeric_limits<D>::min() + 1 && v < std::numeric_limits<D>::max() - 8); /* zero included */ return v; }
  void cheap() {
    sym_assert(s.size() == size, "size is the number of values in the set");
    sym_assert(s.empty() == (size == 0), "empty iff no value");
    sym_assert(s.compressedSize() == runs, "number of intervals is the number of maximal runs");
    D q = static_cast<D>(sym_u64("q"));
    sym_assert(s.contains(q) == has(q), "contains answers membership");
  }
  void full() {
    cheap();
    uint64_t c = 0; D prev{};
    for (auto&& v : s) {
      if (c >= size) { sym_fail("iteration visits too many values"); break; }
      sym_assert(has(v), "iteration visits members only");
      sym_assert(c == 0 || v > prev, "iteration is ascending, each value once");
      if (c == 0) sym_assert(s.lower() == v, "lower is the smallest value");
      prev = v; c++;
    }
    sym_assert(c == size, "iteration visits every value");
    if (size) { sym_assert(s.upper() == prev, "upper is the largest value"); sym_assert(s.range() == static_cast<D>(s.upper() - s.lower()), "range is the span"); }
    c = 0;
    for (auto it = s.rbegin(); it != s.rend(); ++it) {
      if (c >= size) { sym_fail("reverse iteration visits too many values"); break; }
      sym_assert(has(*it) && (c == 0 || *it < prev), "reverse iteration is descending over the members"); prev = *it; c++;
    }
    sym_assert(c == size, "reverse iteration visits every value");
    unsigned cnt = 0;
    for (auto it = s.ibegin(); it != s.iend(); ++it) {
      if (cnt > 2 * OPS + 4) { sym_fail("too many intervals"); break; }
      sym_assert(it->lower() <= it->upper(), "intervals are non-empty");
      sym_assert(has(it->lower()) && has(it->upper()) && !has(static_cast<D>(it->lower() - 1)) && !has(static_cast<D>(it->upper() + 1)), "intervals are maximal runs");
      cnt++;
    }
    sym_assert(cnt == runs, "interval iteration agrees with the interval count");
  }
  void add(D lo, D hi, uint64_t w) {
    runs += 1; runs -= has(static_cast<D>(lo - 1)); runs -= has(static_cast<D>(hi + 1)); size += w; ops[n++] = Op{true, lo, hi};
  }
  void ins() { D v = inner("v"); sym_assume(!has(v)); s.insert(v); add(v, v, 1); }
  void insIv() {
    D lo = inner("lo"); int w = 2 + 2 * sym_choose("width", 2); D hi = static_cast<D>(lo + static_cast<D>(w - 1));
    for (int i = 0; i < w; i++) sym_assume(!has(static_cast<D>(lo + static_cast<D>(i))));
    typename vt::IntegralSet<D>::IntervalType iv(lo, hi); s.insertInterval(iv); add(lo, hi, w); sym_cover("interval");
  }
  void er() {
    D v = inner("e"); sym_assume(has(v)); s.erase(v); sym_cover("erase");
    runs -= 1; runs += has(static_cast<D>(v - 1)); runs += has(static_cast<D>(v + 1)); size -= 1; ops[n++] = Op{false, v, v};
  }
  void clear() { s.clear(); n = 0; size = runs = 0; sym_cover("clear"); }
};
template <typename D> static void run() {
  Base<D> b;
  for (int i = 0; i < OPS; i++) {
    switch (sym_choose("op", i == 0 ? 2 : 4)) {
    case 0: b.insIv(); break;
    case 1: b.ins(); break;
    case 2: b.er(); break;
    default: b.clear(); break;
    }
  }
  b.full();
}
// copies are independent sets
template <typename D> static void copies() {
  Base<D> a;
  if (sym_bool("interval")) a.insIv(); else a.ins();
#if THOROUGH
  if (sym_bool("two")) a.ins();
#endif
  if (sym_bool("erase first")) a.er();
  switch (sym_choose("how", 3)) {
  case 0: { Base<D>* c = new Base<D>(a); c->ins(); a.ins(); a.full(); if (THOROUGH) c->er(); c->full(); break; }
  case 1: { Base<D>* c = new Base<D>(std::move(a)); c->ins(); if (THOROUGH) c->er(); c->full(); sym_cover("moved"); break; }
  default: { Base<D> b; if (sym_bool("nonempty")) b.ins(); b = a; b.ins(); a.ins(); a.full(); if (THOROUGH) b.er(); b.full(); sym_cover("assigned"); break; }
  }
}
// a full-range interval: erase and re-insert at and inside its bounds
template <typename D> static void wide() {
  D lo = static_cast<D>(sym_u64("lo")), hi = static_cast<D>(sym_u64("hi"));
  sym_assume(lo > std::numeric_limits<D>::min() && lo < hi && hi <= std::numeric_limits<D>::max() - 1 && hi > 4 && static_cast<D>(hi - 4) >= lo && (lo >= 0 || hi < static_cast<D>(std::numeric_limits<D>::max() + lo)));
  vt::IntegralSet<D> s; typename vt::IntegralSet<D>::IntervalType iv(lo, hi); s.insertInterval(iv);
  std::size_t n = static_cast<std::size_t>(static_cast<std::make_unsigned_t<D>>(static_cast<D>(hi - lo))) + 1;
  sym_assert(s.size() == n && s.compressedSize() == 1 && s.lower() == lo && s.upper() == hi, "one interval");
  D v = static_cast<D>(sym_u64("v")), w = static_cast<D>(sym_u64("w")), q = static_cast<D>(sym_u64("q")); sym_assume(v >= lo && v <= hi && w >= lo && w <= hi && w != v);
  s.erase(v); sym_assert(s.size() == n - 1 && s.contains(q) == (q >= lo && q <= hi && q != v), "all but the erased value remain");
  sym_assert(s.compressedSize() == (v == lo || v == hi ? 1u : 2u), "erasing splits only inside");
  s.erase(w); sym_assert(s.size() == n - 2 && s.contains(q) == (q >= lo && q <= hi && q != v && q != w), "all but the two erased values remain");
  sym_assert(s.lower() == (v == lo ? (w == lo + 1 ? static_cast<D>(lo + 2) : static_cast<D>(lo + 1)) : w == lo ? (v == lo + 1 ? static_cast<D>(lo + 2) : static_cast<D>(lo + 1)) : lo), "lower bound follows erasures");
  D f = sym_bool("which") ? v : w, g = f == v ? w : v;
  s.insert(f); sym_assert(s.size() == n - 1 && s.contains(q) == (q >= lo && q <= hi && q != g), "re-inserted value is back");
  sym_assert(s.compressedSize() == (g == lo || g == hi ? 1u : 2u), "re-insertion re-joins");
  s.insert(g); sym_assert(s.size() == n && s.compressedSize() == 1 && s.contains(q) == (q >= lo && q <= hi) && s.lower() == lo && s.upper() == hi, "back to one interval");
  sym_cover("wide");
}
static void strong() {
  using E = vt::EpochType; vt::StrongIntegralSet<E> s;
  uint64_t base = sym_u64("base"); sym_assume(base < ~0ull - 20);
  E a{base + 1}, b{base + 2}; E c{base + 1 + sym_range("c", 2, 8)};
  s.insert(a); s.insert(c); s.insert(b);
  sym_assert(s.size() == 3 && s.contains(a) && s.contains(b) && s.exists(c) && s.lower() == a && s.upper() == c, "typed set");
  sym_assert(s.compressedSize() == (*c == base + 3 ? 1u : 2u), "typed set intervals");
  s.erase(a); sym_assert(s.size() == 2 && !s.contains(a) && s.contains(b) && s.lower() == b, "typed set erase");
  s.clear(); sym_assert(s.empty() && s.size() == 0 && !s.contains(b), "typed set clear");
}
extern "C" void symx_main() {
#if KIND == 0
  run<uint8_t>();
#elif KIND == 1
  run<int8_t>();
#elif KIND == 2
  copies<uint8_t>();
#elif KIND == 3
  run<uint64_t>();
#else
  switch (sym_choose("kind", 4)) {
  #if THOROUGH
  case 0: wide<uint64_t>(); break;
  case 1: wide<int64_t>(); break;
  case 2: wide<int>(); break;
#else
  case 0: wide<uint8_t>(); break;
#endif
  default: strong(); break;
  }
#endif
}
