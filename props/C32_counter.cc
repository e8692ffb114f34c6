// Ranged counter: any closed range, any reachable position, every step kind.
#include "sym.h"
#include "vt/config.h"
#include "vt/utils/adt/ranged_counter.h"
#ifndef OPS
#define OPS 6
#endif
template <typename T>
static void run() {
  T lo, hi; sym_buf(&lo, sizeof lo, "lo"); sym_buf(&hi, sizeof hi, "hi"); sym_assume(lo <= hi);
  vt::adt::RangedCounter<T> c(lo, hi);
  T cur = lo; // model
  sym_assert(c.get() == lo, "starts at the low bound");
  auto next = [&](T v) -> T { return v == hi ? lo : static_cast<T>(v + 1); };
  auto prev = [&](T v) -> T { return v == lo ? hi : static_cast<T>(v - 1); };
  for (int i = 0; i < OPS; i++) {
    switch (sym_choose("op", 6)) {
    case 0: { auto& r = ++c; cur = next(cur); sym_assert(&r == &c && r.get() == cur, "pre-increment returns the new value"); break; }
    case 1: { auto r = c++; sym_assert(r.get() == cur, "post-increment returns the old value"); cur = next(cur); r++; sym_assert(r.get() == cur, "the returned copy is a counter of the same range"); break; }
    case 2: { auto& r = --c; cur = prev(cur); sym_assert(&r == &c && r.get() == cur, "pre-decrement returns the new value"); break; }
    case 3: { auto r = c--; sym_assert(r.get() == cur, "post-decrement returns the old value"); cur = prev(cur); --r; sym_assert(r.get() == cur, "the returned copy is a counter of the same range"); break; }
    case 4: c.increment(); cur = next(cur); break;
    default: c.decrement(); cur = prev(cur); break;
    }
    sym_assert(c.get() == cur && static_cast<T>(c) == cur, "value is the cyclic successor or predecessor");
    sym_assert(c.get() >= lo && c.get() <= hi, "value in range");
    if (cur == lo) sym_cover("wrapped low"); 
    if (cur == hi) sym_cover("at high");
  }
}
extern "C" void symx_main() {
  switch (sym_choose("type", 5)) {
  case 0: run<uint64_t>(); break;
  case 1: run<int64_t>(); break;
  case 2: run<int32_t>(); break;
  case 3: run<uint8_t>(); break;
  default: run<int8_t>(); break;
  }
}
