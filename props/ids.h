// Generic part of the identifier checks: each field setter, applied to a word with arbitrary contents,
// makes exactly that field read back the value and leaves every other field as it was.
#pragma once
#include "sym.h"
struct Field { char const* name; uint64_t max; uint64_t (*get)(uint64_t); void (*set)(uint64_t&, uint64_t); };
template <int N> static void checkSetters(Field const (&f)[N]) {
  uint64_t w = sym_u64("word"); uint64_t before[N];
  for (int i = 0; i < N; i++) before[i] = f[i].get(w);
  int k = (int)sym_choose("field", N); uint64_t v = sym_range("value", 0, f[k].max); f[k].set(w, v);
  sym_assert(f[k].get(w) == v, "the field reads back what was set");
  for (int i = 0; i < N; i++) if (i != k) sym_assert(f[i].get(w) == before[i], "setting a field leaves the others alone");
  sym_cover("setters");
}
// node numbers travel as unsigned 16 bit values in the fields
static inline uint64_t un(int16_t n) { return (uint64_t)(uint16_t)n; }
