// Bit fields: every offset, width, previous content and value, for each word type.
#include "sym.h"
#include "vt/config.h"
#include "vt/utils/bits/bits_packer.h"
using vt::utils::BitPacker;
enum class En : int8_t { A = 0 };
template <typename F> static uint64_t raw(F f) { return static_cast<uint64_t>(static_cast<std::make_unsigned_t<F>>(f)); }
static uint64_t mask(unsigned n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
// dynamic API: symbolic start, len, content and value
template <typename F, typename V>
static void dyn() {
  unsigned const W = sizeof(F) * 8;
  int64_t start = sym_range("start", 0, W - 1), len = sym_range("len", 1, W);
  sym_assume(start + len <= W);
  F field; sym_buf(&field, sizeof field, "field"); F const old = field;
  V v; sym_buf(&v, sizeof v, "value");
  uint64_t const fm = mask(len) << start;
  uint64_t want = static_cast<uint64_t>(static_cast<int64_t>(v)) & mask(len);
  BitPacker::setFieldDynamic<V, F>(start, len, field, v);
  sym_assert((raw(field) & ~fm & mask(W)) == (raw(old) & ~fm & mask(W)), "bits outside the field keep their value");
  sym_assert(((raw(field) >> start) & mask(len)) == want, "the field holds the value truncated to its width");
  uint64_t got = BitPacker::getFieldDynamic<uint64_t, F>(start, len, field);
  // reading a field narrower than the word gives the unsigned value of the field
  if (len < W) sym_assert(got == want, "reading back yields the truncated value");
  else sym_assert((got & mask(W)) == want, "reading back a full-width field yields the value");
  V got2 = BitPacker::getFieldDynamic<V, F>(start, len, field);
  uint64_t const vm = len < W ? ~0ull : mask(W);
  sym_assert((raw<V>(got2) & vm) == (raw<V>(static_cast<V>(want)) & vm), "reading as the value type yields the truncated value");
  sym_cover("dynamic");
}
template <typename F, int S, int L>
static void fixed() {
  unsigned const W = sizeof(F) * 8;
  F field; sym_buf(&field, sizeof field, "field"); F const old = field;
  uint64_t v = sym_u64("value");
  BitPacker::setField<S, L>(field, v);
  uint64_t const fm = mask(L) << S;
  sym_assert((raw(field) & ~fm & mask(W)) == (raw(old) & ~fm & mask(W)), "fixed field: bits outside keep their value");
  sym_assert(((raw(field) >> S) & mask(L)) == (v & mask(L)), "fixed field: holds the truncated value");
  uint64_t g = BitPacker::getField<S, L, uint64_t>(field);
  sym_assert((g & mask(L)) == (v & mask(L)) && (L == W || g == (v & mask(L))), "fixed field: reads back");
  // booleans
  F b = old; bool on = sym_bool("on");
  BitPacker::boolSetField<S>(b, on);
  sym_assert((raw(b) & ~(1ull << S) & mask(W)) == (raw(old) & ~(1ull << S) & mask(W)), "bool field: other bits keep their value");
  sym_assert(BitPacker::boolGetField<S>(b) == on, "bool field: reads back");
  sym_assert(((raw(b) >> S) & 1) == on, "bool field: the bit is set");
  sym_cover("fixed");
}
template <typename F> static void words() {
  switch (sym_choose("value type", 6)) {
  case 0: dyn<F, uint64_t>(); break;
  case 1: dyn<F, int64_t>(); break;
  case 2: dyn<F, int32_t>(); break;
  case 3: dyn<F, uint16_t>(); break;
  case 4: dyn<F, int8_t>(); break;
  default: dyn<F, F>(); break;
  }
}
extern "C" void symx_main() {
  switch (sym_choose("case", 24)) {
  case 0: words<uint8_t>(); break;
  case 1: words<int8_t>(); break;
  case 2: words<uint16_t>(); break;
  case 3: words<int16_t>(); break;
  case 4: words<uint32_t>(); break;
  case 5: words<int32_t>(); break;
  case 6: words<uint64_t>(); break;
  case 7: words<int64_t>(); break;
  case 8: fixed<uint64_t, 0, 1>(); break;
  case 9: fixed<uint64_t, 63, 1>(); break;
  case 10: fixed<uint64_t, 0, 64>(); break;
  case 11: fixed<uint64_t, 31, 2>(); break;
  case 12: fixed<int64_t, 1, 63>(); break;
  case 13: fixed<int64_t, 32, 32>(); break;
  case 14: fixed<uint32_t, 0, 32>(); break;
  case 15: fixed<int32_t, 31, 1>(); break;
  case 16: fixed<uint32_t, 7, 9>(); break;
  case 17: fixed<int32_t, 0, 31>(); break;
  case 18: fixed<uint16_t, 5, 8>(); break;
  case 19: fixed<uint16_t, 0, 16>(); break;
  case 20: fixed<int16_t, 15, 1>(); break;
  case 21: fixed<uint8_t, 3, 4>(); break;
  case 22: fixed<int8_t, 7, 1>(); break;
  default: fixed<uint8_t, 0, 8>(); break;
  }
}
