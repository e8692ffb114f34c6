// Circular buffer against a reference sequence: symbolic operations, symbolic payloads.
#include "sym.h"
#include "vt/utils/container/circular_buffer.h"
#ifndef OPS
#define OPS 9
#endif
template <int CAP>
static void ring() {
  vt::util::container::CircularBuffer<uint32_t, CAP> b;
  uint32_t model[OPS + 1]; int front = 0, back = 0; // model queue: model[front..back)
  auto check = [&] {
    int n = back - front;
    sym_assert(b.size() == n, "size is the number of elements pushed and not popped");
    sym_assert(b.numFree() == CAP - 1 - n, "free count is capacity minus one minus size");
    sym_assert(b.empty() == (n == 0), "empty iff no element");
    sym_assert(b.full() == (n == CAP - 1), "full iff no free slot");
  };
  check();
  for (int i = 0; i < OPS; i++) {
    switch (sym_choose("op", 4)) {
    case 0: { if (back - front >= CAP - 1) sym_end(); uint32_t v = sym_u32("v"); b.push(v); model[back++] = v; sym_cover("push copy"); break; }
    case 1: { if (back - front >= CAP - 1) sym_end(); uint32_t v = sym_u32("v"), c = v; b.push(std::move(c)); model[back++] = v; break; }
    case 2: { if (back - front >= CAP - 1) sym_end(); uint32_t v = sym_u32("v"); b.emplace(v); model[back++] = v; break; }
    default: { if (back == front) sym_end(); uint32_t g = b.pop(); sym_assert(g == model[front], "pop returns the oldest element"); front++; sym_cover("pop"); break; }
    }
    check();
  }
  while (front < back) { uint32_t g = b.pop(); sym_assert(g == model[front], "drain returns the elements in order"); front++; check(); }
  if (back > CAP) sym_cover("wrapped");
}
extern "C" void symx_main() {
  switch (sym_choose("capacity", 4)) {
    case 0: ring<2>(); break;
    case 1: ring<3>(); break;
    case 2: ring<4>(); break;
    default: ring<6>(); break;
  }
}
