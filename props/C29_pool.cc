// Message allocator: any sequence of allocations, releases and in-place growth, any sizes.
#include "sym.h"
#include "vt/config.h"
#include "vt/pool/pool.h"
#include "vt/pool/header/pool_header.h"
#include "vt/pool/static_sized/memory_pool_equal.h"
#include "vt/pool/static_sized/memory_pool_equal.impl.h"
#ifndef OPS
#define OPS 4
#endif
using namespace vt; using namespace vt::pool; using H = HeaderManager;
struct B { std::byte* p; uint64_t n, over; unsigned char tag; bool marked; };
static B blk[OPS + 1]; static int nb = 0;
// requested sizes: every value around each class boundary, by class
static uint64_t size(char const* nm) { return sym_range(nm, 0, 5000); }
static void check(Pool& P, B& b) {
  sym_assert(H::getHeaderBytes(b.p) == b.n, "the recorded size reads back");
  sym_assert(P.allocatedSize(b.p) >= b.n + b.over, "the recorded total covers the request and its spare room");
  uint64_t const room = sym_room(b.p);
  sym_assert(room >= P.allocatedSize(b.p), "the block really holds the recorded total");
  sym_assert(P.remainingSize(b.p) <= room - b.n, "the spare room reported is there");
  if (b.marked) sym_assert((unsigned char)b.p[0] == b.tag, "no other allocation wrote into this one");
}
static void fill(B& b) { b.tag = (unsigned char)(0x40 + nb); b.marked = b.n + b.over > 0; if (b.marked) b.p[0] = (std::byte)b.tag; }
extern "C" void symx_main() {
  delete new Pool; uint64_t const base = sym_live_allocs();
  auto& P = *new Pool;
  for (int i = 0; i < OPS; i++) {
    uint64_t op = sym_choose("op", nb ? 3 : 1);
    if (op == 0) {
      B b; b.n = size("size"); b.over = sym_bool("spare?") ? size("spare") : 0;
      if (b.n + b.over > 1024) { static uint64_t const tot[4] = {1025, 1026, 1100, 5000}; sym_assume(b.n + b.over == tot[sym_choose("total", 4)]); }
      b.p = P.alloc(b.n, b.over); 
      sym_assert(b.p != nullptr, "memory is handed out");
      for (int k = 0; k < nb; k++) sym_assert(blk[k].p != b.p, "live allocations are distinct");
      if (sym_room(b.p) < b.n + b.over) sym_fail("the block is smaller than the request");
      fill(b); blk[nb++] = b; sym_cover("alloc");
    } else if (op == 1) {
      int k = (int)sym_choose("which", nb); P.dealloc(blk[k].p); blk[k] = blk[--nb]; sym_cover("dealloc");
    } else {
      int k = (int)sym_choose("which", nb); B& b = blk[k]; uint64_t g = size("grow"); uint64_t const before = P.allocatedSize(b.p), rem = P.remainingSize(b.p);
      if (P.tryGrowAllocation(b.p, g)) {
        sym_assert(g <= rem, "only grown into remaining space");
        sym_assert(P.allocatedSize(b.p) >= b.n + g, "the growth is recorded"); if (!b.over) sym_assert(P.allocatedSize(b.p) == before + g, "the growth is recorded exactly");
        b.n += g; b.over = b.over > g ? b.over - g : 0; sym_cover("grow");
      } else { sym_assert(P.allocatedSize(b.p) == before && g > rem, "refused growth changes nothing, and is refused only for lack of room"); sym_cover("grow refused"); }
    }
    for (int k = 0; k < nb; k++) check(P, blk[k]);
  }
  // whatever was freed or grown: further allocations of each class still get whole blocks of their own
  std::byte* q[4]; uint64_t const sz[4] = {64, 64, 1024, 1024};
  for (int i = 0; i < 4; i++) { q[i] = P.alloc(sz[i], 0); sym_assert(sym_room(q[i]) >= sz[i], "a later block is whole"); for (int k = 0; k < nb; k++) sym_assert(blk[k].p != q[i], "and its own"); for (int k = 0; k < i; k++) sym_assert(q[k] != q[i], "and not shared"); for (int k = 0; k < nb; k++) check(P, blk[k]); }
  for (int i = 0; i < 4; i++) P.dealloc(q[i]);
  while (nb) P.dealloc(blk[--nb].p);
  delete &P; sym_assert(sym_live_allocs() == base, "every block went back to where it came from");
  sym_cover("done");
}
