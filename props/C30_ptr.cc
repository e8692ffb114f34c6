// Managed message pointers: any sequence of operations over a few pointers and messages.
#include "sym.h"
#include "vt/config.h"
#include "vt/pool/pool.h"
#include "vt/messaging/message.h"
#include "vt/messaging/message/smart_ptr.h"
#include "vt/messaging/message/shared_message.h"
#include "vt/messaging/message/refs.h"
#include <new>
#ifndef OPS
#define OPS 4
#endif
#ifndef PTRS
#define PTRS 3
#endif
namespace vt {
// records every release, keeps the memory so that a use after it is seen
struct TestPool; static int released = 0; static void* lastReleased = nullptr;
pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(16); }
namespace pool {
std::byte* Pool::alloc(size_t const& n, size_t over) { return reinterpret_cast<std::byte*>(std::malloc(n + over)); }
void Pool::dealloc(std::byte* const b) { released++; lastReleased = b; std::free(b); }
Pool::SizeType Pool::allocatedSize(std::byte* const) const { return 64; }
} }
using namespace vt;
static int destroyed[8]; static int made = 0;
struct M : Message { int id; M() : id(made++) {} ~M() { destroyed[id]++; } };
struct N : M { int extra = 5; };
static int model[PTRS]; // message held by each pointer, -1: none
static int other[PTRS]; // the same for the erased pointers
extern "C" void symx_main() {
  { auto warm = makeMessage<M>(); } destroyed[0] = 0; made = 0; released = 0;
  auto const base = sym_live_allocs();
  MsgPtr<M> p[PTRS] = {nullptr, nullptr
#if PTRS > 2
    , nullptr
#endif
  };
  MsgVirtualPtrAny* any = nullptr; int anyHolds = -1;
  for (int i = 0; i < PTRS; i++) model[i] = -1;
  for (int k = 0; k < 8; k++) destroyed[k] = 0;
  made = 0;
  M* obj[8];
  for (int i = 0; i < OPS; i++) {
    int op = (int)sym_choose("op", 12); int a = (int)sym_choose("to", PTRS);
    switch (op) {
    case 0: { int id = made; p[a] = makeMessage<M>(); obj[id] = p[a].get(); model[a] = id; sym_cover("make"); break; }
    case 1: { int id = made; M* raw = makeSharedMessage<M>(); obj[id] = raw; p[a] = MsgPtr<M>{raw}; model[a] = id; break; }
    case 2: { int b = (int)sym_choose("from", PTRS); p[a] = p[b]; model[a] = model[b]; sym_cover(a == b ? "self copy" : "copy"); break; }
    case 3: { int b = (int)sym_choose("from", PTRS); int m = model[b]; p[a] = std::move(p[b]); model[b] = -1; model[a] = m; sym_cover(a == b ? "self move" : "move"); break; }
    case 4: p[a] = nullptr; model[a] = -1; sym_cover("reset"); break;
    case 5: { if (model[a] < 0) sym_end(); MsgPtr<M> t{p[a]}; sym_assert(envelopeGetRef(t->env) >= 2, "a copy adds a reference"); MsgPtr<M> u{std::move(t)}; sym_assert(t == nullptr && u == p[a], "moved pointer hands over"); break; }
    case 6: { int b = (int)sym_choose("from", PTRS); std::swap(p[a], p[b]); std::swap(model[a], model[b]); sym_cover("swap"); break; }
    case 7: { if (model[a] < 0) sym_end(); delete any; any = new MsgVirtualPtrAny(p[a].toVirtual<ShortMessage>()); anyHolds = model[a]; sym_cover("erase type"); break; }
    case 8: { if (!any) sym_end(); p[a] = any->to<M>(); model[a] = anyHolds; sym_cover("back"); break; }
    case 9: { if (!any) sym_end(); delete any; any = nullptr; anyHolds = -1; break; }
    case 10: { if (model[a] < 0) sym_end(); M* r = p[a].get(); messageRef(r); p[a] = promoteMsg(r); messageDeref(r); sym_cover("raw reference"); break; }
    default: { if (model[a] < 0) sym_end(); int b = (int)sym_choose("from", PTRS); if (model[b] < 0 || model[b] == model[a]) sym_end(); messaging::MsgPtrThief<M> th{p[b]}; model[b] = -1; p[a] = th.msg_; model[a] = th.msg_->id; sym_cover("thief"); break; }
    }
    for (int m = 0; m < made; m++) {
      int refs = anyHolds == m; for (int k = 0; k < PTRS; k++) refs += model[k] == m;
      sym_assert(destroyed[m] == (refs ? 0 : 1), "a message lives exactly while it is referenced");
      if (refs) sym_assert(envelopeGetRef(obj[m]->env) == refs, "the count equals the number of references");
    }
    for (int k = 0; k < PTRS; k++) {
      sym_assert(p[k].ownsMessage() == (model[k] >= 0), "a pointer owns what it was given");
      if (model[k] >= 0) sym_assert(p[k].get() == obj[model[k]] && p[k]->id == model[k], "and points to it");
    }
  }
  for (int k = 0; k < PTRS; k++) p[k] = nullptr; delete any;
  for (int m = 0; m < made; m++) sym_assert(destroyed[m] == 1, "each message is destroyed once");
  sym_assert(released == made, "and its memory released once"); sym_assert(sym_live_allocs() == base, "nothing is left"); sym_cover("done");
}
