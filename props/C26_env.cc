#include "ids.h"
#include "vt/config.h"
#include "vt/messaging/envelope.h"
#include "vt/messaging/envelope/envelope_setup.h"
using namespace vt; using vt::messaging::envelopeIsLocked;
using namespace vt::messaging;
// one envelope kind per instantiation: 0 plain, 1 epoch, 2 tag, 3 epoch+tag, 4 put
template <typename E> struct Attr { char const* n; unsigned bits; uint64_t (*get)(E&); void (*set)(E&, uint64_t); };
#define G(X) [](E& e) -> uint64_t { return X; }
#define S_(X) [](E& e, uint64_t v) { X; }
template <typename E, bool EP, bool TG, bool PUT> static void run() {
  static Attr<E> const a[] = {
    {"dest", 16, G((uint16_t)envelopeGetDest(e)), S_(envelopeSetDest(e, (NodeType)v))}, {"han", 64, G((uint64_t)envelopeGetHandler(e)), S_(envelopeSetHandler(e, (HandlerType)v))},
    {"ref", 16, G((uint16_t)envelopeGetRef(e)), S_(envelopeSetRef(e, (RefType)v))}, {"group", 64, G(envelopeGetGroup(e)), S_(envelopeSetGroup(e, v))},
#if vt_check_enabled(priorities)
#define PRIO(x) x
#else
#define PRIO(x) 0
#endif
    {"prio", 16, G(PRIO(envelopeGetPriority(e))), S_(PRIO(envelopeSetPriority(e, (PriorityType)v)))}, {"level", 8, G(PRIO((uint8_t)envelopeGetPriorityLevel(e))), S_(PRIO(envelopeSetPriorityLevel(e, (PriorityLevelType)v)))},
    {"ser", 1, G(envelopeHasBeenSerialized(e)), S_(envelopeSetHasBeenSerialized(e, v))}, {"comm", 1, G(envelopeCommLBDataRecordedAboveBareHandler(e)), S_(envelopeSetCommLBDataRecordedAboveBareHandler(e, v))},
    {"pipe", 0, G(envelopeIsPipe(e)), S_(setPipeType(e))}, {"term", 0, G(envelopeIsTerm(e)), S_(setTermType(e))}, {"packed", 0, G(envelopeIsPackedPutType(e)), S_(setPackedPutType(e))},
    {"bcast", 0, G(envelopeIsBcast(e)), S_(setBroadcastType(e, v))}, {"deliver", 0, G(envelopeIsBcast(e) && envelopeGetDeliverBcast(e)), nullptr}, {"locked", 1, G(envelopeIsLocked(e)), nullptr},
    {"isepoch", 0, G(envelopeIsEpochType(e)), nullptr}, {"istag", 0, G(envelopeIsTagType(e)), nullptr}, {"isput", 0, G(envelopeIsPut(e)), nullptr},
    {"epoch", 64, EP ? G(EP ? *envelopeGetEpoch(e) : 0) : G(0), EP ? S_(if (EP) envelopeSetEpoch(e, EpochType{v})) : nullptr},
    {"tag", 32, TG ? G(TG ? (uint32_t)envelopeGetTag(e) : 0) : G(0), TG ? S_(if (TG) envelopeSetTag(e, (TagType)v)) : nullptr},
    {"ptr", 64, PUT ? G(PUT ? (uint64_t)envelopeGetPutPtr(e) : 0) : G(0), PUT ? S_(if (PUT) envelopeSetPutPtrOnly(e, (std::byte*)v)) : nullptr},
    {"size", 64, PUT ? G(PUT ? envelopeGetPutSize(e) : 0) : G(0), PUT ? S_(if (PUT) envelopeSetPutPtr(e, envelopeGetPutPtr(e), v)) : nullptr},
    {"ptag", 32, PUT ? G(PUT ? (uint32_t)envelopeGetPutTag(e) : 0) : G(0), PUT ? S_(if (PUT) envelopeSetPutTag(e, (TagType)v)) : nullptr},
  };
  constexpr int N = sizeof a / sizeof *a; E e, f; sym_buf(&e, sizeof e, "memory"); sym_buf(&f, sizeof f, "memory2");
  envelopeInitEmpty(e); envelopeInitEmpty(f);
  for (int i = 0; i < N; i++) { uint64_t x = a[i].get(e), y = a[i].get(f); sym_assert(x == y, "a fresh envelope's attributes do not depend on the memory it is built in"); }
  sym_assert(!envelopeIsPipe(e) && !envelopeIsTerm(e) && !envelopeIsBcast(e) && !envelopeIsPackedPutType(e) && !envelopeIsLocked(e) && !envelopeHasBeenSerialized(e), "a fresh envelope has no flag set");
  sym_assert(envelopeIsEpochType(e) == EP && envelopeIsTagType(e) == TG && envelopeIsPut(e) == PUT, "a fresh envelope knows its kind");
  sym_assert(envelopeGetDest(e) == uninitialized_destination && envelopeGetHandler(e) == uninitialized_handler && envelopeGetRef(e) == not_shared_message && envelopeGetGroup(e) == default_group, "a fresh envelope is addressed to nobody");
  if (EP) sym_assert(a[17].get(e) == *no_epoch, "no epoch"); if (TG) sym_assert(a[18].get(e) == (uint32_t)no_tag, "no tag");
  // arbitrary attribute values, then one more setter
  for (int i = 0; i < N; i++) if (a[i].set && i != 11) if (a[i].bits || sym_bool("flag")) a[i].set(e, a[i].bits == 0 ? 0 : sym_u64(a[i].n) & (a[i].bits >= 64 ? ~0ull : (1ull << a[i].bits) - 1));
  bool bc = sym_bool("bcast"); if (bc) setBroadcastType(e, sym_bool("deliver"));
  uint64_t before[N]; for (int i = 0; i < N; i++) before[i] = a[i].get(e);
  int k = (int)sym_choose("attr", N + 2);
  if (k == N) { E c; sym_buf(&c, sizeof c, "copy"); envelopeInitEmpty(c); uint64_t r = sym_range("r", 0, 1000); envelopeSetRef(c, (RefType)r); bool lk = sym_bool("lock"); if (lk) envelopeSetIsLocked(e, true); envelopeInitCopy(c, e);
    for (int i = 0; i < N; i++) if (i != 2 && i != 13) sym_assert(a[i].get(c) == before[i], "a copied envelope carries every attribute");
    sym_assert(envelopeGetRef(c) == (RefType)r && !envelopeIsLocked(c), "except its own references and lock"); sym_assert(envelopeGetRef(e) == (RefType)before[2], "the source keeps its references"); sym_cover("copy"); return; }
  if (k == N + 1) { // reference count and lock
    uint64_t r = sym_range("r", 0, 1000); envelopeSetRef(e, (RefType)r); envelopeRef(e); envelopeRef(e); sym_assert(envelopeGetRef(e) == (RefType)(r + 2), "references count up");
    sym_assert(envelopeDeref(e) == (RefType)(r + 1) && envelopeGetRef(e) == (RefType)(r + 1), "and down"); envelopeSetIsLocked(e, true); sym_assert(envelopeIsLocked(e), "locks");
    for (int i = 0; i < N; i++) if (i != 2 && i != 13) sym_assert(a[i].get(e) == before[i], "counting and locking change nothing else");
    envelopeInitRecv(e); sym_assert(envelopeGetRef(e) == 0, "a received envelope starts unreferenced"); for (int i = 0; i < N; i++) if (i != 2 && i != 13) sym_assert(a[i].get(e) == before[i], "receiving changes nothing else");
    envelopeUnlockForForwarding(e); sym_assert(!envelopeIsLocked(e), "unlocks"); sym_cover("ref"); return; }
  if (!a[k].set) return;
  uint64_t v = a[k].bits == 0 ? (k == 11 ? (uint64_t)sym_bool("v") : 1) : sym_u64("v") & (a[k].bits >= 64 ? ~0ull : (1ull << a[k].bits) - 1); a[k].set(e, v);
  if (!vt_check_enabled(priorities) && (k == 4 || k == 5)) return;
  if (a[k].bits) sym_assert(a[k].get(e) == v, "an attribute reads back as set"); else sym_assert(a[k].get(e) == 1, "a type flag reads back as set");
  if (k == 11) sym_assert(envelopeGetDeliverBcast(e) == v, "deliver-to-sender reads back as set");
  for (int i = 0; i < N; i++) if (i != k && !(k == 11 && i == 12)) sym_assert(a[i].get(e) == before[i], "setting one attribute never alters another");
  sym_cover("set");
}
extern "C" void symx_main() {
  switch (sym_choose("kind", 5)) {
  case 0: run<Envelope, false, false, false>(); break; case 1: run<EpochEnvelope, true, false, false>(); break; case 2: run<TagEnvelope, false, true, false>(); break;
  case 3: run<EpochTagEnvelope, true, true, false>(); break; default: run<PutShortEnvelope, true, true, true>(); break;
  }
}
