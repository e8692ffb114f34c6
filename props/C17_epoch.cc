// Epoch identifiers: attributes round-trip, stay independent, and determine the identifier.
#include "sym.h"
#include "vt/config.h"
#include "vt/epoch/epoch.h"
#include "vt/epoch/epoch_manip.h"
#include "vt/termination/term_common.h"
using namespace vt; using namespace vt::epoch;
struct At { bool rooted; int16_t node; eEpochCategory cat; uint64_t seq; };
static At attrs() {
  At a; a.rooted = sym_bool("rooted"); a.node = static_cast<int16_t>(sym_range("node", 0, 32767)); a.cat = static_cast<eEpochCategory>(sym_range("category", 0, 2));
  a.seq = sym_u64("seq"); sym_assume(a.seq < (1ull << (a.rooted ? epoch_seq_root_num_bits : epoch_seq_coll_num_bits)) - 1); // the last value is reserved by the window
  return a;
}
static EpochType make(At const& a) {
  EpochType e = EpochManip::generateEpoch(a.rooted, a.rooted ? a.node : uninitialized_destination, a.cat);
  sym_assert(EpochManip::seq(e) == 0, "a generated archetype has sequence zero");
  EpochManip::setSeq(e, a.seq); return e;
}
static void check(EpochType e, At const& a) {
  sym_assert(EpochManip::isRooted(e) == a.rooted, "kind round-trips");
  sym_assert(EpochManip::category(e) == a.cat, "category round-trips");
  sym_assert(EpochManip::seq(e) == a.seq, "sequence round-trips");
  if (a.rooted) sym_assert(EpochManip::node(e) == a.node, "node round-trips");
}
extern "C" void symx_main() {
  At a = attrs(); EpochType e = make(a); check(e, a);
  switch (sym_choose("what", 4)) {
  case 0: { At b = attrs(); EpochType f = make(b); check(f, b);
    bool same = a.rooted == b.rooted && a.cat == b.cat && a.seq == b.seq && (!a.rooted || a.node == b.node);
    sym_assert((e == f) == same, "identifiers are equal exactly when all attributes are"); sym_cover("two"); break; }
  case 1: sym_assert(e != no_epoch, "never the no-epoch value");
    sym_assert(e != term::any_epoch_sentinel, "never the any-epoch value"); break;
  case 2: { At b = attrs(); sym_assume(b.rooted == a.rooted); // change one attribute at a time
    a.seq = b.seq; EpochManip::setSeq(e, b.seq); check(e, a);
    a.cat = b.cat; EpochManip::setCategory(e, b.cat); check(e, a);
    if (a.rooted) { a.node = b.node; EpochManip::setNode(e, b.node); check(e, a); }
    sym_assert(e == make(b), "re-set attributes give the same identifier as fresh ones"); sym_cover("setters"); break; }
  default: { EpochType x = e; EpochManip::setSeq(x, 0); At z = a; z.seq = 0; sym_assert(x == make(z), "the archetype differs in the sequence only");
    EpochManip m; sym_assert(m.getArchetype(e) == x, "getArchetype clears the sequence only");
    auto w = m.getTerminatedWindow(e); sym_assert(w != nullptr && m.getTerminatedWindow(x) == w, "an epoch and its archetype share their window");
    if (a.rooted) { At b = attrs(); EpochType f = make(b); bool share = b.rooted && b.node == a.node && b.cat == a.cat; auto w2 = m.getTerminatedWindow(f);
      sym_assert((w2 == w) == share, "rooted epochs share a window exactly when node and category agree");
      EpochType n1 = m.getNextRootedEpoch(a.cat, a.node), n2 = m.getNextRootedEpoch(a.cat, a.node);
      sym_assert(n1 != n2, "successive rooted epochs differ"); At c = a; c.seq = EpochManip::seq(n1); check(n1, c); c.seq = EpochManip::seq(n2); check(n2, c);
      sym_assert(!w->isTerminated(n1) && !w->isTerminated(n2), "issued epochs are in use"); sym_cover("rooted windows"); }
    else { EpochType n1 = m.getNextCollectiveEpoch(), n2 = m.getNextCollectiveEpoch(); sym_assert(n1 != n2, "successive collective epochs differ");
      sym_assert(!EpochManip::isRooted(n1) && !EpochManip::isRooted(n2), "collective epochs are not rooted"); sym_assert(!m.getTerminatedWindow(n1)->isTerminated(n1), "issued epochs are in use"); sym_cover("collective"); }
    break; }
  }
}
