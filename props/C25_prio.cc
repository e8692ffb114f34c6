#include "sym.h"
#include "vt/config.h"
#include "vt/scheduler/priority.h"
#include "vt/scheduler/priority_manip.h"
#include "vt/messaging/envelope.h"
#include "vt/messaging/message/message_priority.h"
#include "vt/messaging/message/message_priority.impl.h"
#include "vt/scheduler/prioritized_work_unit.h"
using namespace vt; using namespace vt::messaging; using M = sched::PriorityManip;
static constexpr int L = sched::priority_num_levels; static constexpr unsigned B = sched::priority_level_bits, FULL = (1u << B) - 1;
struct Msg { EpochTagEnvelope env; };
static unsigned lv(PriorityType p, int l) { return M::getPriority(p, (PriorityLevelType)l); }
// outermost level first
static bool less(unsigned const* a, unsigned const* b) { bool r = false; for (int i = L - 1; i >= 0; i--) r = a[i] < b[i] || (a[i] == b[i] && r); return r; }
static void levelsOf(PriorityType p, unsigned* o) { for (int i = 0; i < L; i++) o[i] = lv(p, i); }
extern "C" void symx_main() {
  switch (sym_choose("what", 4)) {
  case 0: { PriorityType f = sym_u16("field"); unsigned before[L]; levelsOf(f, before); PriorityType top = (PriorityType)(f >> (L * B));
    int l = (int)sym_choose("level", L); unsigned p = (unsigned)sym_range("prio", 0, FULL); M::setPriority(f, (PriorityLevelType)l, (PriorityType)p);
    sym_assert(lv(f, l) == p, "a level reads back what was set"); for (int i = 0; i < L; i++) if (i != l) sym_assert(lv(f, i) == before[i], "other levels keep their priority");
    sym_assert((PriorityType)(f >> (L * B)) == top, "bits outside the levels stay"); sym_cover("set"); break; }
  case 1: { PriorityType x = 0, y = 0; unsigned a[L], b[L];
    for (int i = 0; i < L; i++) { a[i] = (unsigned)sym_range("a", 0, FULL); b[i] = (unsigned)sym_range("b", 0, FULL); M::setPriority(x, (PriorityLevelType)i, (PriorityType)a[i]); M::setPriority(y, (PriorityLevelType)i, (PriorityType)b[i]); }
    bool want = less(a, b), ord = x < y; sym_assert(ord == want, "encoded priorities compare level by level from the outermost");
    sched::PriorityUnit u(false, ActionType{}, x), v(false, ActionType{}, y); sym_assert((u < v) == want, "units of work are ordered by their priority"); sym_cover("compare"); break; }
  case 2: { Msg m; sym_buf(&m, sizeof m, "memory"); envelopeInitEmpty(m.env); PriorityType p = sym_u16("prio"); auto l = (PriorityLevelType)sym_range("level", 0, L - 1);
    msgSetPriorityAllLevels(&m, p); msgSetPriorityLevel(&m, l); sym_assert(envelopeGetPriority(m.env) == p && envelopeGetPriorityLevel(m.env) == l, "the envelope keeps priority and level");
    envelopeSetDest(m.env, (NodeType)sym_u16("dest")); envelopeSetGroup(m.env, sym_u64("group")); envelopeSetEpoch(m.env, EpochType{sym_u64("epoch")}); envelopeSetTag(m.env, (TagType)sym_u32("tag")); envelopeSetHandler(m.env, (HandlerType)sym_u64("han"));
    sym_assert(envelopeGetPriority(m.env) == p && envelopeGetPriorityLevel(m.env) == l, "and keeps them when other attributes change"); sym_cover("envelope"); break; }
  default: { // messages sent from a message: same outer levels, own priority at its level, inner levels closed or all set
    Msg o, n; envelopeInitEmpty(o.env); envelopeInitEmpty(n.env); PriorityType po = sym_u16("outer") & ((1 << (L * B)) - 1); int lo = (int)sym_choose("outer_level", L); unsigned p = (unsigned)sym_range("prio", 0, FULL); bool inc = sym_bool("inc");
    envelopeSetPriority(o.env, po); envelopeSetPriorityLevel(o.env, (PriorityLevelType)lo); msgSetPriorityFrom(&o, &n, (PriorityType)p, inc);
    int ln = inc && lo + 1 < L ? lo + 1 : lo; PriorityType pn = envelopeGetPriority(n.env); sym_assert(envelopeGetPriorityLevel(n.env) == ln, "the level deepens by one unless already deepest");
    for (int i = 0; i < L; i++) sym_assert(lv(pn, i) == (i < ln ? lv(po, i) : i == ln ? p : p == FULL ? FULL : 0), "outer levels are inherited, the message's level is set, inner levels are closed");
    sym_assert(envelopeGetPriority(o.env) == po, "the sending message keeps its own");
    Msg q; envelopeInitEmpty(q.env); bool ok = msgIncPriorityLevel(&o, &q); sym_assert(ok == (lo + 1 < L) && (!ok || envelopeGetPriorityLevel(q.env) == lo + 1), "the level is incremented while there is one"); sym_cover("nested"); break; }
  }
}
