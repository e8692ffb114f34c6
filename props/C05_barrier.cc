// C05: barriers over several ranks of the real runtime.  Every rank enters UNNAMED unnamed barriers and NAMED named ones,
// in any order; MODE 0: continuations, 1: blocking calls, 2: continuations, each entering the next barrier.
#define WITH_COLL
#if MODE == 1
# define WITH_RT
#endif
#include "ranks.h"
using namespace vt;
static int const B = UNNAMED + NAMED;            // barriers 0..UNNAMED-1 unnamed, then the named ones
#ifdef ANYORDER
static long pick() { return 0; }
#else
static int const DEL[] = DELAYS;
static long pick() { return DEL[sym_choose("delay", sizeof(DEL) / sizeof(int))]; }
#endif
static BarrierType name_[NAMED + 1][RANKS];
static int entered[B], entered_by[B][RANKS], released[B][RANKS];
static int unnamed_next[RANKS]; static bool named_used[RANKS][NAMED + 1];
static int count[RANKS]; static long at[RANKS]; static bool blocked[RANKS];
static bool own_message = false;
static void onRelease(int b, int r) {
  sym_assert(sim::cur == r, "the rank that entered the barrier is released");
  sym_assert(entered[b] == RANKS, "no rank passes a barrier before all ranks entered it");
  sym_assert(++released[b][r] == 1, "a barrier releases a rank once");
  sym_cover("released");
}
static void enter(int r) {
  int left = B - count[r];
  if (left == 0) return;
  count[r]++;
  // which one: the next unnamed, or any named one not used yet
  int cand[B], n = 0;
  if (unnamed_next[r] < UNNAMED) cand[n++] = unnamed_next[r];
  for (int k = 0; k < NAMED; k++) if (!named_used[r][k]) cand[n++] = UNNAMED + k;
  int b = cand[n > 1 && MODE != 1 ? sym_choose("which", n) : 0];
  if (b < UNNAMED) unnamed_next[r]++; else named_used[r][b - UNNAMED] = true;
  sym_assert(!entered_by[b][r], "-");
  entered_by[b][r] = 1; entered[b]++;
  bool meta = b < UNNAMED && META;
  auto c = sim::R[r].coll;
#if MODE == 1
  blocked[r] = true;
  if (b < UNNAMED) { if (meta) c->systemMetaBarrier(); else c->barrier(); } else c->barrier(nullptr, name_[b - UNNAMED][r]);
  blocked[r] = false;
  sym_assert(sim::cur == r, "-");
  onRelease(b, r);
#else
  auto fn = [b, r] { onRelease(b, r); if (MODE == 2) { auto c = count[r]; if (c < B) enter(r); } };
  if (b < UNNAMED) { if (meta) c->systemMetaBarrierCont(fn); else c->barrierThen(fn); } else c->barrierThen(name_[b - UNNAMED][r], fn);
#endif
}
static long localTime(int r) {
#if MODE == 1
  if (blocked[r]) return -1;
  // the simulated ranks share one stack: a rank starts its next blocking call only after the released ones returned
  for (int q = 0; q < RANKS; q++) if (blocked[q]) for (int b = 0; b < B; b++) if (entered_by[b][q] && !released[b][q] && entered[b] == RANKS) {
    return -1; }
#endif
  if (MODE == 2 && count[r] > 0) return -1;
  return count[r] < B ? at[r] : -1;
}
static void doLocal(int r) { at[r] = sim::now + pick(); enter(r); }
static long wire(int, int, char const*, int) { return pick(); }
extern "C" void symx_main() {
#ifdef ANYORDER
  sim::anyOrder = true;
#endif
  sim::start(); sim::delay = wire; sim::local = localTime; sim::doLocal = doLocal;
#if MODE == 1
  sim::makeRuntime();
#endif
  for (int r = 0; r < RANKS; r++) { sim::select(r);
    for (int k = 0; k < NAMED; k++) name_[k][r] = sim::R[r].coll->newNamedCollectiveBarrier();
    at[r] = r == 0 ? 0 : pick(); }
  for (int k = 0; k < NAMED; k++) { for (int r = 1; r < RANKS; r++) sym_assert(name_[k][r] == name_[k][0], "a collective name is the same on all ranks");
    for (int j = 0; j < k; j++) sym_assert(name_[k][0] != name_[j][0], "names are distinct"); }
  sim::runToEnd(2000);
  for (int b = 0; b < B; b++) for (int r = 0; r < RANKS; r++) sym_assert(released[b][r] == 1, "every rank is released once all entered");
}
