// C01/C15: termination of epochs over several ranks of the real runtime components.
// KIND 0: collective epoch, 1: rooted Dijkstra-Scholten, 2: rooted wave.  NEST: a second epoch inside the first.
#include "ranks.h"
using namespace vt;
static int const E = NEST ? 2 : 1;
static EpochType ep[2][RANKS];      // [0] outer, [1] nested
static int outstanding[2], fired[2][RANKS], finished[2][RANKS], want[2][RANKS];
static bool done[2];
static int budget = MSGS;
static int ctl_budget = CTL;
static bool user_send = false;
static int const DEL[] = DELAYS;
static int pick() { return DEL[sym_choose("delay", sizeof(DEL) / sizeof(int))]; }

struct UserMsg : Message { int e; int seq; UserMsg(int e_, int s) : e(e_), seq(s) { } };
#ifndef REMOTE
# define REMOTE 0
#endif
#ifndef LATE
# define LATE 0
#endif
static int seq = 0, handled[16];
static void userHan(UserMsg* m);
static void send(int e, int dst) {
  auto m = makeMessage<UserMsg>(e, seq);
  sym_assert(!done[e], "no work is added to an epoch that was reported terminated");
  outstanding[e]++; seq++;
  user_send = true;
  theMsg()->sendMsg<UserMsg, userHan>(dst, m);
  user_send = false;
}
static void userHan(UserMsg* m) {
  sym_assert(handled[m->seq]++ == 0, "a message is handled once");
  for (int e = 0; e < E; e++) if (m->e == e) sym_assert(!done[e], "termination is not reported before the messages of the epoch are processed");
  sym_assert(theTerm()->getEpoch() == ep[m->e][0] || RANKS == 0, "a handler runs in the epoch of its message");
  for (int k = 0; k < 2 && budget > 0; k++) {
    int d = (int)sym_choose("dest", RANKS + 1);   // RANKS: send no more
    if (d == RANKS) break;
    budget--; send(m->e, d);
  }
  if (REMOTE && sim::cur != 0) { sym_cover("remote"); sym_assert(!theTerm()->isEpochTerminated(ep[m->e][0]), "a live rooted epoch is not seen as terminated on a rank other than its root"); }
  outstanding[m->e]--;
}
static int late = LATE, lateWant = 0, lateFired = 0;
static void onLate(int e, int r) {
  sym_assert(sim::cur == r && done[e] && outstanding[e] == 0, "an action added after termination runs on its rank");
  if (late > 0 && sym_bool("late action")) { late--; lateWant++; if (late % 2) theTerm()->addAction(ep[e][r], [e, r] { onLate(e, r); }); else theTerm()->addActionUnique(ep[e][r], [e, r] { onLate(e, r); }); }
  lateFired++; sym_assert(lateFired <= lateWant, "a termination action runs once");
}
static void onTerm(int e, int r) {
  sym_assert(sim::cur == r, "the action runs on the rank that registered it");
  sym_assert(++fired[e][r] == 1, "a termination action runs once");
  sym_assert(outstanding[e] == 0, "termination only after every message of the epoch has been processed");
  for (int q = 0; q < RANKS; q++) if (KIND == 0 || q == 0) sym_assert(finished[e][q], "termination only after every participant finished the epoch");
  if (NEST && e == 0) sym_assert(outstanding[1] == 0 && finished[1][0], "a parent epoch terminates after its child");
  done[e] = true;
  for (int k = 0; k < 2; k++) if (late > 0 && sym_bool("late action")) { late--; lateWant++; if (late % 2) theTerm()->addAction(ep[e][r], [e, r] { onLate(e, r); }); else theTerm()->addActionUnique(ep[e][r], [e, r] { onLate(e, r); }); }
  sym_cover("terminated");
}
static void action(int e, int r) { want[e][r] = 1; theTerm()->addAction(ep[e][r], [e, r] { onTerm(e, r); }); }

// local programs
static int pc[RANKS]; static long at[RANKS];
static int const LAST = NEST ? 6 : 4;
static long localTime(int r) {
  if (KIND != 0 && r != 0) return pc[r] < LAST ? (pc[r] = LAST, -1) : -1;
  return pc[r] < LAST ? at[r] : -1;
}
static EpochType make(EpochType parent) {
  term::ParentEpochCapture p(parent);
  if (KIND == 0) return theTerm()->makeEpochCollective("e", p);
  return theTerm()->makeEpochRooted("e", term::UseDS(KIND == 1), p);
}
static void doLocal(int r) {
  int p = pc[r]++;
  switch (p) {
  case 0: ep[0][r] = make(no_epoch); if (r == 0) for (int q = 0; q < RANKS; q++) ep[0][q] = ep[0][0]; else sym_assert(ep[0][r] == ep[0][0], "all ranks get the same collective epoch"); break;
  case 1: action(0, r); break;
  case 2: {
    theMsg()->pushEpoch(ep[0][r]);
    if (r == 0 || SENDERS > 1) { int d = (int)sym_choose("first", RANKS); if (budget > 0) { budget--; send(0, d); } }
    theMsg()->popEpoch(ep[0][r]);
    break; }
  case 3: if (!NEST) { finished[0][r] = 1; theTerm()->finishedEpoch(ep[0][r]); break; }
    ep[1][r] = make(ep[0][r]); if (r == 0) for (int q = 0; q < RANKS; q++) ep[1][q] = ep[1][0];
    action(1, r);
    finished[0][r] = 1; theTerm()->finishedEpoch(ep[0][r]);
    break;
  case 4: theMsg()->pushEpoch(ep[1][r]);
    if (r == 0) { int d = (int)sym_choose("nested", RANKS); send(1, d); }
    theMsg()->popEpoch(ep[1][r]);
    break;
  case 5: finished[1][r] = 1; theTerm()->finishedEpoch(ep[1][r]); break;
  }
  if ((p == LAST - 2 || p == 0) && (KIND == 0 || r == 0)) at[r] = sim::now + pick();
}
static long wire(int, int, char const*, int) {
  if (user_send) return pick();
  if (ctl_budget > 0 && sym_choose("ctl", 2)) { ctl_budget--; return CTLDELAY; }
  return 0;
}
static long busy(int) {
  if (UNITS && ctl_budget > 0 && sym_choose("busy", 2)) { ctl_budget--; return CTLDELAY; }
  return 0;
}
extern "C" void symx_main() {
  sim::start(); sim::unitDelay = busy;
  sim::delay = wire; sim::local = localTime; sim::doLocal = doLocal;
  sim::runToEnd(LIMIT);
  sym_assert(lateFired == lateWant, "an action added after termination runs");
  for (int e = 0; e < E; e++) {
    sym_assert(outstanding[e] == 0, "every message is processed");
    for (int r = 0; r < RANKS; r++) {
      sim::select(r);
      sym_assert(fired[e][r] == want[e][r], "termination is eventually reported to every rank that asked");
      if (KIND != 1 || r == 0) sym_assert(theTerm()->isEpochTerminated(ep[e][r]), "the epoch is known to be terminated");
    }
  }
  sym_assert(sim::R[0].term->any_epoch_state_.l_prod >= 0, "-");
}
