// C15: chains of dependent sends: each step's send is held until the previous step's epoch has terminated; two chains may be
// merged; a local dependency may hold an epoch open; the epoch graph shows the relations recorded.
#include "ranks.h"
#include "vt/messaging/dependent_send_chain.h"
using namespace vt;
#if ANYORDER
static long pick() { return 0; }
#else
static int const DEL[] = DELAYS;
static long pick() { return DEL[sym_choose("delay", sizeof(DEL) / sizeof(int))]; }
#endif
static int const N = STEPS;
static EpochType ep[N + 2]; static int outstanding[N], started[N], fired[N]; static bool after[N][N];   // after[i][j]: step i depends on step j
static bool parented(int s) { return !MIXED || s % 2 == 0; }   // the others are not children of the outer epoch
static bool below(int s) { bool b = parented(s); for (int j = 0; j < N; j++) if (after[j][s] && parented(j)) b = true; return b; }
static int budget = MSGS; static EpochType outer_ = no_epoch; static int outer_done = 0;
struct UserMsg : Message { int s, first; UserMsg(int a, int f) : s(a), first(f) { } };
static void userHan(UserMsg* m) {
  for (int j = 0; j < N; j++) if (after[m->s][j]) sym_assert(outstanding[j] == 0 && (!fired[j] || fired[j] == 1), "held work runs after every message of the epochs it depends on");
  for (int j = 0; j < N; j++) if (after[m->s][j]) sym_assert(started[j] == 1, "steps run in the order of the chain");
  sym_assert(!fired[m->s] && !(outer_done && below(m->s)), "the epoch of running work has not terminated");
  sym_assert(theTerm()->getEpoch() == ep[m->s], "held work runs in its own epoch");
  if (m->first) sym_assert(++started[m->s] == 1, "held work is released once");
  if (budget > 0) { int d = (int)sym_choose("forward", RANKS + 1); if (d < RANKS) { budget--; outstanding[m->s]++; theMsg()->sendMsg<UserMsg, userHan>(d, makeMessage<UserMsg>(m->s, 0)); } }
  outstanding[m->s]--;
  sym_cover("step");
}
static messaging::DependentSendChain* chain[2]; static int last_[2] = {-1, -1};
static void checkGraph();
static messaging::PendingSend held(int s) { int d = RANKS > 1 ? (s + 1) % RANKS : 0; outstanding[s]++; return theMsg()->sendMsg<UserMsg, userHan>(d, makeMessage<UserMsg>(s, 1)); }
static void dep(int s, int j) { if (j < 0) return; after[s][j] = true; for (int k = 0; k < N; k++) if (after[j][k]) after[s][k] = true; }
static bool merged = false;
static void step(int s) {
  ep[s] = theTerm()->makeEpochRooted("step", term::UseDS{true}, term::ParentEpochCapture{parented(s) ? outer_ : no_epoch});
  theTerm()->addAction(ep[s], [s] {
    for (int j = 0; j < N; j++) if (after[s][j]) sym_assert(outstanding[j] == 0 && started[j] == 1, "an epoch terminates after its predecessors");
    sym_assert(outstanding[s] == 0 && started[s] == 1, "an epoch terminates after the work held back in it"); sym_assert(++fired[s] == 1, "termination is reported once"); });
  theMsg()->pushEpoch(ep[s]);
  int c = CHAINS > 1 ? s % 2 : 0;
  if (CHAINS > 1 && s == 2) { dep(s, last_[0]); dep(s, last_[1]); messaging::DependentSendChain::mergeChainStep(*chain[0], *chain[1], ep[s], held(s)); last_[0] = last_[1] = s; }
  else { dep(s, last_[c]); chain[c]->add(ep[s], held(s)); last_[c] = s; }
  theMsg()->popEpoch(ep[s]);
  theTerm()->finishedEpoch(ep[s]);
}
static int pc = 0; static long at = 0; static bool hold = false;
static long localTime(int r) { return r == 0 && pc <= N + 1 ? at : -1; }
static void doLocal(int) {
  int p = pc++; at = sim::now + pick();
  if (p == 0) { for (int c = 0; c < CHAINS; c++) chain[c] = new messaging::DependentSendChain();
    outer_ = theTerm()->makeEpochRooted("outer", term::UseDS(OUTER == 1));
    theTerm()->addAction(outer_, [] { for (int s = 0; s < N; s++) if (below(s)) sym_assert(started[s] == 1 && outstanding[s] == 0 && theTerm()->isEpochTerminated(ep[s]), "a parent epoch terminates after its children"); sym_assert(!hold, "a local dependency holds its epoch"); sym_assert(++outer_done == 1, "-"); sym_cover("outer"); });
    hold = true; theTerm()->addLocalDependency(outer_); }
  else if (p <= N) { step(p - 1); if (p == N) { theTerm()->finishedEpoch(outer_); } checkGraph(); }
  else { hold = false; theTerm()->releaseLocalDependency(outer_); checkGraph(); }
}
// the graph links each live epoch below every live epoch that waits for it (redundant transitive links may be left out)
static termination::graph::EpochGraph* find(termination::graph::EpochGraph* g, EpochType e) {
  if (g->epoch_ == e) return g;
  for (auto& s : g->successors_) if (auto f = find(s.get(), e)) return f;
  return nullptr;
}
static bool over(int s) { return theTerm()->isEpochTerminated(ep[s]); }
static void checkGraph() {
  auto g = theTerm()->makeGraph();
  sym_assert(g != nullptr, "a graph is reported while the program runs");
  for (int a = 0; a < N && a < pc - 1; a++) {
    auto n = find(g.get(), ep[a]);
    sym_assert((n != nullptr) == !over(a), "the graph contains exactly the live epochs");
    if (!n) continue;
    sym_cover("graph");
    auto o = find(g.get(), outer_); sym_assert(!below(a) || (o && find(o, ep[a])), "a child epoch is below its parent");
    for (int b = 0; b < N && b < pc - 1; b++) if (b != a) sym_assert((find(n, ep[b]) != nullptr) == (after[a][b] && !over(b)), "an epoch is below those that wait for it and no other");
    int k = 0; for (auto& s : n->successors_) { for (auto& t : n->successors_) sym_assert(&s == &t || s->epoch_ != t->epoch_, "each relation appears once"); k++; }
  }
}
static long wire(int, int, char const*, int) { return pick(); }
extern "C" void symx_main() {
#if ANYORDER
  sim::anyOrder = true;
#endif
  sim::start(); sim::delay = wire; sim::local = localTime; sim::doLocal = doLocal;
  sim::runToEnd(1500);
  for (int s = 0; s < N; s++) sym_assert(started[s] == 1 && fired[s] == 1 && outstanding[s] == 0, "every held unit of work runs");
  sym_assert(outer_done == 1, "the parent epoch terminates once its children have");
}
