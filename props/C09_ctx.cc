// C09: a unit of work sees the context captured for it, and leaves the surrounding context as it found it.
#define WITH_RT
#include "ranks.h"
#define private public
#define protected public
#include "vt/vrt/collection/types/indexable.h"
#include "vt/vrt/collection/types/untyped.h"
#include "vt/vrt/collection/types/indexable.impl.h"
#include "vt/context/runnable_context/collection.impl.h"
#undef private
#undef protected
#include "vt/runnable/make_runnable.h"
#include "vt/termination/epoch_guard.h"
using namespace vt;
using vrt::collection::CollectionContextHolder;
struct Elm { Index1D idx; VirtualProxyType proxy; Index1D const& getIndex() const { return idx; } VirtualProxyType getProxy() const { return proxy; } };
using Holder = CollectionContextHolder<Index1D>;
static int ops = OPS, depth = 0;
struct Snap { runnable::RunnableNew* task; NodeType from, node; EpochType ep; std::size_t stack; Index1D const* idx; VirtualProxyType proxy; };
static Snap snap() { auto c = theContext(); return {c->getTask(), c->getFromNodeCurrentTask(), c->getNode(), theTerm()->getEpoch(), theTerm()->getEpochStack().size(), Holder::index(), Holder::proxy()}; }
static void same(Snap const& a) {
  Snap b = snap();
  sym_assert(a.task == b.task && a.from == b.from && a.node == b.node, "the current task and its sender are those before");
  sym_assert(a.ep == b.ep && a.stack == b.stack, "the epoch stack is the one before");
  sym_assert(a.idx == b.idx && a.proxy == b.proxy, "the current element is the one before");
}
static int outstanding[40]; static EpochType eps[40]; static int nEps = 1;   // 0: no epoch pushed by the program
static std::vector<int> stackOf[RANKS]; static runnable::RunnableNew* running[16]; static int nRunning[RANKS];
static int sent = 0, run_ = 0; static int got[16];
struct CtxMsg : EpochMessage { int id, from, e; CtxMsg(int i, int f, int x) : id(i), from(f), e(x) { } };
static int epNow(int r) { return stackOf[r].empty() ? 0 : stackOf[r].back(); }
static void program();
static int conts = 0;
static vrt::collection::Indexable<Index1D>* elms[2];
static void enter(int id, int from, int e, int elm) {
  int me = sim::cur; auto c = theContext();
  got[id]++; sym_assert(got[id] == 1, "a unit runs once"); run_++;
  sym_assert(c->getNode() == me, "work runs on the rank it was sent to");
  sym_assert(c->getTask() != nullptr, "a running unit is the current task");
  for (int i = 0; i < run_ - 1; i++) sym_assert(running[i] == nullptr || running[i] != c->getTask(), "the current task is the running unit");
  running[id] = c->getTask();
  sym_assert(c->getFromNodeCurrentTask() == from, "the sender seen is the one that sent the work");
  sym_assert(theTerm()->getEpoch() == (e ? eps[e] : term::any_epoch_sentinel), "the epoch seen is the one captured");
  sym_assert(e == 0 || epoch::EpochManip::node(eps[e]) != me || !theTerm()->isEpochTerminated(eps[e]), "the epoch of running work has not terminated");
  if (elm >= 0) { sym_assert(Holder::index() == &elms[elm]->getIndex() && Holder::proxy() == elms[elm]->getProxy(), "the element seen is the one captured"); sym_cover("element"); }
  stackOf[me].push_back(e);
  Snap s = snap();
  sym_cover("handler");
  if (depth < DEPTH) { depth++; program(); depth--; }
  same(s);
  stackOf[me].pop_back(); running[id] = nullptr; outstanding[e]--;
}
static void han(CtxMsg* m) { enter(m->id, m->from, m->e, -1); }
static int elmOf[16];
static void hanElm(CtxMsg* m) { enter(m->id, m->from, m->e, elmOf[m->id]); }
static void send(int kind) {
  int me = sim::cur, id = sent++, e = epNow(me); outstanding[e]++;
  if (kind == 0) theMsg()->sendMsg<CtxMsg, han>(RANKS > 1 ? (NodeType)sym_choose("to", RANKS) : 0, makeMessage<CtxMsg>(id, me, e));
  else {   // work on an element of this rank, in the sender's epoch
    elmOf[id] = (int)sym_choose("element", 2);
    auto m = makeMessage<CtxMsg>(id, me, e); auto h = auto_registry::makeAutoHandler<CtxMsg, hanElm>();
    Snap s = snap();
    auto mk = runnable::makeRunnable(m, false, h, me).withTDEpoch(e ? eps[e] : no_epoch).withContinuation([s] { conts++; });
    mk.getRunnableImpl()->addContextCol(elms[elmOf[id]]);
    if (kind == 1) mk.enqueue(); else { mk.run(); same(s); }
  }
}
static int newEpoch() { int e = nEps++; eps[e] = theTerm()->makeEpochRooted("e", term::UseDS{true}); return e; }
static void program() {
  for (;;) {
    if (ops == 0) return;
    int k = (int)sym_choose("operation", 8), me = sim::cur;
    if (k == 0) return;
    ops--;
    Snap s = snap();
    if (k == 1) send(0);
    else if (k == 2) send(1);
    else if (k == 3) { send(2); same(s); }
    else if (k == 4) {      // run the scheduler until another unit has run
      int t = run_; if (sent == run_) return;
      if (sent > got[0] + 0) { bool any = false; for (int i = 0; i < sent; i++) if (!got[i]) any = true; if (!any) return; }
      theSched()->runSchedulerWhile([t] { return run_ == t; }); sym_cover("nested");
    }
    else if (k == 5) {      // a nested epoch, waited for
      int e = 0; bool body = false;
      runInEpochRooted([&] { e = nEps++; eps[e] = theTerm()->getEpoch(); stackOf[me].push_back(e); sym_assert(eps[e] != s.ep, "a new epoch"); body = true; int d = depth; if (depth < DEPTH) { depth++; program(); } depth = d; stackOf[me].pop_back(); });
      sym_assert(body && outstanding[e] == 0 && theTerm()->isEpochTerminated(eps[e]), "a nested epoch is waited for"); sym_cover("epoch");
    }
    else if (k == 6) {      // guards: nested, popped early, moved
      int e = newEpoch();
      { EpochGuard g(eps[e]); stackOf[me].push_back(e); sym_assert(theTerm()->getEpoch() == eps[e] && g.get_epoch() == eps[e], "the guard's epoch is current");
        Snap in = snap();
        int how = (int)sym_choose("guard", 4);
        if (how == 1) { stackOf[me].pop_back(); g.pop(); same(s); sym_assert(g.get_epoch() == no_epoch, "-"); g.pop(); same(s); }
        else { if (depth < DEPTH) { depth++; program(); depth--; } same(in); stackOf[me].pop_back();
          if (how == 2) { EpochGuard h(std::move(g)); sym_assert(h.get_epoch() == eps[e] && g.get_epoch() == no_epoch, "a moved guard owns the epoch"); same(in); }
          if (how == 3) { { EpochGuard h(eps[e]); h.pop(); h = std::move(g); sym_assert(h.get_epoch() == eps[e] && g.get_epoch() == no_epoch, "a moved guard owns the epoch"); same(in); } same(s); } }
      }
      same(s); theTerm()->finishedEpoch(eps[e]);
    }
    else {
      int e = newEpoch(); theMsg()->pushEpoch(eps[e]); stackOf[me].push_back(e);
      if (depth < DEPTH) { depth++; program(); depth--; }
      stackOf[me].pop_back();
      bool named = sym_bool("named"); EpochType r = theMsg()->popEpoch(named ? eps[e] : no_epoch);
      sym_assert(!named || r == eps[e], "pop returns the epoch"); same(s); theTerm()->finishedEpoch(eps[e]);
    }
    same(s);
  }
}
extern "C" void symx_main() {
  sim::anyOrder = RANKS == 1;
  sim::start(); sim::makeRuntime();
  for (int i = 0; i < 2; i++) { auto p = std::calloc(1, sizeof(vrt::collection::Indexable<Index1D>)); elms[i] = (vrt::collection::Indexable<Index1D>*)p; elms[i]->setIndex(Index1D(i + 3)); elms[i]->setProxy(100 + i); }
  Snap s0 = snap();
  program(); same(s0);
  sim::runToEnd(900);
  for (int i = 0; i < sent; i++) sym_assert(got[i] == 1, "every unit runs");
  for (int r = 0; r < RANKS; r++) { sim::select(r); sym_assert(theContext()->getTask() == nullptr && theTerm()->getEpochStack().size() == 1 && !Holder::hasContext(), "nothing is left behind"); sym_assert(theTerm()->any_epoch_state_.l_prod >= 0, "-"); }
  long p = 0, c = 0; for (int r = 0; r < RANKS; r++) { p += sim::R[r].term->any_epoch_state_.l_prod; c += sim::R[r].term->any_epoch_state_.l_cons; }
  sym_assert(p == c, "everything produced is consumed");
  sim::select(0);
  for (int e = 1; e < nEps; e++) sym_assert(theTerm()->isEpochTerminated(eps[e]) || RANKS > 1, "the epochs terminate");
}
