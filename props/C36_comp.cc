// Component pack: every dependency graph over the bounded components, every set asked for, every registration order.
#include "sym.h"
#include "vt/config.h"
#include "vt/runtime/component/component.h"
#include "vt/runtime/component/component_pack.h"
#include "vt/runtime/component/component_pack.impl.h"
#include <memory>
#ifndef NODES
#define NODES 3
#endif
using namespace vt; using namespace vt::runtime; using namespace vt::runtime::component;
enum Ev { Made, Init, Started, Finalized, Destroyed, Kinds };
static int seq; static int when[4][Kinds], times[4][Kinds]; static bool polls[4], wants[4]; static int polled[4]; static double lastTime;
static void note(int i, Ev e) { when[i][e] = seq++; times[i][e]++; }
template <int I> struct Comp : Component<Comp<I>> {
  Comp() { note(I, Made); } ~Comp() { note(I, Destroyed); }
  std::string name() override { return "C"; } bool pollable() override { return polls[I]; }
  void initialize() override { note(I, Init); } void startup() override { note(I, Started); } void finalize() override { note(I, Finalized); }
  int progress(TimeType t) override { polled[I]++; lastTime = t.seconds(); return 1 << I; } bool needsCurrentTime() override { return wants[I]; }
};
static ComponentPack* pack; static Comp<0>* p0; static Comp<1>* p1; static Comp<2>* p2; static Comp<3>* p3;
template <int I> static int ix() { return registry::makeIdx<Comp<I>>(); }
#ifdef TYPED
// dependencies named by type at registration: A needs B to start, uses C; C needs B
extern "C" void symx_main() {
  int order = (int)sym_choose("order", 3), ask = (int)sym_choose("ask", 3);
  for (int i = 0; i < 3; i++) { polls[i] = sym_choose("pollable", 2); wants[i] = sym_bool("needs time"); }
  ComponentPack cp;
  for (int k = 0; k < 3; k++) switch ((k + order) % 3) {
    case 0: cp.registerComponent<Comp<0>>(&p0, StartupDeps<Comp<1>>{}, RuntimeDeps<Comp<2>>{}); break;
    case 1: cp.registerComponent<Comp<1>>(&p1, StartupDeps<>{}, RuntimeDeps<>{}); break;
    default: cp.registerComponent<Comp<2>>(&p2, StartupDeps<Comp<1>>{}, RuntimeDeps<>{}); }
  if (ask == 0) cp.add<Comp<0>>(); else if (ask == 1) cp.add<Comp<1>>(); else cp.add<Comp<2>>();
  cp.construct();
  bool want[3] = {ask == 0, true, ask != 1};
  for (int i = 0; i < 3; i++) sym_assert(times[i][Made] == (want[i] ? 1 : 0), "each required component is constructed exactly once");
  sym_assert(!want[0] || when[1][Made] < when[0][Made], "constructed after its startup dependencies"); sym_assert(!want[2] || when[1][Made] < when[2][Made], "constructed after its startup dependencies");
  if (want[0]) { sym_assert(p0 != nullptr && p1 != nullptr && p2 != nullptr, "references are set"); sym_cover("all"); }
}
#else
static void reg(int i) {
  using S = StartupDeps<>; using R = RuntimeDeps<>;
  switch (i) { case 0: pack->registerComponent<Comp<0>>(&p0, S{}, R{}); break; case 1: pack->registerComponent<Comp<1>>(&p1, S{}, R{}); break; case 2: pack->registerComponent<Comp<2>>(&p2, S{}, R{}); break; default: pack->registerComponent<Comp<3>>(&p3, S{}, R{}); } }
extern "C" void symx_main() {
  int idx[4] = {ix<0>(), ix<1>(), ix<2>(), ix<3>()}; bool dep[4][4] = {}, use[4][4] = {}, want[4] = {};
  auto cp = std::make_unique<ComponentPack>(); pack = cp.get();
  bool down = sym_choose("reverse registration", 2); for (int i = 0; i < NODES; i++) reg(down ? NODES - 1 - i : i);
  unsigned added = 1 + (unsigned)sym_choose("added", (1 << NODES) - 1);
  for (int i = 0; i < NODES; i++) {
    polls[i] = sym_bool("pollable"); wants[i] = sym_bool("needs time");
    if (added >> i & 1) { want[i] = true; switch (i) { case 0: cp->add<Comp<0>>(); break; case 1: cp->add<Comp<1>>(); break; case 2: cp->add<Comp<2>>(); break; default: cp->add<Comp<3>>(); } }
    for (int j = 0; j < NODES; j++) if (i != j) {
#ifdef STARTONLY
      int d = (int)sym_choose("dependency", 2);
#else
      int d = (int)sym_choose("dependency", 3);
#endif
      if (d == 1) { registry::getIdx(idx[i]).addStartupDep(idx[j]); dep[i][j] = true; } else if (d == 2) { registry::getIdx(idx[i]).addRuntimeDep(idx[j]); use[i][j] = true; } }
  }
  for (int r = 0; r < NODES; r++) for (int i = 0; i < NODES; i++) for (int j = 0; j < NODES; j++) if (want[i] && (dep[i][j] || use[i][j])) want[j] = true;
  bool reach[4][4]; for (int i = 0; i < NODES; i++) for (int j = 0; j < NODES; j++) reach[i][j] = dep[i][j];
  for (int k = 0; k < NODES; k++) for (int i = 0; i < NODES; i++) for (int j = 0; j < NODES; j++) reach[i][j] |= reach[i][k] && reach[k][j];
  bool cyc = false; for (int i = 0; i < NODES; i++) cyc |= want[i] && reach[i][i];
  if (cyc) { sym_cover("cycle"); sym_expect_abort(1); cp->construct(); sym_expect_abort(0); sym_fail("a cycle of startup dependencies is reported"); }
  sym_assert(!cp->isLive(), "not live before construction");
  cp->construct(); bool once = true, after = true, start = true; int n = 0, lastMade = -1, firstStart = 1 << 20;
  for (int i = 0; i < NODES; i++) { int w = want[i] ? 1 : 0; n += w; once &= times[i][Made] == w && times[i][Init] == w && times[i][Started] == w;
    if (w) { if (when[i][Init] > lastMade) lastMade = when[i][Init]; if (when[i][Started] < firstStart) firstStart = when[i][Started]; start &= when[i][Made] < when[i][Init]; }
    for (int j = 0; j < NODES; j++) if (want[i] && dep[i][j]) { after &= when[j][Init] < when[i][Made]; sym_cover("ordered"); } }
  sym_assert(once, "each required component is constructed, initialised and started exactly once, no other one is");
  sym_assert(after, "constructed after all its startup dependencies"); sym_assert(start && firstStart > lastMade, "all are constructed before any is started"); sym_assert(cp->isLive(), "live after construction");
  int each = 0; cp->foreach([&](BaseComponent*) { each++; }); sym_assert(each == n, "visits every live component");
  int got = cp->progress(TimeType{2.0}), expect = 0; bool nt = false; bool pok = true;
  for (int i = 0; i < NODES; i++) { bool p = want[i] && polls[i]; expect |= p ? 1 << i : 0; nt |= p && wants[i]; pok &= polled[i] == (p ? 1 : 0); }
  sym_assert(pok && got == expect, "progress polls exactly the pollable live components"); sym_assert(cp->needsCurrentTime() == nt, "asks for the time exactly when a pollable component needs it");
  if (expect) { sym_assert(lastTime == 2.0, "hands the time on"); sym_cover("polled"); }
  cp->destruct(); bool fin = true, rev = true, order = true;
  for (int i = 0; i < NODES; i++) { int w = want[i] ? 1 : 0; fin &= times[i][Finalized] == w && times[i][Destroyed] == w; order &= !w || when[i][Finalized] < when[i][Destroyed];
    for (int j = 0; j < NODES; j++) if (w && want[j] && i != j && when[i][Made] < when[j][Made]) rev &= when[i][Finalized] > when[j][Finalized] && when[i][Destroyed] > when[j][Destroyed]; }
  sym_assert(fin && order, "each is finalised, then destroyed, exactly once"); sym_assert(rev, "finalised and destroyed in reverse order of construction"); sym_assert(!cp->isLive(), "not live after destruction");
  sym_assert(cp->progress(TimeType{3.0}) == 0, "nothing is polled after destruction"); cp.reset();
  for (int i = 0; i < NODES; i++) sym_assert(times[i][Finalized] == (want[i] ? 1 : 0), "destroying the pack again does nothing");
}
#endif
