// Element load data: any order of timings, communication, phase and subphase changes and releases.
#include "sym.h"
#include "vt/config.h"
#include "vt/elm/elm_lb_data.h"
#include <map>
#include <vector>
#ifndef STEPS
#define STEPS 4
#endif
#define SUBS 3
using namespace vt; using namespace vt::elm;
struct Elm : ElementLBData { void release(PhaseType p, unsigned b) { releaseLBDataFromUnneededPhases(p, b); } };
struct Vol { double bytes; uint64_t n; };
struct Ph { double load; double sub[SUBS]; bool anySub[SUBS]; Vol comm[4]; Vol scomm[SUBS][4]; bool loadSeen; };
static ElementIDStruct id(uint64_t x) { ElementIDStruct e; e.id = x; e.curr_node = 2; return e; }
static CommKey key(int k) {
  switch (k) { case 0: return CommKey{CommKey::SendRecvTag{}, id(2), id(1), false}; case 1: return CommKey{CommKey::CollectionTag{}, id(2), id(1), true};
    case 2: return CommKey{CommKey::NodeToCollectionTag{}, NodeType{3}, id(1), false}; default: return CommKey{CommKey::CollectionToNodeTag{}, id(1), NodeType{3}, false}; } }
static double small(char const* n) { return (double)(int)(sym_u8(n) & 15); }
extern "C" void symx_main() {
  Elm e; std::vector<Ph> ph(1, Ph{}); unsigned cur = 0, sub = 0; bool running = false; double began = 0; std::vector<bool> gone(1, false);
  constexpr unsigned back = 2;
  for (int s = 0; s < STEPS; s++) {
    Ph& p = ph[cur];
    switch (sym_choose("op", 7)) {
    case 0: { double t = small("time"); e.addTime(t); p.load += t; p.sub[sub] += t; sym_cover("add"); break; }
    case 1: { began = small("clock"); e.start(TimeType{began}); running = true; break; }
    case 2: { double d = small("elapsed"); double at = (running ? began : 0) + d; e.stop(TimeType{at}); if (running) { p.load += d; p.sub[sub] += d; sym_cover("timed"); } else sym_cover("stop without start"); running = false; break; }
    case 3: { int k = (int)sym_choose("channel", 4); double b = small("bytes");
      if (k == 0) { if (sym_bool("receive")) e.recvObjData(id(1), id(2), b, false); else e.sendToEntity(id(1), id(2), b); }
      else if (k == 1) e.recvObjData(id(1), id(2), b, true); else if (k == 2) e.recvFromNode(id(1), 3, b, false); else e.recvToNode(3, id(1), b, false);
      p.comm[k].bytes += b; p.comm[k].n++; p.scomm[sub][k].bytes += b; p.scomm[sub][k].n++; sym_cover("comm"); break; }
    case 4: { unsigned n = (unsigned)sym_choose("subphase", SUBS); if (n < sub) sym_cover("earlier subphase"); sub = n; e.setSubPhase(n); sym_assert(e.getSubPhase() == n, "subphase as set"); break; }
    case 5: { // what the runtime does at a phase boundary
      e.updatePhase(1); cur++; ph.push_back(Ph{}); gone.push_back(false); sub = 0; e.setSubPhase(0);
      e.release(cur, back); if (cur >= back) { gone[cur - back] = true; sym_cover("released"); } break; }
    default: { double l = small("load"), l0 = small("load 0"), l1 = small("load 1"); e.setTime(l, {l0, l1}); p.load = l; p.sub[0] = l0; p.sub[1] = l1; p.sub[2] = 0; sym_cover("set"); break; }
    }
    sym_assert(e.getPhase() == cur, "phase as advanced");
  }
  unsigned kept = 0; for (unsigned i = 0; i <= cur; i++) kept += !gone[i];
  sym_assert(e.getLoadPhaseCount() <= kept && e.getSubphaseLoadPhaseCount() <= kept && e.getCommPhaseCount() <= kept && e.getSubphaseCommPhaseCount() <= kept, "released phases hold no data");
  if (cur > 0) for (unsigned i = 1; i <= cur; i++) if (!gone[i]) sym_assert(e.getSubphaseTimes(i).size() <= SUBS, "a kept phase has its records");
  for (unsigned i = 0; i <= cur; i++) {
    Ph const& p = ph[i];
    if (gone[i]) { sym_assert(e.getLoad(i) == 0, "a released phase reports nothing"); continue; }
    sym_assert(e.getLoad(i) == p.load && e.getLoad(i, ElementLBData::no_subphase) == p.load, "phase load is the sum of the time added in it");
    auto const& st = e.getSubphaseTimes(i); bool ok = true;
    for (unsigned j = 0; j < SUBS; j++) ok &= (j < st.size() ? st[j] : 0.) == p.sub[j];
    sym_assert(ok && st.size() <= SUBS, "each subphase's load is the sum of the time added in it");
    auto const& sc = e.getSubphaseComm(i); bool cok = true, nok = true; std::size_t keys = 0;
    for (int k = 0; k < 4; k++) {
      auto const& m = e.getComm(i); auto it = m.find(key(k)); keys += p.comm[k].n != 0;
      nok &= (it == m.end() ? 0 : it->second.messages) == p.comm[k].n; cok &= (it == m.end() ? 0. : it->second.bytes) == p.comm[k].bytes;
      for (unsigned j = 0; j < SUBS; j++) { uint64_t n = 0; double b = 0; if (j < sc.size()) { auto f = sc[j].find(key(k)); if (f != sc[j].end()) { n = f->second.messages; b = f->second.bytes; } }
        nok &= n == p.scomm[j][k].n; cok &= b == p.scomm[j][k].bytes; }
    }
    sym_assert(nok && e.getComm(i).size() == keys, "message counts per phase, subphase and channel are exact"); sym_assert(cok, "bytes per phase, subphase and channel are exact");
  }
}
