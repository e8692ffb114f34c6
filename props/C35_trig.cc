// Time triggers: any registration, removal and progress history, any times and periods.
#include "sym.h"
#include "vt/config.h"
#include "vt/timetrigger/time_trigger_manager.h"
#include "vt/timetrigger/trigger.h"
#ifndef UNIT
#define UNIT 1024
#define MASK 255
#endif
#ifndef STEPS
#define STEPS 3
#endif
using namespace vt; using namespace vt::timetrigger; using ms = std::chrono::milliseconds;
static int fired[4]; static int gone = -1; static TimeTriggerManager* mgr; static int selfRemove[4]; static int chain[4]; static bool reg[4]; static int ident[4];
#ifdef ROUNDING
extern "C" void symx_main() {
  TimeTriggerManager m; static double const awkward[] = {0x1.7dd2b251f9840p+8, 0x1.8ecdad0a9e240p+9, 0x1.ea342e00a10ebp+8, 0x1.6fdc53ac4ad6bp+3}; int pick = (int)sym_choose("time", 5);
  double t0 = pick < 4 ? 0.25 : sym_f64("t0"), t1 = pick < 4 ? awkward[pick] : sym_f64("t1"); sym_assume(t0 >= 0 && t0 <= 1e6 && t1 > t0 && t1 <= 1e6);
  int n = 0; int per = (int)sym_choose("period", 2); int id = m.addTrigger(TimeType{t0}, ms{per}, [&] { n++; }, false); (void)id;
  m.progress(TimeType{t1}); sym_assert(n <= 1, "at most one firing per progress call"); sym_cover("once");
}
#else
// times are multiples of 1/UNIT s: exact in binary
static double at(uint32_t k) { return (double)(int)k / (double)UNIT; }
static uint32_t step(char const* n) { return sym_u8(n) & MASK; }
extern "C" void symx_main() {
  TimeTriggerManager m; mgr = &m; uint32_t now = sym_u8("now"); int n = 0; uint32_t last[4]; int period[4]; bool removed[4] = {};
  for (int i = 0; i < 4; i++) { fired[i] = 0; selfRemove[i] = 0; chain[i] = 0; }
  int trig = 1 + (int)sym_choose("triggers", 2);
  for (int s = 0; s < STEPS + trig; s++) {
    int op = n < trig ? (int)sym_choose("op", 3) : 1 + (int)sym_choose("op", 2);
    if (op == 0) {
      int i = n++; static int const periods[] = {0, 20, 125, 1000}; period[i] = periods[sym_choose("period", PERIODS)]; bool imm = sym_bool("immediately"); int before = fired[i]; selfRemove[i] = sym_bool("removes itself");
      ident[i] = -1; int id = m.addTrigger(TimeType{at(now)}, ms{period[i]}, [i] { fired[i]++; if (selfRemove[i] && ident[i] >= 0) { mgr->removeTrigger(ident[i]); reg[i] = false; } }, imm);
      sym_assert(fired[i] == before + (imm ? 1 : 0), "fires at registration exactly when asked to");
      for (int k = 0; k < i; k++) sym_assert(ident[k] != id, "identifiers are distinct");
      ident[i] = id; reg[i] = true; last[i] = now; sym_cover("add");
    } else if (op == 1) {
      if (!n) sym_end();
      uint32_t prev = now; now += step("elapsed"); int f0[4]; bool due[4];
      for (int i = 0; i < n; i++) { f0[i] = fired[i]; long next = (long)last[i] * 1000 + (long)period[i] * UNIT, cur = (long)now * 1000; due[i] = reg[i] && next < cur; }
      m.progress(TimeType{at(now)});
      for (int i = 0; i < n; i++) {
        int d = fired[i] - f0[i];
        sym_assert(d == 0 || d == 1, "at most one firing per progress call");
        sym_assert(d == (due[i] ? 1 : 0), "fires exactly when registered and more than its period has elapsed");
        if (d) { last[i] = now; sym_cover("fired"); } }
      if (now == prev) sym_cover("time stands still");
    } else {
      if (!n) sym_end(); int k = (int)sym_choose("which", n); if (!reg[k]) sym_end();
      m.removeTrigger(ident[k]); reg[k] = false; sym_cover("remove");
    }
    bool any = false; for (int i = 0; i < n; i++) any |= reg[i]; if (any) sym_assert(m.needsCurrentTime(), "the clock is read while triggers wait");
  }
}
#endif
