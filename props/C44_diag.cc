// C44: diagnostics - counters, gauges, timers; resets; combination over ranks
#include <thread>
#include <queue>
#include <random>
#include <functional>
#include <variant>
#include <unordered_map>
#include <sstream>
#include <set>
#include <memory>
#define private public
#define protected public
#include "vt/config.h"
#include "vt/configs/arguments/app_config.h"
#include "vt/runtime/component/diagnostic.h"
#include "vt/runtime/component/diagnostic_value.h"
#include "vt/runtime/component/diagnostic.impl.h"
#undef private
#undef protected
#include "sym.h"
#include "vt/vrt/collection/balance/stats_msg.h"
using namespace vt;
namespace component = vt::runtime::component;
using namespace vt::runtime::component;

static double now_ = 0;
static arguments::AppConfig* cfg_;
namespace vt { arguments::AppConfig* theConfig() { return cfg_; } }
namespace vt { namespace timing { TimeType getCurrentTime() { return TimeType{now_}; } } }
namespace vt { namespace runtime { namespace component { namespace detail {
template <> void DiagnosticValue<int64_t>::reduceOver(Diagnostic*, DiagnosticErasedValue*, int) { }
template <> void DiagnosticValue<double>::reduceOver(Diagnostic*, DiagnosticErasedValue*, int) { }
template <> void DiagnosticValue<TimeType>::reduceOver(Diagnostic*, DiagnosticErasedValue*, int) { }
}}}}
struct Comp : Diagnostic {
  void dumpState() override { } std::string name() override { return "C"; }
};
static int small() { return (int)(int16_t)sym_u16("v"); }

template <typename T> static component::detail::DiagnosticValue<T>* val(Comp& c, std::string k) {
  auto it = c.values_.find(k);
  sym_assert(it != c.values_.end(), "a meter registers its values under its key");
  return static_cast<component::detail::DiagnosticValue<T>*>(it->second.get());
}

template <typename T, typename M> static void stats(Comp& c, M& add) {
  long sum = 0, mn = 0, mx = 0; int n = 0;
  int len = sym_choose("len", STEPS + 1);
  int rs = sym_choose("reset_at", len + 1);  // reset just before that step (len: never)
  auto s = val<T>(c, "k [sum]"), a = val<T>(c, "k [avg]"), lo = val<T>(c, "k [min]"), hi = val<T>(c, "k [max]");
  for (int i = 0; i < len; i++) {
    if (i == rs) {
      s->values_.reset(0); a->values_.reset(0); lo->values_.reset(0); hi->values_.reset(0);
      sum = 0; n = 0;
    }
    int v = add();
    sum += v; mn = n == 0 ? v : (v < mn ? v : mn); mx = n == 0 ? v : (v > mx ? v : mx); n++;
  }
  if (n == 0) {
    sym_assert(s->get(0) == T(0), "nothing recorded: sum is zero");
    sym_assert(!s->values_[0].isUpdated() && !lo->values_[0].isUpdated() && !hi->values_[0].isUpdated(), "nothing recorded: not marked updated");
    return;
  }
  sym_cover("stats");
  sym_assert(s->get(0) == T(sum), "reported sum is the sum of the samples");
  sym_assert(lo->get(0) == T(mn), "reported minimum is the least sample");
  sym_assert(hi->get(0) == T(mx), "reported maximum is the greatest sample");
  sym_assert(a->values_[0].getN() == (std::size_t)n, "number of samples");
  sym_assert(a->values_[0].getRawValue() == T(sum), "mean accumulates every sample");
  if constexpr (std::is_integral<T>::value) sym_assert(a->get(0) == (T)(sum / n), "reported mean is sum over count");
  else if (n == 1 || n == 2 || n == 4) sym_assert(a->get(0) == T((double)sum / n), "reported mean is sum over count");
  sym_assert(s->values_[0].isUpdated() && lo->values_[0].isUpdated(), "marked updated");
}

extern "C" void symx_main() {
  cfg_ = new arguments::AppConfig();
  cfg_->vt_diag_enable = true;
  auto& c = *new Comp();
  int what = WHAT;
  if (what == 0) {
    auto ctr = c.registerCounter("k", "d");
    long sum = 0; bool any = false;
    for (int i = 0; i < STEPS; i++) {
      int op = sym_choose("op", 5);
      if (op == 0) { ctr.increment(); sum++; any = true; }
      else if (op == 1) { int v = small(); ctr.increment(v); sum += v; any = true; }
      else if (op == 2) { int v = small(); ctr.decrement(v); sum -= v; any = true; }
      else if (op == 3) { ctr.decrement(); sum--; any = true; }
      else { val<int64_t>(c, "k")->values_.reset(0); sum = 0; any = false; }
    }
    sym_assert(val<int64_t>(c, "k")->get(0) == sum, "a counter reports increments less decrements");
    sym_assert(val<int64_t>(c, "k")->values_[0].isUpdated() == any, "updated flag");
    sym_cover("stats");
  } else if (what == 1) {
    auto g = c.registerGauge("k", "d");
    auto add = [&] { int v = small(); g.update(v); return v; };
    stats<int64_t>(c, add);
  } else if (what == 2) {
    auto g = c.registerGaugeT<double>("k", "d", DiagnosticUnit::Units);
    auto add = [&] { int v = small(); g.update((double)v); return v; };
    stats<double>(c, add);
  } else if (what == 3) {
    auto t = c.registerTimer("k", "d");
    double clk = 1;
    auto add = [&] {
      int d = (int)(uint8_t)sym_u8("v");
      switch (sym_choose("how", 3)) {
      case 0: t.update(TimeType{clk}, TimeType{clk + d}); break;
      case 1: now_ = clk; t.start(); now_ = clk + d; t.stop(); break;
      case 2: t.stop(); now_ = clk; t.start(); now_ = clk + d; t.stop(); t.stop(); break;  // stop without start is ignored
      }
      return d;
    };
    stats<TimeType>(c, add);
  }
}
