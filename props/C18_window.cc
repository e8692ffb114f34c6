// Epoch window: every order of opening and closing epochs, at the start of the sequence space and at its wrap-around.
#include "sym.h"
#include "vt/config.h"
#include "vt/epoch/epoch.h"
#include "vt/epoch/epoch_window.h"
#include "vt/epoch/epoch_manip.h"
#include "vt/termination/term_common.h"
#ifndef OPS
#define OPS 5
#endif
using namespace vt; using namespace vt::epoch;
// positions the allocation counter through the class' serialize interface
struct Reposition {
  int back;
  static bool isUnpacking() { return false; }
  void skip(...) {}
  template <typename T> Reposition& operator|(T&) { return *this; }
  Reposition& operator|(std::unique_ptr<vt::adt::RangedCounter<EpochType::ImplType>>& p) { for (int i = 0; i < back; i++) --*p; return *this; }
};
static EpochType arche() {
  bool rooted = sym_bool("rooted");
  if (rooted) { int16_t node = static_cast<int16_t>(sym_range("node", 0, 32767)); auto cat = static_cast<eEpochCategory>(sym_range("category", 0, 2)); return EpochManip::generateEpoch(true, node, cat); }
  return EpochManip::generateEpoch(false, uninitialized_destination, static_cast<eEpochCategory>(sym_range("category", 0, 2)));
}
extern "C" void symx_main() {
  EpochType const arch = arche();
  EpochWindow w(arch);
  int back = sym_choose("start", 4); // 0: fresh, k: k allocations before the wrap-around
  Reposition r{back}; if (back) w.serialize(r);
  EpochType live[OPS + 1]; int n = 0; uint64_t closed = 0; auto const size0 = w.getSize();
  EpochType every[OPS + 1]; int m = 0;
  for (int i = 0; i < OPS; i++) {
    uint64_t const op = sym_choose("op", back ? 2 : 3);
    if (op == 2) { // stands for the rest of the sequence space having been issued and closed: the counter comes round again
      if (!m || EpochManip::seq(every[0]) != 1) sym_end();
      Reposition again{m}; w.serialize(again); m = 0; sym_cover("came round");
      if (n == 0) sym_end();
      continue;
    }
    if (op == 0) {
      EpochType e = w.allocateNewEpoch();
      for (int k = 0; k < n; k++) sym_assert(live[k] != e, "a new epoch is not one in use");
      EpochType a = e; EpochManip::setSeq(a, 0);
      EpochType z = arch; EpochManip::setSeq(z, 0);
      sym_assert(a == z, "a new epoch has the attributes of its window");
      sym_assert(EpochManip::seq(e) != 0, "sequence zero is never issued");
      sym_assert(e != no_epoch && e != term::any_epoch_sentinel, "the special epochs are never issued");
      live[n++] = e; every[m++] = e; sym_cover("open");
      if (m > 1 && EpochManip::seq(e) < EpochManip::seq(every[0])) sym_cover("wrapped");
    } else {
      if (!n) sym_end();
      int k = static_cast<int>(sym_choose("which", n));
      EpochType e = live[k]; sym_assert(!w.isTerminated(e), "an epoch in use is not terminated");
      w.setEpochTerminated(e); closed++; live[k] = live[--n];
      sym_assert(w.isTerminated(e), "a closed epoch is terminated"); sym_cover("close");
    }
    sym_assert(w.getTotalTerminated() == closed, "number of closed epochs");
    sym_assert(w.getSize() == size0 - n, "every epoch is either in use or available");
    for (int k = 0; k < n; k++) sym_assert(!w.isTerminated(live[k]), "epochs in use are not terminated");
    for (int k = 0; k < m; k++) { bool l = false; for (int j = 0; j < n; j++) l |= live[j] == every[k]; sym_assert(w.isTerminated(every[k]) == !l, "closed epochs stay terminated until reissued"); }
  }
  // an arbitrary identifier: in this window it is terminated iff not in use, of another window never
  EpochType q{sym_u64("q")}; bool l = false; for (int j = 0; j < n; j++) l |= live[j] == q;
  if (l) sym_assert(!w.isTerminated(q), "no epoch in use is terminated");
  EpochType qa = q; EpochManip::setSeq(qa, 0); EpochType z = arch; EpochManip::setSeq(z, 0);
  if (qa != z) sym_assert(!w.isTerminated(q), "epochs of other windows are not in this one");
}
// an epoch activated from outside (a remote rank announced it) is in use until closed
extern "C" void symx_activate() {}
