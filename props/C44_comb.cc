// C44: combination of per-rank statistics (diagnostics and load statistics)
#include <thread>
#include <queue>
#include <random>
#include <functional>
#include <variant>
#include <unordered_map>
#include <sstream>
#define private public
#include "vt/config.h"
#include "vt/runtime/component/diagnostic_units.h"
#include "vt/runtime/component/diagnostic_value.h"
#include "vt/vrt/collection/balance/stats_msg.h"
#undef private
#include "sym.h"
using namespace vt;
namespace lb = vt::vrt::collection::balance;
using namespace vt::runtime::component::detail;

struct Leaf { int v; int n; };
#ifdef LOADS
using W = lb::LoadData;
static W mk(Leaf l) { return W(vt::vrt::collection::lb::Statistic::Object_load_raw, (double)l.v); }
static double sumof(W const& w) { return w.sum(); }
static int cnt(W const& w) { return w.N_; }
#else
using W = DiagnosticValueWrapper<T_>;
static W mk(Leaf l) { return W(typename W::ReduceTag{}, T_(l.v), l.n != 0, (std::size_t)l.n); }
static double sumof(W const& w) { return (double)w.sum(); }
static int cnt(W const& w) { return (int)w.getN(); }
#endif

extern "C" void symx_main() {
  Leaf l[4]; bool exact = true; int k = LEAVES;
#ifndef SHAPE2
  for (int i = 0; i < k; i++) { l[i].v = VAL; l[i].n = 1; }
#else
  // ranks that recorded nothing take part with a count of zero
  for (int i = 0; i < k; i++) { l[i].v = VAL; l[i].n = sym_choose("n", MAXN + 1); }
#endif
  // every order and association of the leaves
  std::vector<W> w; for (int i = 0; i < k; i++) w.push_back(mk(l[i]));
  while (w.size() > 1) {
    int i = sym_choose("i", (int)w.size()), j = sym_choose("j", (int)w.size() - 1); if (j >= i) j++;
    W r = w[i] + w[j];
    int m = cnt(r); if (m & (m - 1)) exact = false;  // division by a count that is no power of two rounds
    std::vector<W> nw; nw.push_back(r);
    for (int q = 0; q < (int)w.size(); q++) if (q != i && q != j) nw.push_back(w[q]);
    w = std::move(nw);
  }
  W const& r = w[0];
  long S = 0, tot = 0, wsum = 0, mn = 1 << 20, mx = -(1 << 20);
  for (int i = 0; i < k; i++) { tot += l[i].n; wsum += (long)l[i].n * l[i].v; if (l[i].n) { S += l[i].v; if (l[i].v < mn) mn = l[i].v; if (l[i].v > mx) mx = l[i].v; } }
  sym_assert(cnt(r) == tot, "combined count");
  sym_assert(sumof(r) == (double)S, "combined sum");
  if (tot == 0) { sym_assert((double)r.avg() == 0.0, "no sample anywhere: mean zero"); return; }
  sym_assert((double)r.min() == (double)mn, "combined minimum");
  sym_assert((double)r.max() == (double)mx, "combined maximum");
  if (!exact) { sym_cover("rounded"); return; }
  sym_assert((double)r.avg() * tot == (double)wsum, "combined mean");
  long n = tot;
#ifndef SHAPE2
  // sum of squared deviations: sum n(v - S/n)^2; n^2 * M2 = n * (n * sum v^2 - S^2)
  long q2 = 0; for (int i = 0; i < k; i++) q2 += (long)l[i].v * l[i].v;
  sym_assert(r.M2_ * n == (double)(n * q2 - S * S), "combined second moment");
#endif
#ifdef HIGHER
  long c3 = 0, c4 = 0;
  for (int i = 0; i < k; i++) { long d = n * l[i].v - S; c3 += d * d * d; c4 += d * d * d * d; }
  sym_assert(r.M3_ * (n * n * n) == (double)c3, "combined third moment");
  sym_assert(r.M4_ * (n * n * n * n) == (double)c4, "combined fourth moment");
#endif
  sym_cover("combined");
}
