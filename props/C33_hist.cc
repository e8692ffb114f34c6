// Approximate histogram: counts, bounds and structure after any additions and merges.
#include "sym.h"
#include "vt/config.h"
#include "vt/utils/adt/histogram_approx.h"
#ifndef ADDS
#define ADDS 4
#endif
using namespace vt;
using T = REAL; using Hist = adt::HistogramApprox<T, int64_t>;
static T value() { INT v = (INT)VAR("value");
#if QUERY == 2
  sym_assume(v >= -1 && v < 12);
#endif 
#ifdef WIDE
  float f = sym_f32("real"); sym_assume(f >= -1e6f && f <= 1e6f); return f;
#else
  return static_cast<T>(v);
#endif
}
struct Model { int64_t n = 0; T lo{}, hi{}; void add(T v, int64_t k) { if (!n || v < lo) lo = v; if (!n || v > hi) hi = v; n += k; } void join(Model const& o) { if (!o.n) return; if (!n || o.lo < lo) lo = o.lo; if (!n || o.hi > hi) hi = o.hi; n += o.n; } };
static void agree(Hist& h, Model const& m, int64_t cap, bool order) {
  sym_assert(h.getCount() == m.n, "every sample is counted, none twice");
  int64_t sum = 0; auto const& c = h.getCentroids(); for (auto const& x : c) sum += x.getCount();
  sym_assert(sum == m.n, "the centroids hold exactly the samples");
  sym_assert((int64_t)c.size() <= cap && h.getMaxCentroids() == cap && h.getNumCentroids() == (int64_t)c.size(), "never more centroids than allowed");
  if (!m.n) { sym_assert(c.empty(), "no samples, no centroids"); return; }
  sym_assert(h.getMin() == m.lo && h.getMax() == m.hi, "the extremes are exact");
  if (order) { bool ok = c[0].getValue() >= m.lo && c[c.size() - 1].getValue() <= m.hi; for (size_t i = 0; i + 1 < c.size(); i++) ok &= c[i].getValue() < c[i + 1].getValue(); sym_assert(ok, "centroids are in order, between the extremes"); }
}
static int64_t times() { return 1 + (int64_t)sym_choose("times", 2) * 2; }

#if QUERY
extern "C" void symx_main() {
  int const n = 1 + (int)sym_choose("n", ADDS); Hist h(QUERY == 1 ? 8 : 2); Model m; T v[ADDS]; int64_t t[ADDS];
  for (int i = 0; i < n; i++) { v[i] = QUERY == 2 ? (T)((int)sym_choose("sample", 6) * 2) : value(); t[i] = QUERY == 1 ? 1 + (int64_t)sym_choose("times", 2) : 1; h.add(v[i], t[i]); m.add(v[i], t[i]); }
  static double const ps[] = {0., 0.25, 0.5, 0.75, 0.9, 1.};
#if QUERY == 2 && !defined(THOROUGH)
  bool const count = true;
#else
  bool const count = sym_bool("count");
#endif
  if (count) {
    T p = value(); double e = h.estimateNumValues(p); 
    if (QUERY == 1) { int64_t le = 0; for (int i = 0; i < n; i++) if (v[i] <= p) le += t[i]; sym_assert(e == (double)le, "counting is exact while nothing was merged"); }
    else { if (p >= m.hi) sym_assert(e == m.n, "every sample lies below the maximum"); if (p < m.lo) sym_assert(e == 0, "no sample lies below the minimum"); sym_assert(e >= 0 && e <= (double)m.n, "estimates count between none and all"); }
    sym_cover("count");
  } else {
    double q = h.quantile(ps[sym_choose("p", 6)]);
    double const slack = QUERY == 1 ? 0. : 1. / 1024;
    sym_assert(q >= m.lo - slack && q <= m.hi + slack, "quantiles stay between the extremes");
    sym_cover("quantile");
  }
}
#else
extern "C" void symx_main() {
  int64_t const cap = 1 + (int64_t)sym_choose("cap", 3); Hist h(cap); Model m;
  if (sym_bool("merge")) {
    int64_t const cap2 = 1 + (int64_t)sym_choose("cap2", 2); Hist g(cap2); Model k; int a = (int)sym_choose("a", ADDS), b = (int)sym_choose("b", ADDS); if (a + b > ADDS) sym_end();
    for (int i = 0; i < a; i++) { T v = value(); h.add(v, 1); m.add(v, 1); }
    for (int i = 0; i < b; i++) { T v = value(); int64_t t = i ? 1 : times(); g.add(v, t); k.add(v, t); }
    h.mergeIn(g); m.join(k); agree(h, m, cap, false); agree(g, k, cap2, false); sym_cover("merge");
  } else {
    int a = 1 + (int)sym_choose("a", ADDS);
    for (int i = 0; i < a; i++) { T v = value(); int64_t t = i < 2 && a > ORDER ? times() : 1; h.add(v, t); m.add(v, t); }
    agree(h, m, cap, a <= ORDER); sym_cover("add");
  }
}
#endif
