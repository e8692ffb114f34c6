// C44: linear regression and memory units
#include <vector>
#include <numeric>
#include "vt/config.h"
#include "vt/utils/stats/linear_regression.h"
#include "vt/utils/memory/memory_units.h"
#include "sym.h"
using namespace vt;
extern "C" void symx_main() {
#if WHAT == 0
  // x positions
#if EXACT
  static int const xs[][4] = {{-1,1,0,0},{-2,2,0,0},{1,-1,0,0},{-1,-1,1,1},{2,-2,2,-2},{4,-4,0,0}};
  static int const len[] = {2,2,2,4,4,4};
  int s = sym_choose("layout", 6);
  int a = (int)sym_choose("a", 17) - 8, b = (int)(int8_t)sym_u8("b"), p = (int)sym_choose("at", 8) * 5 - 16;
#else
  static int const xs[][4] = {{0,1,2,3},{1,2,3,4},{-1,0,1,2},{1,2,3,0},{0,1,3,0},{1,2,0,0},{0,4,0,0},{3,3,5,5}};
  static int const len[] = {4,4,4,3,3,2,2,4};
  int s = sym_choose("layout", 8);
  int a = (int)sym_choose("a", 9) - 4, b = BVAL, p = (int)sym_choose("at", 4) * 3 - 2;
#endif
  std::vector<double> x, y;
  for (int i = 0; i < len[s]; i++) { x.push_back(xs[s][i]); y.push_back(a * xs[s][i] + b); }
  vt::util::stats::LinearRegression lr(x, y);
  double r = lr.predict(p);
  double d = r - (double)(a * p + b);
#if EXACT
  sym_assert(d == 0.0, "exactly linear data are reproduced");
#else
  sym_assert(d <= 1e-6 && d >= -1e-6, "exactly linear data are reproduced (up to rounding)");
#endif
  sym_cover("line");
#else
  std::size_t b = sym_u64("bytes");
  auto t = vt::util::memory::getBestMemoryUnit(b);
  static char const* nm[] = {"B","KiB","MiB","GiB","TiB","PiB","EiB","ZiB","YiB"};
  int u = -1;
  for (int i = 0; i < 9; i++) if (std::get<0>(t) == nm[i]) u = i;
  sym_assert(u >= 0 && u <= 6, "the unit is one of the names and fits 64 bits");
  double scale = 1; for (int i = 0; i < u; i++) scale *= 1024.0;
  sym_assert(std::get<1>(t) * scale == (double)b, "value in the unit is the size");
  sym_assert(u == 0 || std::get<1>(t) >= 1.0, "unit does not exceed the size");
  sym_assert(std::get<1>(t) < 1024.0 , "no larger unit fits");
  sym_assert(vt::util::memory::getMemoryUnitName(vt::util::memory::getUnitFromString(nm[u])) == nm[u], "unit names round-trip");
  sym_cover("line");
#endif
}
