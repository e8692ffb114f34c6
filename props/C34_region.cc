// Group regions: a strided range, a list and a shallow list, under up to DEPTH nested operations, against the sequence they denote.
#include "sym.h"
#include "vt/config.h"
#include "vt/group/region/group_region.h"
#include "vt/group/region/group_range.h"
#include "vt/group/region/group_list.h"
#include "vt/group/region/group_shallow_list.h"
#ifndef MAXN
#define MAXN 4
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
using namespace vt; using namespace vt::group::region;
using Seq = std::vector<NodeType>;
static NodeType rank(char const* n, int top) { uint16_t v = sym_u16(n); sym_assume(v <= top); return (NodeType)v; }
static bool shallow(Region& r) { return dynamic_cast<ShallowList*>(&r) != nullptr; }
static bool in(Seq const& s, NodeType x) { bool b = false; for (auto v : s) b |= v == x; return b; }
static void agree(Region& r, Seq const& s) {
  sym_assert(r.getSize() == s.size(), "size");
  if (!s.empty()) sym_assert(r.head() == s[0], "head");
}
static void probe(Region& r, Seq const& s, char const* m) { NodeType x = (NodeType)sym_u16("probe"); sym_assert(r.contains(x) == in(s, x), m); }
static void listed(Region& r, Seq const& s) {
  if (shallow(r)) return;
  auto const& l = r.makeList(); sym_assert(l.size() == s.size(), "list form has every rank once");
  bool ok = true; for (size_t i = 0; i < s.size(); i++) ok &= l[i] == s[i]; sym_assert(ok, "list form is the same sequence");
  probe(r, s, "membership after listing");
}
static void explore(Region& r, Seq const& s, int depth) {
  agree(r, s);
  int const n = (int)s.size();
  switch (sym_choose("op", depth ? 5 : 1)) {
  case 0: if (sym_bool("probe?")) probe(r, s, "membership"); else { listed(r, s); agree(r, s); sym_cover("list"); } break;
  case 1: { if (!n) sym_end(); auto t = r.tail(); explore(*t, Seq(s.begin() + 1, s.end()), depth - 1); agree(r, s); sym_cover("tail"); break; }
  case 2: { if (n < 2) sym_end(); auto p = r.split(); auto& a = *std::get<0>(p); auto& b = *std::get<1>(p); size_t k = a.getSize();
    sym_assert(k > 0 && b.getSize() > 0 && k + b.getSize() == (size_t)n, "splitting partitions, no part empty");
    if (sym_bool("first")) explore(a, Seq(s.begin(), s.begin() + k), depth - 1); else explore(b, Seq(s.begin() + k, s.end()), depth - 1); sym_cover("split"); break; }
  case 3: { int k = 1 + (int)sym_choose("parts", MAXN + 1); int pick = (int)sym_choose("pick", MAXN + 1); size_t at = 0; int parts = 0; bool whole = true;
    std::vector<std::unique_ptr<Region>> got; r.splitN(k, [&](std::unique_ptr<Region> q) { got.push_back(std::move(q)); });
    sym_assert((int)got.size() == (k < n ? k : n), "as many parts as asked for, never an empty one");
    for (auto& q : got) { size_t c = q->getSize(); sym_assert(c > 0 && at + c <= (size_t)n, "no part is empty or beyond the end"); if (parts++ == pick) explore(*q, Seq(s.begin() + at, s.begin() + at + c), depth - 1); else agree(*q, Seq(s.begin() + at, s.begin() + at + c)); at += c; }
    sym_assert(at == (size_t)n, "nothing is lost"); if (pick && pick >= parts) sym_end(); sym_cover("splitN"); break; }
  default: { auto c = r.copy(); explore(*c, s, depth - 1); agree(r, s); sym_cover("copy"); break; } }
}
extern "C" void symx_main() {
  Seq s;
  switch (sym_choose("kind", 3)) {
  case 0: { int stride = 1 + (int)sym_choose("stride", 4), n = (int)sym_choose("size", MAXN + 1), slack = (int)sym_choose("slack", stride);
    static NodeType const los[] = {0, 1, 2, 3, 30001, 30002}; NodeType lo = los[sym_choose("lo", 6)]; NodeType hi = (NodeType)(n ? lo + (n - 1) * stride + 1 + slack : lo - (slack ? 1 : 0));
    for (int i = 0; i < n; i++) s.push_back((NodeType)(lo + i * stride));
    if (sym_bool("cut")) { int k = (int)sym_choose("drop", n + 1); Range whole(lo, hi, (NodeType)stride); Range r(whole, (NodeType)k); s.erase(s.begin(), s.begin() + k); explore(r, s, DEPTH); }
    else if (sym_bool("carried")) { Range whole(lo, hi, (NodeType)stride); RangeData d(whole); Range r = d.getRange(); explore(r, s, DEPTH); }
    else { Range r(lo, hi, (NodeType)stride); explore(r, s, DEPTH); }
    sym_cover("range"); break; }
  case 1: { int n = (int)sym_choose("size", MAXN + 1); for (int i = 0; i < n; i++) { s.push_back(rank("elm", 32767)); for (int j = 0; j < i; j++) sym_assume(s[i] != s[j]); }
    List l(s); if (sym_bool("sort")) { l.sort(); std::sort(s.begin(), s.end()); }
    if (sym_bool("cut")) { int k = (int)sym_choose("drop", n + 1); List r(l, (NodeType)k); s.erase(s.begin(), s.begin() + k); explore(r, s, DEPTH); }
    else explore(l, s, DEPTH);
    sym_cover("list region"); break; }
  default: { int n = 1 + (int)sym_choose("size", MAXN); for (int i = 0; i < n; i++) { s.push_back(rank("elm", 32767)); for (int j = 0; j < i; j++) sym_assume(s[i] != s[j]); }
    Seq keep = s; ShallowList l(keep); explore(l, s, DEPTH); sym_cover("shallow region"); } }
}
