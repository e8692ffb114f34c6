// Phase specification files and load balancer files: every entry, every phase.
#include "sym.h"
#include "vt/config.h"
#include <thread>
#include <queue>
#include <random>
#include <functional>
#include <variant>
#include <unordered_map>
#define private public
#include "vt/transport.h"
#include "vt/vrt/collection/balance/lb_type.h"
#include "vt/vrt/collection/balance/read_lb.h"
#include "vt/utils/file_spec/spec.h"
#undef private
using namespace vt; using namespace vt::utils::file_spec;
static arguments::AppConfig& cfg() { static auto c = new arguments::AppConfig; return *c; }
namespace vt { arguments::AppConfig* theConfig() { return &cfg(); } }
#ifndef ENTRIES
#define ENTRIES 2
#endif
#ifndef NUMS
#define NUMS 4
#endif
static void put(std::string const& t) { std::symx_vput("spec", t); }
struct Ent { bool mod; int64_t p, neg, pos; };
static bool wants(Ent const& e, int64_t ph) {
  if (!e.mod) return ph >= e.p + e.neg && ph <= e.p + e.pos;
  for (int64_t n = 0; n * e.p + e.neg <= ph; n++) if (ph <= n * e.p + e.pos) return true; return false; }
#if WHAT == 0
// entries: symbolic phases and windows
extern "C" void symx_main() {
  FileSpec f; Ent e[ENTRIES]; int n = 1 + (int)sym_choose("entries", ENTRIES); f.type_ = FileSpecType::TRACE;
  for (int i = 0; i < n; i++) {
    e[i].mod = sym_choose("modulus entry", 2); e[i].p = e[i].mod ? 1 + (int64_t)sym_choose("modulus", 6) : (int64_t)(sym_u8("phase") & 31); e[i].neg = -(int64_t)(sym_u8("before") & 7); e[i].pos = sym_u8("after") & 7;
    for (int j = 0; j < i; j++) if (e[j].mod == e[i].mod) sym_assume(e[j].p != e[i].p);
    f.insertSpec(e[i].p, e[i].neg, e[i].pos, e[i].mod, e[i].mod ? f.spec_mod_ : f.spec_exact_);
  }
  f.has_spec_ = true; int64_t ph = sym_u8("asked") & 31; bool got = f.checkEnabled(ph), want = false;
  for (int i = 0; i < n; i++) { bool w;
    if (e[i].mod) { w = false; for (int64_t k = 0; k <= 40; k++) w |= (ph >= k * e[i].p + e[i].neg) & (ph <= k * e[i].p + e[i].pos); } else w = (ph >= e[i].p + e[i].neg) & (ph <= e[i].p + e[i].pos);
    want |= w; if (e[i].mod) sym_cover("modulus"); else sym_cover("exact"); }
  sym_assert(got == want, "a phase is enabled exactly when an entry's window holds it");
}
#elif WHAT == 1
// files of up to ENTRIES lines of tokens
extern "C" void symx_main() {
  static char const* num[] = {"0", "3", "12", "7"}; static int64_t const numv[] = {0, 3, 12, 7}; static char const* neg[] = {"", "0", "-2", "-10"}; static int64_t const negv[] = {0, 0, -2, -10}; static char const* pos[] = {"", "0", "2", "10"}; static int64_t const posv[] = {0, 0, 2, 10};
  std::string t; Ent e[ENTRIES]; int n = 1 + (int)sym_choose("lines", ENTRIES); bool bad = false;
  for (int i = 0; i < n; i++) {
    char const* sp = i ? " " : sym_choose("space", 2) ? " " : "\t "; int k = (int)sym_choose("number", NUMS), a = (int)sym_choose("before", i ? 2 : 4), b = a ? (int)sym_choose("after", 4) : 0; int w = i ? 0 : (int)sym_choose("defect", 5);
    e[i] = Ent{(bool)sym_choose("modulus line", 2), numv[k], negv[a], posv[b]};
    if (e[i].mod) t += sym_choose("space after sign", 2) ? "% " : "%"; if (w != 1) t += num[k]; if (a) { t += sp; t += neg[a]; } if (b) { t += sp; t += pos[b]; }
    if (w == 1) { if (!e[i].mod || a || b) sym_end(); bad = true; }                                  // a modulus sign alone
    if (w == 2) { t += " x"; bad = true; } if (w == 3) { if (a) sym_end(); t += " 4"; bad = true; } if (w == 4) { if (!a) sym_end(); t += b ? " 5" : " -4"; bad = true; }
    if (e[i].mod && e[i].p == 0) bad = true;
    for (int j = 0; j < i; j++) bad |= e[j].mod == e[i].mod && e[j].p == e[i].p;
    if (i + 1 < n || sym_choose("final newline", 2)) t += i || !sym_choose("blank line", 2) ? "\n" : "\n\n";
  }
  put(t); cfg().vt_trace_spec = true; cfg().vt_trace_spec_file = "spec"; FileSpec f; f.type_ = FileSpecType::TRACE;
  if (bad) { sym_cover("malformed"); sym_expect_abort(1); f.parse(); sym_expect_abort(0); sym_fail("malformed or duplicate entries are rejected"); }
  f.parse(); sym_assert(f.specReceived(), "specification read"); sym_cover("read"); bool ok = true;
  for (int64_t ph = 0; ph < 30; ph++) { bool w = false; for (int i = 0; i < n; i++) w |= wants(e[i], ph); ok &= f.checkEnabled(ph) == w; }
  sym_assert(ok, "the file enables exactly the phases its lines describe");
}
#else
// load balancer files
using namespace vt::vrt::collection::balance;
extern "C" void symx_main() {
  static char const* num[] = {"0", "3", "12", "2"}; static int64_t const numv[] = {0, 3, 12, 2}; static char const* name[] = {"RandomLB", "GreedyLB", "OfflineLB", "NoSuchLB"}; LBType const type[] = {LBType::RandomLB, LBType::GreedyLB, LBType::OfflineLB, LBType::NoLB};
  std::string t; struct L { bool mod; int64_t p; int who, args; } e[ENTRIES]; int n = 1 + (int)sym_choose("lines", ENTRIES); bool bad = false, offline = false;
  for (int i = 0; i < n; i++) {
    int form = (int)sym_choose("form", 3), k = form == 2 ? 0 : (int)sym_choose("number", NUMS), who = (int)sym_choose("balancer", i ? 2 : 4), args = (int)sym_choose("arguments", i ? 2 : 4);
    e[i] = L{form > 0, form == 2 ? 1 : numv[k], who, args};
    if (form == 1) t += i ? "%" : "% "; if (form != 2) { t += num[k]; t += " "; } t += name[who]; if (args) t += args == 1 ? " min=0.9" : args == 2 ? " a=1  bb=x " : " oops";
    bad |= who == 3 || args == 3 || (form == 1 && numv[k] == 0); offline |= who == 2; for (int j = 0; j < i; j++) bad |= e[j].mod == e[i].mod && e[j].p == e[i].p;
    if (i + 1 < n || sym_choose("final newline", 2)) t += "\n";
  }
  put(t); sym_assert(!ReadLBConfig::openConfig(""), "no file name means no configuration");
  if (bad) { sym_cover("malformed"); sym_expect_abort(1); ReadLBConfig::openConfig("spec"); sym_expect_abort(0); sym_fail("malformed or duplicate entries are rejected"); }
  sym_assert(ReadLBConfig::openConfig("spec") && ReadLBConfig::openConfig("spec"), "opened"); sym_assert(ReadLBConfig::numEntries() == n && ReadLBConfig::hasOfflineLB() == offline, "every line is an entry"); sym_cover("read");
  for (int64_t ph = 0; ph < 14; ph++) {
    L const* best = nullptr; for (int i = 0; i < n; i++) if (!e[i].mod && e[i].p == ph) best = &e[i]; if (!best) for (int i = 0; i < n && !best; i++) if (e[i].mod && ph % e[i].p == 0) best = &e[i];
    auto got = ReadLBConfig::entry(ph); sym_assert((got != nullptr) == (best != nullptr), "a rule applies exactly when one matches"); sym_assert(ReadLBConfig::getLB(ph) == (best ? type[best->who] : LBType::NoLB), "an exact rule first, otherwise the earliest matching modulus rule");
    if (best) { auto p = got->getParams(); bool ok = best->args == 0 ? p.empty() : best->args == 1 ? p.size() == 1 && p["min"] == "0.9" : p.size() == 2 && p["a"] == "1" && p["bb"] == "x"; sym_assert(ok, "with the arguments of that rule");
      if (best->args == 2) sym_assert(got->getOrDefault<int32_t>("a", 5) == 1 && got->getOrDefault<std::string>("bb", "y") == "x" && got->getOrDefault<int32_t>("none", 5) == 5, "argument values as written, defaults otherwise"); }
  }
  ReadLBConfig::clear(); sym_assert(ReadLBConfig::numEntries() == 0 && ReadLBConfig::entry(0) == nullptr && !ReadLBConfig::hasOfflineLB(), "cleared");
}
#endif
