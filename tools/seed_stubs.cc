// Definitions shared by the drivers that link only some of vt's translation units.
// All are weak: a driver that links the real definition gets the real one.
//  - vt::abort / a fatal vt::output is an assertion failure of the property
//  - output and formatting produce nothing
#include "vt/config.h"
#include "vt/configs/arguments/app_config.h"
#include "vt/configs/error/pretty_print_message.h"
namespace vt { namespace runtime { struct Runtime; } extern runtime::Runtime* curRT; }
#include <cstdlib>
#include <cstdio>
#define WEAK __attribute__((weak))
namespace vt {
WEAK void abort(std::string const, ErrorCodeType const) { std::fprintf(stderr, "%s\n", "vt::abort called"); std::abort(); }
WEAK void output(std::string const&, ErrorCodeType, bool, bool, bool, bool abort_out) {
  if (abort_out) { std::fprintf(stderr, "%s\n", "vt assertion failed or vtAbort called"); std::abort(); }
}
WEAK runtime::Runtime* curRT = nullptr;
namespace debug {
WEAK std::string stringizeMessage(
  std::string const&, std::string const&, std::string const&, std::string const&,
  int const, std::string const&, ErrorCodeType
) { return std::string(); }
static arguments::AppConfig& unitConfig() {
  static arguments::AppConfig* c = [] { auto p = new arguments::AppConfig; p->vt_quiet = true; return p; }();
  return *c;
}
WEAK arguments::AppConfig const* preConfig() { return &unitConfig(); }
WEAK arguments::AppConfig* preConfigRef() { return &unitConfig(); }
WEAK NodeType preNode() { return 0; }
} /* end namespace debug */
WEAK arguments::AppConfig* theConfig() { return &debug::unitConfig(); }
} /* end namespace vt */
FMT_BEGIN_NAMESPACE
WEAK auto vformat(string_view, format_args) -> std::string { return std::string(); }
WEAK void vprint(string_view, format_args) {}
WEAK void vprint(std::FILE*, string_view, format_args) {}
FMT_END_NAMESPACE
