#include "ids.h"
#include "vt/config.h"
#include "vt/handler/handler.h"
using namespace vt; using H = HandlerManager; using R = H::RegistryTypeEnum;
static Field const fields[] = {
  {"auto", 1, [](uint64_t w) -> uint64_t { return H::isHandlerAuto((HandlerType)w); }, [](uint64_t& w, uint64_t v) { HandlerType h = (HandlerType)w; H::setHandlerAuto(h, v); w = (uint64_t)h; }},
  {"functor", 1, [](uint64_t w) -> uint64_t { return H::isHandlerFunctor((HandlerType)w); }, [](uint64_t& w, uint64_t v) { HandlerType h = (HandlerType)w; H::setHandlerFunctor(h, v); w = (uint64_t)h; }},
  {"base", 1, [](uint64_t w) -> uint64_t { return H::isHandlerBaseMsgDerived((HandlerType)w); }, [](uint64_t& w, uint64_t v) { HandlerType h = (HandlerType)w; H::setHandlerBaseMsgDerived(h, v); w = (uint64_t)h; }},
  {"registry", 15, [](uint64_t w) -> uint64_t { return (uint64_t)H::getHandlerRegistryType((HandlerType)w); }, [](uint64_t& w, uint64_t v) { HandlerType h = (HandlerType)w; H::setHandlerRegistryType(h, (R)v); w = (uint64_t)h; }},
  {"control", 0xfffff, [](uint64_t w) -> uint64_t { return H::getHandlerControl((HandlerType)w); }, [](uint64_t& w, uint64_t v) { HandlerType h = (HandlerType)w; H::setHandlerControl(h, (HandlerControlType)v); w = (uint64_t)h; }},
  {"id", (1ull << 36) - 1, [](uint64_t w) -> uint64_t { return H::getHandlerIdentifier((HandlerType)w); }, [](uint64_t& w, uint64_t v) { HandlerType h = (HandlerType)w; H::setHandlerIdentifier(h, v); w = (uint64_t)h; }},
#if vt_check_enabled(trace_enabled)
  {"trace", 1, [](uint64_t w) -> uint64_t { return H::isHandlerTrace((HandlerType)w); }, [](uint64_t& w, uint64_t v) { HandlerType h = (HandlerType)w; H::setHandlerTrace(h, v); w = (uint64_t)h; }},
#endif
};
struct A { bool a, f, t, b; uint64_t id; R r; uint32_t c; };
static A attrs() {
  A x; x.a = sym_bool("auto"); x.f = sym_bool("functor"); x.t = sym_bool("trace"); x.b = sym_bool("base");
  x.id = sym_range("id", 0, (1ull << 36) - 1); x.r = (R)sym_range("registry", 1, 10); x.c = (uint32_t)sym_range("control", 0, 0xfffff); return x;
}
static HandlerType make(A const& x) {
  HandlerType h = H::makeHandler(x.a, x.f, x.id, x.r, x.c, x.t, x.b);
  sym_assert(H::isHandlerAuto(h) == x.a, "auto round-trips"); sym_assert(H::isHandlerFunctor(h) == x.f, "functor round-trips");
  sym_assert(H::isHandlerBaseMsgDerived(h) == x.b, "message base round-trips"); sym_assert(H::getHandlerIdentifier(h) == x.id, "identifier round-trips");
  sym_assert(H::getHandlerControl(h) == x.c, "control round-trips"); sym_assert(H::getHandlerRegistryType(h) == x.r, "registry type round-trips");
  sym_assert(H::isHandlerObjGroup(h) == (x.r == R::RegObjGroup), "object group handlers are recognised");
  sym_assert(H::isHandlerMember(h) == (x.r == R::RegVrtCollectionMember), "collection member handlers are recognised");
#if vt_check_enabled(trace_enabled)
  sym_assert(H::isHandlerTrace(h) == x.t, "trace flag round-trips");
#endif
  return h;
}
extern "C" void symx_main() {
  if (sym_choose("what", 2)) { checkSetters(fields); return; }
  A x = attrs(), y = attrs(); HandlerType hx = make(x), hy = make(y);
  bool same = x.a == y.a && x.f == y.f && x.b == y.b && x.id == y.id && x.r == y.r && x.c == y.c;
#if vt_check_enabled(trace_enabled)
  same = same && x.t == y.t;
#endif
  sym_assert((hx == hy) == same, "identifiers agree exactly when all parts do"); sym_cover("make");
}
