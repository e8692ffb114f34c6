#include "ids.h"
#include "vt/config.h"
#include "vt/objgroup/common.h"
#include "vt/objgroup/proxy/proxy_bits.h"
#include "vt/vrt/proxy/proxy_bits.h"
#include "vt/vrt/collection/proxy_builder/elm_proxy_builder.h"
using namespace vt; using O = objgroup::proxy::ObjGroupProxy; using V = vrt::VirtualProxyBuilder;
static Field const ofields[] = {
  {"control", 1, [](uint64_t w) -> uint64_t { return O::isControl(w); }, [](uint64_t& w, uint64_t v) { O::setControl(w, v); }},
  {"coll", 1, [](uint64_t w) -> uint64_t { return O::isCollective(w); }, [](uint64_t& w, uint64_t v) { O::setIsCollective(w, v); }},
  {"node", 0xffff, [](uint64_t w) { return un(O::getNode(w)); }, [](uint64_t& w, uint64_t v) { O::setNode(w, (NodeType)v); }},
  {"id", 0xffffffff, [](uint64_t w) -> uint64_t { return O::getID(w); }, [](uint64_t& w, uint64_t v) { O::setID(w, (objgroup::ObjGroupIDType)v); }},
};
static Field const vfields[] = {
  {"coll", 1, [](uint64_t w) -> uint64_t { return V::isCollection(w); }, [](uint64_t& w, uint64_t v) { V::setIsCollection(w, v); }},
  {"mig", 1, [](uint64_t w) -> uint64_t { return V::isMigratable(w); }, [](uint64_t& w, uint64_t v) { V::setIsMigratable(w, v); }},
  {"remote", 1, [](uint64_t w) -> uint64_t { return V::isRemote(w); }, [](uint64_t& w, uint64_t v) { V::setIsRemote(w, v); }},
  {"node", 0xffff, [](uint64_t w) { return un(V::getVirtualNode(w)); }, [](uint64_t& w, uint64_t v) { V::setVirtualNode(w, (NodeType)v); }},
  {"id", 0xffffffff, [](uint64_t w) -> uint64_t { return V::getVirtualID(w); }, [](uint64_t& w, uint64_t v) { V::setVirtualID(w, (vrt::VirtualIDType)v); }},
};
static NodeType node(char const* n) { return (NodeType)sym_range(n, 0, 32767); }
struct OA { uint32_t id; NodeType node; bool coll; };
static uint64_t mkO(OA& a) {
  a = OA{sym_u32("id"), node("node"), sym_bool("coll")}; uint64_t p = O::create(a.id, a.node, a.coll);
  sym_assert(O::isControl(p), "an object group proxy is marked as one"); sym_assert(O::isCollective(p) == a.coll, "collective round-trips");
  sym_assert(O::getID(p) == a.id, "id round-trips"); sym_assert(O::getNode(p) == (a.coll ? 0 : a.node), "node round-trips (collective: 0)"); return p;
}
struct VA { bool remote_id, coll, mig, dist; uint32_t id; NodeType node, home; };
static uint64_t mkV(VA& a) {
  a = VA{sym_bool("remote_id"), sym_bool("coll"), sym_bool("mig"), sym_bool("dist"), sym_u32("id"), node("node"), node("home")}; uint64_t p;
  if (a.remote_id) { a.id &= 0xffff; a.dist = true; p = V::createRemoteProxy((uint16_t)a.id, a.home, a.node, a.coll, a.mig);
    sym_assert(V::getVirtualNode(p) == a.node, "target node round-trips");
    uint64_t q = p; V::setVirtualRemoteID(q, (uint16_t)a.id); V::setVirtualRemoteNode(q, a.home); sym_assert(q == p, "remote id and requesting node are the stored ones");
  } else { p = V::createProxy(a.id, a.node, a.coll, a.mig, a.dist); sym_assert(V::getVirtualNode(p) == (a.dist ? 0 : a.node), "node round-trips (distributed: 0)"); sym_assert(V::getVirtualID(p) == a.id, "id round-trips"); }
  sym_assert(V::isCollection(p) == a.coll, "collection round-trips"); sym_assert(V::isMigratable(p) == a.mig, "migratable round-trips"); sym_assert(V::isRemote(p) == a.dist, "remote/distributed round-trips");
  return p;
}
extern "C" void symx_main() {
  switch (sym_choose("what", 5)) {
  case 0: checkSetters(ofields); break;
  case 1: checkSetters(vfields); break;
  case 2: { OA a, b; uint64_t p = mkO(a), q = mkO(b); bool same = a.id == b.id && a.coll == b.coll && (a.coll || a.node == b.node);
    sym_assert((p == q) == same, "object group proxies agree exactly when their descriptions do"); sym_cover("objgroup"); break; }
  case 3: { VA a, b; uint64_t p = mkV(a), q = mkV(b); sym_assume(a.remote_id == b.remote_id); // (the two creation schemes use separate proxy spaces in the manager)
    bool same = a.coll == b.coll && a.mig == b.mig && a.id == b.id && a.dist == b.dist && (a.remote_id ? a.node == b.node && a.home == b.home : (a.dist || a.node == b.node));
    sym_assert((p == q) == same, "virtual proxies agree exactly when their descriptions do"); sym_cover("virtual"); break; }
  default: { VirtualElmOnlyProxyType p{}; auto bits = (UniqueIndexBitType)sym_u64("index"); vrt::collection::VirtualElemProxyBuilder::createElmProxy(p, bits);
    sym_assert(vrt::collection::VirtualElemProxyBuilder::elmProxyGetIndex(p) == bits, "element proxy returns its index"); sym_cover("element"); break; }
  }
}
