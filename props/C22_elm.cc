#include "ids.h"
#include "vt/config.h"
#include "vt/objgroup/common.h"
#include "vt/context/context.h"
#include "vt/objgroup/proxy/proxy_bits.h"
#include "vt/elm/elm_id.h"
#include "vt/elm/elm_id_bits.h"
#include "vt/vrt/collection/balance/node_lb_data.h"
#include <new>
using namespace vt; using namespace vt::elm; using O = objgroup::proxy::ObjGroupProxy; using E = ElmIDBits;
static NodeType this_node;
// The two runtime components the id builder consults: which rank this is, and the element counter.
struct Ctx : vt::ctx::Context { };
alignas(16) static unsigned char ctx_mem[sizeof(vt::ctx::Context)];
#include "vt/context/context_attorney.h"
namespace vt {
ctx::Context* theContext() { return reinterpret_cast<ctx::Context*>(ctx_mem); }
vrt::collection::balance::NodeLBData* theNodeLBData() { return nullptr; }
}
static NodeType node(char const* n) { return (NodeType)sym_range(n, 0, 32767); }
struct A { int kind; uint64_t seq; NodeType home; uint32_t gid; bool coll; ObjGroupProxyType proxy; };
static ElementIDStruct make(A& a) {
  a.kind = (int)sym_choose("kind", 4); a.home = node("home"); a.seq = 0; a.gid = 0; a.coll = false; ElementIDStruct e;
  switch (a.kind) {
  case 0: a.gid = sym_u32("group"); a.coll = sym_bool("coll"); a.proxy = O::create(a.gid, a.home, a.coll); e = E::createObjGroup(a.proxy, a.home);
    sym_assert(E::getControlBits(e.id) == ObjGroup, "kind: object group");
    { auto with = E::getObjGroupProxy(e.id, true); auto bare = E::getObjGroupProxy(e.id, false); auto z = a.proxy; O::setNode(z, a.home);
      sym_assert(with == z, "the object group proxy comes back, with the instance's rank"); O::setNode(z, 0); sym_assert(bare == z, "and without it");
      if (a.coll) sym_assert(bare == a.proxy, "a collective group's own proxy comes back unchanged"); }
    break;
  case 1: e = E::createBareHandler(a.home); sym_assert(E::getControlBits(e.id) == BareHandler, "kind: bare handler"); sym_assert(e.curr_node == a.home, "bare handlers live on their own rank"); break;
  default: { a.seq = sym_range("seq", 0, (1ull << 46) - 1); NodeType cur = node("curr"); e = E::createCollectionImpl(a.kind == 3, a.seq, a.home, cur);
    sym_assert(E::getControlBits(e.id) == (a.kind == 3 ? CollectionMigratable : CollectionNonMigratable), "kind: collection element");
    sym_assert(e.curr_node == cur && e.getCurrNode() == cur, "current rank is kept"); break; } }
  sym_assert(E::isMigratable(e.id) == (a.kind == 3) && e.isMigratable() == (a.kind == 3), "migratability round-trips");
  sym_assert(E::getNode(e.id) == a.home && e.getHomeNode() == a.home, "home rank round-trips");
  return e;
}
extern "C" void symx_main() {
  A a, b; auto e = make(a), f = make(b);
  bool same = a.kind == b.kind && a.home == b.home && a.seq == b.seq && a.gid == b.gid && a.coll == b.coll;
  sym_assert((e.id == f.id) == same && (e == f) == same, "identifiers agree exactly when what they name does");
  sym_assert((e < f) == (e.id < f.id) && !((e < f) && (f < e)) && ((e < f) || (f < e) || e == f), "identifiers are totally ordered");
  if (same) sym_assert(std::hash<ElementIDStruct>()(e) == std::hash<ElementIDStruct>()(f), "equal ids hash alike");
  sym_cover("ids");
}
