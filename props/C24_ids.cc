#include "ids.h"
#include "vt/config.h"
#include "vt/rdma/rdma_common.h"
#include "vt/rdma/rdma_handle.h"
#include "vt/rdma/channel/rdma_channel_lookup.h"
#include "vt/event/event_id.h"
#include "vt/rdmahandle/handle_key.h"
using namespace vt; using R = rdma::HandleManager; using E = event::EventIDManager;
static Field const rf[] = {
  {"sized", 1, [](uint64_t w) -> uint64_t { return R::isSized((RDMA_HandleType)w); }, [](uint64_t& w, uint64_t v) { RDMA_HandleType h = (RDMA_HandleType)w; R::setIsSized(h, v); w = (uint64_t)h; }},
  {"coll", 1, [](uint64_t w) -> uint64_t { return R::isCollective((RDMA_HandleType)w); }, [](uint64_t& w, uint64_t v) { RDMA_HandleType h = (RDMA_HandleType)w; R::setIsCollective(h, v); w = (uint64_t)h; }},
  {"handler", 1, [](uint64_t w) -> uint64_t { return R::isHandler((RDMA_HandleType)w); }, [](uint64_t& w, uint64_t v) { RDMA_HandleType h = (RDMA_HandleType)w; R::setIsHandler(h, v); w = (uint64_t)h; }},
  {"type", 3, [](uint64_t w) -> uint64_t { return (uint64_t)R::getOpType((RDMA_HandleType)w) & 15; }, [](uint64_t& w, uint64_t v) { RDMA_HandleType h = (RDMA_HandleType)w; R::setOpType(h, (rdma::Type)v); w = (uint64_t)h; }},
  {"node", 0xffff, [](uint64_t w) { return un(R::getRdmaNode((RDMA_HandleType)w)); }, [](uint64_t& w, uint64_t v) { RDMA_HandleType h = (RDMA_HandleType)w; R::setRdmaNode(h, (NodeType)v); w = (uint64_t)h; }},
  {"id", 0xffffffff, [](uint64_t w) -> uint64_t { return (uint32_t)R::getRdmaIdentifier((RDMA_HandleType)w); }, [](uint64_t& w, uint64_t v) { RDMA_HandleType h = (RDMA_HandleType)w; R::setRdmaIdentifier(h, (rdma::RDMA_IdentifierType)v); w = (uint64_t)h; }},
};
static Field const ef[] = {
  {"node", 0xffff, [](uint64_t w) { return un(E::getEventNode(w)); }, [](uint64_t& w, uint64_t v) { E::setEventNode(w, (NodeType)v); }},
  {"id", 0xffffffff, [](uint64_t w) -> uint64_t { return (uint32_t)E::getEventIdentifier(w); }, [](uint64_t& w, uint64_t v) { E::setEventIdentifier(w, (event::EventIdentifierType)v); }},
};
static NodeType node(char const* n) { return (NodeType)sym_range(n, 0, 32767); }
struct RA { bool s, c, h; rdma::Type t; NodeType n; int32_t id; };
static RDMA_HandleType mkR(RA& a) {
  a = RA{sym_bool("sized"), sym_bool("coll"), sym_bool("handler"), (rdma::Type)sym_range("type", 0, 3), node("node"), (int32_t)sym_u32("id")};
  RDMA_HandleType h = R::createNewHandler(); sym_assert(R::getOpType(h) == rdma::Type::Uninitialized, "a new handle has no operation type");
  R::setIsCollective(h, a.c); R::setIsHandler(h, a.h); R::setIsSized(h, a.s); R::setRdmaNode(h, a.n); R::setRdmaIdentifier(h, a.id); R::setOpType(h, a.t);
  sym_assert(R::isSized(h) == a.s && R::isCollective(h) == a.c && R::isHandler(h) == a.h, "flags round-trip"); sym_assert(R::getOpType(h) == a.t, "operation type round-trips");
  sym_assert(R::getRdmaNode(h) == a.n, "node round-trips"); sym_assert(R::getRdmaIdentifier(h) == a.id, "identifier round-trips"); return h;
}
extern "C" void symx_main() {
  switch (sym_choose("what", 6)) {
  case 0: checkSetters(rf); break;
  case 1: checkSetters(ef); break;
  case 2: { RA a, b; auto h = mkR(a), g = mkR(b); bool same = a.s == b.s && a.c == b.c && a.h == b.h && a.t == b.t && a.n == b.n && a.id == b.id;
    sym_assert((h == g) == same, "handles agree exactly when their attributes do"); sym_cover("rdma"); break; }
  case 3: { int32_t i = sym_i32("id"), j = sym_i32("id"); NodeType m = node("node"), n = node("node"); auto e = E::makeEvent(i, m), f = E::makeEvent(j, n);
    sym_assert(E::getEventNode(e) == m && E::getEventIdentifier(e) == i, "events return node and identifier"); sym_assert((e == f) == (i == j && m == n), "event ids agree exactly when node and number do"); sym_cover("event"); break; }
  case 4: { auto h = (RDMA_HandleType)sym_u64("han"), g = (RDMA_HandleType)sym_u64("han"); NodeType a = node("n"), b = node("n"), c = node("n"), d = node("n");
    rdma::ChannelLookup k(h, a, b), l(g, c, d); bool same = h == g && a == c && b == d; sym_assert((k == l) == same, "channel keys agree exactly when handle and both ends do");
    if (same) sym_assert(std::hash<rdma::ChannelLookup>()(k) == std::hash<rdma::ChannelLookup>()(l), "equal keys hash alike"); sym_cover("channel"); break; }
  default: { using K = rdma::HandleKey; auto mk = [](uint64_t p, uint64_t h, bool c) { return c ? K(K::CollectionTag{}, (VirtualProxyType)p, (RDMA_HandleType)h) : K(K::ObjGroupTag{}, (ObjGroupProxyType)p, (RDMA_HandleType)h); };
    uint64_t p = sym_u64("proxy"), q = sym_u64("proxy"); uint64_t h = sym_u64("han"), g = sym_u64("han"); bool c = sym_bool("coll"), d = sym_bool("coll");
    sym_assume(p != (uint64_t)no_vrt_proxy && q != (uint64_t)no_vrt_proxy && p != (uint64_t)no_obj_group && q != (uint64_t)no_obj_group && h != (uint64_t)no_rdma_handle && g != (uint64_t)no_rdma_handle);
    K k = mk(p, h, c), l = mk(q, g, d); bool same = p == q && h == g && c == d; sym_assert((k == l) == same, "handle keys agree exactly when owner and handle do");
    sym_assert(k.valid() && k.isObjGroup() == !c, "a built key is valid and knows its kind"); if (same) sym_assert(std::hash<K>()(k) == std::hash<K>()(l), "equal keys hash alike"); sym_cover("key"); break; }
  }
}
