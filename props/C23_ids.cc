#include "ids.h"
#include "vt/config.h"
#include "vt/group/group_common.h"
#include "vt/group/id/group_id.h"
#include "vt/pipe/pipe_common.h"
#include "vt/pipe/id/pipe_id.h"
using namespace vt; using G = group::GroupIDBuilder; using P = pipe::PipeIDBuilder;
static Field const gf[] = {
  {"coll", 1, [](uint64_t w) -> uint64_t { return G::isCollective(w); }, [](uint64_t& w, uint64_t v) { G::setIsCollective(w, v); }},
  {"static", 1, [](uint64_t w) -> uint64_t { return G::isStatic(w); }, [](uint64_t& w, uint64_t v) { G::setIsStatic(w, v); }},
  {"node", 0xffff, [](uint64_t w) { return un(G::getNode(w)); }, [](uint64_t& w, uint64_t v) { G::setNode(w, (NodeType)v); }},
  {"id", 0xffffffff, [](uint64_t w) -> uint64_t { return (uint32_t)G::getGroupID(w); }, [](uint64_t& w, uint64_t v) { G::setID(w, (group::GroupIDType)v); }},
};
static Field const pf[] = {
  {"back", 1, [](uint64_t w) -> uint64_t { return P::isSendback(w); }, [](uint64_t& w, uint64_t v) { P::setIsSendback(w, v); }},
  {"persist", 1, [](uint64_t w) -> uint64_t { return P::isPersist(w); }, [](uint64_t& w, uint64_t v) { P::setIsPersist(w, v); }},
  {"node", 0xffff, [](uint64_t w) { return un(P::getNode(w)); }, [](uint64_t& w, uint64_t v) { P::setNode(w, (NodeType)v); }},
  {"id", 0xffffffff, [](uint64_t w) -> uint64_t { return (uint32_t)P::getPipeID(w); }, [](uint64_t& w, uint64_t v) { P::setID(w, (pipe::PipeIDType)v); }},
};
struct A { uint32_t id; NodeType node; bool x, y; };
static A at() { return A{sym_u32("id"), (NodeType)sym_range("node", 0, 32767), sym_bool("x"), sym_bool("y")}; }
static uint64_t mkG(A const& a) {
  uint64_t g = G::createGroupID((group::GroupIDType)a.id, a.node, a.x, a.y);
  sym_assert((uint32_t)G::getGroupID(g) == a.id, "group id round-trips"); sym_assert(G::isCollective(g) == a.x, "collective round-trips"); sym_assert(G::isStatic(g) == a.y, "static round-trips");
  if (!a.x) sym_assert(G::getNode(g) == a.node, "creating node round-trips"); return g;
}
static uint64_t mkP(A const& a) {
  uint64_t p = P::createPipeID((pipe::PipeIDType)a.id, a.node, a.x, a.y);
  sym_assert((uint32_t)P::getPipeID(p) == a.id, "pipe id round-trips"); sym_assert(P::isSendback(p) == a.x, "send-back round-trips"); sym_assert(P::isPersist(p) == a.y, "persistent round-trips");
  sym_assert(P::getNode(p) == a.node, "creating node round-trips"); return p;
}
extern "C" void symx_main() {
  switch (sym_choose("what", 4)) {
  case 0: checkSetters(gf); break;
  case 1: checkSetters(pf); break;
  case 2: { A a = at(), b = at(); uint64_t g = mkG(a), h = mkG(b); bool same = a.id == b.id && a.x == b.x && a.y == b.y && (a.x || a.node == b.node);
    sym_assert((g == h) == same, "group ids agree exactly when their attributes do"); sym_cover("group"); break; }
  default: { A a = at(), b = at(); uint64_t g = mkP(a), h = mkP(b); bool same = a.id == b.id && a.x == b.x && a.y == b.y && a.node == b.node;
    sym_assert((g == h) == same, "pipe ids agree exactly when their attributes do"); sym_cover("pipe"); break; }
  }
}
