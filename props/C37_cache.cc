// Location cache: any sequence of insert, lookup, remove; compared with a plain recency-ordered list.
#include "sym.h"
#include "vt/config.h"
#include "vt/topos/location/location_common.h"
#include "vt/topos/location/cache/cache.h"
#include "vt/topos/location/cache/cache.impl.h"
#include "vt/topos/location/record/record.h"
#include "vt/topos/location/record/record.impl.h"
#include "vt/topos/location/record/state.h"
#include <vector>
#ifndef STEPS
#define STEPS 5
#endif
#ifndef KEYS
#define KEYS 3
#endif
using namespace vt; using namespace vt::location;
using Rec = LocRecord<uint64_t>;
static void same(Rec const& r, uint64_t key, NodeType node, bool local) {
  sym_assert(r.getRemoteNode() == node, "a lookup returns the most recently stored location");
  sym_assert(r.isLocal() == local && r.isRemote() == !local && r.getEntityID() == key, "the record survives storing exactly");
}
extern "C" void symx_main() {
  struct E { uint64_t key; NodeType node; bool local; };
  uint64_t keys[KEYS]; for (int i = 0; i < KEYS; i++) keys[i] = 1000u * i + 7;
  std::size_t max = 1 + sym_choose("capacity", KEYS);
  LocationCache<uint64_t, Rec> c(max); std::vector<E> m;   // front = most recent
  for (int s = 0; s < STEPS; s++) {
    int op = (int)sym_choose("op", 3); uint64_t k = keys[sym_choose("key", KEYS)];
    std::size_t at = 0; while (at < m.size() && m[at].key != k) at++;
    bool known = at < m.size();
    if (op == 0) {
      E e{k, (NodeType)sym_u16("node"), sym_bool("local")};
      c.insert(k, Rec{k, e.local ? eLocState::Local : eLocState::Remote, e.node});
      if (known) { m.erase(m.begin() + at); sym_cover("replaced"); }
      else if (m.size() == max) { m.pop_back(); sym_cover("evicted"); }
      m.insert(m.begin(), e);
    } else if (op == 1) {
      if (!known) sym_end();
      E e = m[at]; same(c.get(k), k, e.node, e.local); m.erase(m.begin() + at); m.insert(m.begin(), e); sym_cover("hit");
    } else { c.remove(k); if (known) { m.erase(m.begin() + at); sym_cover("removed"); } else sym_cover("removed nothing"); }
    for (int i = 0; i < KEYS; i++) { bool in = false; for (auto& e : m) in |= e.key == keys[i];
      sym_assert(c.exists(keys[i]) == in, "holds exactly the entries stored and neither removed nor evicted (least recently used first)"); }
    sym_assert(c.getSize() == max, "the bound stays as configured");
  }
  for (auto it = m.rbegin(); it != m.rend(); ++it) same(c.get(it->key), it->key, it->node, it->local);
}
