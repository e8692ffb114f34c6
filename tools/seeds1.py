SEEDS = [
dict(id="ring-wrapped-free", property="C31", edits=[("src/vt/utils/container/circular_buffer.h", "return tail_ - head_ - 1;", "return tail_ - head_;")],
 needs="head having wrapped below tail (pushes after pops past the end), then filling the buffer", breaks="a full wrapped buffer reports one free slot; the next push makes head meet tail and the whole content is lost",
 demo='''#include "vt/config.h"
#include "vt/utils/container/circular_buffer.h"
int main() {
  vt::util::container::CircularBuffer<int, 5> b; int next = 0, expect = 0;
  for (int i = 0; i < 4; i++) b.push(next++);
  for (int i = 0; i < 2; i++) if (b.pop() != expect++) return 1;
  while (not b.full()) { b.push(next++); if (b.size() > 4) return 1; }
  if (b.empty() || b.size() != 4) return 1;
  while (not b.empty()) if (b.pop() != expect++) return 1;
  return expect == next ? 0 : 1;
}'''),
dict(id="counter-decrement-skips-low", property="C32", edits=[("src/vt/utils/adt/ranged_counter.h", "if (cur_ > lo_) {", "if (cur_ - 1 > lo_) {")],
 needs="decrementing down to the lower bound", breaks="stepping down never visits the lower bound: it wraps to the top one step early",
 demo='''#include "vt/config.h"
#include "vt/utils/adt/ranged_counter.h"
int main() {
  vt::adt::RangedCounter<unsigned> c(3, 9); for (int i = 0; i < 4; i++) ++c;
  for (int i = 0; i < 4; i++) --c;
  if (c.get() != 3) return 1;
  --c; return c.get() == 9 ? 0 : 1;
}'''),
dict(id="interval-erase-max-bound", property="C19", edits=[("src/vt/termination/interval/integral_set.h", "ub_ = std::prev(set_.end())->upper();", "ub_ = std::prev(set_.end())->lower();")],
 needs="erasing the largest value when it was an interval of its own and the next interval below holds several values", breaks="values above the lowest of the last interval are reported absent after the erase",
 demo='''#include "vt/config.h"
#include "vt/termination/interval/interval.h"
#include "vt/termination/interval/integral_set.h"
#include <cstdint>
int main() {
  using S = vt::IntegralSet<uint64_t>; S s; 
  for (uint64_t v : {10, 11, 12, 40}) s.insert(uint64_t{v});
  s.erase(40);
  return s.contains(10) && s.contains(11) && s.contains(12) && !s.contains(40) && s.upper() == 12 ? 0 : 1;
}'''),
dict(id="objgroup-elm-id-narrow", property="C22", edits=[("src/vt/elm/elm_id_bits.cc", """  constexpr auto proxy_bits = BitCounterType<ObjGroupProxyType>::value - 2;
  auto proxy =""", """  constexpr auto proxy_bits = 16 + 32;
  auto proxy =""")],
 needs="an object group identifier of 2^30 or more", breaks="the proxy recovered from an element identifier names another object group",
 srcs=["src/vt/elm/elm_id_bits.cc", "src/vt/objgroup/proxy/proxy_bits.cc"],
 demo='''#include "vt/config.h"
#include "vt/objgroup/common.h"
#include "vt/elm/elm_id_bits.h"
#include "vt/objgroup/proxy/proxy_bits.h"
using namespace vt;
int main() {
  for (uint64_t id : {uint64_t{5}, uint64_t{1} << 20, uint64_t{1} << 29, uint64_t{1} << 30, uint64_t{1} << 31}) for (bool coll : {false, true}) {
    auto px = objgroup::proxy::ObjGroupProxy::create(static_cast<vt::objgroup::ObjGroupIDType>(id), 3, coll);
    elm::ElementIDType e = 0; elm::ElmIDBits::setObjGroup(e, px, 7);
    auto full = px; objgroup::proxy::ObjGroupProxy::setNode(full, 7);
    if (elm::ElmIDBits::getObjGroupProxy(e, true) != full) return 1;
  }
  return 0;
}'''),
dict(id="priority-clears-below", property="C25", config="prio", edits=[("src/vt/scheduler/priority_manip.cc", "  BitPackerType::setFieldDynamic(offset, priority_level_bits, field, priority);", "  BitPackerType::setFieldDynamic(offset, offset < 4 ? 2 * priority_level_bits : priority_level_bits, field, priority);")],
 needs="a priorities-enabled build and a message whose deepest level is set after the level above it", breaks="setting the deepest priority level erases the priority of its parent level",
 srcs=["src/vt/scheduler/priority_manip.cc"],
 demo='''#include "vt/config.h"
#include "vt/scheduler/priority_manip.h"
using namespace vt; using namespace vt::sched;
int main() {
  for (PriorityType p = 0; p < (1 << priority_level_bits); p++) {
    PriorityType f = 0;
    for (int l = 0; l < static_cast<int>(priority_num_levels); l++) PriorityManip::setPriority(f, l, p);
    for (int l = 0; l < static_cast<int>(priority_num_levels); l++) if (PriorityManip::getPriority(f, l) != p) return 1;
  }
  return 0;
}'''),
dict(id="linearize-3d-stride", property="C28", edits=[("src/vt/topos/mapping/dense/dense.impl.h", """  for (auto i = ndim - 1; i >= 0; i--) {
    val += dim_size * idx_[i];
    dim_size *= max_idx_[i];""", """  for (auto i = ndim - 1; i >= 0; i--) {
    val += dim_size * idx_[i];
    dim_size *= max_idx_[ndim - 1];""")],
 needs="a three-dimensional collection whose last two extents differ", breaks="distinct indices share one linear position, so the block map piles elements on some ranks and leaves others short",
 demo='''#include "vt/config.h"
#include "vt/topos/index/index.h"
#include "vt/topos/mapping/mapping_headers.h"
#include "vt/topos/mapping/dense/dense.h"
#include <map>
int main() {
  vt::Index3D max(4, 3, 2); std::map<int, int> n;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 2; k++) { vt::Index3D x(i, j, k); int r = vt::mapping::dense3DBlockMap<int>(&x, &max, 6); if (r < 0 || r > 5) return 1; n[r]++; }
  for (int r = 0; r < 6; r++) if (n[r] != 4) return 1;
  return 0;
}'''),
dict(id="pipe-type-overwrites", property="C26", edits=[("src/vt/messaging/envelope/envelope_set.impl.h", "->type |= 1 << eEnvType::EnvPipe;", "->type = (reinterpret_cast<Envelope*>(&env)->type & ~(1 << eEnvType::EnvTagType)) | 1 << eEnvType::EnvPipe;")],
 needs="an envelope that carries a tag and is then marked as a pipe (callback) message", breaks="marking a message as a pipe message drops its tag attribute, so the receiver reads no tag",
 demo='''#include "vt/config.h"
#include "vt/messaging/envelope.h"
using namespace vt;
int main() {
  EpochTagEnvelope e; envelopeInitEmpty(e); setNormalType(e); setEpochType(e); setTagType(e); envelopeSetTag(e, 77); setPipeType(e);
  return envelopeIsPipe(e) && envelopeIsTagType(e) && envelopeIsEpochType(e) && envelopeGetTag(e) == 77 ? 0 : 1;
}'''),
dict(id="index-order-ties", property="C27", edits=[("src/vt/topos/index/dense/dense_array.impl.h", "for (int i = ndim - 1; i >= 0; i--) {\n    if (dims[i] != other.dims[i]) {", "for (int i = ndim - 1; i >= (ndim > 3 ? 1 : 0); i--) {\n    if (dims[i] != other.dims[i]) {")],
 needs="indices of four or more dimensions that differ only in the first coordinate", breaks="two different indices compare equal, so elements of a 4-D collection are merged",
 demo='''#include "vt/config.h"
#include "vt/topos/index/index.h"
int main() {
  vt::index::DenseIndexArray<int, 4> a(1, 2, 3, 4), b(0, 2, 3, 4), c(1, 2, 3, 4); vt::Index3D x(1, 2, 3), y(0, 2, 3);
  return a == b || !(a == c) || x == y ? 1 : 0;
}'''),
dict(id="rdma-type-narrow", property="C24", edits=[("src/vt/rdma/rdma_handle.cc", "BitPackerType::setField<RDMA_BitsType::Identifier, rdma_identifier_num_bits>(", "BitPackerType::setField<RDMA_BitsType::Identifier, rdma_identifier_num_bits - 8>(")],
 needs="an RDMA identifier that uses its upper bits", breaks="handles whose identifiers differ only in the upper bits name the same window",
 srcs=["src/vt/rdma/rdma_handle.cc"],
 demo='''#include "vt/config.h"
#include "vt/rdma/rdma_handle.h"
using namespace vt; using namespace vt::rdma;
int main() {
  for (unsigned b = 0; b < rdma_identifier_num_bits; b++) { auto h = HandleManager::createNewHandler(); RDMA_IdentifierType id = RDMA_IdentifierType(1) << b; HandleManager::setRdmaIdentifier(h, id); if (HandleManager::getRdmaIdentifier(h) != id) return 1; }
  return 0;
}'''),
]
