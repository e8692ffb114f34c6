TECHNIQUE = "symbolic execution of the real handle and event id code (LLVM IR), SMT-decided over all attributes and prior contents"
LEVEL_NOTE = "Every 32-bit identifier, node 0..32767, flag and type combination; every setter on arbitrary words; every pair of channel and handle keys."
HARNESSES = [dict(name="ids", src=["C24_ids.cc", "unit_stubs.cc"], repo=["src/vt/rdma/rdma_handle.cc", "src/vt/event/event_id.cc"],
  covers=["setters", "rdma", "event", "channel", "key"], what="rdma::HandleManager, EventIDManager, ChannelLookup, HandleKey", bounds="none within the declared field widths; nodes 0..32767")]
