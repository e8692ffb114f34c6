TECHNIQUE = "symbolic execution of the real group and pipe id builders (LLVM IR), SMT-decided over all attributes and prior contents"
LEVEL_NOTE = "Every 32-bit id, node 0..32767 and flag combination; every setter on arbitrary words."
HARNESSES = [dict(name="ids", src=["C23_ids.cc", "unit_stubs.cc"], repo=["src/vt/group/id/group_id.cc", "src/vt/pipe/id/pipe_id.cc"],
  covers=["setters", "group", "pipe"], what="GroupIDBuilder, PipeIDBuilder", bounds="none within the declared field widths; nodes 0..32767")]
