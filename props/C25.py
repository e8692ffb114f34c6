TECHNIQUE = "symbolic execution of the real priority code (LLVM IR), SMT-decided over all fields, levels and priorities"
LEVEL_NOTE = "Every 16-bit field, every level and level priority (5 levels of 3 bits, the configured layout), every envelope content."
HARNESSES = [dict(name="prio", config="prio", src=["C25_prio.cc", "unit_stubs.cc"], repo=["src/vt/scheduler/priority_manip.cc", "src/vt/scheduler/base_unit.cc"],
  covers=["set", "compare", "envelope", "nested"], what="PriorityManip, PriorityUnit order, envelope priority accessors, msgSetPriority*", bounds="the configured layout: 3 bits per level, 5 levels")]
