TECHNIQUE = "symbolic execution of the real epoch identifier code (LLVM IR), SMT-decided over all attribute values"
LEVEL_NOTE = "All kinds, categories, nodes 0..32767 and sequence numbers below the reserved last one; pairs of identifiers; two successive identifiers from each generator."
HARNESSES = [dict(name="epoch", src=["C17_epoch.cc", "unit_stubs.cc"], repo=["src/vt/epoch/epoch_window.cc", "src/vt/epoch/epoch_manip.cc"], covers=["two", "setters", "rooted windows", "collective"],
  what="EpochManip attribute setters/getters, generateEpoch, getNextRootedEpoch, getNextCollectiveEpoch, window selection", bounds="none on the attribute values; two identifiers at a time")]
