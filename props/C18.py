TECHNIQUE = "symbolic execution of the real epoch window (LLVM IR), SMT-decided"
LEVEL_NOTE = "Every order of the stated number of open/close operations, for every archetype (rooted with any node and category, collective), starting fresh or up to 3 allocations before the sequence counter wraps; and with the counter coming round again to epochs that are still in use."
HARNESSES = [dict(name="window", src=["C18_window.cc", "unit_stubs.cc"], repo=["src/vt/epoch/epoch_window.cc", "src/vt/epoch/epoch_manip.cc"], max_steps=2000000, replay_timeout=10, covers=["open", "close", "wrapped", "came round"],
  defs=dict(quick=["-DOPS=4"], thorough=["-DOPS=6"]), what="EpochWindow allocate / terminate / query, counter positions around the wrap",
  bounds=dict(quick="4 operations", thorough="6 operations"))]
