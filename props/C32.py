TECHNIQUE = "symbolic execution of the real counter (LLVM IR) against cyclic arithmetic, SMT-decided"
LEVEL_NOTE = "All closed ranges of five integer types, every sequence of the stated number of pre/post increments and decrements from the low bound (which includes every position reachable by wrapping)."
HARNESSES = [dict(name="counter", src=["C32_counter.cc", "unit_stubs.cc"], covers=["wrapped low", "at high"],
  defs=dict(quick=["-DOPS=4"], thorough=["-DOPS=6"]), what="RangedCounter construction and all stepping forms",
  bounds=dict(quick="4 steps; lo and hi any values with lo<=hi; u64,i64,i32,u8,i8", thorough="6 steps"))]
