TITLE = "circular buffer"
TECHNIQUE = "symbolic execution of the real container (LLVM IR) against a reference queue, SMT-decided"
LEVEL_NOTE = "Every sequence of up to 9 (thorough: 11) operations with arbitrary 32-bit payloads on capacities 2, 3, 4 and 6; nothing is claimed for longer sequences or other capacities."
HARNESSES = [dict(name="ring", src=["C31_ring.cc", "unit_stubs.cc"], covers=["push copy", "pop", "wrapped"],
  defs=dict(quick=["-DOPS=7"], thorough=["-DOPS=9"]),
  what="push(copy/move)/emplace/pop in every order, each compared with a reference queue",
  bounds=dict(quick="7 operations then drain; capacities 2,3,4,6; payload any uint32", thorough="9 operations then drain; same capacities"))]
