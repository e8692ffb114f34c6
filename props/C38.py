TECHNIQUE = "symbolic execution of the real ElementLBData (LLVM IR), SMT-decided over times, loads and byte counts"
LEVEL_NOTE = "Every order of timing, communication, subphase and phase changes with the runtime's release at each phase boundary. Times and bytes are small integers (exact in binary64), so no claim about rounding."
HARNESSES = [dict(name="element", src=["C38_elm.cc", "unit_stubs.cc"], repo=["src/vt/elm/elm_lb_data.cc"], covers=["add", "timed", "stop without start", "comm", "earlier subphase", "released", "set"],
  defs=dict(quick=["-DSTEPS=4"], thorough=["-DSTEPS=5"]), what="ElementLBData, CommKey, CommVolume", bounds=dict(quick="4 operations, 3 subphases, 4 kinds of communication, look-back 2", thorough="5 operations, 3 subphases, 4 kinds of communication, look-back 2"))]
