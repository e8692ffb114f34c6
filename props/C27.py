TECHNIQUE = "symbolic execution of the real dense index templates (LLVM IR), SMT-decided over all coordinates"
LEVEL_NOTE = "Packing and order: all coordinates that fit, for 1 to 9 dimensions and 8 to 64 bit coordinates. Iteration: boxes of 1 to 3 dimensions with small extents, for an arbitrary probe index."
HARNESSES = [dict(name="index", src=["C27_index.cc", "unit_stubs.cc"], covers=["pack", "order", "foreach"], defs=dict(quick=["-DDIM=4"], thorough=["-DDIM=6"]),
  what="DenseIndexArray uniqueBits, uniqueBitsToIndex, comparison, hash, arithmetic, foreach, getSize", bounds=dict(quick="iteration: extents up to 6 (1D), 4 (2D), 3 (3D)", thorough="iteration: extents up to 8 (1D), 6 (2D), 5 (3D)"))]
