TECHNIQUE = "symbolic execution of the real mapping templates (LLVM IR), SMT-decided over all positions within the box and rank bounds"
LEVEL_NOTE = "Every index of every box within the extents below, every number of ranks within the bound; the flat block map for up to 255 (thorough 65535) elements; unbounded maps for every index and number of ranks."
HARNESSES = [dict(name=n, src=["C28_map.cc", "unit_stubs.cc"], covers=[n], defs=dict(quick=["-DWHAT=%d" % w, "-DEXT=4", "-DRANKS=5", "-DFLAT=uint8_t", "-DFR=8"], thorough=["-DWHAT=%d" % w, "-DEXT=7", "-DRANKS=9", "-DFLAT=uint16_t", "-DFR=16"]),
  what=t, bounds=b) for w, n, t, b in (
  (0, "linear", "linearizeDenseIndexRowMajor/ColMajor", dict(quick="extents up to 40/12/4 (1D/2D/3D)", thorough="extents up to 40/12/7")),
  (1, "flat", "blockMapDenseFlatIndex", dict(quick="1..255 elements, 1..8 ranks", thorough="1..65535 elements, 1..16 ranks")),
  (2, "maps", "dense*BlockMap, default maps, dense*RoundRobinMap", dict(quick="extents up to 16/4/4 (1D/2D/3D), 5 ranks", thorough="extents up to 28/7/7, 9 ranks")),
  (3, "unbounded", "UnboundedDefaultMap::map", "none"))]
