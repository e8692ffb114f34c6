TECHNIQUE = "symbolic execution of the real group regions (LLVM IR), SMT-decided over bounds, contents and membership probes"
LEVEL_NOTE = "Ranges starting at 0-3, 30001 and 30002 with stride 1-4 and every end within the stride; lists and shallow lists of arbitrary distinct ranks in any order; every operation (and, thorough, operations on the results)."
HARNESSES = [dict(name="region", src=["C34_region.cc", "unit_stubs.cc"], repo=["src/vt/group/region/group_range.cc", "src/vt/group/region/group_list.cc", "src/vt/group/region/group_shallow_list.cc"],
  covers=["list", "tail", "split", "splitN", "copy", "range", "list region", "shallow region"], defs=dict(quick=["-DMAXN=4", "-DDEPTH=1"], thorough=["-DMAXN=5", "-DDEPTH=2"]), what="Range, List, ShallowList, RangeData",
  bounds=dict(quick="up to 4 ranks, one operation then all queries", thorough="up to 5 ranks, two nested operations then all queries"))]
