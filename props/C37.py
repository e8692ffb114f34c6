TECHNIQUE = "symbolic execution of the real location cache and records (LLVM IR), SMT-decided over stored locations, all operation orders"
LEVEL_NOTE = "Every order of insert, lookup and remove over the bounded identifiers and capacities against a recency-ordered reference list, stored locations symbolic. A capacity of zero is outside the claim."
HARNESSES = [dict(name="cache", src=["C37_cache.cc", "unit_stubs.cc"], repo=[], covers=["evicted", "replaced", "hit", "removed", "removed nothing"],
  defs=dict(quick=["-DSTEPS=4", "-DKEYS=3"], thorough=["-DSTEPS=6", "-DKEYS=3"]), what="LocationCache, LocRecord", bounds=dict(quick="4 operations, 3 identifiers, capacity 1-3", thorough="6 operations, 3 identifiers, capacity 1-3"))]
