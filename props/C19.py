TECHNIQUE = "symbolic execution of the real interval set (LLVM IR) against the list of operations as model, SMT-decided"
LEVEL_NOTE = "Every sequence of the stated number of insertions (values, intervals), erasures and clears with symbolic values; every erase/re-insert pair on an interval with arbitrary 32/64-bit bounds; copies and moves. Precondition: inserted values are not already present."
ASSUMPTIONS = ["inserted values are not already in the set (the container's documented assertion)"]
S = ["C19_set.cc", "unit_stubs.cc"]
W = "IntegralSet insert, insertInterval, erase, clear, contains, size, compressedSize, bounds, iteration both ways"
def h(name, kind, q, t, covers, what, bounds, **kw):
    return dict(name=name, src=S, flags=["-DKIND=%d" % kind], defs=dict(quick=q, thorough=t), covers=covers, what=what, bounds=bounds, **kw)
HARNESSES = [
  h("unsigned", 0, ["-DOPS=3", "-DWIN=6"], ["-DOPS=4", "-DWIN=40"], ["interval", "erase", "clear"], W, dict(quick="3 operations, values 2..6", thorough="4 operations, values 2..40")),
  h("signed", 1, ["-DOPS=2", "-DWIN=6"], ["-DOPS=4", "-DWIN=20"], ["interval", "erase", "clear"], W, dict(quick="2 operations, values -7..6", thorough="4 operations, values -21..20")),
  h("copies", 2, ["-DOPS=2", "-DWIN=5"], ["-DOPS=3", "-DWIN=30"], ["moved", "assigned"], W + " on copied, moved and assigned sets", dict(quick="up to 5 operations, values 2..6", thorough="up to 5 operations, values 2..30")),
  h("wide", 4, ["-DOPS=3"], ["-DOPS=3"], ["wide"], "one interval with symbolic bounds, two erasures, two re-insertions; StrongIntegralSet", dict(quick="any bounds at least 5 wide (uint8)", thorough="any bounds at least 5 wide (uint64, int64, int32)"), time=dict(quick=25, thorough=900)),
  h("full", 3, ["-DOPS=2"], ["-DOPS=3"], [], W, "2 (thorough 3) operations on any 64-bit values", thorough_only=True),
]
