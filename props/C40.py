TECHNIQUE = "symbolic execution of the real reduction operators and message combination (LLVM IR), SMT-decided over all operand values"
LEVEL_NOTE = "All values of the listed types, vectors up to the stated length. Floating-point addition is only claimed where it is exact (small integers)."
def H(name, w, covers, quick, thorough, what, bounds, extra=[]): return dict(name=name, src=["C40_ops.cc", "unit_stubs.cc"], repo=extra, flags=["-DWHAT=%d" % w], covers=covers, defs=dict(quick=quick, thorough=thorough), what=what, bounds=bounds)
HARNESSES = [
 H("operators", 0, ["scalar", "tuple", "vector", "array", "tuple with vector", "flags"], ["-DVSIZE=2"], ["-DVSIZE=4"], "PlusOp MaxOp MinOp AndOp OrOp BitAndOp BitOrOp BitXorOp, opTuple", dict(quick="all 8-64 bit operands; vectors up to 2, arrays of 3", thorough="vectors up to 4")),
 H("messages", 1, ["chain"], [], [], "ReduceCombine::msgHandler, ReduceDataMsg", "up to 4 chained messages, all values", extra=["src/vt/pipe/signal/signal_holder.cc"]),
 H("statistics", 2, ["four"], ["-DMASK=3"], ["-DMASK=7"], "LoadData::operator+", dict(quick="2 or 4 loads 0-3", thorough="2 or 4 loads 0-7"))]
