TECHNIQUE = "symbolic execution of the real name helpers (LLVM IR) over every bounded string; assertions decided by the executor and SMT"
LEVEL_NOTE = "Every string of the significant characters up to the stated lengths. Names with unbalanced brackets and scope separators inside parentheses are outside the claim."
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def H(name, what, covers, quick, thorough, bounds): return dict(name=name, src=["C41_dem.cc", "unit_stubs.cc"], repo=["src/vt/utils/demangle/demangle.cc"], flags=["-DWHICH=" + name] + (["-include", V + "/rt/fakeio.h"] if name == "split" else []), covers=covers, defs=dict(quick=quick, thorough=thorough), what=what, bounds=bounds)
HARNESSES = [
 H("names", "getNamespace, getBarename", ["split", "no namespace", "separator inside template arguments"], ["-DLEN=7", "-DARGS=4"], ["-DLEN=9", "-DARGS=4"], dict(quick="up to 7 tokens (a :: < >) after an optional & or ::", thorough="up to 9 tokens")),
 H("args", "getVoidFuncStrArgs", ["arguments", "not a void function"], ["-DARGS=4"], ["-DARGS=5"], dict(quick="argument text up to 4 characters", thorough="5 characters")),
 H("pieces", "join, removeSpaces", [], ["-DARGS=4"], ["-DARGS=6"], dict(quick="up to 5 characters; 3 pieces of up to 2", thorough="up to 7 characters; 3 pieces of up to 2")),
 H("split", "splitString, join", ["several pieces"], ["-DARGS=4"], ["-DARGS=6"], dict(quick="up to 5 characters", thorough="up to 7 characters")),
 H("named", "lastNamedPfType", ["named"], ["-DARGS=5"], ["-DARGS=6"], dict(quick="values up to 4 characters", thorough="values up to 5 characters"))]
