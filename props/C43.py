import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = "symbolic execution of the real specification parsers and lookups (LLVM IR), SMT-decided over phases and windows"
LEVEL_NOTE = "Entries with every phase, modulus and window in range; files of every combination of the stated tokens, read through an in-memory file with the standard's stream semantics (stub)."
def H(name, w, repo, covers, quick, thorough, what, bounds): return dict(name=name, src=["C43_spec.cc", "unit_stubs.cc"], repo=repo, flags=["-include", V + "/rt/fakeio.h", "-DWHAT=%d" % w], covers=covers, defs=dict(quick=quick, thorough=thorough), what=what, bounds=bounds)
S = ["src/vt/utils/file_spec/spec.cc"]
HARNESSES = [
 H("entries", 0, S, ["modulus", "exact"], ["-DENTRIES=2"], ["-DENTRIES=3"], "FileSpec::checkEnabled, SpecEntry::testEnabledFor, insertSpec", dict(quick="2 entries, phases 0-31, moduli 1-6, offsets up to 7", thorough="3 entries")),
 H("file", 1, S, ["malformed", "read"], ["-DENTRIES=2", "-DNUMS=3"], ["-DENTRIES=3", "-DNUMS=3"], "FileSpec::parse", dict(quick="up to 2 lines; phases 0, 3, 12; offsets up to 10", thorough="up to 3 lines")),
 H("balancers", 2, ["src/vt/vrt/collection/balance/read_lb.cc", "src/vt/vrt/collection/balance/lb_type.cc"], ["malformed", "read"], ["-DENTRIES=2", "-DNUMS=3"], ["-DENTRIES=3", "-DNUMS=4"], "ReadLBConfig", dict(quick="up to 2 lines", thorough="up to 3 lines"))]
