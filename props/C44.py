TECHNIQUE = "symbolic execution of the real meters, diagnostic values, load statistics, regression and memory units (LLVM IR), SMT-decided (bit-vectors and IEEE floating point) over the samples"
LEVEL_NOTE = "Every value and order of the stated numbers of samples; means and moments are compared exactly where the count is a power of two, within 1e-6 otherwise. The reduction tree over ranks is any order and association of the per-rank values; the messages carrying them are outside."
D = dict(quick=["-DSTEPS=3"], thorough=["-DSTEPS=5"])
def d(n, w, what):
    return dict(name=n, src=["C44_diag.cc", "unit_stubs.cc"], config="diag", repo=["src/vt/runtime/component/diagnostic.cc"], flags=["-DWHAT=%d" % w], defs=D, covers=["stats"], what=what, bounds=dict(quick="up to 3 samples of 16 bits, reset anywhere", thorough="up to 5 samples"))
def c(n, fl, what, q, t, **k):
    return dict(name=n, src=["C44_comb.cc", "unit_stubs.cc"], flags=fl, defs=dict(quick=q, thorough=t), covers=["combined"], what=what, bounds=dict(quick="small integer samples, "+" ".join(q), thorough=" ".join(t)), **k)
HARNESSES = [
 d("counter", 0, "Diagnostic::registerCounter, Counter::increment/decrement, DiagnosticSnapshotValues"),
 d("gauge", 1, "registerGauge, Gauge::update, getComputedValue, reset"),
 d("gauge_double", 2, "Gauge<double>"),
 d("timer", 3, "registerTimer, Timer::start/stop/update"),
 c("ranks", ["-DT_=int64_t", "-DSHAPE2"], "DiagnosticValueWrapper operator+ over ranks", ["-DLEAVES=2", "-DMAXN=2", "-DVAL=(int)(sym_u8(\"v\")&15)-8"], ["-DLEAVES=2", "-DMAXN=4", "-DVAL=(int)(int8_t)sym_u8(\"v\")"]),
 c("ranks3", ["-DT_=int64_t", "-DSHAPE2"], "DiagnosticValueWrapper operator+ over three ranks, some without samples", ["-DLEAVES=3", "-DMAXN=1", "-DVAL=(int)sym_choose(\"v\",3)*3-3"], ["-DLEAVES=3", "-DMAXN=2", "-DVAL=(int)sym_choose(\"v\",4)*3-3"]),
 c("loads", ["-DLOADS", "-DVAL=((int)(sym_u8(\"v\")&7)-4)"], "LoadData operator+", ["-DLEAVES=2"], ["-DLEAVES=2", "-DHIGHER"]),
 dict(name="regression", src=["C44_reg.cc", "unit_stubs.cc"], flags=["-DWHAT=0", "-DEXACT=0", "-DBVAL=(int)sym_choose(\"b\",16)-8"], covers=["line"], what="LinearRegression::compute, predict", bounds="eight layouts of 2 to 4 abscissae, some of whose divisions round, slope -4..4, intercept -8..7, four query points"),
 dict(name="memory", src=["C44_reg.cc", "unit_stubs.cc"], repo=["src/vt/utils/memory/memory_units.cc"], flags=["-DWHAT=1"], covers=["line"], what="getBestMemoryUnit, getUnitFromString", bounds="every 64-bit size"),
]
