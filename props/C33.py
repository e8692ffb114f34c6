TECHNIQUE = "symbolic execution of the real approximate histogram (LLVM IR), SMT-decided (bit-vectors and IEEE floating point) over the sample values"
LEVEL_NOTE = "Every order and value pattern of the stated number of samples, every capacity 1-3, merging in any split."
HARNESSES = [dict(name="double", src=["C33_hist.cc", "unit_stubs.cc"], symx_flags=["--fork-ptr"], covers=["add", "merge"], flags=["-DREAL=double", "-DINT=int16_t", "-DVAR=sym_u16"], defs=dict(quick=["-DADDS=3", "-DORDER=2"], thorough=["-DADDS=4", "-DORDER=3"]), what="HistogramApprox<double,int64_t> add, mergeIn, paring",
  bounds=dict(quick="up to 3 samples (integers of 16 bits), repeat counts 1 or 3, capacities 1-3, merges of capacity 1-2", thorough="up to 4 samples")),
 dict(name="exact", src=["C33_hist.cc", "unit_stubs.cc"], symx_flags=["--fork-ptr"], covers=["count", "quantile"], flags=["-DREAL=double", "-DINT=int16_t", "-DVAR=sym_u16", "-DQUERY=1"], defs=dict(quick=["-DADDS=3"], thorough=["-DADDS=4"]), what="quantile and estimateNumValues, nothing merged", bounds=dict(quick="up to 3 samples repeated 1 or 2 times, six quantiles, every counting point", thorough="up to 4 samples")),
 dict(name="merged", thorough_only=True, src=["C33_hist.cc", "unit_stubs.cc"], symx_flags=["--fork-ptr"], covers=["count"], flags=["-DREAL=double", "-DINT=int8_t", "-DVAR=sym_u8", "-DQUERY=2"], defs=dict(quick=["-DADDS=3"], thorough=["-DADDS=4"]), what="quantile and estimateNumValues after merging", bounds=dict(quick="up to 3 samples into 2 centroids, samples 0,2,..10, every integer counting point", thorough="up to 4 samples; also six quantiles, bounds with a slack of 2^-10"))]
