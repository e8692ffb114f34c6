import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = "symbolic execution of the real compressing and decompressing streams (LLVM IR) over a nondeterministic codec stub, SMT-decided over the content"
LEVEL_NOTE = "Every content, write and read size and codec buffering within the bounds. The Brotli library itself is replaced by a stub with its streaming interface; content read through the iterator has at least one byte."
def H(name, w, covers, quick, thorough, what, bounds): return dict(name=name, src=["C42_stream.cc", "unit_stubs.cc"], repo=["src/vt/utils/compress/compressor.cc", "src/vt/utils/json/decompression_input_container.cc"], flags=["-include", V + "/rt/fakeio.h", "-DWHAT=%d" % w], covers=covers, defs=dict(quick=quick, thorough=thorough), what=what, bounds=bounds)
HARNESSES = [
 H("codec", 0, ["written"], ["-DLEN=4", "-DCHUNK=3"], ["-DLEN=6", "-DCHUNK=4"], "Compressor, Decompressor", dict(quick="up to 4 bytes, buffers of 1-3 bytes", thorough="up to 6 bytes, buffers of 1-4 bytes")),
 H("iterator", 1, ["one more than a chunk"], ["-DLEN=5", "-DCHUNK=3"], ["-DLEN=6", "-DCHUNK=4"], "Compressor, DecompressionInputContainer, InputIterator", dict(quick="up to 5 bytes, chunks of 1-3 bytes", thorough="up to 6 bytes, chunks of 1-4 bytes")),
 H("adaptor", 2, ["plain", "compressed"], ["-DLEN=2", "-DCHUNK=2"], ["-DLEN=3", "-DCHUNK=2"], "OutputAdaptor", dict(quick="up to 2 bytes", thorough="up to 3 bytes"))]
