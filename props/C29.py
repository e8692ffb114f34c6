TECHNIQUE = "symbolic execution of the real pool allocator (LLVM IR), SMT-decided over all request sizes"
LEVEL_NOTE = "Every order of the stated number of alloc/dealloc/grow operations with every size and spare up to 1024 bytes together (malloc class: four totals, any split) and every growth up to 5000 bytes."
HARNESSES = [dict(name="pool", src=["C29_pool.cc", "unit_stubs.cc"], repo=["src/vt/pool/pool.cc", "src/vt/pool/header/pool_header.cc"], covers=["alloc", "dealloc", "grow", "grow refused", "done"],
  defs=dict(quick=["-DOPS=3"], thorough=["-DOPS=5"]), what="Pool, MemoryPoolEqual (64 and 1024 byte classes), malloc class, HeaderManager", bounds=dict(quick="3 operations, sizes 0..1024 exhaustively, totals 1025, 1026, 1100, 5000 with any split for the malloc class", thorough="5 operations, sizes 0..1024 exhaustively, totals 1025, 1026, 1100, 5000 with any split for the malloc class"))]
