TECHNIQUE = "symbolic execution of the real bit packer (LLVM IR), SMT-decided over all contents, offsets and widths"
LEVEL_NOTE = "All offsets, widths, previous contents and values for every integral word type of 8 to 64 bits and six value types; the fixed-template form for 16 offset/width pairs."
HARNESSES = [dict(name="bits", src=["C16_bits.cc", "unit_stubs.cc"], covers=["dynamic", "fixed"],
  what="setField/getField (template and dynamic), boolSetField/boolGetField", bounds="none on contents, offset, width; word types u/int 8..64; value types u64,i64,i32,u16,i8,word")]
