TECHNIQUE = "symbolic execution of the real element-id builder (LLVM IR), SMT-decided over all descriptions"
LEVEL_NOTE = "Every pair of descriptions over all four kinds, nodes 0..32767, all 46-bit sequence numbers, all object group ids, collective or rooted."
ASSUMPTIONS = ["theContext() is a zero-initialised context object (only its node is read, and only to fill the current rank)"]
HARNESSES = [dict(name="elm", src=["C22_elm.cc", "unit_stubs.cc"], repo=["src/vt/objgroup/proxy/proxy_bits.cc", "src/vt/elm/elm_id.cc", "src/vt/elm/elm_id_bits.cc"],
  covers=["ids"], what="ElmIDBits, ElementIDStruct", bounds="none within the declared field widths; nodes 0..32767")]
