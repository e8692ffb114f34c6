TECHNIQUE = "symbolic execution of the real handler identifier code (LLVM IR), SMT-decided over all parts and all prior word contents"
LEVEL_NOTE = "Every combination of flags, all 20-bit controls, all 36-bit identifiers, every registry type; every setter on arbitrary words. Both with and without tracing compiled in."
HARNESSES = [dict(name="handler", src=["C20_handler.cc", "unit_stubs.cc"], repo=["src/vt/handler/handler.cc"], covers=["make", "setters"], what="HandlerManager (default build)", bounds="none within the declared field widths"),
  dict(name="handler_trace", config="trace", src=["C20_handler.cc", "unit_stubs.cc"], repo=["src/vt/handler/handler.cc"], covers=["make", "setters"], what="HandlerManager (trace build)", bounds="none within the declared field widths")]
