TECHNIQUE = "symbolic execution of the real component pack and registry (LLVM IR), forking over every dependency graph; SMT-decided over pollability and time needs"
LEVEL_NOTE = "Every graph of startup and runtime dependencies over the bounded number of components, every non-empty set asked for. Dependencies on unregistered components are outside the claim."
R = ["src/vt/runtime/component/component_pack.cc", "src/vt/runtime/component/diagnostic.cc"]
HARNESSES = [dict(name="graph", src=["C36_comp.cc", "unit_stubs.cc"], repo=R, covers=["cycle", "ordered", "polled"],
  defs=dict(quick=["-DNODES=3"], thorough=["-DNODES=3"]), what="ComponentPack, registry", bounds="3 components, startup and runtime dependencies"),
 dict(name="four", src=["C36_comp.cc", "unit_stubs.cc"], repo=R, covers=["cycle", "ordered", "polled"], flags=["-DNODES=4", "-DSTARTONLY"], thorough_only=True, what="ComponentPack, registry", bounds="4 components, startup dependencies only"),
 dict(name="typed", src=["C36_comp.cc", "unit_stubs.cc"], repo=R, covers=["all"], flags=["-DTYPED"], what="ComponentPack::registerComponent, ComponentRegistry::dependsOn", bounds="one graph of three components named by type, all registration orders")]
