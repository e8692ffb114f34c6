TECHNIQUE = "symbolic execution of the real proxy builders (LLVM IR), SMT-decided over all attributes and all prior word contents"
LEVEL_NOTE = "Every identifier, node 0..32767 and flag combination for object group, virtual/collection and element proxies; every setter on arbitrary words."
HARNESSES = [dict(name="proxy", src=["C21_proxy.cc", "unit_stubs.cc"], repo=["src/vt/objgroup/proxy/proxy_bits.cc", "src/vt/vrt/proxy/proxy_bits.cc", "src/vt/vrt/collection/proxy_builder/elm_proxy_builder.cc"],
  covers=["setters", "objgroup", "virtual", "element"], what="ObjGroupProxy, VirtualProxyBuilder, VirtualElemProxyBuilder", bounds="none within the declared field widths; nodes 0..32767")]
