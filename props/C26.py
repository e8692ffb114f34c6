TECHNIQUE = "symbolic execution of the real envelope accessors (LLVM IR), SMT-decided over all attribute values and prior memory contents"
LEVEL_NOTE = "All five envelope kinds; every attribute value; arbitrary prior memory; every setter after arbitrary others; copy, receive, reference counting."
HARNESSES = [dict(name=n, config=c, src=["C26_env.cc", "unit_stubs.cc"], covers=["set", "copy", "ref"], what="envelope set/get/test/setup/ref functions for Envelope, EpochEnvelope, TagEnvelope, EpochTagEnvelope, PutShortEnvelope", bounds="reference counts 0..1000 for counting; otherwise none (%s configuration)" % c) for n, c in (("env", "default"), ("env_prio", "prio"))]
