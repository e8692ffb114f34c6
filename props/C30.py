TECHNIQUE = "symbolic execution of the real managed pointer, reference counting and message new/delete (LLVM IR), path feasibility and assertions decided by SMT"
LEVEL_NOTE = "Every sequence of the stated number of operations (make, adopt, copy, move, self-assignment, reset, swap, type erasure and back, raw references, thief) over two pointers plus a type-erased one."
ASSUMPTIONS = ["the pool is replaced by malloc/free (C29 covers it)"]
HARNESSES = [dict(name="ptr", src=["C30_ptr.cc", "unit_stubs.cc"], covers=["make", "self copy", "copy", "self move", "move", "reset", "swap", "erase type", "back", "raw reference", "thief", "done"],
  defs=dict(quick=["-DOPS=4", "-DPTRS=2"], thorough=["-DOPS=5", "-DPTRS=2"]), what="MsgSharedPtr, MsgPtrThief, makeMessage, messageRef/messageDeref, BaseMsg new/delete", bounds=dict(quick="4 operations, 2 pointers and a type-erased one", thorough="5 operations, 2 pointers and a type-erased one"))]
