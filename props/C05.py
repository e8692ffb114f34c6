import os
TECHNIQUE = "symbolic execution of the real barrier, tree, active messenger and scheduler code of several ranks (LLVM IR) over a model of MPI; entry order and times and the delay of every message are symbolic choices, discharged by the SMT-backed executor"
LEVEL_NOTE = "Every entry order and time and every message delay within the stated bounds. A named barrier is used once (reuse of one name is not claimed). MPI is modelled by its guarantees (no overtaking between a pair of ranks). In blocking mode the simulated ranks share one stack, so a rank does not start its next barrier while another one is about to return from the previous one (the continuation modes cover those overlaps)."
exec(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rt", "ranks_tus.py")).read())
def h(name, mode, ranks, un, na, meta, delays, tun, tna, tdelays):
    fl = ["-I" + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/rt", "-DMODE=%d" % mode, "-DRANKS=%d" % ranks, "-DMETA=%d" % meta]
    D = lambda u, n, d: ["-DUNNAMED=%d" % u, "-DNAMED=%d" % n, ("-DDELAYS={%s}" % d if d else "-DANYORDER")]
    B = lambda u, n, d: "%d ranks, %d unnamed and %d named barriers, %s" % (ranks, u, n, "each message and each entry delayed by one of {%s} steps" % d if d else "every schedule of entries, messages and handlers")
    return dict(name=name, src=["C05_barrier.cc", "unit_stubs.cc"], repo=COLL + (RT if mode == 1 else []), repo_flags=[], lazy_native=True, flags=fl, covers=["released"],
      defs=dict(quick=D(un, na, delays), thorough=D(tun, tna, tdelays)), bounds=dict(quick=B(un, na, delays), thorough=B(tun, tna, tdelays)),
      what="Barrier (barrierUp/barrierDown, contBarrier, waitBarrier), Tree, ActiveMessenger, Scheduler: " + ["continuation barriers entered concurrently", "blocking barriers", "barriers entered from continuations"][mode])
HARNESSES = [
  h("any", 0, 2, 1, 1, 0, "", 2, 1, ""),
  h("any2", 2, 2, 3, 0, 0, "", 4, 0, ""),
  h("any3", 0, 3, 1, 0, 1, "", 1, 0, ""),
  h("cont", 0, 2, 1, 1, 0, "0,9", 2, 1, "0,9"),
  h("cont_named", 0, 2, 0, 2, 0, "0,9", 0, 3, "0,9"),
  h("cont3", 0, 3, 1, 0, 1, "0,9", 2, 0, "0,9"),
  h("chain3", 2, 3, 2, 0, 0, "0,9", 2, 0, "0,9"),
  h("wait", 1, 2, 2, 1, 0, "0,9", 2, 1, "0,5,9"),
  h("wait_any", 1, 3, 1, 0, 0, "", 1, 0, ""),
  h("wait3", 1, 3, 1, 0, 1, "0,9", 2, 0, "0,9")]
