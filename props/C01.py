import os
TECHNIQUE = "symbolic execution of the real termination detector, active messenger, scheduler and epoch code of several ranks (LLVM IR) over a model of MPI; message trees, wire delays and local progress are symbolic choices, discharged by the SMT-backed executor"
LEVEL_NOTE = "Every message tree, every wire delay of application messages, the stated number of delayed control messages and every delay of local actions, within the stated bounds. MPI is modelled by its guarantees (no overtaking between a pair of ranks). Executions are compared with a ground-truth count of unprocessed messages."
exec(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rt", "ranks_tus.py")).read())
def h(name, kind, ranks, msgs, ctl, delays, tmsgs, tctl, tdelays, **k):
    fl = ["-I" + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/rt", "-DKIND=%d" % kind, "-DRANKS=%d" % ranks, "-DNEST=%d" % k.pop("nest", 0), "-DSENDERS=%d" % k.pop("senders", 1), "-DCTLDELAY=12", "-DUNITS=%d" % k.pop("units", 1), "-DLIMIT=800", "-DLATE=%d" % k.pop("late", 0), "-DREMOTE=%d" % k.pop("remote", 0)]
    D = lambda m, c, d: ["-DMSGS=%d" % m, "-DCTL=%d" % c, "-DDELAYS={%s}" % d]
    B = lambda m, c, d: "%d ranks, up to %d application messages in any tree, wire and local delays from {%s} steps, %d control messages or scheduled units delayed by 12 steps" % (ranks, m, d, c)
    return dict(name=name, src=["C01_term.cc", "unit_stubs.cc"], repo=COMMON, repo_flags=[], lazy_native=True, flags=fl, defs=dict(quick=D(msgs, ctl, delays), thorough=D(tmsgs, tctl, tdelays)), covers=["remote"] if "-DREMOTE=1" in fl else ["terminated"],
      what="TerminationDetector, TermDS, TermAction, EpochManip, ActiveMessenger, Scheduler: " + ["collective epoch", "rooted Dijkstra-Scholten epoch", "rooted wave epoch"][kind], bounds=dict(quick=B(msgs, ctl, delays), thorough=B(tmsgs, tctl, tdelays)), **k)
HARNESSES = [
  h("collective", 0, 2, 3, 0, "0,11", 3, 1, "0,5,11", senders=1),
  h("collective_senders", 0, 2, 2, 1, "0,11", 3, 1, "0,5,11", senders=2),
  h("collective3", 0, 3, 2, 0, "0,17", 2, 0, "0,7,17"),
  h("ds", 1, 2, 3, 1, "0,11", 3, 2, "0,5,11"),
  h("ds3", 1, 3, 3, 1, "0,11", 4, 1, "0,5,11"),
  h("late", 1, 2, 1, 0, "0,11", 2, 1, "0,11", late=3),
  h("late_collective", 0, 2, 1, 0, "0,11", 2, 0, "0,11", late=3),
  h("remote", 1, 2, 1, 0, "0", 2, 0, "0", remote=1),
  h("wave", 2, 2, 3, 1, "0,11", 3, 1, "0,5,11"),
  h("wave3", 2, 3, 3, 0, "0,17", 3, 0, "0,7,17")]
