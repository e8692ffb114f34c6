import os
TECHNIQUE = "symbolic execution of the real termination detector, epoch dependencies, dependent send chains, active messenger and scheduler of several ranks (LLVM IR) over a model of MPI; message trees and schedules are symbolic choices, discharged by the SMT-backed executor"
LEVEL_NOTE = "Every message tree and every schedule (or every combination of the stated delays) within the stated bounds. The epoch graph is checked for rooted Dijkstra-Scholten epochs and their parent on the rank that made them; merging of graphs of several ranks and the text output are outside. MPI is modelled by its guarantees."
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "rt", "ranks_tus.py")).read())
def chain(name, ranks, steps, msgs, chains, outer, delays, tsteps, tmsgs, tdelays, mixed=0, **k):
    fl = ["-I" + V + "/rt", "-DRANKS=%d" % ranks, "-DCHAINS=%d" % chains, "-DOUTER=%d" % outer, "-DMIXED=%d" % mixed]
    D = lambda s, m, d: ["-DSTEPS=%d" % s, "-DMSGS=%d" % m] + (["-DDELAYS={%s}" % d] if d else ["-DANYORDER=1"])
    B = lambda s, m, d: "%d ranks, %d steps on %d chain(s) inside a parent epoch held by a local dependency, up to %d further messages, %s" % (ranks, s, chains, m, "delays from {%s}" % d if d else "every schedule")
    return dict(name=name, src=["C15_chain.cc", "unit_stubs.cc"], repo=COMMON, repo_flags=[], lazy_native=True, flags=fl, covers=["step", "outer", "graph"],
      defs=dict(quick=D(steps, msgs, delays), thorough=D(tsteps, tmsgs, tdelays)), bounds=dict(quick=B(steps, msgs, delays), thorough=B(tsteps, tmsgs, tdelays)),
      what="DependentSendChain, EpochDependency, TerminationDetector::addDependency/addLocalDependency/makeGraph, TermDS, TermAction", **k)
def nest(name, kind, ranks, msgs, ctl, delays, tmsgs, tctl, tdelays, **k):
    fl = ["-I" + V + "/rt", "-DKIND=%d" % kind, "-DRANKS=%d" % ranks, "-DNEST=1", "-DSENDERS=1", "-DCTLDELAY=12", "-DUNITS=1", "-DLIMIT=800"]
    D = lambda m, c, d: ["-DMSGS=%d" % m, "-DCTL=%d" % c, "-DDELAYS={%s}" % d]
    B = lambda m, c, d: "%d ranks, a child epoch in a parent epoch, up to %d further messages, wire and local delays from {%s} steps, %d control messages or units delayed" % (ranks, m, d, c)
    return dict(name=name, src=["C01_term.cc", "unit_stubs.cc"], repo=COMMON, repo_flags=[], lazy_native=True, flags=fl, covers=["terminated"],
      defs=dict(quick=D(msgs, ctl, delays), thorough=D(tmsgs, tctl, tdelays)), bounds=dict(quick=B(msgs, ctl, delays), thorough=B(tmsgs, tctl, tdelays)),
      what="TerminationDetector, EpochDependency: nested " + ["collective epochs", "rooted Dijkstra-Scholten epochs", "rooted wave epochs"][kind], **k)
HARNESSES = [
  chain("chain", 2, 2, 1, 1, 1, "", 3, 1, ""),
  chain("chain_delays", 2, 3, 1, 1, 1, "0,11", 4, 2, "0,11"),
  chain("mixed", 2, 3, 1, 1, 1, "0,11", 4, 2, "0,11", mixed=1),
  chain("merge", 2, 4, 0, 2, 1, "0,11", 5, 1, "0,11"),
  chain("wave_parent", 2, 2, 0, 1, 2, "0,11", 3, 2, "0,11"),
  nest("collective", 0, 2, 1, 0, "0,11", 2, 1, "0,11"),
  nest("ds", 1, 2, 2, 1, "0,11", 3, 1, "0,11"),
  nest("wave", 2, 2, 1, 1, "0,11", 2, 1, "0,11")]
