import os
TECHNIQUE = "symbolic execution of the real broadcast, tree, active messenger and scheduler code of several ranks (LLVM IR) over a model of MPI; origins and schedules are symbolic choices; the tree's parent and child views are decided by the SMT solver for a symbolic rank in a job of symbolic size"
LEVEL_NOTE = "Tree: every job size up to 32767 ranks and every rank. Broadcasts: every origin, payload and schedule (or every combination of the stated delays) for the stated number of ranks. The branching factor is fixed in the code (two). MPI is modelled by its guarantees."
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "rt", "ranks_tus.py")).read())
def h(name, ranks, epoch, n, delays, tn, tdelays, **k):
    fl = ["-I" + V + "/rt", "-DRANKS=%d" % ranks, "-DEPOCH=%d" % epoch, "-DTREE=0"]
    D = lambda n, d: ["-DBCASTS=%d" % n] + (["-DDELAYS={%s}" % d] if d else ["-DANYORDER=1"])
    B = lambda n, d: "%d ranks, %d broadcasts%s, %s" % (ranks, n, " in a rooted epoch" if epoch else "", "delays from {%s}" % d if d else "every schedule")
    return dict(name=name, src=["C03_bcast.cc", "unit_stubs.cc"], repo=COMMON, repo_flags=[], lazy_native=True, flags=fl, covers=["delivered"],
      defs=dict(quick=D(n, delays), thorough=D(tn, tdelays)), bounds=dict(quick=B(n, delays), thorough=B(tn, tdelays)),
      what="DefaultGroup::broadcast, Tree, ActiveMessenger (broadcastMsg), Scheduler", **k)
HARNESSES = [
  dict(name="tree", src=["C03_bcast.cc", "unit_stubs.cc"], repo=COMMON, repo_flags=[], lazy_native=True, flags=["-I" + V + "/rt", "-DTREE=1", "-DRANKS=1", "-DEPOCH=0"], covers=["child", "parent"], what="Tree (setupTree, getParent, getChildren)", bounds="every job of 1 to 32767 ranks, every rank"),
  h("any2", 2, 0, 2, "", 3, ""),
  h("any3", 3, 0, 1, "", 2, ""),
  h("epoch3", 3, 1, 2, "0,9", 2, "0,9"),
  h("delays4", 4, 0, 2, "0,9", 2, "0,9"),
  h("epoch2", 2, 1, 2, "0,9", 2, "0,5,9"),
  h("eight", 8, 0, 1, "0", 2, "0"),
  h("twenty", 20, 0, 1, "0", 1, "0")]
