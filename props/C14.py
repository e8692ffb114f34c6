import os
TECHNIQUE = "symbolic execution of the real scatter, tree, active messenger and scheduler code of several ranks (LLVM IR) over a model of MPI; senders, sizes and schedules are symbolic choices, slice bytes are symbolic and compared by the SMT solver; memory accesses are bounds-checked"
LEVEL_NOTE = "Every sender, every slice size up to the bound (with every byte symbolic) and every schedule (or every combination of the stated delays). Slices have one common size: the code sizes all slots by the largest slice. MPI is modelled by its guarantees."
exec(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rt", "ranks_tus.py")).read())
def h(name, ranks, n, elm, delays, tn, telm, tdelays, **k):
    fl = ["-I" + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/rt", "-DRANKS=%d" % ranks]
    D = lambda n, e, d: ["-DSCATTERS=%d" % n, "-DMAXELM=%d" % e] + (["-DDELAYS={%s}" % d] if d else ["-DANYORDER=1"])
    B = lambda n, e, d: "%d ranks, %d scatters, slices of 0 to %d bytes, %s" % (ranks, n, e, "messages and calls delayed by one of {%s} steps" % d if d else "every schedule")
    return dict(name=name, src=["C14_scatter.cc", "unit_stubs.cc"], repo=COLL, repo_flags=[], lazy_native=True, flags=fl, covers=["slice", "empty slice"],
      defs=dict(quick=D(n, elm, delays), thorough=D(tn, telm, tdelays)), bounds=dict(quick=B(n, elm, delays), thorough=B(tn, telm, tdelays)),
      what="Scatter (scatter, applyScatterRecur, scatterIn, scatterHandler), Tree (getChildren, getNumDescendants), ActiveMessenger, Pool", **k)
HARNESSES = [
  h("two", 2, 2, 3, "", 2, 9, ""),
  h("three", 3, 1, 9, "", 2, 3, ""),
  h("one", 1, 1, 4, "", 2, 9, ""),
  h("four", 4, 1, 3, "0,7", 1, 17, "0,5,9"),
  h("seven", 7, 1, 2, "0", 1, 9, "0"),
  h("twelve", 12, 1, 1, "0", 1, 3, "0")]
