import os
TECHNIQUE = "symbolic execution of the real reduction, tree, active messenger and scheduler code of several ranks (LLVM IR) over a model of MPI; schedules and roots are symbolic choices, contributed values are symbolic and their combination is decided by the SMT solver"
LEVEL_NOTE = "Every contributed value, every root, every schedule (or every combination of the stated delays) within the stated bounds. The operator combines sum, maximum and union; floating point rounding by order is outside. MPI is modelled by its guarantees (no overtaking between a pair of ranks)."
exec(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rt", "ranks_tus.py")).read())
def h(name, ranks, red, scopes, delays, tred, tdelays, parts=1, stamp=0, roots=1, imm=0, **k):
    fl = ["-I" + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/rt", "-DRANKS=%d" % ranks, "-DSCOPES=%d" % scopes, "-DPARTS=%d" % parts, "-DSTAMP=%d" % stamp, "-DROOTS=%d" % roots, "-DIMMEDIATE=%d" % imm]
    D = lambda n, d: ["-DRED=%d" % n] + (["-DDELAYS={%s}" % d] if d else ["-DANYORDER=1"])
    B = lambda n, d: "%d ranks, %d reductions on each of %d scopes, up to %d contributions per rank, %s" % (ranks, n, scopes, parts, "messages and contributions delayed by one of {%s} steps" % d if d else "every schedule")
    return dict(name=name, src=["C04_reduce.cc", "unit_stubs.cc"], repo=COLL, repo_flags=[], lazy_native=True, flags=fl, covers=["result"],
      defs=dict(quick=D(red, delays), thorough=D(tred, tdelays)), bounds=dict(quick=B(red, delays), thorough=B(tred, tdelays)),
      what="Reduce, ReduceManager, ReduceStateHolder, ReduceScope, ReduceCombine, Tree, ActiveMessenger, Scheduler", **k)
HARNESSES = [
  h("any", 2, 2, 1, "", 3, ""),
  h("any3", 3, 1, 1, "", 1, ""),
  h("parts", 2, 2, 1, "", 2, "", parts=2, roots=0),
  h("stamps", 2, 2, 1, "", 2, "", stamp=2),
  h("scopes", 2, 1, 2, "", 2, "", imm=1),
  h("scopes3", 3, 1, 2, "0,9", 1, "0,5,9", roots=0, stamp=3),
  h("ahead3", 3, 2, 1, "0,9", 2, "0,5,9", roots=0),
  h("four", 4, 1, 1, "0,9", 1, "0,4,9")]
