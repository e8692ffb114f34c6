import os
TECHNIQUE = "symbolic execution of the real runnables and their contexts, scheduler, epoch stack, messenger and termination detector of one or two ranks (LLVM IR) over a model of MPI; the nesting of sends, epochs, guards and scheduler calls is a symbolic choice, discharged by the SMT-backed executor"
LEVEL_NOTE = "Every program of at most the stated number of operations, nested to the stated depth. A blocked rank lets other ranks run on the same stack, so a rank that blocks inside another's wait must finish first. User-level threads (fcontext) are not built, so suspension is outside; load-balancing timers and trace contexts are outside."
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "rt", "ranks_tus.py")).read())
def h(name, ranks, ops, depth, tops, tdepth, **k):
    fl = ["-I" + V + "/rt", "-DRANKS=%d" % ranks]
    D = lambda o, d: ["-DOPS=%d" % o, "-DDEPTH=%d" % d]
    B = lambda o, d: "%d rank(s), %d operations (send with or without an epoch, to a plain handler or in an element's context; push and pop, guard, nested scheduler call, nested epoch), nesting up to %d" % (ranks, o, d)
    return dict(name=name, src=["C09_ctx.cc", "unit_stubs.cc"], repo=COMMON + RT + [S + "context/runnable_context/collection.cc"], repo_flags=[], lazy_native=True, flags=fl, covers=["handler", "nested", "epoch", "element"],
      defs=dict(quick=D(ops, depth), thorough=D(tops, tdepth)), bounds=dict(quick=B(ops, depth), thorough=B(tops, tdepth)),
      what="RunnableNew (start, run, finish), ctx::SetContext, ctx::TD, ctx::Collection, ctx::Continuation, EpochGuard, TerminationDetector epoch stack, runInEpochRooted, Scheduler", **k)
HARNESSES = [h("one", 1, 4, 2, 5, 3), h("two", 2, 3, 2, 4, 2)]
