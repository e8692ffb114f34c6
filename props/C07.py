import os
TECHNIQUE = "symbolic execution of the real scheduler, its queues, work units and runnables (LLVM IR); the sequence of operations and the priorities are symbolic, discharged by the SMT-backed executor"
LEVEL_NOTE = "Every sequence of at most the stated number of operations (enqueue by each route, run one unit, run until a condition, nested in units as well), with any 16-bit priorities in the priority configuration. Units of termination control do not themselves run the scheduler. With priorities the order among equals is not claimed (a binary heap is used). User-level threads (fcontext) are not built."
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "rt", "ranks_tus.py")).read())
def h(name, prio, prefill, ops, tops, kinds=4, **k):
    fl = ["-I" + V + "/rt", "-DRANKS=1", "-DPRIO=%d" % prio, "-DPREFILL=%d" % prefill, "-DKINDS=%d" % kinds]
    return dict(name=name, src=["C07_sched.cc", "unit_stubs.cc"], repo=COMMON + RT, repo_flags=[], lazy_native=True, flags=fl, covers=["unit", "until"], **({"config": "prio"} if prio else {}),
      defs=dict(quick=["-DOPS=%d" % ops], thorough=["-DOPS=%d" % tops]), bounds=dict(quick="%d operations, %d units waiting at first" % (ops, prefill), thorough="%d operations, %d units waiting at first" % (tops, prefill)),
      what="Scheduler (enqueue, runSchedulerOnceImpl, runSchedulerWhile, runWorkUnit, triggers), Queue, PriorityQueue, CircularBuffer, BaseUnit, RunnableNew", **k)
HARNESSES = [h("fifo", 0, 0, 4, 5), h("fifo_long", 0, 65, 3, 4, 2), h("fifo_edge", 0, 63, 3, 4, 2), h("prio", 1, 0, 3, 4), h("prio_wait", 1, 2, 2, 3, 2)]
