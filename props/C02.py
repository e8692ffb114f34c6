import os
TECHNIQUE = "symbolic execution of the real active messenger, event, scheduler, termination and pool code of several ranks (LLVM IR) over a model of MPI; targets, kinds, sizes and schedules are symbolic choices, payloads are symbolic and compared by the SMT solver; buffers are bounds- and lifetime-checked"
LEVEL_NOTE = "Every sender, target, kind and payload, and every schedule (or every combination of the stated delays), for the stated message and piece sizes. MPI is modelled by its guarantees: no overtaking between a pair of ranks and tag, receives matched in the order posted, the send buffer read as late as the receipt. Serialized messages are outside (their codec is a stand-in here); priorities are checked by C25."
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "rt", "ranks_tus.py")).read())
def h(name, ranks, kinds, epochs, self_, msgs, maxsend, puts, delays, tmsgs, tmaxsend, tputs, tdelays, **k):
    fl = ["-I" + V + "/rt", "-DRANKS=%d" % ranks, "-DKINDS=%d" % kinds, "-DEPOCHS=%d" % epochs, "-DSELF=%d" % self_]
    D = lambda n, m, p, d: ["-DMSGS=%d" % n, "-DMAXSEND={%s}" % m, "-DPUTSIZES={%s}" % p] + (["-DDELAYS={%s}" % d] if d else ["-DANYORDER=1"])
    B = lambda n, m, p, d: "%d ranks, %d messages, largest piece a plain message plus one of {%s} bytes, put payloads of %s bytes, %s" % (ranks, n, m, p if kinds > 1 else "no", "delays from {%s}" % d if d else "every schedule")
    return dict(name=name, src=["C02_msg.cc", "unit_stubs.cc"], repo=COMMON + [S + "utils/mpi_limits/mpi_max_tag.cc"], repo_flags=[], lazy_native=True, flags=fl, covers=["plain"] + (["put"] if kinds > 1 else []) + (["epoch"] if epochs else []),
      defs=dict(quick=D(msgs, maxsend, puts, delays), thorough=D(tmsgs, tmaxsend, tputs, tdelays)), bounds=dict(quick=B(msgs, maxsend, puts, delays), thorough=B(tmsgs, tmaxsend, tputs, tdelays)),
      what="ActiveMessenger (send, sendMsgMPI, sendData, handleChunkedMultiMsg, put messages, receive paths), AsyncEvent, RunnableNew, Scheduler, TermDS", **k)
BIG = "1000000"
HARNESSES = [
  h("whole", 2, 1, 1, 1, 2, BIG, "1", "", 3, BIG, "1", ""),
  h("pieces", 2, 1, 1, 0, 1, "0,-1,1,-50,-71", "1", "", 2, "0,-1,1,-50", "1", ""),
  h("pieces_delays", 2, 1, 1, 0, 2, "0,-50", "1", "0,9", 2, "0,-1,-50", "1", "0,9"),
  h("puts", 2, 2, 1, 0, 1, BIG, "0,1,8,300", "", 2, BIG, "1,8,300", ""),
  h("puts_pieces", 2, 2, 1, 0, 1, "40", "8,199,200,201,400", "0,9", 2, "40,0", "8,199,200,201,450", "0,9"),
  h("puts_pieces2", 2, 2, 0, 0, 2, "40", "201,400", "0,9", 2, "40,0", "199,201,450", "0,9"),
  h("three", 3, 1, 1, 1, 2, BIG, "1", "0,9", 3, BIG, "1", "0,9")]
