// C02: point to point messages between several ranks of the real runtime: plain and put messages, sent whole or in several
// pieces, inside and outside an epoch; payloads are symbolic; the send buffer is read when the message is received.
#define LATE_SEND 1
#include "ranks.h"
#include "vt/messaging/message/put_message.h"
#include "vt/utils/mpi_limits/mpi_max_tag.h"
using namespace vt;
#if ANYORDER
static long pick() { return 0; }
#else
static int const DEL[] = DELAYS;
static long pick() { return DEL[sym_choose("delay", sizeof(DEL) / sizeof(int))]; }
#endif
extern "C" int MPI_Comm_get_attr(MPI_Comm, int, void* p, int* flag) { static int max = 32767; *(void**)p = &max; *flag = 1; return MPI_SUCCESS; }
static int const WORDS = 12;
struct Plain : Message { int id; std::uint64_t w[WORDS]; Plain(int i) : id(i) { } };
struct Put : PayloadMessage { int id; Put(int i) : id(i) { } };
static int const PUTS[] = PUTSIZES;
static int from[MSGS], dest[MSGS], kind[MSGS], inEpoch[MSGS], handled[MSGS], len[MSGS]; static bool sent[MSGS]; static std::uint64_t word[MSGS][WORDS]; static char bytes[MSGS][512], copy_[MSGS][512]; static EpochType ep = no_epoch;
static int done = 0, open_ = 0;
static void arrived(int id) {
  sym_assert(id >= 0 && id < MSGS, "only sent messages are handled"); if (id < 0 || id >= MSGS) return;
  sym_assert(sent[id], "no message is handled before it is sent");
  sym_assert(sim::cur == dest[id], "a message runs on its target");
  sym_assert(++handled[id] == 1, "a message runs once");
  sym_assert(theContext()->getFromNodeCurrentTask() == from[id], "the sender is the one that sent it");
  sym_assert(theTerm()->getEpoch() == (inEpoch[id] ? ep : term::any_epoch_sentinel), "a handler runs in the epoch of its message");
  if (inEpoch[id]) { open_--; sym_assert(!done, "the epoch outlives its messages"); }
  sym_cover(kind[id] ? "put" : "plain"); if (inEpoch[id]) sym_cover("epoch");
}
static void plainHan(Plain* m) {
  int id = m->id; arrived(id);
  for (int i = 0; i < WORDS; i++) sym_assert(m->w[i] == word[id][i], "the payload arrives as sent");
}
static void putHan(Put* m) {
  int id = m->id; arrived(id);
  sym_assert((int)m->getPutSize() == len[id], "the put payload has the size sent");
  auto p = (char*)m->getPut();
  for (int i = 0; i < len[id]; i++) sym_assert(p[i] == copy_[id][i], "the put payload arrives as sent");
}
static int next_ = 0; static long at = 0;
static long localTime(int r) { if (next_ < MSGS && from[next_] == r) return at; return -1; }
static void doLocal(int r) {
  int id = next_++; at = sim::now + pick(); sent[id] = true;
  if (inEpoch[id]) { open_++; theMsg()->pushEpoch(ep); }
  if (kind[id] == 0) { auto m = makeMessage<Plain>(id); for (int i = 0; i < WORDS; i++) m->w[i] = word[id][i];
    theMsg()->sendMsg<Plain, plainHan>(dest[id], m); }
  else { auto m = makeMessage<Put>(id); m->setPut((std::byte*)bytes[id], len[id]); theMsg()->sendMsg<Put, putHan>(dest[id], m); }
  if (inEpoch[id]) theMsg()->popEpoch(ep);
  if (next_ == MSGS) { sim::select(0); theTerm()->finishedEpoch(ep); sim::select(r); }
}
static long wire(int, int, char const*, int) { return pick(); }
extern "C" void symx_main() {
#if ANYORDER
  sim::anyOrder = true;
#endif
  sim::start(); sim::delay = wire; sim::local = localTime; sim::doLocal = doLocal;
  static int const MAX[] = MAXSEND;
  sim::cfg_->vt_max_mpi_send_size = sizeof(Plain) + MAX[sym_choose("largest piece", sizeof(MAX) / sizeof(int))];
  ep = theTerm()->makeEpochRooted("e", term::UseDS{true});
  theTerm()->addAction(ep, [] { sym_assert(open_ == 0 && next_ == MSGS, "termination waits for the messages"); done++; });
  for (int k = 0; k < MSGS; k++) {
    kind[k] = KINDS > 1 ? (int)sym_choose("kind", KINDS) : 0; inEpoch[k] = EPOCHS ? (int)sym_choose("epoch", 2) : 0;
    from[k] = inEpoch[k] ? 0 : (int)sym_choose("from", RANKS); dest[k] = (from[k] + (SELF ? 0 : 1) + (int)sym_choose("dest", RANKS - (SELF ? 0 : 1))) % RANKS;
    if (kind[k]) { len[k] = PUTS[sym_choose("put size", sizeof(PUTS) / sizeof(int))]; for (int i = 0; i < len[k]; i++) copy_[k][i] = bytes[k][i] = (char)(i < 2 || i >= len[k] - 3 || i % 37 == 0 ? sym_u8("byte") : i * 7 + k); }
    else for (int i = 0; i < WORDS; i++) word[k][i] = sym_u64("word");
  }
  sim::runToEnd(2000);
  for (int k = 0; k < MSGS; k++) sym_assert(handled[k] == 1, "no message is lost");
  sym_assert(done == 1, "the epoch terminates");
}
