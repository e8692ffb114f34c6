// C03: broadcasts over several ranks of the real runtime (any origin, sender included or not), and the tree that carries
// them for every number of ranks.
#include "ranks.h"
using namespace vt;
#if TREE
// any number of ranks, any rank: parent and child views agree, one root, no cycle (parents come before children)
using collective::tree::Tree;
static std::unique_ptr<Tree> at(NodeType me, NodeType n) { auto c = sim::R[0].ctx; c->thisNode_ = me; c->numNodes_ = n; return std::make_unique<Tree>(collective::tree::tree_cons_tag_t); }
static int inList(Tree::NodeListType const& l, NodeType x) { int k = 0; for (auto e : l) if (e == x) k++; return k; }
extern "C" void symx_main() {
  sim::R[0].ctx = new ctx::Context(false, (MPI_Comm)0);
  long n = sym_u16("ranks"), me = sym_u16("rank");
  sym_assume(n >= 1 && n <= 32767 && me < n);
  auto t = at((NodeType)me, (NodeType)n);
  sym_assert(t->isRoot() == (me == 0), "exactly one root");
  sym_assert(t->getNumChildren() == (NodeType)t->getChildren().size(), "-");
  for (auto c : t->getChildren()) {
    sym_assert(c > me && c < n, "children are later, existing ranks");
    auto tc = at(c, (NodeType)n);
    sym_assert(tc->getParent() == me && !tc->isRoot(), "a child's parent is the rank that has it as a child");
    sym_assert(inList(t->getChildren(), c) == 1, "a child is listed once");
    sym_cover("child");
  }
  if (me != 0) {
    long p = t->getParent();
    sym_assert(p >= 0 && p < me, "the parent is an earlier rank");
    auto tp = at((NodeType)p, (NodeType)n);
    sym_assert(inList(tp->getChildren(), (NodeType)me) == 1, "the parent has this rank as a child");
    auto other = at((NodeType)me, (NodeType)n)->getChildren((NodeType)p);
    sym_assert(inList(other, (NodeType)me) == 1 && other.size() == tp->getChildren().size(), "every rank computes the same children");
    sym_cover("parent");
  }
}
#else
#if ANYORDER
static long pick() { return 0; }
#else
static int const DEL[] = DELAYS;
static long pick() { return DEL[sizeof(DEL) / sizeof(int) > 1 ? sym_choose("delay", sizeof(DEL) / sizeof(int)) : 0]; }
#endif
struct UserMsg : Message { int id; std::uint64_t v; UserMsg(int i, std::uint64_t x) : id(i), v(x) { } };
static int origin[BCASTS], self[BCASTS], handled[BCASTS][RANKS]; static std::uint64_t val[BCASTS]; static bool sent[BCASTS]; static EpochType ep; static int done;
static void han(UserMsg* m) {
  int b = m->id; sym_assert(b >= 0 && b < BCASTS && sent[b], "only messages that were broadcast are handled"); if (b < 0 || b >= BCASTS) return;
  sym_assert(++handled[b][sim::cur] == 1, "a broadcast runs once on each rank");
  sym_assert(self[b] || sim::cur != origin[b], "the sender is left out when asked for");
  sym_assert(m->v == val[b], "the broadcast message arrives as sent");
  if (EPOCH) { sym_assert(theTerm()->getEpoch() == ep && !done, "the epoch outlives its broadcasts"); }
  sym_cover("delivered");
}
static int next_ = 0; static long at = 0;
static long localTime(int r) { return next_ < BCASTS && origin[next_] == r ? at : -1; }
static void doLocal(int r) {
  int b = next_++; at = sim::now + pick(); sent[b] = true;
  if (EPOCH) theMsg()->pushEpoch(ep);
  theMsg()->broadcastMsg<UserMsg, han>(makeMessage<UserMsg>(b, val[b]), self[b]);
  if (EPOCH) { theMsg()->popEpoch(ep); if (next_ == BCASTS) theTerm()->finishedEpoch(ep); }
}
static long wire(int, int, char const*, int) { return pick(); }
extern "C" void symx_main() {
#if ANYORDER
  sim::anyOrder = true;
#endif
  sim::start(); sim::delay = wire; sim::local = localTime; sim::doLocal = doLocal;
  int o = (int)sym_choose("origin", RANKS);
  for (int b = 0; b < BCASTS; b++) { origin[b] = b == 0 || EPOCH ? o : (int)sym_choose("origin", RANKS); self[b] = (int)sym_choose("to the sender too", 2); val[b] = sym_u64("value"); }
  if (EPOCH) { sim::select(o); ep = theTerm()->makeEpochRooted("e", term::UseDS{true}); theTerm()->addAction(ep, [] {
    for (int b = 0; b < BCASTS; b++) for (int r = 0; r < RANKS; r++) if (self[b] || r != origin[b]) sym_assert(handled[b][r] == 1, "termination waits for every rank's delivery"); done++; }); }
  sim::runToEnd(3000);
  for (int b = 0; b < BCASTS; b++) for (int r = 0; r < RANKS; r++) sym_assert(handled[b][r] == (self[b] || r != origin[b]), "a broadcast reaches every rank");
  if (EPOCH) sym_assert(done == 1, "the epoch terminates");
}
#endif
