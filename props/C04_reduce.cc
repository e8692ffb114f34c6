// C04: reductions over several ranks of the real runtime.  RED reductions per scope, SCOPES scopes (the global one and a
// collectively made one); each rank enters them in scope order, interleaving the scopes freely; values are symbolic.
#define WITH_COLL
#include "ranks.h"
using namespace vt;
static int const B = RED * SCOPES;
#if ANYORDER
static long pick() { return 0; }
#else
static int const DEL[] = DELAYS;
static long pick() { return DEL[sym_choose("delay", sizeof(DEL) / sizeof(int))]; }
#endif
struct Val { std::uint64_t sum = 0, hi = 0, who = 0, id = 0; };
static Val operator+(Val a, Val const& b) { a.sum += b.sum; a.hi = a.hi > b.hi ? a.hi : b.hi; a.who += b.who; a.id |= b.id; return a; }
using Msg = collective::ReduceTMsg<Val>;
using Op = collective::PlusOp<Val>;
static Val expect[B]; static int given[B], result[B], root[B];
static collective::reduce::Reduce* red[SCOPES][RANKS];
static int next_[RANKS][SCOPES], part[RANKS][SCOPES], left_[RANKS]; static long at[RANKS];
static int parts(int b, int r) { return PARTS > 1 && (b + r) % 2 ? PARTS : 1; }
static void check(Val const& v) {
  int b = -1;
  for (int k = 0; k < B; k++) if (v.id == (std::uint64_t)1 << k) b = k;
  sym_assert(b >= 0, "contributions of different reductions are not combined");
  if (b < 0) return;
  sym_assert(sim::cur == root[b], "the result is delivered on the root");
  sym_assert(++result[b] == 1, "one result per reduction");
  int all = 0; for (int r = 0; r < RANKS; r++) all += parts(b, r);
  sym_assert(given[b] == all, "the result waits for every contribution");
  sym_assert(v.who == expect[b].who, "each contribution is counted once");
  sym_assert(v.sum == expect[b].sum, "the result combines the contributed values");
  sym_assert(v.hi == expect[b].hi, "the result combines the contributed values");
  sym_cover("result");
}
struct Done { void operator()(Msg* m) { check(m->getConstVal()); } };
static void contribute(int r) {
  int s = 0;
  if (SCOPES > 1) { if (next_[r][0] >= RED) s = 1; else if (next_[r][1] < RED) s = (int)sym_choose("scope", 2); }
  int b = s * RED + next_[r][s];
  if (root[b] < 0) root[b] = ROOTS ? (int)sym_choose("root", RANKS) : 0;
  Val v; v.sum = sym_u64("value"); v.hi = v.sum ^ 0x5555; v.who = (std::uint64_t)1 << (8 * r); v.id = (std::uint64_t)1 << b;
  if (given[b]) expect[b] = expect[b] + v; else expect[b] = v;
  given[b]++; left_[r]--;
  auto m = makeMessage<Msg>(v);
  collective::reduce::detail::ReduceStamp id{};
  if (PARTS > 1 || STAMP == 1) id = collective::reduce::detail::StrongTag{(TagType)(b + 1)};
  if (STAMP == 2) id = collective::reduce::detail::TagPair{(TagType)(b + 1), (TagType)(7 - b)};
  if (STAMP == 3) id = collective::reduce::detail::StrongUserID{(collective::reduce::UserIDType)(b + 1)};
  int n = parts(b, r);
  if (++part[r][s] == n) { part[r][s] = 0; next_[r][s]++; }
#if IMMEDIATE
  red[s][r]->reduceImmediate<Op, Done, Msg>(root[b], m.get(), id, n);
#else
  red[s][r]->reduce<Op, Done, Msg>(root[b], m.get(), id, n);
#endif
}
static long localTime(int r) { return left_[r] > 0 ? at[r] : -1; }
static void doLocal(int r) { at[r] = sim::now + pick(); contribute(r); }
static long wire(int, int, char const*, int) { return pick(); }
extern "C" void symx_main() {
#if ANYORDER
  sim::anyOrder = true;
#endif
  sim::start(); sim::delay = wire; sim::local = localTime; sim::doLocal = doLocal;
  for (int b = 0; b < B; b++) root[b] = -1;
  for (int r = 0; r < RANKS; r++) { sim::select(r);
    red[0][r] = sim::R[r].coll->global();
    if (SCOPES > 1) red[SCOPES - 1][r] = sim::R[r].coll->makeReducerCollective();
    for (int b = 0; b < B; b++) left_[r] += parts(b, r);
    at[r] = r == 0 ? 0 : pick(); }
  sim::runToEnd(3000);
  for (int b = 0; b < B; b++) sym_assert(result[b] == 1, "every reduction delivers its result");
}
