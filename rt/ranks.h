// Several ranks of the real runtime components in one symbolic execution.
//
// Each rank has its own ActiveMessenger, TerminationDetector, EpochManip, Scheduler, AsyncEvent
// (the real classes, from /repo's sources) and its own copy of the process-wide statics they use;
// select(r) makes rank r the current process. MPI is replaced by an exact model of its guarantees:
// messages between a pair of ranks with matching tag do not overtake, messages from different ranks
// arrive in any order and after any delay. The harness chooses (symbolically) which rank runs next and
// what it does: receive the next message from some source, or run the next unit of its scheduler.
#pragma once
#include <thread>
#include <queue>
#include <random>
#include <functional>
#include <variant>
#include <unordered_map>
#include <sstream>
#include <set>
#include <map>
#include <stack>
#include <list>
#include <deque>
#include <memory>
#include <cstring>
#define private public
#define protected public
#include "vt/config.h"
#include "vt/configs/arguments/app_config.h"
#include "vt/context/context.h"
#include "vt/messaging/active.h"
#include "vt/messaging/message.h"
#include "vt/termination/termination.h"
#include "vt/epoch/epoch_manip.h"
#include "vt/scheduler/scheduler.h"
#include "vt/event/event.h"
#include "vt/group/group_manager.h"
#include "vt/group/global/group_default.h"
#include "vt/collective/collective_alg.h"
#include "vt/pool/pool.h"
#include "vt/elm/elm_id_bits.h"
#ifdef WITH_RT
#include "vt/runtime/runtime.h"
#include "vt/runtime/component/component_pack.h"
#endif
#undef private
#undef protected
#include "sym.h"

#ifndef RANKS
# define RANKS 2
#endif
namespace sim {
using namespace vt;
struct Packet { int tag; int size; char* data; int id; long ready; int sreq; };
struct Rank {
  ctx::Context* ctx = nullptr;
  messaging::ActiveMessenger* msg = nullptr;
  term::TerminationDetector* term = nullptr;
  epoch::EpochManip* epoch = nullptr;
  sched::Scheduler* sched = nullptr;
  event::AsyncEvent* event = nullptr;
  collective::CollectiveAlg* coll = nullptr;
  group::GroupManager* group = nullptr;
  std::unique_ptr<group::global::DefaultGroup> def;
};
static Rank R[RANKS];
static int cur = 0;
static pool::Pool* pool_;
static arguments::AppConfig* cfg_;
static std::deque<Packet> net[RANKS][RANKS];   // [src][dst]
static int allow_src = -1;                     // the source whose next message may be received now
static int sent_total = 0;
static long now = 0;                           // steps taken
static long (*delay)(int src, int dst, char const* data, int size) = nullptr;  // steps a message stays on the wire
enum ReqKind { Done, Recv, Send };
struct Req { ReqKind kind; int owner, src, tag; char* buf; int size; };
static std::vector<Req> reqs;
#ifndef LATE_SEND
# define LATE_SEND 0      // 1: the send buffer is read only when the message is received, and the send completes then
#endif
static long consumed = 0; // messages taken from the network
static MPI_Request newReq(ReqKind k, int src, int tag, char* buf, int n) { reqs.push_back({k, cur, src, tag, buf, n}); return (MPI_Request)(std::uintptr_t)reqs.size(); }
static void take(Packet& p, char* to) {
  std::memcpy(to, p.data, p.size);
  if (LATE_SEND) reqs[p.sreq].kind = Done; else std::free(p.data);
  consumed++;
}
static bool anyOrder = false;                   // every enabled step may come next: all schedules
static int inflight() { int n = 0; for (auto& a : net) for (auto& b : a) n += (int)b.size(); return n; }
static void select(int r) {
  if (r == cur) return;
  R[cur].def = std::move(group::global::default_group_);
  cur = r;
  group::global::default_group_ = std::move(R[cur].def);
}
}
namespace vt {
ctx::Context* theContext() { return sim::R[sim::cur].ctx; }
messaging::ActiveMessenger* theMsg() { return sim::R[sim::cur].msg; }
term::TerminationDetector* theTerm() { return sim::R[sim::cur].term; }
epoch::EpochManip* theEpoch() { return sim::R[sim::cur].epoch; }
sched::Scheduler* theSched() { return sim::R[sim::cur].sched; }
event::AsyncEvent* theEvent() { return sim::R[sim::cur].event; }
pool::Pool* thePool() { return sim::pool_; }
arguments::AppConfig* theConfig() { return sim::cfg_; }
collective::CollectiveAlg* theCollective() { return sim::R[sim::cur].coll; }
#ifndef OWN_GROUP
group::GroupManager* theGroup() { return sim::R[sim::cur].group; }
#endif
namespace timing { TimeType getCurrentTime() { return TimeType{0}; } }
namespace debug {
  arguments::AppConfig const* preConfig() { return sim::cfg_; }
  arguments::AppConfig* preConfigRef() { return sim::cfg_; } }
}
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o = c; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = RANKS; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = sim::cur; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm*) { return MPI_SUCCESS; }
int MPI_Isend(const void* buf, int n, MPI_Datatype, int dst, int tag, MPI_Comm, MPI_Request* q) {
  sym_assert(dst >= 0 && dst < RANKS, "a message is sent to an existing rank");
  sim::Packet p; p.tag = tag; p.size = n; p.id = sim::sent_total++;
  *q = sim::newReq(LATE_SEND ? sim::Send : sim::Done, 0, 0, nullptr, 0); p.sreq = (int)sim::reqs.size() - 1;
  if (LATE_SEND) p.data = (char*)const_cast<void*>(buf); else { p.data = (char*)std::malloc(n); std::memcpy(p.data, buf, n); }
  p.ready = sim::now + (sim::delay ? sim::delay(sim::cur, dst, (char const*)buf, n) : 0);
  for (auto& q : sim::net[sim::cur][dst]) if (q.tag == tag && q.ready > p.ready) p.ready = q.ready;  // no overtaking
  sim::net[sim::cur][dst].push_back(p);
  return MPI_SUCCESS;
}
int MPI_Iprobe(int src, int tag, MPI_Comm, int* flag, MPI_Status* st) {
  *flag = 0;
  for (int s = 0; s < RANKS; s++) {
    if (src != MPI_ANY_SOURCE && src != s) continue;
    if (sim::allow_src != s) continue;
    for (auto& p : sim::net[s][sim::cur]) if (p.tag == tag) {
      *flag = 1;
      if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = s; st->MPI_TAG = tag; st->MPI_ERROR = MPI_SUCCESS; st->_ucount = p.size; }
      return MPI_SUCCESS;
    }
  }
  return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype, int* n) { *n = (int)st->_ucount; return MPI_SUCCESS; }
int MPI_Irecv(void* buf, int n, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request* q) {
  auto& v = sim::net[src][sim::cur];
  if (sim::allow_src == src)      // the message just probed for
    for (auto it = v.begin(); it != v.end(); ++it) if (it->tag == tag) {
      sym_assert(it->size <= n, "receive buffer holds the message");
      sim::take(*it, (char*)buf); v.erase(it);
      *q = sim::newReq(sim::Done, 0, 0, nullptr, 0);
      sim::allow_src = -1;
      return MPI_SUCCESS;
    }
  *q = sim::newReq(sim::Recv, src, tag, (char*)buf, n);
  return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status*) {
  if (*q == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; }
  std::size_t me = (std::uintptr_t)*q - 1;
  if (sim::reqs[me].kind == sim::Recv) {
    // messages match the receives of their pair and tag in the order these were posted
    int src = sim::reqs[me].src, tag = sim::reqs[me].tag;
    auto& v = sim::net[src][sim::cur];
    for (std::size_t i = 0; i <= me; i++) {
      auto& r = sim::reqs[i];
      if (r.kind != sim::Recv || r.owner != sim::cur || r.src != src || r.tag != tag) continue;
      for (auto it = v.begin(); it != v.end(); ++it) if (it->tag == tag) {
        if (!sim::anyOrder && it->ready > sim::now) break;
        sym_assert(it->size <= r.size, "receive buffer holds the message");
        sim::take(*it, r.buf); v.erase(it); r.kind = sim::Done; break;
      }
    }
  }
  if (sim::reqs[me].kind != sim::Done) { *flag = 0; return MPI_SUCCESS; }
  *flag = 1; *q = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
}
namespace sim {
static void start() {
  cfg_ = new arguments::AppConfig(); cfg_->vt_quiet = true; cfg_->vt_no_detect_hang = true; cfg_->vt_print_no_progress = false;
  pool_ = new pool::Pool();
  for (int r = 0; r < RANKS; r++) {
    cur = r;
    R[r].ctx = new ctx::Context(false, (MPI_Comm)0);
    R[r].epoch = new epoch::EpochManip();
    R[r].sched = new sched::Scheduler();
    R[r].event = new event::AsyncEvent();
    R[r].event->initialize();
    R[r].term = new term::TerminationDetector();
    R[r].msg = new messaging::ActiveMessenger();
    R[r].msg->initialize();
    R[r].msg->bare_handler_dummy_elm_id_for_lb_data_ = elm::ElmIDBits::createBareHandler(r);
    R[r].sched->startup();
    group::global::default_group_ = std::make_unique<group::global::DefaultGroup>();
    group::global::DefaultGroup::buildDefaultTree(0);
    R[r].def = std::move(group::global::default_group_);
#ifdef WITH_COLL
    R[r].coll = new collective::CollectiveAlg();
#endif
  }
  cur = 0; group::global::default_group_ = std::move(R[0].def);
}
// one step of the current rank: receive from src, or run a scheduled unit
static void receive(int src) { allow_src = src; R[cur].msg->progress(TimeType{0}); allow_src = -1; R[cur].event->progress(TimeType{0}); }
static bool queued(int r) { return !R[r].sched->work_queue_.empty(); }
static void runUnit() { R[cur].sched->runSchedulerOnceImpl(true); }
static void runAll() { while (queued(cur)) runUnit(); }

// Run the ranks until nothing is left to do. Every enabled event (a message that arrived, a unit in a rank's
// scheduler) happens in the order of the time it became ready; delays chosen by the harness move messages and units.
static long unit_ready[RANKS]; static bool armed[RANKS];
static long (*unitDelay)(int r) = nullptr;     // harness: steps rank r stays busy (or polls) before its next unit
static long (*local)(int r) = nullptr;         // harness: time of rank r's next local action, -1 if none
static void (*doLocal)(int r) = nullptr;
static bool stuck[RANKS][RANKS];                // nothing on this channel can be received until something else happens
static bool deliver(int s) { long c = consumed; receive(s); if (consumed == c) { stuck[s][cur] = true; return false; } std::memset(stuck, 0, sizeof(stuck)); return true; }
static bool stepAny() {
  int kind[RANKS * (RANKS + 2)], a[RANKS * (RANKS + 2)], b[RANKS * (RANKS + 2)], n = 0;
  for (int r = 0; r < RANKS; r++) if (local && local(r) >= 0) { kind[n] = 0; a[n] = r; b[n++] = 0; }
  for (int r = 0; r < RANKS; r++) if (queued(r)) { kind[n] = 1; a[n] = r; b[n++] = 0; }
  for (int d = 0; d < RANKS; d++) for (int s = 0; s < RANKS; s++) if (!net[s][d].empty() && !stuck[s][d]) { kind[n] = 2; a[n] = d; b[n++] = s; }
  if (n == 0) return false;
  int k = n > 1 ? (int)sym_choose("next step", n) : 0;
  now++;
  select(a[k]);
  if (kind[k] == 2) deliver(b[k]); else { std::memset(stuck, 0, sizeof(stuck)); if (kind[k] == 0) doLocal(a[k]); else runUnit(); }
  return true;
}
static bool stepOnce() {
  if (anyOrder) return stepAny();
  for (int r = 0; r < RANKS; r++) if (queued(r) && !armed[r]) { armed[r] = true; unit_ready[r] = now + (unitDelay ? unitDelay(r) : 0); }
  long best = -1; int kind = -1, a = 0, b = 0;
  for (int r = 0; r < RANKS; r++) {
    long t = local ? local(r) : -1;
    if (t >= 0 && (best < 0 || t < best)) { best = t; kind = 0; a = r; }
  }
  for (int r = 0; r < RANKS; r++) if (queued(r)) {
    long t = unit_ready[r];
    if (best < 0 || t < best) { best = t; kind = 1; a = r; }
  }
  for (int d = 0; d < RANKS; d++) for (int s = 0; s < RANKS; s++) if (!net[s][d].empty() && !stuck[s][d]) {
    long t = net[s][d].front().ready;
    if (best < 0 || t < best) { best = t; kind = 2; a = d; b = s; }
  }
  if (kind < 0) return false;
  now = (best > now ? best : now) + 1;
  select(a);
  if (kind == 2) deliver(b); else { std::memset(stuck, 0, sizeof(stuck)); if (kind == 0) doLocal(a); else { armed[a] = false; runUnit(); } }
  return true;
}
static void runToEnd(long limit) {
  while (stepOnce()) if (now > limit) { sym_fail("the ranks do not come to rest"); sym_end(); }
}

#ifdef WITH_RT
// blocking calls: the scheduler's progress call on an empty queue steps the whole simulation
static long limit_ = 2000;
struct Pump : runtime::component::BaseComponent {
  std::string name() override { return "Pump"; }
  bool pollable() override { return true; }
  void initialize() override { }
  void startup() override { }
  void finalize() override { }
  void dumpState() override { }
  int progress(TimeType) override {
    int me = cur;
    if (!stepOnce()) { sym_fail("a rank waits for something that never happens"); sym_end(); }
    if (now > limit_) { sym_fail("the ranks do not come to rest"); sym_end(); }
    select(me);
    return 1;
  }
  bool needsCurrentTime() override { return false; }
};
static Pump pump_;
static void makeRuntime() {
  cfg_->vt_sched_num_progress = 1;
  auto rt = (runtime::Runtime*)std::calloc(1, sizeof(runtime::Runtime));
  new (&rt->p_) std::unique_ptr<runtime::component::ComponentPack>(new runtime::component::ComponentPack());
  rt->p_->pollable_components_.push_back(&pump_);
  curRT = rt;
}
#endif
}
#ifdef WITH_RT
namespace vt { runtime::Runtime* curRT = nullptr; }
#endif
