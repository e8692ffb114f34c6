// C07: every unit of work enqueued on the scheduler runs exactly once, in order; counts and run-until agree.
#define WITH_RT
#include "ranks.h"
#include "vt/runnable/make_runnable.h"
using namespace vt;
struct Waiting { int id; unsigned prio; bool term; };
static std::vector<Waiting> waiting; static int nextId = 0, ops = OPS, depth = 0; static bool stop = false;
static bool draining = false; static int doneCount = 0; static bool idle = true, idleTD = true; static int loops = 0; static int onceWanted = 0, onceFired = 0;
static std::vector<char> ran; static bool condFalse[OPS + 8]; static int level = 0, targets[OPS + 8];
static void act(bool top);
static void onRun(int id) {
  sym_assert(id >= 0 && id < nextId && !ran[id], "a unit runs once"); ran[id] = 1;
  std::size_t at = waiting.size();
  for (std::size_t i = 0; i < waiting.size(); i++) if (waiting[i].id == id) at = i;
  sym_assert(at < waiting.size(), "only what was enqueued runs");
#if PRIO
  for (std::size_t i = 0; i < waiting.size(); i++) sym_assert(waiting[i].prio <= waiting[at].prio, "higher priorities run first");
#else
  sym_assert(at == 0, "units run in the order of arrival");
#endif
  bool term = waiting[at].term;
  waiting.erase(waiting.begin() + at);
  sym_assert(!idle, "the scheduler is not idle while it runs a unit");
  sym_assert(term || !idleTD, "the scheduler is not idle (exc. termination) while it runs work");
  sym_assert(level == 0 || (!condFalse[level] && !stop && doneCount < targets[level]), "no unit runs once the condition of run-until holds");
  doneCount++; sym_cover("unit");
  if (!term && depth < 2 && !draining) { depth++; act(false); depth--; }
}
struct IdMsg : Message { int id; explicit IdMsg(int i) : id(i) { } };
static void idHan(IdMsg* m) { onRun(m->id); }
static unsigned prio() {
#if PRIO
  return sym_u16("priority");
#else
  return 0;
#endif
}
static void add(int kind, bool term) {
  int id = nextId++; ran.push_back(0);
  unsigned p = PRIO ? (unsigned)default_priority : 0;
  auto s = theSched();
  if (kind == 0) { waiting.push_back({id, p, false}); s->enqueue([id] { onRun(id); }); }
  else if (kind == 1) {
    p = prio(); auto m = makeMessage<IdMsg>(id);
    if (term) setTermType(m->env);
#if PRIO
    envelopeSetPriority(m->env, (PriorityType)p);
#endif
    waiting.push_back({id, p, term}); s->enqueue(m.get(), [id, m] { onRun(id); });
  }
  else if (kind == 2) { p = prio(); waiting.push_back({id, p, false}); s->enqueue((PriorityType)p, [id] { onRun(id); }); }
  else {
    auto m = makeMessage<IdMsg>(id); auto han = auto_registry::makeAutoHandler<IdMsg, idHan>();
    
#if PRIO
    p = prio(); envelopeSetPriority(m->env, (PriorityType)p);
#endif
    waiting.push_back({id, p, false});
    runnable::makeRunnable(m, false, han, 0).withContinuation([] { }).enqueue();
  }
}
static void once() { theSched()->runSchedulerOnceImpl(false); }
static void checkCounts() {
  auto s = theSched(); bool allTerm = true; for (auto& w : waiting) if (!w.term) allTerm = false;
  sym_assert(s->workQueueSize() == waiting.size() && s->workQueueEmpty() == waiting.empty() && s->isIdle() == waiting.empty(), "the queue size is the number of units waiting");
  sym_assert(s->isIdleMinusTerm() == allTerm, "idle (exc. termination) agrees with the units waiting");
}
static void act(bool top) {
  if (ops == 0) return;
  int k = (int)sym_choose("operation", top ? 4 : 3);
  if (k == 0) { if (!top) return; ops--; once(); }
  else if (k == 1) { ops--; int kind = KINDS > 1 ? (int)sym_choose("kind", KINDS) : 0; bool term = kind == 1 && sym_bool("term"); add(kind, term); if (!top && ops > 0 && sym_bool("more")) act(false); }
  else if (k == 2) {
    ops--; int target = doneCount + (int)sym_choose("until", 2) + 1; int me = ++level; bool outerFalse = level > 1 && condFalse[level - 1]; (void)outerFalse;
    condFalse[me] = false; targets[me] = target;
    int l0 = loops; unsigned d0 = theSched()->getSchedulerDepth();
    theSched()->runSchedulerWhile([&] { sym_assert(!condFalse[me], "the condition is not asked again once it holds"); sym_assert(loops == l0 + 1 && theSched()->getSchedulerDepth() == d0 + 1, "loop triggers and depth"); bool go = !stop && doneCount < target; condFalse[me] = !go; return go; });
    sym_assert(condFalse[me], "run-until returns when its condition holds"); sym_assert(loops == l0 && theSched()->getSchedulerDepth() == d0, "-");
    level--; sym_cover("until");
  }
  else { ops--; onceWanted++; theSched()->registerTriggerOnce(sched::BeginSchedulerLoop, [] { onceFired++; }); }
}
static int pumps = 0;
struct Pump : runtime::component::BaseComponent {
  std::string name() override { return "Pump"; }
  bool pollable() override { return true; }
  void initialize() override { } void startup() override { } void finalize() override { } void dumpState() override { }
  int progress(TimeType) override {
    sym_assert(waiting.empty(), "progress is made when no unit waits");
    if (ops > 0 && sym_bool("arrival")) { ops--; add(0, false); } else stop = true;
    if (++pumps > 40) { sym_fail("run-until does not return"); sym_end(); }
    return 1;
  }
  bool needsCurrentTime() override { return false; }
};
static Pump pump;
extern "C" void symx_main() {
  sim::start(); sim::makeRuntime();
  curRT->p_->pollable_components_.clear(); curRT->p_->pollable_components_.push_back(&pump);
  auto s = theSched();
  s->registerTrigger(sched::BeginIdle, [] { sym_assert(!idle, "idle begins once"); idle = true; sym_assert(waiting.empty(), "idle means no unit waits"); });
  s->registerTrigger(sched::EndIdle, [] { sym_assert(idle, "idle ends once"); idle = false; });
  s->registerTrigger(sched::BeginIdleMinusTerm, [] { sym_assert(!idleTD, "idle begins once"); idleTD = true; for (auto& w : waiting) sym_assert(w.term, "idle (exc. termination) means no work waits"); });
  s->registerTrigger(sched::EndIdleMinusTerm, [] { sym_assert(idleTD, "idle ends once"); idleTD = false; });
  s->registerTrigger(sched::BeginSchedulerLoop, [] { loops++; });
  s->registerTrigger(sched::EndSchedulerLoop, [] { loops--; });
  for (int i = 0; i < PREFILL; i++) add(PRIO ? 2 : 0, false);
  while (ops > 0) { stop = false; int o = ops; act(true); checkCounts(); if (ops == o) break; }
  int before = onceFired; (void)before;
  stop = true; ops = 0; draining = true;
  while (!waiting.empty()) { std::size_t n = waiting.size(); once(); sym_assert(waiting.size() == n - 1, "one unit runs per call"); checkCounts(); }
  for (int i = 0; i < nextId; i++) sym_assert(ran[i] == 1, "every unit runs");
  once(); sym_assert(idle && idleTD, "an empty scheduler is idle");
  s->runSchedulerWhile([] { return false; });
  sym_assert(onceFired == onceWanted, "a once-trigger fires once"); s->runSchedulerWhile([] { return false; }); sym_assert(onceFired == onceWanted, "a once-trigger fires once");
}
