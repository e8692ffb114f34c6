// symx: symbolic executor for LLVM 18 bitcode.
#include "interp.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <unistd.h>
#include <sys/wait.h>
#include <csignal>

using namespace llvm;
unsigned exprLoZero(E e); E mkFabs(E a);
static E fabsE(E e, unsigned w) { E r = mkFabs(e); return r ? r : mkBin(K::And, e, mkConst(maskw(w) >> 1, w)); }

// ------------------------------------------------------------------ globals
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::vector<Fn*> fns; static std::unordered_map<const Function*, Fn*> fnMap;
static std::unordered_map<const GlobalVariable*, uint32_t> gvIndex; static std::vector<const GlobalVariable*> gvs;
static std::unordered_map<std::string, Builtin> builtins;
static std::deque<State*> work;

static bool optForkPtr = false; static u64 optMaxSteps = 60000000; static double optTime = 600; static int optMaxViol = 5; static std::string optOut; static int optJobs = 1; static std::string optRepo = "/repo/";
static bool optVerbose = false; static u64 optMaxForkVals = 4096; static unsigned optMaxIte = 64;
static std::chrono::steady_clock::time_point tStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

struct Violation { std::string kind, msg, loc, stack; std::vector<std::tuple<std::string, unsigned, u64>> inputs; };
static struct Stats {
  u64 paths = 0, steps = 0, forks = 0, asserts = 0, memchecks = 0, infeasible = 0, expectedAborts = 0;
  std::map<std::string, u64> covers; std::map<std::string, u64> incomplete; std::vector<Violation> viol; std::set<std::string> violKeys; std::set<std::string> bounds;
  std::vector<std::string> samples; u64 completed = 0; std::vector<std::vector<std::tuple<std::string, unsigned, u64>>> replays;
} S;

enum : u64 { RG_GLOBAL = 1, RG_STACK = 2, RG_HEAP = 3, RG_FUNC = 4, RG_SHARED = 5 };
static inline u64 mkAddr(u64 region, u64 idx) { return (region << 60) | (idx << 32); }

static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { Val v; if (e->k == K::Const && e->w <= 64) { v.c = e->lo; v.e = nullptr; } else { v.c = 0; v.e = e; } return v; }
static inline Val cv(u64 c) { Val v; v.c = c; v.e = nullptr; return v; }

// ------------------------------------------------------------------ types
static void leaves(Type* t, uint32_t off, std::vector<Leaf>& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    Type* et = vt->getElementType(); unsigned w = et->isPointerTy() ? 64 : et->getPrimitiveSizeInBits();
    for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({off + i * (w / 8), (uint16_t)w}); // i1 vectors handled specially
  } else if (t->isPointerTy()) out.push_back({off, 64});
  else if (t->isIntegerTy()) out.push_back({off, (uint16_t)t->getIntegerBitWidth()});
  else if (t->isFloatTy()) out.push_back({off, 32});
  else if (t->isDoubleTy()) out.push_back({off, 64});
  else if (t->isX86_FP80Ty()) out.push_back({off, 64}); // approximated by double
  else if (t->isVoidTy()) {}
  else out.push_back({off, 64});
}
static std::vector<Leaf> leavesOf(Type* t) { std::vector<Leaf> v; leaves(t, 0, v); return v; }
static unsigned nslots(Type* t) {
  if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) return 1;
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy()) return 0;
  return leavesOf(t).size();
}
static unsigned scalarW(Type* t) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) t = vt->getElementType();
  if (t->isPointerTy()) return 64;
  if (t->isX86_FP80Ty()) return 64;
  return t->getPrimitiveSizeInBits();
}

// ------------------------------------------------------------------ constants
static Fn* getFn(const Function* f) { auto it = fnMap.find(f); return it == fnMap.end() ? nullptr : it->second; }
static u64 fnAddr(Fn* f) { return mkAddr(RG_FUNC, f->index + 1); }
static Val constScalar(const Constant* c);
static u64 gvAddr(const GlobalVariable* g) { return mkAddr(RG_GLOBAL, gvIndex[g] + 1); }

static void constLeaves(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) { out.push_back(constScalar(c)); return; }
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
    for (auto& l : leavesOf(t)) out.push_back(l.w > 64 ? Val{0, mkConst(0, l.w)} : cv(0));
    return;
  }
  if (auto* s = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < s->getNumOperands(); i++) constLeaves(cast<Constant>(s->getOperand(i)), out); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) constLeaves(d->getElementAsConstant(i), out); return; }
  fprintf(stderr, "symx: unhandled aggregate constant\n"); for (auto& l : leavesOf(t)) { (void)l; out.push_back(cv(0)); }
}
static Val constScalar(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) return cv(ci->getZExtValue());
    const APInt& a = ci->getValue(); u128 v = a.getRawData()[0]; if (w > 64) v |= (u128)a.getRawData()[1] << 64;
    return Val{0, mkConst(v, w)};
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APFloat av = cf->getValueAPF(); if (cf->getType()->isX86_FP80Ty()) { bool li; av.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); }
    APInt a = av.bitcastToAPInt();
    if (a.getBitWidth() <= 64) return cv(a.getZExtValue());
    u128 v = a.getRawData()[0]; v |= (u128)a.getRawData()[1] << 64; return Val{0, mkConst(v, a.getBitWidth())};
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { if (c->getType()->isIntegerTy() && c->getType()->getIntegerBitWidth() > 64) return Val{0, mkConst(0, c->getType()->getIntegerBitWidth())}; return cv(0); }
  if (auto* f = dyn_cast<Function>(c)) { Fn* k = getFn(f); return cv(k ? fnAddr(k) : 0); }
  if (auto* g = dyn_cast<GlobalVariable>(c)) return cv(gvAddr(g));
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(e); APInt off(64, 0);
        if (g->accumulateConstantOffset(*DL, off)) return cv(constScalar(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue());
        break; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        Val v = constScalar(e->getOperand(0)); unsigned w = scalarW(e->getType()); v.c &= mask64(w); return v; }
      case Instruction::Trunc: { Val v = constScalar(e->getOperand(0)); v.c &= mask64(scalarW(e->getType())); return v; }
      case Instruction::Sub: return cv((constScalar(e->getOperand(0)).c - constScalar(e->getOperand(1)).c) & mask64(scalarW(e->getType())));
      case Instruction::Add: return cv((constScalar(e->getOperand(0)).c + constScalar(e->getOperand(1)).c) & mask64(scalarW(e->getType())));
      case Instruction::ICmp: { auto a = constScalar(e->getOperand(0)).c, b = constScalar(e->getOperand(1)).c; return cv(e->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b); }
      default: break;
    }
  }
  if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) return constScalar(d->getGlobalValue());
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "symx: unhandled constant %s\n", s.c_str());
  return cv(0);
}

// ------------------------------------------------------------------ memory helpers
static std::string nearestLoc(State& s);
static void violation(State& s, const std::string& kind, const std::string& msg, E extra = nullptr);
static void donePath(State& s);
static void incomplete(const std::string& why) { S.incomplete[why]++; }

static Obj* findObj(State& s, u64 addr) {
  u64 rg = addr >> 60; uint32_t idx = (addr >> 32) & 0x0fffffff;
  switch (rg) {
    case RG_GLOBAL: return s.C().g.get(idx);
    case RG_STACK: return s.C().stk.get(idx);
    case RG_HEAP: return s.C().heap.get(idx);
    case RG_SHARED: return s.shared.get(idx);
    default: return nullptr;
  }
}
static Obj* findObjW(State& s, u64 addr) {
  u64 rg = addr >> 60; uint32_t idx = (addr >> 32) & 0x0fffffff;
  switch (rg) {
    case RG_GLOBAL: return s.C().g.getW(idx);
    case RG_STACK: return s.C().stk.getW(idx);
    case RG_HEAP: return s.C().heap.getW(idx);
    case RG_SHARED: return s.shared.getW(idx);
    default: return nullptr;
  }
}
static u64 heapAlloc(State& s, u64 size, int fill = 0xBE) {
  Region& r = s.C().heap; uint32_t i = r.next++;
  r.put(i, Obj::make(size, 0, fill));
  return mkAddr(RG_HEAP, i);
}
// object for an access of n bytes, or nullptr after reporting
static Obj* access(State& s, u64 addr, u64 n, bool write) {
  Obj* o = write ? findObjW(s, addr) : findObj(s, addr);
  u64 off = addr & 0xffffffffull;
  if (!o || off + n > o->size || (write && o->ro)) {
    char b[160];
    snprintf(b, sizeof b, "%s of %llu bytes at %s (addr %llx)", write ? "write" : "read", (unsigned long long)n,
      !o ? (addr >> 60 ? "dead or invalid object" : "null/invalid pointer") : o->ro && write && off + n <= o->size ? "read-only object" : ("offset " + std::to_string(off) + " of object of size " + std::to_string(o->size)).c_str(), (unsigned long long)addr);
    violation(s, "memory", b);
    s.ended = true;
    return nullptr;
  }
  return o;
}
static Val readObj(const Obj* o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (o->sym) {
    bool any = false; for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { any = true; break; }
    if (any) {
      // whole expression?
      E e0 = o->sym[off].e;
      if (e0 && e0->w == n * 8) { bool all = true; for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e != e0 || o->sym[off + i].idx != i) { all = false; break; } if (all) return fromE(w == n * 8 ? e0 : mkExtract(e0, 0, w)); }
      E r = nullptr;
      for (unsigned i = 0; i < n;) {
        E p; unsigned run = 1;
        if (o->sym[off + i].e) {
          E e = o->sym[off + i].e; unsigned ix = o->sym[off + i].idx;
          while (i + run < n && o->sym[off + i + run].e == e && o->sym[off + i + run].idx == ix + run) run++;
          p = mkExtract(e, ix * 8, run * 8);
        } else p = mkConst(o->data[off + i], 8);
        r = r ? mkConcat(p, r) : p;
        i += run;
      }
      if (w != n * 8) r = mkExtract(r, 0, w);
      return fromE(r);
    }
  }
  if (n <= 8) { u64 v = 0; memcpy(&v, o->data + off, n); return cv(v & mask64(w)); }
  u128 v = 0; memcpy(&v, o->data + off, n); return Val{0, mkConst(v, w)};
}
static void writeObj(Obj* o, u64 off, unsigned w, Val v) {
  unsigned n = (w + 7) / 8;
  if (v.e && !isC(v.e)) {
    o->ensureSym();
    E e = v.e; if (e->w != n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) { o->sym[off + i].e = e; o->sym[off + i].idx = i; }
    return;
  }
  if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i].e = nullptr;
  if (v.e) { u128 c = cval(v.e); memcpy(o->data + off, &c, n); }
  else memcpy(o->data + off, &v.c, n > 8 ? 8 : n);
}

// ------------------------------------------------------------------ path constraints
static std::vector<uint32_t> varStamp; static uint32_t stampCur = 0;
static void slice(State& s, E cond, std::vector<E>& out) {
  if (varStamp.size() < numVars()) varStamp.resize(numVars() * 2 + 64, 0);
  stampCur++;
  for (auto v : cond->vars->v) varStamp[v] = stampCur;
  static std::vector<char> taken; taken.assign(s.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) {
      if (taken[i]) continue;
      bool hit = false; for (auto v : s.pc[i]->vars->v) if (varStamp[v] == stampCur) { hit = true; break; }
      if (hit) { taken[i] = 1; out.push_back(s.pc[i]); for (auto v : s.pc[i]->vars->v) if (varStamp[v] != stampCur) { varStamp[v] = stampCur; ch = true; } }
    }
  }
}
// can cond hold on this path?
static std::deque<std::shared_ptr<Assignment>> recentModels;
static Res feasible(State& s, E cond, std::shared_ptr<Assignment>* model) {
  if (isTrue(cond)) { if (model) *model = s.model; return Res::Sat; }
  if (isFalse(cond)) return Res::Unsat;
  if (evalExpr(cond, *s.model) == 1) { if (model) *model = s.model; gSolverStats.modelHits++; return Res::Sat; }
  std::vector<E> q; slice(s, cond, q); q.push_back(cond);
  for (auto& rm : recentModels) {
    bool ok = true; for (size_t i = q.size(); i-- > 0;) if (evalExpr(q[i], *rm) != 1) { ok = false; break; }
    if (ok) { gSolverStats.modelHits++; if (model) { auto nm = std::make_shared<Assignment>(*s.model); for (E e : q) for (auto v : e->vars->v) nm->m[v] = rm->get(v); *model = nm; } return Res::Sat; }
  }
  auto nm = std::make_shared<Assignment>(*s.model);
  Res r = solve(q, nm.get());
  if (r == Res::Sat) { if (model) *model = nm; recentModels.push_front(nm); if (recentModels.size() > 12) recentModels.pop_back(); }
  return r;
}
static bool mustHold(State& s, E c) { if (isTrue(c)) return true; if (isFalse(c) || evalExpr(c, *s.model) != 1) return false; return feasible(s, mkNot(c), nullptr) == Res::Unsat; }
// int(floor(double(a)/double(b))) and int(double(a)/double(b)) with 0 <= a, 0 < b of at most 32 bits equal the integer quotient:
// a and b are exact in binary64, and a quotient that is not an integer lies at least 1/b below the next one, a relative gap above 2^-53, so rounding cannot reach it.
static E simpFToI(State& s, K k, unsigned w, E x) {
  E d = x; if (d->w != 64) return mkFp(k, w, x);
  if (d->k == K::FRound && (d->aux == 0 || d->aux == 2)) d = d->a;
  if (d->k != K::FDiv) return mkFp(k, w, x);
  auto arg = [](E e, bool& sg) -> E { sg = e->k == K::SIToF; return e->k == K::SIToF || e->k == K::UIToF ? e->a : nullptr; };
  auto cst = [](E e) -> E { if (!isC(e)) return nullptr; double v; u64 b = e->lo; memcpy(&v, &b, 8); return v >= 0 && v < 4294967296.0 && v == (double)(u64)v ? mkConst((u64)v, 64) : nullptr; };
  bool sa = false, sb = false; E a = arg(d->a, sa), b = arg(d->b, sb); if (!a) a = cst(d->a); if (!b) b = cst(d->b);
  if (!a || !b) return mkFp(k, w, x);
  auto ext = [](E e, bool sg) { return e->w == 64 ? e : sg ? mkSExt(e, 64) : mkZExt(e, 64); };
  if (a->w > 64 || b->w > 64) return mkFp(k, w, x);
  a = ext(a, sa); b = ext(b, sb); E lim = mkConst(0xffffffffull, 64);
  if (!mustHold(s, mkBin(K::Ule, a, lim)) || !mustHold(s, mkBin(K::Ule, b, lim)) || !mustHold(s, mkNot(mkBin(K::Eq, b, mkConst(0, 64))))) return mkFp(k, w, x);
  E q = mkBin(K::UDiv, mkExtract(a, 0, 32), mkExtract(b, 0, 32));
  if (w < 33 && !mustHold(s, mkBin(K::Ult, q, mkConst(1ull << (w - 1 < 32 ? w - 1 : 31), 32)))) return mkFp(k, w, x);
  return w > 32 ? mkZExt(q, w) : mkExtract(q, 0, w);
}
static void addPC(State& s, E c) {
  if (isTrue(c)) return;
  if (c->k == K::And && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  s.pc.push_back(c);
}
static State* cloneState(State& s) { S.forks++; auto* n = new State(s); n->forks++; return n; }
static void pushWork(State* s) { work.push_back(s); }

// enumerate all feasible values of e; current state gets the first, others are forked by mk(fork, value)
template <class Fx> static bool forkValues(State& s, E e, Fx&& set, u64 limit = 0) {
  if (!limit) limit = optMaxForkVals;
  u64 v0 = (u64)evalExpr(e, *s.model);
  std::vector<std::pair<u64, std::shared_ptr<Assignment>>> vals; vals.push_back({v0, s.model});
  E excl = mkNot(mkBin(K::Eq, e, mkConst(v0, e->w)));
  while (true) {
    std::shared_ptr<Assignment> m;
    Res r = feasible(s, excl, &m);
    if (r == Res::Unknown) { incomplete("solver gave up while enumerating values"); break; }
    if (r == Res::Unsat) break;
    u64 v = (u64)evalExpr(e, *m); vals.push_back({v, m});
    if (vals.size() > limit) { incomplete("too many values to enumerate at " + nearestLoc(s)); break; }
    excl = mkBin(K::And, excl, mkNot(mkBin(K::Eq, e, mkConst(v, e->w))));
  }
  for (size_t i = vals.size(); i-- > 1;) {
    State* n = cloneState(s); n->model = vals[i].second; addPC(*n, mkBin(K::Eq, e, mkConst(vals[i].first, e->w)));
    set(*n, vals[i].first); pushWork(n);
  }
  addPC(s, mkBin(K::Eq, e, mkConst(v0, e->w)));
  set(s, v0);
  return true;
}

// ------------------------------------------------------------------ reporting
static std::string locOf(const Instruction* I) {
  if (!I) return "?";
  if (DILocation* l = I->getDebugLoc()) {
    std::string r = l->getFilename().str() + ":" + std::to_string(l->getLine());
    for (DILocation* i = l->getInlinedAt(); i; i = i->getInlinedAt()) r += " <- " + i->getFilename().str() + ":" + std::to_string(i->getLine());
    return r;
  }
  return "?";
}
static std::string nearestLoc(State& s) {
  auto& fr = s.C().frames.v;
  if (fr.empty()) return "?";
  Frame* f = fr.back();
  return f->fn->name + " @ " + locOf(f->pc < (int)f->fn->code.size() ? f->fn->code[f->pc].src : nullptr);
}
static std::string stackOf(State& s) {
  std::string r; auto& fr = s.C().frames.v; int n = 0;
  for (size_t i = fr.size(); i-- > 0 && n < 25; n++) {
    Frame* f = fr[i]; r += "  #" + std::to_string(n) + " " + demangle(f->fn->name) + "  " + locOf(f->pc < (int)f->fn->code.size() ? f->fn->code[f->pc].src : nullptr) + "\n";
  }
  return r;
}
static void violation(State& s, const std::string& kind, const std::string& msg, E extra) {
  std::string loc = nearestLoc(s);
  std::string key = kind + "|" + loc + "|" + (kind == "assert" ? msg : "");
  if (S.violKeys.count(key)) return;
  std::shared_ptr<Assignment> m = s.model;
  if (extra) { Res r = feasible(s, extra, &m); if (r != Res::Sat) return; }
  S.violKeys.insert(key);
  Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackOf(s);
  for (E e : s.inputs) {
    if (e->k == K::Const) { v.inputs.push_back({"const", e->w, e->lo}); continue; }
    v.inputs.push_back({varInfo(e->aux).name, e->w, (u64)m->get(e->aux)});
  }
  S.viol.push_back(v);
  if (optVerbose) fprintf(stderr, "VIOL %s: %s\n%s", kind.c_str(), msg.c_str(), v.stack.c_str());
}
static std::vector<std::tuple<std::string, unsigned, u64>> inputsOf(State& s) {
  std::vector<std::tuple<std::string, unsigned, u64>> v;
  for (E e : s.inputs) if (e->k == K::Const) v.push_back({"const", e->w, e->lo}); else v.push_back({varInfo(e->aux).name, e->w, (u64)s.model->get(e->aux)});
  return v;
}
static void donePath(State& s) {
  s.ended = true; S.completed++;
  if (S.replays.size() < 4 || (S.replays.size() < 40 && (S.completed & (S.completed - 1)) == 0)) S.replays.push_back(inputsOf(s));
}
static std::string sampleOf(State& s) {
  std::string r;
  for (E e : s.inputs) { if (e->k != K::Var) continue; if (r.size() > 300) { r += "..."; break; } r += (r.empty() ? "" : ", ") + varInfo(e->aux).name + "=" + std::to_string((u64)s.model->get(e->aux)); }
  return r.empty() ? "(no symbolic input on this path)" : r;
}

// ------------------------------------------------------------------ decoding
struct Decoder {
  Fn* F; std::unordered_map<const Value*, int> slot; int nregs = 0;
  std::map<std::pair<const BasicBlock*, const BasicBlock*>, int> edgeIdx; std::unordered_map<const BasicBlock*, int> start;
  std::unordered_map<const Constant*, int> cslot;
  int ref(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c); if (it != cslot.end()) return it->second;
      std::vector<Val> l; constLeaves(c, l);
      int b = F->consts.size(); for (auto& x : l) F->consts.push_back(x);
      if (l.empty()) F->consts.push_back(cv(0));
      int r = -(b + 1); cslot[c] = r; return r;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { int b = F->consts.size(); F->consts.push_back(cv(0)); return -(b + 1); }
    return slot.at(v);
  }
  static int at(int ref, int k) { return ref >= 0 ? ref + k : ref - k; }
  int cref(u64 v) { int b = F->consts.size(); F->consts.push_back(cv(v)); return -(b + 1); }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    auto key = std::make_pair(from, to); auto it = edgeIdx.find(key); if (it != edgeIdx.end()) return it->second;
    int i = F->edges.size(); F->edges.emplace_back(); edgeIdx[key] = i; return i;
  }
  Inst& emit(uint16_t op, const Instruction* I) { F->code.emplace_back(); Inst& x = F->code.back(); memset((void*)&x, 0, sizeof x); x.op = op; x.src = I; x.n = 1; return x; }
  void unsup(const Instruction* I, const std::string& why) { Inst& x = emit(O_UNSUP, I); x.p = new std::string(why); if (slot.count(I)) x.dst = slot[I]; }
  void run();
  void inst(const Instruction& I);
  void intrinsic(const CallInst& I, Intrinsic::ID id);
};

static std::unordered_map<std::string, u64> gTypeIdCache;

void Decoder::run() {
  Function& f = *F->f;
  if (f.isMaterializable()) { if (auto e = f.materialize()) { fprintf(stderr, "materialize failed\n"); exit(3); } }
  for (auto& a : f.args()) { slot[&a] = nregs; nregs += nslots(a.getType()); }
  F->nargs = nregs;
  for (auto& B : f) for (auto& I : B) { unsigned n = nslots(I.getType()); if (n) { slot[&I] = nregs; nregs += n; } }
  F->nregs = nregs + 1;
  for (auto& B : f) {
    start[&B] = F->code.size();
    for (auto& I : B) if (!isa<PHINode>(I)) inst(I);
  }
  for (auto& kv : edgeIdx) {
    Edge& e = F->edges[kv.second]; e.target = start[kv.first.second];
    for (auto& phi : const_cast<BasicBlock*>(kv.first.second)->phis()) {
      const Value* v = phi.getIncomingValueForBlock(kv.first.first); int s = ref(v), d = slot[&phi]; unsigned n = nslots(phi.getType());
      for (unsigned k = 0; k < n; k++) e.copies.push_back({d + (int)k, at(s, k)});
    }
  }
  F->decoded = true;
}

void Decoder::intrinsic(const CallInst& I, Intrinsic::ID id) {
  auto A = [&](int i) { return ref(I.getArgOperand(i)); };
  int d = slot.count(&I) ? slot[&I] : -1; unsigned w = I.getType()->isVoidTy() ? 0 : scalarW(I.getType()); unsigned n = nslots(I.getType());
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::vaend: case Intrinsic::var_annotation:
      return;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: { Inst& x = emit(O_COPY, &I); x.dst = d; x.a = cref(0); return; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: case Intrinsic::arithmetic_fence: {
      int a = A(0); Inst& x = emit(O_COPY, &I); x.dst = d; x.a = a; x.n = n; return; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { int a = A(0), b = A(1); Inst& x = emit(O_MINMAX, &I); x.sub = id == Intrinsic::umin ? 0 : id == Intrinsic::umax ? 1 : id == Intrinsic::smin ? 2 : 3; x.w = w; x.n = n; x.a = a; x.b = b; x.dst = d; return; }
    case Intrinsic::abs: { int a = A(0); Inst& x = emit(O_BITOP, &I); x.sub = 5; x.w = w; x.n = n; x.a = a; x.dst = d; return; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      int a = A(0), b = A(1); Inst& x = emit(O_OVF, &I); x.w = scalarW(I.getArgOperand(0)->getType()); x.a = a; x.b = b; x.dst = d;
      x.sub = id == Intrinsic::sadd_with_overflow ? 0 : id == Intrinsic::uadd_with_overflow ? 1 : id == Intrinsic::ssub_with_overflow ? 2 : id == Intrinsic::usub_with_overflow ? 3 : id == Intrinsic::smul_with_overflow ? 4 : 5; return; }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { int a = A(0), b = A(1); Inst& x = emit(O_SAT, &I); x.w = w; x.n = n; x.a = a; x.b = b; x.dst = d; x.sub = id == Intrinsic::uadd_sat ? 0 : id == Intrinsic::usub_sat ? 1 : id == Intrinsic::sadd_sat ? 2 : 3; return; }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: { int a = A(0); Inst& x = emit(O_BITOP, &I); x.w = w; x.n = n; x.a = a; x.dst = d; x.sub = id == Intrinsic::ctpop ? 0 : id == Intrinsic::ctlz ? 1 : id == Intrinsic::cttz ? 2 : id == Intrinsic::bswap ? 3 : 4; return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { int a = A(0), b = A(1), c = A(2); Inst& x = emit(O_FSH, &I); x.w = w; x.n = n; x.a = a; x.b = b; x.c = c; x.dst = d; x.sub = id == Intrinsic::fshr; return; }
    case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::sqrt: case Intrinsic::roundeven:
    case Intrinsic::copysign: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::fma: case Intrinsic::fmuladd: case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp2: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::powi: case Intrinsic::ldexp: {
      int a = A(0), b = I.arg_size() > 1 ? A(1) : 0, c = I.arg_size() > 2 ? A(2) : 0;
      Inst& x = emit(O_FUN, &I); x.imm = id; x.w = w; x.n = n; x.a = a; x.b = b; x.c = c; x.dst = d; return; }
    case Intrinsic::is_constant: { Inst& x = emit(O_COPY, &I); x.dst = d; x.a = cref(0); return; }
    case Intrinsic::objectsize: { Inst& x = emit(O_COPY, &I); x.dst = d; x.a = cref(cast<ConstantInt>(I.getArgOperand(1))->isOne() ? 0 : ~0ull); return; }
    case Intrinsic::eh_typeid_for: { u64 a = constScalar(cast<Constant>(I.getArgOperand(0))).c; Inst& x = emit(O_COPY, &I); x.dst = d; x.a = cref((a >> 32) & 0x0fffffff); return; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
      int a = A(0); Inst& x = emit(O_REDUCE, &I); x.a = a; x.dst = d; x.w = w; x.n = nslots(I.getArgOperand(0)->getType()); x.imm = id; return; }
    case Intrinsic::ptrmask: { int a = A(0), b = A(1); Inst& x = emit(O_AND, &I); x.a = a; x.b = b; x.dst = d; x.w = 64; return; }
    default: break;
  }
  // remaining: handled as calls to builtins by base name
  static std::map<Intrinsic::ID, std::string> nm = {{Intrinsic::memcpy, "memcpy"}, {Intrinsic::memmove, "memmove"}, {Intrinsic::memset, "memset"}, {Intrinsic::memcpy_inline, "memcpy"}, {Intrinsic::trap, "llvm.trap"}, {Intrinsic::ubsantrap, "llvm.trap"}, {Intrinsic::debugtrap, "llvm.trap"}, {Intrinsic::vastart, "llvm.va_start"}, {Intrinsic::vacopy, "llvm.va_copy"}};
  auto it = nm.find(id);
  if (it == nm.end()) { unsup(&I, "intrinsic " + I.getCalledFunction()->getName().str()); return; }
  auto* ci = new CallInfo; ci->cb = &I; ci->retSlots = 0;
  static std::map<std::string, Fn*> pseudo; Fn*& pf = pseudo[it->second];
  if (!pf) { pf = new Fn; pf->name = it->second; pf->builtin = builtins[it->second]; pf->resolved = true; }
  ci->direct = pf;
  for (unsigned i = 0; i < I.arg_size(); i++) { ci->args.push_back(A(i)); ci->argw.push_back(scalarW(I.getArgOperand(i)->getType())); }
  Inst& x = emit(O_CALL, &I); x.p = ci; x.dst = d; 
}

void Decoder::inst(const Instruction& I) {
  int d = slot.count(&I) ? slot[&I] : -1;
  auto R = [&](int i) { return ref(I.getOperand(i)); };
  Type* T = I.getType(); unsigned n = nslots(T);
  unsigned w = (T->isVoidTy() || T->isAggregateType()) ? 0 : scalarW(T);
  if (w > 128 ) { unsup(&I, "integer wider than 128 bits"); return; }
  switch (I.getOpcode()) {
#define BIN(O, P) case Instruction::O: { int a = R(0), b = R(1); Inst& x = emit(P, &I); x.w = w; x.n = n; x.a = a; x.b = b; x.dst = d; return; }
    BIN(Add, O_ADD) BIN(Sub, O_SUB) BIN(Mul, O_MUL) BIN(UDiv, O_UDIV) BIN(SDiv, O_SDIV) BIN(URem, O_UREM) BIN(SRem, O_SREM)
    BIN(And, O_AND) BIN(Or, O_OR) BIN(Xor, O_XOR) BIN(Shl, O_SHL) BIN(LShr, O_LSHR) BIN(AShr, O_ASHR)
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      int a = R(0), b = R(1); Inst& x = emit(O_FBIN, &I); x.w = w; x.n = n; x.a = a; x.b = b; x.dst = d; unsigned o = I.getOpcode();
      x.sub = (uint16_t)(o == Instruction::FAdd ? K::FAdd : o == Instruction::FSub ? K::FSub : o == Instruction::FMul ? K::FMul : o == Instruction::FDiv ? K::FDiv : K::FRem); return; }
    case Instruction::FNeg: { int a = R(0); Inst& x = emit(O_FNEG, &I); x.w = w; x.n = n; x.a = a; x.dst = d; return; }
    case Instruction::ICmp: { int a = R(0), b = R(1); Inst& x = emit(O_ICMP, &I); x.sub = cast<ICmpInst>(I).getPredicate(); x.w = scalarW(I.getOperand(0)->getType()); x.n = n; x.a = a; x.b = b; x.dst = d; return; }
    case Instruction::FCmp: { int a = R(0), b = R(1); Inst& x = emit(O_FCMP, &I); x.sub = cast<FCmpInst>(I).getPredicate(); x.w = scalarW(I.getOperand(0)->getType()); x.n = n; x.a = a; x.b = b; x.dst = d; return; }
    case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
      int a = R(0); unsigned sw = scalarW(I.getOperand(0)->getType()); unsigned sn = nslots(I.getOperand(0)->getType());
      uint16_t op;
      if (I.getOpcode() == Instruction::Freeze) op = O_COPY;
      else if (sn != n) op = O_BITCASTV;
      else if (I.getOpcode() == Instruction::SExt) op = O_SEXT; else if (w < sw) op = O_TRUNC; else if (w > sw) op = O_ZEXT; else op = O_COPY;
      Inst& x = emit(op, &I); x.w = w; x.imm = sw; x.n = n; x.a = a; x.dst = d; x.sub = sn; return; }
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      int a = R(0); Inst& x = emit(O_FPCAST, &I); x.w = w; x.n = n; x.imm = scalarW(I.getOperand(0)->getType()); x.a = a; x.dst = d; unsigned o = I.getOpcode();
      x.sub = (uint16_t)(o == Instruction::FPToSI ? K::FToSI : o == Instruction::FPToUI ? K::FToUI : o == Instruction::SIToFP ? K::SIToF : o == Instruction::UIToFP ? K::UIToF : o == Instruction::FPExt ? K::FExt : K::FTrunc); return; }
    case Instruction::Select: { int a = R(0), b = R(1), c = R(2); Inst& x = emit(O_SELECT, &I); x.n = n; x.a = a; x.b = b; x.c = c; x.dst = d; x.w = w; x.sub = I.getOperand(0)->getType()->isVectorTy(); x.imm = T->isPointerTy(); x.p = new std::vector<Leaf>(leavesOf(T)); return; }
    case Instruction::Load: { int a = R(0); auto* lv = new std::vector<Leaf>(leavesOf(T)); Inst& x = emit(O_LOAD, &I); x.w = w; x.n = n; x.a = a; x.dst = d; x.p = lv; x.imm = DL->getTypeStoreSize(T);
      if (T->isVectorTy() && w < 8) { F->code.pop_back(); unsup(&I, "vector of sub-byte elements"); } return; }
    case Instruction::Store: { Type* vt = I.getOperand(0)->getType(); int v = R(0), a = R(1); auto* lv = new std::vector<Leaf>(leavesOf(vt)); Inst& x = emit(O_STORE, &I); x.n = nslots(vt); x.w = vt->isAggregateType() ? 0 : scalarW(vt); x.a = a; x.b = v; x.p = lv; x.imm = DL->getTypeStoreSize(vt);
      if (vt->isVectorTy() && x.w < 8) { F->code.pop_back(); unsup(&I, "vector of sub-byte elements"); } return; }
    case Instruction::GetElementPtr: {
      auto& g = cast<GetElementPtrInst>(I); if (T->isVectorTy()) { unsup(&I, "vector gep"); return; }
      i64 off = 0; auto* v = new std::vector<GepIdx>;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        const Value* op = gi.getOperand();
        if (StructType* st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
        else { i64 sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(op)) off += ci->getSExtValue() * sc; else v->push_back({ref(op), (uint16_t)op->getType()->getIntegerBitWidth(), sc}); }
      }
      int a = R(0); Inst& x = emit(O_GEP, &I); x.a = a; x.imm = off; x.p = v; x.n = v->size(); x.dst = d; return; }
    case Instruction::Alloca: { auto& al = cast<AllocaInst>(I); int c = R(0); Inst& x = emit(O_ALLOCA, &I); x.imm = DL->getTypeAllocSize(al.getAllocatedType()); x.a = c; x.dst = d; return; }
    case Instruction::Br: { auto& b = cast<BranchInst>(I);
      if (b.isUnconditional()) { int e = edge(I.getParent(), b.getSuccessor(0)); Inst& x = emit(O_BR, &I); x.a = e; }
      else { int c = R(0), e0 = edge(I.getParent(), b.getSuccessor(0)), e1 = edge(I.getParent(), b.getSuccessor(1)); Inst& x = emit(O_CBR, &I); x.a = c; x.b = e0; x.c = e1; } return; }
    case Instruction::Switch: { auto& s = cast<SwitchInst>(I); int c = R(0); auto* si = new SwitchInfo; si->def = edge(I.getParent(), s.getDefaultDest());
      for (auto& cs : s.cases()) si->cases.push_back({cs.getCaseValue()->getZExtValue(), edge(I.getParent(), cs.getCaseSuccessor())});
      Inst& x = emit(O_SWITCH, &I); x.a = c; x.p = si; x.w = scalarW(s.getCondition()->getType()); return; }
    case Instruction::Ret: { int a = I.getNumOperands() ? R(0) : 0; Inst& x = emit(O_RET, &I); x.a = a; x.n = I.getNumOperands() ? nslots(I.getOperand(0)->getType()) : 0; return; }
    case Instruction::Unreachable: { emit(O_UNREACHABLE, &I); return; }
    case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); Type* t = e.getAggregateOperand()->getType(); int off = 0;
      for (unsigned ix : e.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); off += ix * nslots(at->getElementType()); t = at->getElementType(); } }
      int a = R(0); Inst& x = emit(O_COPY, &I); x.a = at(a, off); x.n = n; x.dst = d; return; }
    case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(I); Type* t = e.getAggregateOperand()->getType(); int off = 0;
      for (unsigned ix : e.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); off += ix * nslots(at->getElementType()); t = at->getElementType(); } }
      int a = R(0), b = R(1); Inst& x = emit(O_INSERTV, &I); x.a = a; x.b = b; x.n = n; x.imm = off; x.sub = nslots(I.getOperand(1)->getType()); x.dst = d; return; }
    case Instruction::ExtractElement: { int a = R(0), b = R(1); Inst& x = emit(O_EXTELT, &I); x.a = a; x.b = b; x.w = w; x.dst = d; x.n = nslots(I.getOperand(0)->getType()); return; }
    case Instruction::InsertElement: { int a = R(0), b = R(1), c = R(2); Inst& x = emit(O_INSELT, &I); x.a = a; x.b = b; x.c = c; x.w = w; x.dst = d; x.n = n; return; }
    case Instruction::ShuffleVector: { auto& s = cast<ShuffleVectorInst>(I); int a = R(0), b = R(1); Inst& x = emit(O_SHUFFLE, &I); x.a = a; x.b = b; x.n = n; x.dst = d; x.imm = nslots(I.getOperand(0)->getType()); auto* m = new std::vector<int>; for (int k : s.getShuffleMask()) m->push_back(k); x.p = m; return; }
    case Instruction::LandingPad: { Inst& x = emit(O_LANDINGPAD, &I); x.dst = d; return; }
    case Instruction::Resume: { int a = R(0); Inst& x = emit(O_RESUME, &I); x.a = a; return; }
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); int a = R(0), b = R(1); Inst& x = emit(O_RMW, &I); x.sub = r.getOperation(); x.w = w; x.a = a; x.b = b; x.dst = d; return; }
    case Instruction::AtomicCmpXchg: { int a = R(0), b = R(1), c = R(2); Inst& x = emit(O_CMPXCHG, &I); x.w = scalarW(I.getOperand(1)->getType()); x.a = a; x.b = b; x.c = c; x.dst = d; return; }
    case Instruction::Call: case Instruction::Invoke: {
      auto& cb = cast<CallBase>(I);
      if (cb.isInlineAsm()) { // compiler barriers and cpu hints only
        std::string as = cast<InlineAsm>(cb.getCalledOperand())->getAsmString();
        if (as.empty() || as == "pause" || as == "mfence" || as == "rep; nop") return;
        unsup(&I, "inline asm: " + as); return; }
      if (auto* ci = dyn_cast<CallInst>(&I)) if (Function* cf = ci->getCalledFunction()) if (cf->isIntrinsic()) { intrinsic(*ci, cf->getIntrinsicID()); return; }
      auto* ci = new CallInfo; ci->cb = &cb; ci->retSlots = n;
      const Value* cal = cb.getCalledOperand()->stripPointerCasts();
      if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
      if (auto* cf = dyn_cast<Function>(cal)) { ci->direct = getFn(cf); if (cf->isIntrinsic()) { // invoke of an intrinsic
          if (!cf->getReturnType()->isVoidTy()) unsup(&I, "invoke of intrinsic"); else { int e = edge(I.getParent(), cast<InvokeInst>(I).getNormalDest()); Inst& x = emit(O_BR, &I); x.a = e; } return; } }
      else ci->callee = ref(cal);
      ci->nfixed = cb.getFunctionType()->getNumParams();
      for (unsigned i = 0; i < cb.arg_size(); i++) {
        Value* a = cb.getArgOperand(i); int r = ref(a); auto lv = leavesOf(a->getType());
        if (cb.isByValArgument(i)) ci->byval.push_back({(int)ci->args.size(), (uint32_t)DL->getTypeAllocSize(cb.getParamByValType(i))});
        for (unsigned k = 0; k < lv.size(); k++) { ci->args.push_back(at(r, k)); ci->argw.push_back(lv[k].w); }
      }
      if (auto* iv = dyn_cast<InvokeInst>(&I)) { ci->normal = edge(I.getParent(), iv->getNormalDest()); ci->unwind = edge(I.getParent(), iv->getUnwindDest()); }
      Inst& x = emit(isa<InvokeInst>(I) ? O_INVOKE : O_CALL, &I); x.p = ci; x.dst = d; x.n = n; return; }
    default: unsup(&I, std::string("instruction ") + I.getOpcodeName()); return;
  }
}
static void decode(Fn* f) { Decoder d; d.F = f; d.run(); }

// ------------------------------------------------------------------ global objects
static void serialize(const Constant* c, Obj* o, u64 off) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return; // zero-filled
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) serialize(cast<Constant>(c->getAggregateElement(i)), o, off + sl->getElementOffset(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
    Type* et = t->isArrayTy() ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
    u64 es = DL->getTypeAllocSize(et), n = t->isArrayTy() ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (u64 i = 0; i < n; i++) serialize(cast<Constant>(c->getAggregateElement(i)), o, off + i * es);
    return;
  }
  unsigned w = scalarW(t); writeObj(o, off, w, constScalar(c));
}
static void initGlobals(State& s) {
  for (size_t i = 0; i < gvs.size(); i++) {
    const GlobalVariable* g = gvs[i]; bool ext = !g->hasInitializer();
    u64 sz = g->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g->getValueType()) : 0;
    Obj* o = Obj::make(ext ? std::max<u64>(sz, 512) : sz, 1, 0);
    if (!ext) serialize(g->getInitializer(), o, 0);
    o->ro = g->isConstant() && !ext;
    s.C().g.put(i + 1, o);
  }
  s.C().g.next = gvs.size() + 1;
}
static u64 symAddr(const std::string& n) { if (auto* g = M->getNamedGlobal(n)) return gvAddr(g); return 0; }

// ------------------------------------------------------------------ frames
static inline Val& R(Frame* f, int r) { return r >= 0 ? f->regs[r] : f->fn->consts[-r - 1]; }
static void takeEdge(Frame* f, int e) {
  const Edge& ed = f->fn->edges[e]; size_t n = ed.copies.size();
  if (n == 1) f->regs[ed.copies[0].dst] = R(f, ed.copies[0].src);
  else if (n) {
    Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = R(f, ed.copies[i].src);
    for (size_t i = 0; i < n; i++) f->regs[ed.copies[i].dst] = t[i];
  }
  f->pc = ed.target;
}
static Frame* pushFrame(State& s, Fn* fn) {
  if (!fn->decoded) decode(fn);
  fn->executed = true;
  Frame* f = Frame::make(fn); f->stackMark = s.C().stk.next; s.C().frames.v.push_back(f); return f;
}
static void popFrame(State& s) {
  Ctx& c = s.C(); Frame* f = c.frames.v.back(); uint32_t mk = f->stackMark;
  for (uint32_t i = mk; i < c.stk.next; i++) c.stk.put(i, nullptr);
  c.stk.next = mk; c.frames.pop();
}
// the call at the top frame's pc finished
static void advanceCall(Frame* f) {
  const Inst& I = f->fn->code[f->pc];
  if (I.op == O_INVOKE) takeEdge(f, ((CallInfo*)I.p)->normal); else f->pc++;
}

// ------------------------------------------------------------------ typeinfo
struct TI { std::vector<std::pair<std::string, i64>> bases; };
static std::map<std::string, TI> tiCache;
static const std::map<std::string, std::string>& stdBases() {
  static std::map<std::string, std::string> m = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
    {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
  return m;
}
static const TI& tinfo(const std::string& n) {
  auto it = tiCache.find(n); if (it != tiCache.end()) return it->second;
  TI t; auto* g = M->getNamedGlobal(n);
  if (g && g->hasInitializer()) {
    auto* c = g->getInitializer();
    std::string vt; { APInt off(64, 0); const Value* v = c->getAggregateElement(0u)->stripAndAccumulateConstantOffsets(*DL, off, true); vt = v->getName().str(); }
    if (vt.find("__si_class_type_info") != std::string::npos) t.bases.push_back({c->getAggregateElement(2u)->stripPointerCasts()->getName().str(), 0});
    else if (vt.find("__vmi_class_type_info") != std::string::npos) {
      unsigned nb = cast<ConstantInt>(c->getAggregateElement(3u))->getZExtValue();
      for (unsigned i = 0; i < nb; i++) { i64 fl = cast<ConstantInt>(c->getAggregateElement(5 + 2 * i))->getSExtValue(); if (!(fl & 1)) t.bases.push_back({c->getAggregateElement(4 + 2 * i)->stripPointerCasts()->getName().str(), fl >> 8}); }
    }
  } else { auto b = stdBases().find(n); if (b != stdBases().end()) t.bases.push_back({b->second, 0}); }
  return tiCache[n] = t;
}
static bool tiUpcast(const std::string& from, const std::string& to, i64& off) {
  if (from == to) { off = 0; return true; }
  for (auto& b : tinfo(from).bases) { i64 o; if (tiUpcast(b.first, to, o)) { off = o + b.second; return true; } }
  return false;
}
static std::string gvNameAt(u64 addr) { u64 i = (addr >> 32) & 0x0fffffff; if ((addr >> 60) != RG_GLOBAL || !i || i > gvs.size()) return ""; return gvs[i - 1]->getName().str(); }

// ------------------------------------------------------------------ exceptions
static Exc* findExc(Ctx& c, u64 obj) { for (auto& e : c.excs) if (e.obj == obj) return &e; return nullptr; }
// 0 none, 1 cleanup, 2 catch
static int padMatch(Ctx& c, Fn* fn, int edge, const std::string& ty, u64& sel, i64& adj) {
  const Inst& lp = fn->code[fn->edges[edge].target]; auto* L = cast<LandingPadInst>(lp.src);
  for (unsigned i = 0; i < L->getNumClauses(); i++) {
    if (L->isCatch(i)) {
      u64 a = constScalar(L->getClause(i)).c;
      if (!a) { sel = 1; adj = 0; return 2; }
      if (tiUpcast(ty, gvNameAt(a), adj)) { sel = (a >> 32) & 0x0fffffff; return 2; }
    } else { // filter: exception specification (noexcept uses terminate pads)
      std::vector<Val> l; auto* ft = cast<ArrayType>(L->getClause(i)->getType()); bool ok = false;
      if (ft->getNumElements()) { constLeaves(L->getClause(i), l); for (auto& v : l) if (tiUpcast(ty, gvNameAt(v.c), adj)) ok = true; }
      if (!ok) { sel = (u64)(-1 - (int)i) & 0xffffffff; adj = 0; return 2; }
    }
  }
  if (L->isCleanup()) { sel = 0; return 1; }
  return 0;
}
// unwind from the current top frame; the exception object is obj
static void unwind(State& s, u64 obj) {
  Ctx& c = s.C(); Exc* e = findExc(c, obj); std::string ty = e ? gvNameAt(e->type) : "?";
  bool any = false; u64 sel; i64 adj;
  for (size_t i = c.frames.v.size(); i-- > 0 && !any;) {
    Frame* f = c.frames.v[i]; const Inst& I = f->fn->code[f->pc];
    if (I.op == O_INVOKE && padMatch(c, f->fn, ((CallInfo*)I.p)->unwind, ty, sel, adj) == 2) any = true;
  }
  if (!any) {
    if (s.expectAbort) { S.expectedAborts++; donePath(s); return; }
    violation(s, "exception", "uncaught exception of type " + demangle(ty.compare(0, 4, "_ZTI") ? ty : "_ZTS" + ty.substr(4))); s.ended = true; return;
  }
  while (!c.frames.v.empty()) {
    Frame* f = c.frames.v.back(); const Inst& I = f->fn->code[f->pc];
    if (I.op == O_INVOKE) {
      int r = padMatch(c, f->fn, ((CallInfo*)I.p)->unwind, ty, sel, adj);
      if (r) { c.lpExc = obj; c.lpSel = sel; if (e && r == 2) e->adj = obj + adj; takeEdge(c.frames.topW(), ((CallInfo*)I.p)->unwind); return; }
    }
    popFrame(s);
  }
}

// ------------------------------------------------------------------ symbolic addresses and concretisation
static void concretizeReg(State& s, int slot, unsigned w) {
  E e = R(s.C().frames.v.back(), slot).e; if (!e) return;
  if (isC(e)) { s.C().frames.topW()->regs[slot] = fromE(e); return; }
  forkValues(s, e, [slot](State& st, u64 v) { st.C().frames.topW()->regs[slot] = cv(v); });
}
// The address in register slot is symbolic. Pins it to one object. 1 ok, -1 ended.
static int resolveSym(State& s, E a, u64 n, bool write, u64& base, u64& size) {
  u64 m = (u64)evalExpr(a, *s.model); base = m & ~0xffffffffull;
  Obj* ob = findObj(s, m); u64 off = m & 0xffffffffull;
  S.memchecks++;
  if (!ob || off + n > ob->size || (write && ob->ro)) { access(s, m, n, write); s.ended = true; return -1; }
  size = ob->size;
  E in = mkBin(K::Ule, mkBin(K::Sub, a, mkConst(base, 64)), mkConst(size - n, 64));
  std::shared_ptr<Assignment> mm; Res r = feasible(s, mkNot(in), &mm);
  if (r == Res::Unknown) { incomplete("solver gave up on a memory bounds check at " + nearestLoc(s)); s.ended = true; return -1; }
  if (r == Res::Sat) { State* o = cloneState(s); o->model = mm; addPC(*o, mkNot(in)); pushWork(o); addPC(s, in); }
  return 1;
}
// 1 done, 0 re-execute, -1 ended
static int loadSym(State& s, const Inst& I, E a) {
  u64 base, size; if (resolveSym(s, a, I.imm, false, base, size) < 0) return -1;
  auto& lv = *(std::vector<Leaf>*)I.p; E off = mkBin(K::Sub, a, mkConst(base, 64));
  unsigned lz = isC(off) ? 0 : exprLoZero(off); u64 stride = 1ull << std::min(lz, 12u); u64 cnt = (size - I.imm) / stride + 1;
  u64 lim = optForkPtr ? 0 : 300; Obj* o = findObj(s, base); if (cnt > lim) { concretizeReg(s, I.a, 64); return 0; }
  Frame* f = s.C().frames.topW();
  for (size_t l = 0; l < lv.size(); l++) {
    E r = nullptr;
    for (u64 k = cnt; k-- > 0;) {
      E v = toE(readObj(o, k * stride + lv[l].off, lv[l].w), lv[l].w);
      r = r ? mkIte(mkBin(K::Eq, off, mkConst(k * stride, 64)), v, r) : v;
    }
    f->regs[I.dst + l] = fromE(r);
  }
  return 1;
}
static int storeSym(State& s, const Inst& I, E a) {
  u64 base, size; if (resolveSym(s, a, I.imm, true, base, size) < 0) return -1;
  auto& lv = *(std::vector<Leaf>*)I.p; E off = mkBin(K::Sub, a, mkConst(base, 64));
  unsigned lz = isC(off) ? 0 : exprLoZero(off); u64 stride = 1ull << std::min(lz, 12u); u64 cnt = (size - I.imm) / stride + 1;
  if (stride < I.imm || cnt > optMaxIte || optForkPtr) { concretizeReg(s, I.a, 64); return 0; }
  Obj* o = findObjW(s, base); Frame* f = s.C().frames.topW();
  for (u64 k = 0; k < cnt; k++) {
    E hit = mkBin(K::Eq, off, mkConst(k * stride, 64)); if (isFalse(hit)) continue;
    for (size_t l = 0; l < lv.size(); l++) {
      u64 at = k * stride + lv[l].off; unsigned w8 = (lv[l].w + 7) / 8 * 8;
      E old = toE(readObj(o, at, w8), w8), nv = toE(R(f, Decoder::at(I.b, l)), lv[l].w); if (lv[l].w != w8) nv = mkZExt(nv, w8);
      writeObj(o, at, w8, fromE(mkIte(hit, nv, old)));
    }
  }
  return 1;
}

// ------------------------------------------------------------------ builtins
// result codes: 0 done (advance), 1 re-execute, 2 control already transferred / state ended
static Val argv_(State& s, const CallInfo& c, int i) { return R(s.C().frames.v.back(), c.args[i]); }
static bool concArg(State& s, const CallInfo& c, int i, u64& out) {
  Val v = argv_(s, c, i);
  if (v.e) { concretizeReg(s, c.args[i], c.argw[i]); return false; }
  out = v.c; return true;
}
#define CARG(i, var) u64 var; if (!concArg(s, c, i, var)) return 1
static int retv(State& s, const Inst& I, Val v) { if (I.dst >= 0 && I.n) s.C().frames.topW()->regs[I.dst] = v; return 0; }
static int retc(State& s, const Inst& I, u64 v) { return retv(s, I, cv(v)); }
static bool cstr(State& s, u64 a, std::string& out) {
  out.clear(); Obj* o = findObj(s, a); if (!o) return false; u64 off = a & 0xffffffff;
  for (; off < o->size; off++) { if (o->sym && o->sym[off].e) return false; if (!o->data[off]) return true; out += (char)o->data[off]; }
  return false;
}
static void endPath(State& s) { s.ended = true; }
static void donePath(State& s);
static int b_malloc_n(State& s, const Inst& I, u64 n, int fill) {
  if (n > (1ull << 30)) { incomplete("allocation of " + std::to_string(n) + " bytes at " + nearestLoc(s)); endPath(s); return 2; }
  return retc(s, I, heapAlloc(s, n, fill));
}
static int b_malloc(State& s, const Inst& I, const CallInfo& c) { CARG(0, n); return b_malloc_n(s, I, n, 0xBE); }
static int b_calloc(State& s, const Inst& I, const CallInfo& c) { CARG(0, n); CARG(1, m); return b_malloc_n(s, I, n * m, 0); }
static int b_aligned_alloc(State& s, const Inst& I, const CallInfo& c) { CARG(1, n); return b_malloc_n(s, I, n, 0xBE); }
static int b_posix_memalign(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, pp); CARG(2, n); u64 p = heapAlloc(s, n); Obj* o = access(s, pp, 8, true); if (!o) return 2; writeObj(o, pp & 0xffffffff, 64, cv(p)); return retc(s, I, 0);
}
static int freeAddr(State& s, u64 p) {
  if (!p) return 0;
  Obj* o = findObj(s, p);
  if ((p >> 60) == RG_SHARED && o) return 0;
  if ((p >> 60) != RG_HEAP || !o || (p & 0xffffffff)) { violation(s, "memory", !o ? "double or invalid free" : "free of a pointer that was not returned by an allocation"); endPath(s); return 2; }
  s.C().heap.put((p >> 32) & 0x0fffffff, nullptr); return 0;
}
static int b_free(State& s, const Inst& I, const CallInfo& c) { CARG(0, p); return freeAddr(s, p); }
static void copyBytes(Obj* d, u64 doff, const Obj* o, u64 soff, u64 n) {
  if (!n) return;
  if (o->sym) {
    bool any = false; for (u64 i = 0; i < n; i++) if (o->sym[soff + i].e) { any = true; break; }
    if (any) { d->ensureSym(); memmove(d->sym + doff, o->sym + soff, n * sizeof(SymB)); memmove(d->data + doff, o->data + soff, n); return; }
  }
  if (d->sym) for (u64 i = 0; i < n; i++) d->sym[doff + i].e = nullptr;
  memmove(d->data + doff, o->data + soff, n);
}
static bool memmoveAddr(State& s, u64 d, u64 p, u64 n) {
  if (!n || d == p) return true;
  Obj* so = access(s, p, n, false); if (!so) return false;
  so->rc++; Obj* dobj = access(s, d, n, true); // dobj is a private copy if it aliased so
  if (dobj) copyBytes(dobj, d & 0xffffffff, so, p & 0xffffffff, n);
  so->release(); return dobj != nullptr;
}
static int b_memcpy(State& s, const Inst& I, const CallInfo& c) { CARG(0, d); CARG(1, p); CARG(2, n); if (!memmoveAddr(s, d, p, n)) return 2; return retc(s, I, d); }
static int b_memset(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, d); CARG(2, n); if (!n) return retc(s, I, d); Obj* o = access(s, d, n, true); if (!o) return 2; Val v = argv_(s, c, 1); u64 off = d & 0xffffffff;
  if (v.e && !isC(v.e)) { E b = mkExtract(v.e, 0, 8); for (u64 i = 0; i < n; i++) writeObj(o, off + i, 8, fromE(b)); }
  else { if (o->sym) for (u64 i = 0; i < n; i++) o->sym[off + i].e = nullptr; memset(o->data + off, (int)v.c, n); }
  return retc(s, I, d);
}
static int b_realloc(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, p); CARG(1, n); u64 q = heapAlloc(s, n);
  if (p) { Obj* o = findObj(s, p); if (!o || (p & 0xffffffff)) { violation(s, "memory", "realloc of an invalid pointer"); endPath(s); return 2; } if (!memmoveAddr(s, q, p, std::min<u64>(n, o->size))) return 2; freeAddr(s, p); }
  return retc(s, I, q);
}
static int cmpBytes(State& s, const Inst& I, u64 a, u64 b, u64 n) {
  if (!n) return retc(s, I, 0);
  Obj* oa = access(s, a, n, false); if (!oa) return 2; Obj* ob = access(s, b, n, false); if (!ob) return 2; u64 x = a & 0xffffffff, y = b & 0xffffffff;
  if (!oa->sym && !ob->sym) { int r = memcmp(oa->data + x, ob->data + y, n); return retc(s, I, r < 0 ? 0xffffffff : r > 0 ? 1 : 0); }
  E r = mkConst(0, 32);
  for (u64 i = n; i-- > 0;) { E p = toE(readObj(oa, x + i, 8), 8), q = toE(readObj(ob, y + i, 8), 8); r = mkIte(mkBin(K::Eq, p, q), r, mkIte(mkBin(K::Ult, p, q), mkConst(0xffffffff, 32), mkConst(1, 32))); }
  return retv(s, I, fromE(r));
}
static int b_memcmp(State& s, const Inst& I, const CallInfo& c) { CARG(0, a); CARG(1, b); CARG(2, n); return cmpBytes(s, I, a, b, n); }
static int callShim(State& s, const Inst& I, const CallInfo& c, const char* name) {
  Function* f = M->getFunction(name); Fn* fn = f ? getFn(f) : nullptr;
  if (!fn || f->isDeclaration()) { incomplete(std::string("missing shim ") + name); endPath(s); return 2; }
  Frame* caller = s.C().frames.v.back(); Frame* n = pushFrame(s, fn);
  for (size_t i = 0; i < c.args.size() && (int)i < fn->nargs; i++) n->regs[i] = R(caller, c.args[i]);
  return 2;
}
static int b_strlen(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, a); std::string t; if (cstr(s, a, t)) return retc(s, I, t.size());
  if (!findObj(s, a)) { access(s, a, 1, false); return 2; }
  return callShim(s, I, c, "symx_shim_strlen");
}
template <int W> static int b_strfn(State& s, const Inst& I, const CallInfo& c) { static const char* nm[] = {"symx_shim_strcmp", "symx_shim_strncmp", "symx_shim_memchr", "symx_shim_strchr", "symx_shim_strstr", "symx_shim_strncpy", "symx_shim_strcpy", "symx_shim_strtol", "symx_shim_strtoul", "symx_shim_strrchr"}; return callShim(s, I, c, nm[W]); }
static int b_zero(State& s, const Inst& I, const CallInfo& c) { return I.dst >= 0 && I.n ? retc(s, I, 0) : 0; }
static int b_one(State& s, const Inst& I, const CallInfo& c) { return retc(s, I, 1); }
static int b_abort(State& s, const Inst& I, const CallInfo& c) {
  if (s.expectAbort) { S.expectedAborts++; donePath(s); return 2; }
  violation(s, "abort", "program aborted"); endPath(s); return 2;
}
static int b_exit(State& s, const Inst& I, const CallInfo& c) { donePath(s); return 2; }
static int b_guard_acquire(State& s, const Inst& I, const CallInfo& c) { CARG(0, a); Obj* o = access(s, a, 1, false); if (!o) return 2; return retc(s, I, o->data[a & 0xffffffff] == 0); }
static int b_guard_release(State& s, const Inst& I, const CallInfo& c) { CARG(0, a); Obj* o = access(s, a, 1, true); if (!o) return 2; o->data[a & 0xffffffff] = 1; return 0; }
static int b_cxa_alloc(State& s, const Inst& I, const CallInfo& c) { CARG(0, n); return retc(s, I, heapAlloc(s, n)); }
static int b_cxa_throw(State& s, const Inst& I, const CallInfo& c) { CARG(0, o); CARG(1, t); CARG(2, d); s.C().excs.push_back({o, t, d, 0, o}); unwind(s, o); return 2; }
static int b_cxa_begin(State& s, const Inst& I, const CallInfo& c) { CARG(0, o); s.C().caught.push_back(o); Exc* e = findExc(s.C(), o); return retc(s, I, e ? e->adj : o); }
static int b_cxa_getptr(State& s, const Inst& I, const CallInfo& c) { CARG(0, o); Exc* e = findExc(s.C(), o); return retc(s, I, e ? e->adj : o); }
static int b_cxa_end(State& s, const Inst& I, const CallInfo& c) { if (!s.C().caught.empty()) s.C().caught.pop_back(); return 0; }
static int b_cxa_rethrow(State& s, const Inst& I, const CallInfo& c) { if (s.C().caught.empty()) return b_abort(s, I, c); u64 o = s.C().caught.back(); unwind(s, o); return 2; }
static int b_resume(State& s, const Inst& I, const CallInfo& c) { CARG(0, o); popFrame(s); unwind(s, o); return 2; }
static int b_dyncast(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, p); CARG(1, st); CARG(2, dt); if (!p) return retc(s, I, 0);
  Obj* o = access(s, p, 8, false); if (!o) return 2; u64 vp = readObj(o, p & 0xffffffff, 64).c; Obj* v = access(s, vp - 16, 16, false); if (!v) return 2;
  i64 top = (i64)readObj(v, (vp - 16) & 0xffffffff, 64).c; u64 ti = readObj(v, (vp - 8) & 0xffffffff, 64).c; i64 off;
  if (!tiUpcast(gvNameAt(ti), gvNameAt(dt), off)) return retc(s, I, 0);
  return retc(s, I, p + top + off);
}
static int b_va_start(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, a); Obj* o = access(s, a, 24, true); if (!o) return 2; u64 b = a & 0xffffffff; Frame* f = s.C().frames.v.back();
  writeObj(o, b, 32, cv(48)); writeObj(o, b + 4, 32, cv(176)); writeObj(o, b + 8, 64, cv(f->va)); writeObj(o, b + 16, 64, cv(0)); return 0;
}
static int b_va_copy(State& s, const Inst& I, const CallInfo& c) { CARG(0, d); CARG(1, p); return memmoveAddr(s, d, p, 24) ? 0 : 2; }
static int b_trap(State& s, const Inst& I, const CallInfo& c) { return b_abort(s, I, c); }
static u64 gClock = 1000000000ull;
static int b_clock(State& s, const Inst& I, const CallInfo& c) { return retc(s, I, 1000000000ull + s.steps); }
static int b_clock_gettime(State& s, const Inst& I, const CallInfo& c) { CARG(1, a); Obj* o = access(s, a, 16, true); if (!o) return 2; writeObj(o, a & 0xffffffff, 64, cv(1000 + s.steps / 1000000000)); writeObj(o, (a & 0xffffffff) + 8, 64, cv(s.steps % 1000000000)); return retc(s, I, 0); }
// math on concrete values
typedef double (*M1)(double); typedef double (*M2)(double, double);
static std::map<std::string, M1> m1 = {{"exp", exp}, {"log", log}, {"log2", log2}, {"log10", log10}, {"sin", sin}, {"cos", cos}, {"tan", tan}, {"exp2", exp2}, {"sqrt", sqrt}, {"floor", floor}, {"ceil", ceil}, {"round", round}, {"trunc", trunc}, {"rint", rint}, {"nearbyint", nearbyint}, {"fabs", fabs}, {"cbrt", cbrt}, {"tanh", tanh}, {"atan", atan}};
static std::map<std::string, M2> m2 = {{"pow", pow}, {"fmod", fmod}, {"atan2", atan2}, {"hypot", hypot}, {"fmin", fmin}, {"fmax", fmax}};
static int mathFn(State& s, const Inst& I, const CallInfo& c, const std::string& nm0) {
  std::string nm = nm0; bool f32 = c.argw[0] == 32; if (f32 && nm.size() > 1 && nm.back() == 'f') nm.pop_back();
  Val a = argv_(s, c, 0); unsigned w = c.argw[0];
  if (a.e) {
    E e = a.e;
    if (nm == "sqrt") return retv(s, I, fromE(mkFp(K::FSqrt, w, e)));
    if (nm == "floor") return retv(s, I, fromE(mkFp(K::FRound, w, e, nullptr, nullptr, 0)));
    if (nm == "ceil") return retv(s, I, fromE(mkFp(K::FRound, w, e, nullptr, nullptr, 1)));
    if (nm == "trunc") return retv(s, I, fromE(mkFp(K::FRound, w, e, nullptr, nullptr, 2)));
    if (nm == "rint" || nm == "nearbyint") return retv(s, I, fromE(mkFp(K::FRound, w, e, nullptr, nullptr, 3)));
    if (nm == "round") return retv(s, I, fromE(mkFp(K::FRound, w, e, nullptr, nullptr, 4)));
    if (nm == "fabs") return retv(s, I, fromE(fabsE(e, w)));
    incomplete("math function " + nm + " of a symbolic value at " + nearestLoc(s)); endPath(s); return 2;
  }
  auto D = [&](Val v) { double d; if (f32) { float f; uint32_t x = v.c; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &v.c, 8); return d; };
  double r = 0; if (m1.count(nm)) r = m1[nm](D(a)); else { Val b = argv_(s, c, 1); if (b.e) { incomplete("math function " + nm + " of a symbolic value"); endPath(s); return 2; } r = m2[nm](D(a), D(b)); }
  u64 o = 0; if (f32) { float f = (float)r; memcpy(&o, &f, 4); } else memcpy(&o, &r, 8); return retc(s, I, o);
}
static int b_math(State& s, const Inst& I, const CallInfo& c) { return mathFn(s, I, c, c.cb->getCalledFunction()->getName().str()); }
static int b_cbrtl(State& s, const Inst& I, const CallInfo& c) { incomplete("long double math"); endPath(s); return 2; }
static int b_atomic_unsup(State& s, const Inst& I, const CallInfo& c) { incomplete("libatomic"); endPath(s); return 2; }

// harness interface
static E inputVar(State& s, const std::string& name, unsigned w) {
  static std::map<std::tuple<size_t, std::string, unsigned>, E> vars; auto k = std::make_tuple(s.inputs.size(), name, w);
  auto it = vars.find(k); E v = it != vars.end() ? it->second : (vars[k] = mkVar(name, w));
  s.inputs.push_back(v); return v;
}
template <int W> static int b_sym(State& s, const Inst& I, const CallInfo& c) { CARG(0, a); std::string n; cstr(s, a, n); return retv(s, I, fromE(inputVar(s, n, W))); }
static int b_sym_bool(State& s, const Inst& I, const CallInfo& c) { CARG(0, a); std::string n; cstr(s, a, n); unsigned w = scalarW(c.cb->getType()); E v = inputVar(s, n, 1); return retv(s, I, fromE(w == 1 ? v : mkZExt(v, w))); }
static unsigned bitsFor(u64 v) { unsigned b = 1; while (b < 64 && (v >> b)) b++; return b; }
static bool assume(State& s, E cond) { // false: path ended
  if (isTrue(cond)) return true;
  std::shared_ptr<Assignment> m; Res r = feasible(s, cond, &m);
  if (r == Res::Unknown) { incomplete("solver gave up on an assumption at " + nearestLoc(s)); endPath(s); return false; }
  if (r == Res::Unsat) { S.infeasible++; endPath(s); return false; }
  s.model = m; addPC(s, cond); return true;
}
static int b_sym_range(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, a); CARG(1, lo); CARG(2, hi); std::string n; cstr(s, a, n); unsigned w = bitsFor(hi); E v = inputVar(s, n, w), z = mkZExt(v, 64);
  if (!assume(s, mkBin(K::Ule, mkConst(lo, w), v)) || !assume(s, mkBin(K::Ule, v, mkConst(hi, w)))) return 2;
  return retv(s, I, fromE(z));
}
static int b_sym_choose(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, a); CARG(1, nn); std::string n; cstr(s, a, n); if (nn == 0) { endPath(s); return 2; } if (nn == 1) { s.inputs.push_back(mkConst(0, 1)); return retc(s, I, 0); }
  unsigned w = bitsFor(nn - 1); E v = inputVar(s, n, w); if (!assume(s, mkBin(K::Ule, v, mkConst(nn - 1, w)))) return 2;
  const CallInfo* cp = &c; int dst = I.dst; (void)cp;
  forkValues(s, v, [dst](State& st, u64 x) { Frame* f = st.C().frames.topW(); if (dst >= 0) f->regs[dst] = cv(x); advanceCall(f); }, nn + 1);
  return 2;
}
static int b_sym_concretize(State& s, const Inst& I, const CallInfo& c) { CARG(0, v); return retc(s, I, v); }
static int b_sym_buf(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, p); CARG(1, n); CARG(2, a); std::string nm; cstr(s, a, nm); if (!n) return 0; Obj* o = access(s, p, n, true); if (!o) return 2;
  for (u64 i = 0; i < n; i++) writeObj(o, (p & 0xffffffff) + i, 8, fromE(inputVar(s, nm, 8))); return 0;
}
static E truth(const Val& v, unsigned w) { E e = toE(v, w); return w == 1 ? e : mkNot(mkBin(K::Eq, e, mkConst(0, w))); }
static int b_sym_assume(State& s, const Inst& I, const CallInfo& c) { return assume(s, truth(argv_(s, c, 0), c.argw[0])) ? 0 : 2; }
static int b_sym_assert(State& s, const Inst& I, const CallInfo& c) {
  CARG(1, a); std::string msg; cstr(s, a, msg); S.asserts++;
  E cond = truth(argv_(s, c, 0), c.argw[0]); if (isTrue(cond)) return 0;
  std::shared_ptr<Assignment> m; Res r = feasible(s, mkNot(cond), &m);
  if (r == Res::Unknown) { incomplete("solver gave up on assertion: " + msg); return 0; }
  if (r == Res::Sat) { auto keep = s.model; s.model = m; violation(s, "assert", msg); s.model = keep; if (!assume(s, cond)) return 2; }
  return 0;
}
static int b_sym_fail(State& s, const Inst& I, const CallInfo& c) {
  if (s.expectAbort) { S.expectedAborts++; donePath(s); return 2; }
  CARG(0, a); std::string msg; cstr(s, a, msg); violation(s, "assert", msg); endPath(s); return 2;
}
static int b_sym_cover(State& s, const Inst& I, const CallInfo& c) { CARG(0, a); std::string m; cstr(s, a, m); S.covers[m]++; return 0; }
static int b_sym_bound(State& s, const Inst& I, const CallInfo& c) { CARG(0, a); std::string m; cstr(s, a, m); S.bounds.insert(m); return 0; }
static int b_sym_end(State& s, const Inst& I, const CallInfo& c) { donePath(s); return 2; }
static int b_sym_expect_abort(State& s, const Inst& I, const CallInfo& c) { CARG(0, a); s.expectAbort = a; return 0; }
static int b_sym_room(State& s, const Inst& I, const CallInfo& c) { CARG(0, p); Obj* o = findObj(s, p); u64 off = p & 0xffffffffull; return retc(s, I, o && off <= o->size ? o->size - off : 0); }
static int b_sym_print(State& s, const Inst& I, const CallInfo& c) { CARG(0, a); std::string m; cstr(s, a, m); Val v = argv_(s, c, 1); if (optVerbose) fprintf(stderr, "PRINT %s %s\n", m.c_str(), v.e ? exprStr(v.e).c_str() : std::to_string(v.c).c_str()); return 0; }
static int b_sym_live(State& s, const Inst& I, const CallInfo& c) { u64 n = 0; for (auto* ch : s.C().heap.ch) if (ch) n += ch->used; return retc(s, I, n); }
static int b_sym_is_symx(State& s, const Inst& I, const CallInfo& c) { return retc(s, I, 1); }
static int b_symx_fork(State& s, const Inst& I, const CallInfo& c) {
  CARG(0, n); Frame* f = s.C().frames.topW(); if (I.dst >= 0) f->regs[I.dst] = cv(0); advanceCall(f);
  int dst = I.dst; Ctx base = s.C(); s.ctx.reserve(n);
  for (u64 i = 1; i < n; i++) { s.ctx.push_back(base); if (dst >= 0) s.ctx.back().frames.topW()->regs[dst] = cv(i); }
  s.cur = 0; return 2;
}
static int b_symx_switch(State& s, const Inst& I, const CallInfo& c) { CARG(0, r); Frame* f = s.C().frames.topW(); advanceCall(f); if (r >= s.ctx.size()) { incomplete("switch to unknown rank"); endPath(s); return 2; } s.cur = r; return 2; }
static int b_symx_shared(State& s, const Inst& I, const CallInfo& c) { CARG(0, n); uint32_t i = s.shared.next++; s.shared.put(i, Obj::make(n, 0, 0)); return retc(s, I, mkAddr(RG_SHARED, i)); }
static int b_symx_shared_free(State& s, const Inst& I, const CallInfo& c) { CARG(0, p); s.shared.put((p >> 32) & 0x0fffffff, nullptr); return 0; }

static void initBuiltins() {
  auto& b = builtins;
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) b[n] = b_malloc;
  b["calloc"] = b_calloc; b["realloc"] = b_realloc; b["aligned_alloc"] = b["memalign"] = b_aligned_alloc; b["posix_memalign"] = b_posix_memalign;
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) b[n] = b_free;
  b["memcpy"] = b["memmove"] = b_memcpy; b["memset"] = b_memset; b["memcmp"] = b["bcmp"] = b_memcmp; b["strlen"] = b_strlen;
  b["strcmp"] = b_strfn<0>; b["strncmp"] = b_strfn<1>; b["memchr"] = b_strfn<2>; b["strchr"] = b_strfn<3>; b["strstr"] = b_strfn<4>; b["strncpy"] = b_strfn<5>; b["strcpy"] = b_strfn<6>; b["strtol"] = b["strtoll"] = b["__isoc23_strtol"] = b["__isoc23_strtoll"] = b_strfn<7>; b["strtoul"] = b["strtoull"] = b["__isoc23_strtoul"] = b["__isoc23_strtoull"] = b_strfn<8>; b["strrchr"] = b_strfn<9>;
  for (auto n : {"abort", "_ZSt9terminatev", "__clang_call_terminate", "__assert_fail", "__cxa_pure_virtual", "__stack_chk_fail", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) b[n] = b_abort;
  b["exit"] = b["_exit"] = b_exit; b["llvm.trap"] = b_trap; b["llvm.va_start"] = b_va_start; b["llvm.va_copy"] = b_va_copy;
  for (auto n : {"__cxa_atexit", "atexit", "__cxa_guard_abort", "__cxa_free_exception", "__cxa_thread_atexit", "printf", "fprintf", "puts", "fputs", "fflush", "putchar", "fputc", "fwrite", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_once", "pthread_cond_broadcast", "pthread_cond_signal", "getenv", "secure_getenv", "usleep", "sched_yield", "fclose", "fopen", "setbuf",
       "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "access", "unlink", "mkdir", "close", "open", "isatty", "__cxa_current_exception_type", "signal", "sigaction", "sigemptyset", "sigaddset", "sigprocmask", "sigaltstack", "madvise", "__errno_location_unused", "vfprintf", "sleep", "nanosleep", "mkstemp", "rand"}) b[n] = b_zero;
  b["getpid"] = b["gettid"] = b["pthread_self"] = b["__gthread_active_p"] = b_one;
  b["__cxa_guard_acquire"] = b_guard_acquire; b["__cxa_guard_release"] = b_guard_release; b["__cxa_allocate_exception"] = b_cxa_alloc; b["__cxa_throw"] = b_cxa_throw; b["__cxa_begin_catch"] = b_cxa_begin; b["__cxa_end_catch"] = b_cxa_end; b["__cxa_rethrow"] = b_cxa_rethrow; b["__cxa_get_exception_ptr"] = b_cxa_getptr; b["_Unwind_Resume"] = b_resume; b["__dynamic_cast"] = b_dyncast;
  b["_ZNSt6chrono3_V212steady_clock3nowEv"] = b["_ZNSt6chrono3_V212system_clock3nowEv"] = b["time"] = b["clock"] = b_clock; b["clock_gettime"] = b_clock_gettime;
  for (auto& kv : m1) { b[kv.first] = b_math; b[kv.first + "f"] = b_math; } for (auto& kv : m2) { b[kv.first] = b_math; b[kv.first + "f"] = b_math; }
  b["sym_u8"] = b_sym<8>; b["sym_u16"] = b_sym<16>; b["sym_u32"] = b["sym_f32"] = b_sym<32>; b["sym_u64"] = b["sym_f64"] = b_sym<64>; b["sym_bool"] = b_sym_bool; b["sym_range"] = b_sym_range; b["sym_choose"] = b_sym_choose; b["sym_concretize"] = b_sym_concretize; b["sym_buf"] = b_sym_buf;
  b["sym_room"] = b_sym_room; b["sym_assume"] = b_sym_assume; b["sym_assert"] = b_sym_assert; b["sym_fail"] = b_sym_fail; b["sym_cover"] = b_sym_cover; b["sym_bound"] = b_sym_bound; b["sym_end"] = b_sym_end; b["sym_expect_abort"] = b_sym_expect_abort; b["sym_print"] = b_sym_print; b["sym_live_allocs"] = b_sym_live; b["sym_is_symx"] = b_sym_is_symx;
  b["symx_fork"] = b_symx_fork; b["symx_switch"] = b_symx_switch; b["symx_shared_alloc"] = b_symx_shared; b["symx_shared_free"] = b_symx_shared_free;
}

// ------------------------------------------------------------------ main loop
static inline double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asF(u64 v) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; }
static inline u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline u64 fromF(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }

static E binE(unsigned op, E a, E b, unsigned w) {
  switch (op) {
    case O_ADD: return mkBin(K::Add, a, b); case O_SUB: return mkBin(K::Sub, a, b); case O_MUL: return mkBin(K::Mul, a, b);
    case O_UDIV: return mkBin(K::UDiv, a, b); case O_SDIV: return mkBin(K::SDiv, a, b); case O_UREM: return mkBin(K::URem, a, b); case O_SREM: return mkBin(K::SRem, a, b);
    case O_AND: return mkBin(K::And, a, b); case O_OR: return mkBin(K::Or, a, b); case O_XOR: return mkBin(K::Xor, a, b);
    case O_SHL: case O_LSHR: case O_ASHR: {
      if (w == 32 || w == 64) b = mkBin(K::And, b, mkConst(w - 1, w));
      return mkBin(op == O_SHL ? K::Shl : op == O_LSHR ? K::LShr : K::AShr, a, b); }
  }
  return nullptr;
}
static u64 binC(unsigned op, u64 a, u64 b, unsigned w) {
  u64 m = mask64(w);
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return a / b; case O_UREM: return a % b;
    case O_SDIV: { i64 x = sext64(a, w), y = sext64(b, w); return (y == -1 ? (u64)0 - (u64)x : (u64)(x / y)) & m; }
    case O_SREM: { i64 x = sext64(a, w), y = sext64(b, w); return (y == -1 ? 0 : (u64)(x % y)) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: if (w == 32 || w == 64) b &= w - 1; return b >= w ? 0 : (a << b) & m;
    case O_LSHR: if (w == 32 || w == 64) b &= w - 1; return b >= w ? 0 : a >> b;
    case O_ASHR: if (w == 32 || w == 64) b &= w - 1; if (b >= w) b = w - 1; return (u64)(sext64(a, w) >> b) & m;
  }
  return 0;
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sext64(a, w) > sext64(b, w); case CmpInst::ICMP_SGE: return sext64(a, w) >= sext64(b, w); case CmpInst::ICMP_SLT: return sext64(a, w) < sext64(b, w); default: return sext64(a, w) <= sext64(b, w);
  }
}
static E icmpE(unsigned p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkBin(K::Eq, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(K::Eq, a, b));
    case CmpInst::ICMP_UGT: return mkBin(K::Ult, b, a); case CmpInst::ICMP_UGE: return mkBin(K::Ule, b, a); case CmpInst::ICMP_ULT: return mkBin(K::Ult, a, b); case CmpInst::ICMP_ULE: return mkBin(K::Ule, a, b);
    case CmpInst::ICMP_SGT: return mkBin(K::Slt, b, a); case CmpInst::ICMP_SGE: return mkBin(K::Sle, b, a); case CmpInst::ICMP_SLT: return mkBin(K::Slt, a, b); default: return mkBin(K::Sle, a, b);
  }
}
static E fcmpE(unsigned p, E a, E b) {
  E eq = mkFp(K::FOEq, 1, a, b), lt = mkFp(K::FOLt, 1, a, b), gt = mkFp(K::FOLt, 1, b, a), un = mkFp(K::FUno, 1, a, b);
  E r = mkConst(0, 1); // predicate bits: U L G E (8 4 2 1)
  if (p & 1) r = mkBin(K::Or, r, eq); if (p & 2) r = mkBin(K::Or, r, gt); if (p & 4) r = mkBin(K::Or, r, lt); if (p & 8) r = mkBin(K::Or, r, un);
  if (p == 3) r = mkFp(K::FOLe, 1, b, a); else if (p == 5) r = mkFp(K::FOLe, 1, a, b); else if (p == 6) r = mkBin(K::Or, lt, gt); else if (p == 7) r = mkNot(un); else if (p == 14) r = mkNot(eq);
  else if (p == 12) r = mkNot(mkFp(K::FOLe, 1, b, a)); else if (p == 10) r = mkNot(mkFp(K::FOLe, 1, a, b)); else if (p == 13) r = mkNot(gt); else if (p == 11) r = mkNot(lt);
  return r;
}
static bool fcmpC(unsigned p, u64 a, u64 b, unsigned w) {
  double x = w == 32 ? asF(a) : asD(a), y = w == 32 ? asF(b) : asD(b);
  bool un = x != x || y != y;
  return ((p & 8) && un) || (!un && (((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y)));
}
static Val bitop(unsigned sub, Val a, unsigned w) {
  if (!a.e) {
    u64 v = a.c;
    switch (sub) {
      case 0: return cv(__builtin_popcountll(v));
      case 1: return cv(v ? __builtin_clzll(v) - (64 - w) : w);
      case 2: return cv(v ? __builtin_ctzll(v) : w);
      case 3: return cv(__builtin_bswap64(v) >> (64 - w));
      case 4: { u64 r = 0; for (unsigned i = 0; i < w; i++) if (v >> i & 1) r |= 1ull << (w - 1 - i); return cv(r); }
      default: { i64 x = sext64(v, w); return cv((x < 0 ? (u64)0 - (u64)x : (u64)x) & mask64(w)); }
    }
  }
  E e = a.e, r = nullptr;
  switch (sub) {
    case 0: r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(e, i, 1), w)); break;
    case 1: r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); break;
    case 2: r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); break;
    case 3: r = mkExtract(e, w - 8, 8); for (unsigned i = w - 8; i > 0;) { i -= 8; r = mkConcat(mkExtract(e, i, 8), r); } break;
    case 4: r = mkExtract(e, 0, 1); for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(e, i, 1)); break;
    default: r = mkIte(mkBin(K::Slt, e, mkConst(0, w)), mkBin(K::Sub, mkConst(0, w), e), e);
  }
  return fromE(r);
}
static bool funV(State& s, const Inst& I, Val* o, Val a, Val b, Val c) {
  unsigned w = I.w; Intrinsic::ID id = I.imm;
  bool conc = !a.e && !b.e && !c.e; E ea = toE(a, w);
  switch (id) {
    case Intrinsic::fabs: *o = a.e ? fromE(fabsE(ea, w)) : cv(a.c & (mask64(w) >> 1)); return true;
    case Intrinsic::copysign: { E eb = toE(b, w); *o = fromE(mkBin(K::Or, mkBin(K::And, ea, mkConst(maskw(w) >> 1, w)), mkBin(K::And, eb, mkConst((u128)1 << (w - 1), w)))); return true; }
    case Intrinsic::floor: *o = fromE(mkFp(K::FRound, w, ea, nullptr, nullptr, 0)); return true;
    case Intrinsic::ceil: *o = fromE(mkFp(K::FRound, w, ea, nullptr, nullptr, 1)); return true;
    case Intrinsic::trunc: *o = fromE(mkFp(K::FRound, w, ea, nullptr, nullptr, 2)); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: *o = fromE(mkFp(K::FRound, w, ea, nullptr, nullptr, 3)); return true;
    case Intrinsic::round: *o = fromE(mkFp(K::FRound, w, ea, nullptr, nullptr, 4)); return true;
    case Intrinsic::sqrt: *o = fromE(mkFp(K::FSqrt, w, ea)); return true;
    case Intrinsic::minnum: case Intrinsic::maxnum: { E eb = toE(b, w); E lt = id == Intrinsic::minnum ? mkFp(K::FOLt, 1, eb, ea) : mkFp(K::FOLt, 1, ea, eb); E an = mkFp(K::FUno, 1, ea, ea); *o = fromE(mkIte(mkBin(K::Or, lt, an), eb, ea)); return true; }
    case Intrinsic::fma: *o = fromE(mkFp(K::FMa, w, ea, toE(b, w), toE(c, w))); return true;
    case Intrinsic::fmuladd: *o = fromE(mkFp(K::FAdd, w, mkFp(K::FMul, w, ea, toE(b, w)), toE(c, w))); return true; // baseline x86-64 has no fma
    default: break;
  }
  if (!conc) { incomplete("math intrinsic of a symbolic value at " + nearestLoc(s)); return false; }
  double x = w == 32 ? asF(a.c) : asD(a.c), y = 0, r = 0;
  if (id == Intrinsic::powi || id == Intrinsic::ldexp) y = (int)b.c; else y = w == 32 ? asF(b.c) : asD(b.c);
  switch (id) { case Intrinsic::pow: case Intrinsic::powi: r = pow(x, y); break; case Intrinsic::ldexp: r = ldexp(x, (int)y); break; case Intrinsic::exp: r = exp(x); break; case Intrinsic::log: r = log(x); break; case Intrinsic::log2: r = log2(x); break; case Intrinsic::log10: r = log10(x); break; case Intrinsic::exp2: r = exp2(x); break; case Intrinsic::sin: r = sin(x); break; case Intrinsic::cos: r = cos(x); break; default: return false; }
  *o = cv(w == 32 ? fromF((float)r) : fromD(r)); return true;
}

// returns true when the state can continue in the current frame loop after reloading
static void doCall(State& s, const Inst& I) {
  CallInfo& c = *(CallInfo*)I.p; Fn* fn = c.direct; Frame* fr = s.C().frames.v.back();
  if (!fn) {
    Val t = R(fr, c.callee);
    if (t.e) { concretizeReg(s, c.callee, 64); return; }
    u64 i = (t.c >> 32) & 0x0fffffff;
    if ((t.c >> 60) != RG_FUNC || !i || i > fns.size() || (t.c & 0xffffffff)) { violation(s, "memory", "call through an invalid function pointer"); s.ended = true; return; }
    fn = fns[i - 1];
  }
  if (!fn->resolved) {
    fn->resolved = true; auto it = builtins.find(fn->name); if (it != builtins.end()) fn->builtin = it->second;
    if (fn->builtin && fn->f && !fn->f->isDeclaration() && fn->name.compare(0, 3, "sym") != 0 && fn->name.compare(0, 4, "_Zdl") && fn->name.compare(0, 4, "_Zda") && fn->name.compare(0, 4, "_Znw") && fn->name.compare(0, 4, "_Zna")) { if (fn->name != "__clang_call_terminate") fn->builtin = nullptr; }
  }
  if (fn->builtin) {
    fn->executed = true;
    int r = fn->builtin(s, I, c);
    if (r == 0) { Frame* f = s.C().frames.topW(); if (f->fn->code[f->pc].op == O_INVOKE) takeEdge(f, c.normal); else f->pc++; }
    return;
  }
  if (!fn->f || fn->f->isDeclaration()) { incomplete("call to external function " + (fn->f ? demangle(fn->name) : fn->name)); if (optVerbose) fprintf(stderr, "external %s\n%s", fn->name.c_str(), stackOf(s).c_str()); s.ended = true; return; }
  if (s.C().frames.v.size() > 20000) { violation(s, "stack", "call stack deeper than 20000 frames"); s.ended = true; return; }
  fr = s.C().frames.v.back();
  Frame* n = pushFrame(s, fn);
  size_t na = fn->nargs;
  for (size_t i = 0; i < c.args.size() && i < na; i++) n->regs[i] = R(fr, c.args[i]);
  for (auto& bv : c.byval) {
    Val p = R(fr, c.args[bv.first]); if (p.e) { incomplete("symbolic byval pointer"); s.ended = true; return; }
    uint32_t i = s.C().stk.next++; s.C().stk.put(i, Obj::make(bv.second, 2, 0xAA)); u64 a = mkAddr(RG_STACK, i);
    if (!memmoveAddr(s, a, p.c, bv.second)) return; n->regs[bv.first] = cv(a);
  }
  if (fn->f->isVarArg()) {
    size_t extra = c.args.size() > na ? c.args.size() - na : 0; uint32_t i = s.C().stk.next++; Obj* o = Obj::make(extra * 8 + 8, 2, 0);
    for (size_t k = 0; k < extra; k++) { Val v = R(fr, c.args[na + k]); unsigned w = c.argw[na + k]; writeObj(o, k * 8, w > 64 ? 64 : w, v); }
    s.C().stk.put(i, o); n->va = mkAddr(RG_STACK, i);
  }
}

static void run(State& s) {
  while (!s.ended) {
    Ctx& C0 = s.C();
    if (C0.frames.v.empty()) {
      if (C0.pending.empty()) { donePath(s); break; }
      Fn* f = C0.pending.front(); C0.pending.erase(C0.pending.begin()); pushFrame(s, f); continue;
    }
    Frame* fr = C0.frames.topW(); Fn* fn = fr->fn; const Inst* code = fn->code.data(); Val* regs = fr->regs; const Val* consts = fn->consts.data();
#define RV(r) ((r) >= 0 ? regs[r] : consts[-(r) - 1])
#define AT(r, k) ((r) >= 0 ? (r) + (int)(k) : (r) - (int)(k))
    for (;;) {
      const Inst& I = code[fr->pc];
      if (++s.steps > optMaxSteps) { violation(s, "steps", "no result after " + std::to_string(optMaxSteps) + " instructions"); s.ended = true; break; }
      switch (I.op) {
        case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
          bool ok = true;
          for (unsigned k = 0; k < I.n; k++) {
            Val b = RV(AT(I.b, k));
            if (!b.e ? b.c == 0 : false) { violation(s, "arith", "division by zero"); s.ended = true; ok = false; break; }
            if (b.e) {
              E z = mkBin(K::Eq, b.e, mkConst(0, I.w)); S.memchecks++;
              std::shared_ptr<Assignment> m; Res r = feasible(s, z, &m);
              if (r == Res::Sat) { auto keep = s.model; s.model = m; violation(s, "arith", "division by zero"); s.model = keep; if (!assume(s, mkNot(z))) { ok = false; break; } }
              else if (r == Res::Unknown) { incomplete("solver gave up on a division check"); }
            }
          }
          if (!ok) break;
        } [[fallthrough]];
        case O_ADD: case O_SUB: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: {
          if (I.n == 1) {
            const Val &a = RV(I.a), &b = RV(I.b);
            if (!a.e && !b.e && I.w <= 64) { u64 r = binC(I.op, a.c, b.c, I.w); regs[I.dst].c = r; regs[I.dst].e = nullptr; }
            else regs[I.dst] = fromE(binE(I.op, toE(a, I.w), toE(b, I.w), I.w));
          } else for (unsigned k = 0; k < I.n; k++) {
            Val a = RV(AT(I.a, k)), b = RV(AT(I.b, k));
            regs[I.dst + k] = !a.e && !b.e && I.w <= 64 ? cv(binC(I.op, a.c, b.c, I.w)) : fromE(binE(I.op, toE(a, I.w), toE(b, I.w), I.w));
          }
          fr->pc++; continue; }
        case O_ICMP:
          for (unsigned k = 0; k < I.n; k++) {
            Val a = RV(AT(I.a, k)), b = RV(AT(I.b, k));
            if (!a.e && !b.e && I.w <= 64) regs[I.dst + k] = cv(icmpC(I.sub, a.c, b.c, I.w)); else regs[I.dst + k] = fromE(icmpE(I.sub, toE(a, I.w), toE(b, I.w)));
          }
          fr->pc++; continue;
        case O_FBIN:
          for (unsigned k = 0; k < I.n; k++) {
            Val a = RV(AT(I.a, k)), b = RV(AT(I.b, k)); K kk = (K)I.sub;
            if (!a.e && !b.e && I.w == 64 && kk != K::FRem) { double x = asD(a.c), y = asD(b.c); regs[I.dst + k] = cv(fromD(kk == K::FAdd ? x + y : kk == K::FSub ? x - y : kk == K::FMul ? x * y : x / y)); }
            else regs[I.dst + k] = fromE(mkFp(kk, I.w, toE(a, I.w), toE(b, I.w)));
          }
          fr->pc++; continue;
        case O_FCMP:
          for (unsigned k = 0; k < I.n; k++) {
            Val a = RV(AT(I.a, k)), b = RV(AT(I.b, k));
            if (!a.e && !b.e) regs[I.dst + k] = cv(fcmpC(I.sub, a.c, b.c, I.w)); else regs[I.dst + k] = fromE(fcmpE(I.sub, toE(a, I.w), toE(b, I.w)));
          }
          fr->pc++; continue;
        case O_FNEG: for (unsigned k = 0; k < I.n; k++) { Val a = RV(AT(I.a, k)); regs[I.dst + k] = fromE(mkBin(K::Xor, toE(a, I.w), mkConst((u128)1 << (I.w - 1), I.w))); } fr->pc++; continue;
        case O_TRUNC: for (unsigned k = 0; k < I.n; k++) { Val a = RV(AT(I.a, k)); regs[I.dst + k] = a.e ? fromE(mkExtract(a.e, 0, I.w)) : cv(a.c & mask64(I.w)); } fr->pc++; continue;
        case O_ZEXT: for (unsigned k = 0; k < I.n; k++) { Val a = RV(AT(I.a, k)); regs[I.dst + k] = a.e || I.w > 64 ? fromE(mkZExt(toE(a, I.imm), I.w)) : a; } fr->pc++; continue;
        case O_SEXT: for (unsigned k = 0; k < I.n; k++) { Val a = RV(AT(I.a, k)); regs[I.dst + k] = a.e || I.w > 64 ? fromE(mkSExt(toE(a, I.imm), I.w)) : cv((u64)sext64(a.c, I.imm) & mask64(I.w)); } fr->pc++; continue;
        case O_FPCAST: for (unsigned k = 0; k < I.n; k++) { Val a = RV(AT(I.a, k)); regs[I.dst + k] = (I.imm == I.w && ((K)I.sub == K::FExt || (K)I.sub == K::FTrunc)) ? a : fromE(((K)I.sub == K::FToSI || (K)I.sub == K::FToUI) && a.e && !isC(a.e) ? simpFToI(s, (K)I.sub, I.w, a.e) : mkFp((K)I.sub, I.w, toE(a, I.imm))); } fr->pc++; continue;
        case O_SELECT: {
          if (I.imm && RV(I.a).e && !isC(RV(I.a).e)) { Val b = RV(I.b), c = RV(I.c); if (b.e || c.e || b.c != c.c) { concretizeReg(s, I.a, 1); break; } } // a choice between pointers forks
          auto& lv = *(std::vector<Leaf>*)I.p;
          for (unsigned k = 0; k < I.n; k++) {
            Val c = RV(I.sub ? AT(I.a, k) : I.a), a = RV(AT(I.b, k)), b = RV(AT(I.c, k)); unsigned w = I.w ? I.w : lv[k].w;
            if (!c.e) regs[I.dst + k] = c.c ? a : b; else regs[I.dst + k] = fromE(mkIte(c.e, toE(a, w), toE(b, w)));
          }
          fr->pc++; continue; }
        case O_COPY: { for (unsigned k = 0; k < I.n; k++) regs[I.dst + k] = RV(AT(I.a, k)); fr->pc++; continue; }
        case O_LOAD: {
          Val a = RV(I.a);
          if (a.e) { int r = loadSym(s, I, a.e); if (r == 1) s.C().frames.topW()->pc++; break; }
          Obj* o = findObj(s, a.c); u64 off = a.c & 0xffffffffull;
          if (!o || off + I.imm > o->size) { access(s, a.c, I.imm, false); break; }
          auto& lv = *(std::vector<Leaf>*)I.p;
          if (I.n == 1 && !o->sym && I.imm <= 8) { u64 v = 0; memcpy(&v, o->data + off, I.imm); regs[I.dst].c = v & mask64(lv[0].w); regs[I.dst].e = nullptr; }
          else for (unsigned k = 0; k < I.n; k++) regs[I.dst + k] = readObj(o, off + lv[k].off, lv[k].w);
          fr->pc++; continue; }
        case O_STORE: {
          Val a = RV(I.a);
          if (a.e) { int r = storeSym(s, I, a.e); if (r == 1) s.C().frames.topW()->pc++; break; }
          Obj* o = access(s, a.c, I.imm, true); if (!o) break; u64 off = a.c & 0xffffffffull;
          auto& lv = *(std::vector<Leaf>*)I.p;
          for (unsigned k = 0; k < I.n; k++) writeObj(o, off + lv[k].off, lv[k].w, RV(AT(I.b, k)));
          fr->pc++; continue; }
        case O_GEP: {
          Val a = RV(I.a); auto& gi = *(std::vector<GepIdx>*)I.p; bool sy = a.e != nullptr; u64 add = I.imm;
          for (auto& g : gi) { const Val& v = RV(g.ref); if (v.e) { sy = true; break; } add += (u64)(sext64(v.c, g.w) * g.scale); }
          if (!sy) { regs[I.dst].c = a.c + add; regs[I.dst].e = nullptr; }
          else {
            E e = mkBin(K::Add, toE(a, 64), mkConst(I.imm, 64));
            for (auto& g : gi) { Val v = RV(g.ref); E x = toE(v, g.w); if (g.w < 64) x = mkSExt(x, 64); else if (g.w > 64) x = mkExtract(x, 0, 64); e = mkBin(K::Add, e, mkBin(K::Mul, x, mkConst((u64)g.scale, 64))); }
            regs[I.dst] = fromE(e);
          }
          fr->pc++; continue; }
        case O_ALLOCA: {
          Val n = RV(I.a); if (n.e) { concretizeReg(s, I.a, 64); break; }
          uint32_t i = s.C().stk.next++; s.C().stk.put(i, Obj::make(I.imm * n.c, 2, 0xAA)); regs[I.dst] = cv(mkAddr(RG_STACK, i)); fr->pc++; continue; }
        case O_BR: takeEdge(fr, I.a); continue;
        case O_CBR: {
          const Val& c = RV(I.a);
          if (!c.e) { takeEdge(fr, c.c ? I.b : I.c); continue; }
          E ce = c.e; bool mv = evalExpr(ce, *s.model) == 1; E other = mv ? mkNot(ce) : ce; std::shared_ptr<Assignment> m;
          Res r = feasible(s, other, &m);
          if (r == Res::Unknown) { incomplete("solver gave up on a branch at " + nearestLoc(s)); addPC(s, mv ? ce : mkNot(ce)); }
          else if (r == Res::Sat) {
            State* o = cloneState(s); o->model = m; addPC(*o, other); takeEdge(o->C().frames.topW(), mv ? I.c : I.b); pushWork(o);
            addPC(s, mv ? ce : mkNot(ce));
          }
          takeEdge(s.C().frames.topW(), mv ? I.b : I.c);
          break; }
        case O_SWITCH: {
          Val c = RV(I.a); auto& si = *(SwitchInfo*)I.p;
          if (!c.e) { int e = si.def; for (auto& k : si.cases) if (k.first == c.c) { e = k.second; break; } takeEdge(fr, e); continue; }
          // group cases by target; fork one state per feasible target
          std::map<int, E> tgt; E any = mkConst(0, 1); std::vector<int> order;
          for (auto& k : si.cases) { E q = mkBin(K::Eq, c.e, mkConst(k.first, I.w)); any = mkBin(K::Or, any, q); auto it = tgt.find(k.second); if (it == tgt.end()) { tgt[k.second] = q; order.push_back(k.second); } else it->second = mkBin(K::Or, it->second, q); }
          { E q = mkNot(any); auto it = tgt.find(si.def); if (it == tgt.end()) { tgt[si.def] = q; order.push_back(si.def); } else it->second = mkBin(K::Or, it->second, q); }
          int mine = -1;
          for (int e : order) if (evalExpr(tgt[e], *s.model) == 1) { mine = e; break; }
          for (int e : order) {
            if (e == mine) continue; std::shared_ptr<Assignment> m; Res r = feasible(s, tgt[e], &m);
            if (r == Res::Unknown) incomplete("solver gave up on a switch at " + nearestLoc(s));
            else if (r == Res::Sat) { State* o = cloneState(s); o->model = m; addPC(*o, tgt[e]); takeEdge(o->C().frames.topW(), e); pushWork(o); }
          }
          addPC(s, tgt[mine]); takeEdge(s.C().frames.topW(), mine); break; }
        case O_CALL: case O_INVOKE: doCall(s, I); break;
        case O_RET: {
          Val tmp[16]; std::vector<Val> big; Val* t = tmp; if (I.n > 16) { big.resize(I.n); t = big.data(); }
          for (unsigned k = 0; k < I.n; k++) t[k] = RV(AT(I.a, k));
          unsigned n = I.n; popFrame(s); Ctx& c = s.C(); if (c.frames.v.empty()) break;
          Frame* p = c.frames.topW(); const Inst& CI = p->fn->code[p->pc];
          if (CI.dst >= 0) for (unsigned k = 0; k < n && k < CI.n; k++) p->regs[CI.dst + k] = t[k];
          advanceCall(p); break; }
        case O_UNREACHABLE: { violation(s, "unreachable", "control reached an unreachable point"); s.ended = true; break; }
        case O_INSERTV: {
          for (unsigned k = 0; k < I.n; k++) { Val v = RV(AT(I.a, k)); regs[I.dst + k] = v; }
          for (unsigned k = 0; k < I.sub; k++) { Val v = RV(AT(I.b, k)); regs[I.dst + I.imm + k] = v; }
          fr->pc++; continue; }
        case O_LANDINGPAD: regs[I.dst] = cv(s.C().lpExc); regs[I.dst + 1] = cv(s.C().lpSel); fr->pc++; continue;
        case O_RESUME: { u64 o = RV(I.a).c; popFrame(s); unwind(s, o); break; }
        case O_RMW: {
          Val a = RV(I.a); if (a.e) { concretizeReg(s, I.a, 64); break; }
          Obj* o = access(s, a.c, I.w / 8, true); if (!o) break; Val old = readObj(o, a.c & 0xffffffff, I.w), v = RV(I.b); Val nv; E x = toE(old, I.w), y = toE(v, I.w);
          switch (I.sub) {
            case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = fromE(mkBin(K::Add, x, y)); break; case AtomicRMWInst::Sub: nv = fromE(mkBin(K::Sub, x, y)); break;
            case AtomicRMWInst::And: nv = fromE(mkBin(K::And, x, y)); break; case AtomicRMWInst::Or: nv = fromE(mkBin(K::Or, x, y)); break; case AtomicRMWInst::Xor: nv = fromE(mkBin(K::Xor, x, y)); break;
            default: incomplete("atomicrmw operation"); s.ended = true; nv = old;
          }
          writeObj(o, a.c & 0xffffffff, I.w, nv); regs[I.dst] = old; fr->pc++; if (s.ended) break; continue; }
        case O_CMPXCHG: {
          Val a = RV(I.a); if (a.e) { concretizeReg(s, I.a, 64); break; }
          Obj* o = access(s, a.c, I.w / 8, true); if (!o) break; Val old = readObj(o, a.c & 0xffffffff, I.w), ex = RV(I.b), nv = RV(I.c); E eq = mkBin(K::Eq, toE(old, I.w), toE(ex, I.w));
          writeObj(o, a.c & 0xffffffff, I.w, fromE(mkIte(eq, toE(nv, I.w), toE(old, I.w)))); regs[I.dst] = old; regs[I.dst + 1] = fromE(eq); fr->pc++; continue; }
        case O_MINMAX: for (unsigned k = 0; k < I.n; k++) {
            Val a = RV(AT(I.a, k)), b = RV(AT(I.b, k)); static const unsigned pr[] = {CmpInst::ICMP_ULT, CmpInst::ICMP_UGT, CmpInst::ICMP_SLT, CmpInst::ICMP_SGT};
            if (!a.e && !b.e) regs[I.dst + k] = icmpC(pr[I.sub], a.c, b.c, I.w) ? a : b; else { E x = toE(a, I.w), y = toE(b, I.w); regs[I.dst + k] = fromE(mkIte(icmpE(pr[I.sub], x, y), x, y)); }
          } fr->pc++; continue;
        case O_OVF: {
          E x = toE(RV(I.a), I.w), y = toE(RV(I.b), I.w); unsigned w = I.w, W = I.sub >= 4 ? 2 * w : w + 1; if (W > 128) { incomplete("wide overflow arithmetic"); s.ended = true; break; }
          bool sg = !(I.sub & 1); E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W);
          E r = mkBin(I.sub < 2 ? K::Add : I.sub < 4 ? K::Sub : K::Mul, X, Y), lo = mkExtract(r, 0, w);
          regs[I.dst] = fromE(lo); regs[I.dst + 1] = fromE(mkNot(mkBin(K::Eq, sg ? mkSExt(lo, W) : mkZExt(lo, W), r))); fr->pc++; continue; }
        case O_SAT: for (unsigned k = 0; k < I.n; k++) {
            E x = toE(RV(AT(I.a, k)), I.w), y = toE(RV(AT(I.b, k)), I.w); unsigned w = I.w; E r;
            if (I.sub == 0) { E t = mkBin(K::Add, x, y); r = mkIte(mkBin(K::Ult, t, x), mkConst(maskw(w), w), t); }
            else if (I.sub == 1) r = mkIte(mkBin(K::Ult, x, y), mkConst(0, w), mkBin(K::Sub, x, y));
            else { E X = mkSExt(x, w + 1), Y = mkSExt(y, w + 1), t = mkBin(I.sub == 2 ? K::Add : K::Sub, X, Y); E mx = mkConst(maskw(w - 1), w + 1), mn = mkSExt(mkConst((u128)1 << (w - 1), w), w + 1); r = mkExtract(mkIte(mkBin(K::Slt, mx, t), mx, mkIte(mkBin(K::Slt, t, mn), mn, t)), 0, w); }
            regs[I.dst + k] = fromE(r);
          } fr->pc++; continue;
        case O_BITOP: for (unsigned k = 0; k < I.n; k++) { Val a = RV(AT(I.a, k)); regs[I.dst + k] = bitop(I.sub, a, I.w); } fr->pc++; continue;
        case O_FSH: for (unsigned k = 0; k < I.n; k++) {
            unsigned w = I.w; E a = toE(RV(AT(I.a, k)), w), b = toE(RV(AT(I.b, k)), w), sh = mkBin(K::URem, toE(RV(AT(I.c, k)), w), mkConst(w, w)); E inv = mkBin(K::Sub, mkConst(w, w), sh); E z = mkBin(K::Eq, sh, mkConst(0, w)); E r;
            if (!I.sub) r = mkIte(z, a, mkBin(K::Or, mkBin(K::Shl, a, sh), mkBin(K::LShr, b, inv))); else r = mkIte(z, b, mkBin(K::Or, mkBin(K::LShr, b, sh), mkBin(K::Shl, a, inv)));
            regs[I.dst + k] = fromE(r);
          } fr->pc++; continue;
        case O_FUN: { bool ok = true; for (unsigned k = 0; k < I.n && ok; k++) { Val o; ok = funV(s, I, &o, RV(AT(I.a, k)), I.b ? RV(AT(I.b, k)) : cv(0), I.c ? RV(AT(I.c, k)) : cv(0)); if (ok) regs[I.dst + k] = o; } if (!ok) { s.ended = true; break; } fr->pc++; continue; }
        case O_SHUFFLE: { auto& m = *(std::vector<int>*)I.p; std::vector<Val> t(I.n); for (unsigned k = 0; k < I.n; k++) t[k] = m[k] < 0 ? cv(0) : m[k] < (int)I.imm ? RV(AT(I.a, m[k])) : RV(AT(I.b, m[k] - (int)I.imm)); for (unsigned k = 0; k < I.n; k++) regs[I.dst + k] = t[k]; fr->pc++; continue; }
        case O_EXTELT: { Val ix = RV(I.b); if (ix.e) { concretizeReg(s, I.b, 64); break; } regs[I.dst] = ix.c < I.n ? RV(AT(I.a, ix.c)) : cv(0); fr->pc++; continue; }
        case O_INSELT: { Val ix = RV(I.c), v = RV(I.b); if (ix.e) { concretizeReg(s, I.c, 64); break; } for (unsigned k = 0; k < I.n; k++) { Val t = RV(AT(I.a, k)); regs[I.dst + k] = k == ix.c ? v : t; } fr->pc++; continue; }
        case O_REDUCE: {
          E r = toE(RV(I.a), I.w);
          for (unsigned k = 1; k < I.n; k++) { E x = toE(RV(AT(I.a, k)), I.w);
            switch (I.imm) { case Intrinsic::vector_reduce_add: r = mkBin(K::Add, r, x); break; case Intrinsic::vector_reduce_and: r = mkBin(K::And, r, x); break; case Intrinsic::vector_reduce_or: r = mkBin(K::Or, r, x); break; case Intrinsic::vector_reduce_xor: r = mkBin(K::Xor, r, x); break; case Intrinsic::vector_reduce_mul: r = mkBin(K::Mul, r, x); break;
              case Intrinsic::vector_reduce_umax: r = mkIte(mkBin(K::Ult, r, x), x, r); break; case Intrinsic::vector_reduce_umin: r = mkIte(mkBin(K::Ult, x, r), x, r); break; case Intrinsic::vector_reduce_smax: r = mkIte(mkBin(K::Slt, r, x), x, r); break; default: r = mkIte(mkBin(K::Slt, x, r), x, r); } }
          regs[I.dst] = fromE(r); fr->pc++; continue; }
        case O_BITCASTV: {
          unsigned sn = I.sub, sw = I.imm, dn = I.n, dw = I.w; if ((u64)sn * sw > 128) { incomplete("wide vector bitcast"); s.ended = true; break; }
          E all = toE(RV(I.a), sw); for (unsigned k = 1; k < sn; k++) all = mkConcat(toE(RV(AT(I.a, k)), sw), all);
          std::vector<Val> t(dn); for (unsigned k = 0; k < dn; k++) t[k] = fromE(mkExtract(all, k * dw, dw)); for (unsigned k = 0; k < dn; k++) regs[I.dst + k] = t[k]; fr->pc++; continue; }
        case O_NOP: fr->pc++; continue;
        default: incomplete("unsupported: " + (I.p ? *(std::string*)I.p : std::string("?")) + " at " + nearestLoc(s)); s.ended = true; break;
      }
      break;
    }
    if (elapsed() > optTime) { incomplete("time limit of " + std::to_string((int)optTime) + " s reached"); s.ended = true; }
  }
  S.paths++; S.steps += s.steps; if (s.inputs.size() && S.samples.size() < 6) S.samples.push_back(sampleOf(s));
}

// ------------------------------------------------------------------ output
static std::string jstr(const std::string& s) { std::string r = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)ch); r += b; } else r += ch; } return r + "\""; }
static void writeOut(const std::string& path) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) { perror("symx out"); exit(3); }
  auto& q = gSolverStats;
  fprintf(f, "{\"paths\":%llu,\"instructions\":%llu,\"forks\":%llu,\"asserts\":%llu,\"memchecks\":%llu,\"infeasible\":%llu,\"expected_aborts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"solver_seconds\":%.3f,\"max_query_seconds\":%.3f,\"seconds\":%.3f,\n",
    (unsigned long long)S.paths, (unsigned long long)S.steps, (unsigned long long)S.forks, (unsigned long long)S.asserts, (unsigned long long)S.memchecks, (unsigned long long)S.infeasible, (unsigned long long)S.expectedAborts,
    (unsigned long long)q.queries, (unsigned long long)q.sat, (unsigned long long)q.unsat, (unsigned long long)q.unknown, (unsigned long long)q.cacheHits, (unsigned long long)q.modelHits, q.seconds, q.maxq, elapsed());
  auto mp = [&](const char* n, const std::map<std::string, u64>& m) { fprintf(f, "\"%s\":{", n); bool first = true; for (auto& kv : m) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; } fprintf(f, "},\n"); };
  mp("covers", S.covers); mp("incomplete", S.incomplete);
  fprintf(f, "\"bounds\":["); { bool first = true; for (auto& b : S.bounds) { fprintf(f, "%s%s", first ? "" : ",", jstr(b).c_str()); first = false; } } fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < S.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(S.samples[i]).c_str());
  fprintf(f, "],\n\"completed\":%llu,\"replays\":[", (unsigned long long)S.completed);
  for (size_t i = 0; i < S.replays.size(); i++) { fprintf(f, "%s[", i ? "," : ""); for (size_t k = 0; k < S.replays[i].size(); k++) { auto& t = S.replays[i][k]; fprintf(f, "%s[%s,%u,%llu]", k ? "," : "", jstr(std::get<0>(t)).c_str(), std::get<1>(t), (unsigned long long)std::get<2>(t)); } fprintf(f, "]"); }
  fprintf(f, "],\n\"functions\":[");
  { bool first = true; std::set<std::string> seen;
    for (auto* fn : fns) if (fn->executed && fn->decoded && fn->f) {
      std::set<std::string> files; 
      if (auto* sp = fn->f->getSubprogram()) { std::string fl = (sp->getFilename().startswith("/") ? sp->getFilename() : sp->getDirectory() + "/" + sp->getFilename()).str(); if (fl.compare(0, optRepo.size(), optRepo) == 0) { std::string k = fl.substr(optRepo.size()) + "\t" + demangle(fn->name); if (seen.insert(k).second) { fprintf(f, "%s%s", first ? "" : ",", jstr(k).c_str()); first = false; } } }
      // inlined functions
      for (auto& in : fn->code) if (in.src) if (DILocation* l = in.src->getDebugLoc()) for (; l; l = l->getInlinedAt()) if (auto* sp = l->getScope()->getSubprogram()) { std::string fl = (sp->getFilename().startswith("/") ? sp->getFilename() : sp->getDirectory() + "/" + sp->getFilename()).str(); if (fl.compare(0, optRepo.size(), optRepo)) continue; std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); std::string k = fl.substr(optRepo.size()) + "\t" + nm; if (seen.insert(k).second) { fprintf(f, "%s%s", first ? "" : ",", jstr(k).c_str()); first = false; } }
    } }
  fprintf(f, "],\n\"violations\":[");
  for (size_t i = 0; i < S.viol.size(); i++) {
    auto& v = S.viol[i]; fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":[", i ? "," : "", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.loc).c_str(), jstr(v.stack).c_str());
    for (size_t k = 0; k < v.inputs.size(); k++) fprintf(f, "%s[%s,%u,%llu]", k ? "," : "", jstr(std::get<0>(v.inputs[k])).c_str(), std::get<1>(v.inputs[k]), (unsigned long long)std::get<2>(v.inputs[k]));
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n"); fclose(f);
}
static void explore(size_t stopAt) {
  while (!work.empty()) {
    if (stopAt && work.size() >= stopAt) return;
    State* s; if (stopAt) { s = work.front(); work.pop_front(); } else { s = work.back(); work.pop_back(); }
    if (elapsed() > optTime) { incomplete("time limit of " + std::to_string((int)optTime) + " s reached"); delete s; work.clear(); return; }
    if ((int)S.viol.size() >= optMaxViol) { incomplete("stopped after the first violations"); work.clear(); return; }
    run(*s); delete s;
  }
}

int main(int argc, char** argv) {
  std::string in, entry = "symx_main";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") optOut = nx(); else if (a == "--fork-ptr") optForkPtr = true; else if (a == "--entry") entry = nx(); else if (a == "-j") optJobs = stoi(nx()); else if (a == "--time") optTime = stod(nx()); else if (a == "--max-steps") optMaxSteps = stoull(nx()); else if (a == "--max-viol") optMaxViol = stoi(nx());
    else if (a == "--solver-ms") gSolverTimeoutMs = stoi(nx()); else if (a == "--fork-vals") optMaxForkVals = stoull(nx()); else if (a == "--repo") optRepo = nx(); else if (a == "-v") optVerbose = true; else in = a;
  }
  tStart = std::chrono::steady_clock::now();
  LLVMContext ctx; SMDiagnostic err; M = getLazyIRFileModule(in, err, ctx);
  if (!M) { err.print("symx", errs()); return 3; }
  if (auto e = M->materializeMetadata()) { fprintf(stderr, "metadata\n"); return 3; }
  DL = &M->getDataLayout();
  for (auto& f : *M) { Fn* k = new Fn; k->f = &f; k->name = f.getName().str(); k->index = fns.size(); fns.push_back(k); fnMap[&f] = k; }
  for (auto& g : M->globals()) { gvIndex[&g] = gvs.size(); gvs.push_back(&g); }
  initBuiltins();
  auto* s = new State; s->ctx.emplace_back(); s->model = std::make_shared<Assignment>(); initGlobals(*s);
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer() && isa<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function*>> v;
    for (auto& op : cast<ConstantArray>(gc->getInitializer())->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) s->C().pending.push_back(getFn(p.second));
  }
  Function* ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "symx: no function %s\n", entry.c_str()); return 3; }
  s->C().pending.push_back(getFn(ef));
  work.push_back(s);
  if (optJobs <= 1) { explore(0); writeOut(optOut + ".0"); _exit(0); }
  explore(optJobs * 4);
  std::vector<State*> part(work.begin(), work.end()); work.clear();
  writeOut(optOut + ".0");
  int running = 0, rc = 0; size_t k = 0; std::map<pid_t, size_t> kids;
  auto reap = [&] { int st; pid_t p = wait(&st); if (p > 0) { running--; if (!WIFEXITED(st) || WEXITSTATUS(st)) { // a worker died: record it
      FILE* f = fopen((optOut + "." + std::to_string(kids[p] + 1)).c_str(), "w"); fprintf(f, "{\"died\":%d}\n", st); fclose(f); rc = 0; } } };
  for (k = 0; k < part.size(); k++) {
    while (running >= optJobs) reap();
    pid_t p = fork();
    if (p == 0) { S = Stats(); gSolverStats = SolverStats(); work.push_back(part[k]); explore(0); writeOut(optOut + "." + std::to_string(k + 1)); _exit(0); }
    kids[p] = k; running++;
  }
  while (running) reap();
  _exit(rc);
}
