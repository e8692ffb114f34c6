#pragma once
#include "expr.h"
#include "solver.h"
#include "memory.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <set>
#include <deque>

struct Val { u64 c; E e; };

enum Op : uint16_t {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_ICMP, O_FBIN, O_FCMP, O_FNEG, O_TRUNC, O_ZEXT, O_SEXT, O_FPCAST, O_SELECT, O_COPY, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
  O_BR, O_CBR, O_SWITCH, O_CALL, O_INVOKE, O_RET, O_UNREACHABLE, O_INSERTV, O_LANDINGPAD, O_RESUME,
  O_RMW, O_CMPXCHG, O_NOP, O_UNSUP, O_MINMAX, O_OVF, O_SAT, O_BITOP, O_FSH, O_FUN, O_SHUFFLE, O_EXTELT, O_INSELT, O_REDUCE, O_BITCASTV
};
struct Leaf { uint32_t off; uint16_t w; };
struct Copy { int dst, src; };
struct Edge { int target; std::vector<Copy> copies; };
struct Fn;
struct CallInfo {
  Fn* direct = nullptr; int callee = 0; const llvm::CallBase* cb = nullptr;
  std::vector<int> args; std::vector<uint16_t> argw; // flattened slots
  std::vector<std::pair<int, uint32_t>> byval;  // (slot index, size)
  int nfixed = 0; int normal = -1, unwind = -1; int retSlots = 0;
};
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };
struct GepIdx { int ref; uint16_t w; i64 scale; };
struct Inst {
  uint16_t op; uint16_t w; uint16_t sub; uint16_t n;
  int dst, a, b, c;
  u64 imm;
  void* p;
  const llvm::Instruction* src;
};
struct State;
typedef int (*Builtin)(State&, const Inst&, const CallInfo&);
struct Fn {
  llvm::Function* f = nullptr; std::string name; bool decoded = false; bool executed = false;
  uint32_t index = 0; int nregs = 0, nargs = 0;
  std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges;
  Builtin builtin = nullptr; bool resolved = false;
};
struct Frame {
  int rc; Fn* fn; int pc; uint32_t stackMark; u64 va; Val regs[1];
  static Frame* make(Fn* f) { Frame* r = (Frame*)calloc(1, sizeof(Frame) + sizeof(Val) * f->nregs); r->rc = 1; r->fn = f; return r; }
  Frame* clone() const { size_t s = sizeof(Frame) + sizeof(Val) * fn->nregs; Frame* r = (Frame*)malloc(s); memcpy((void*)r, (const void*)this, s); r->rc = 1; return r; }
  void release() { if (--rc == 0) free(this); }
};
struct FrameVec {
  std::vector<Frame*> v;
  FrameVec() {}
  FrameVec(const FrameVec& o) : v(o.v) { for (auto f : v) f->rc++; }
  FrameVec& operator=(const FrameVec& o) { if (this != &o) { for (auto f : o.v) f->rc++; for (auto f : v) f->release(); v = o.v; } return *this; }
  FrameVec(FrameVec&& o) noexcept : v(std::move(o.v)) { o.v.clear(); }
  ~FrameVec() { for (auto f : v) f->release(); }
  Frame* topW() { Frame*& f = v.back(); if (f->rc > 1) { Frame* n = f->clone(); f->release(); f = n; } return f; }
  void pop() { v.back()->release(); v.pop_back(); }
};
struct Exc { u64 obj, type, dtor; int handlers; u64 adj; };
struct Ctx {
  FrameVec frames; Region g, stk, heap;
  std::vector<Exc> excs; std::vector<u64> caught; u64 lpExc = 0; u64 lpSel = 0;
  std::vector<Fn*> pending; // functions still to be called (constructors, entry)
};
struct State {
  std::vector<Ctx> ctx; int cur = 0; Region shared;
  std::vector<E> pc; std::vector<E> inputs; std::shared_ptr<Assignment> model;
  u64 steps = 0, forks = 0; bool ended = false;
  std::vector<int> trail; // choices, for reports
  int expectAbort = 0;
  Ctx& C() { return ctx[cur]; }
};
