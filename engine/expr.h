// Hash-consed bit-vector expression DAG with simplifying constructors.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum class K : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  And, Or, Xor, Shl, LShr, AShr,
  Concat, Extract, ZExt, SExt,
  Eq, Ult, Ule, Slt, Sle, Ite,
  // floating point: operands/results are bit patterns
  FAdd, FSub, FMul, FDiv, FSqrt, FRound /*aux: rounding mode 0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away*/,
  FOEq, FOLt, FOLe, FUno,
  FToSI, FToUI, SIToF, UIToF, FExt, FTrunc, FMa, FRem
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  K k; uint8_t pad; uint16_t w; uint32_t aux; // aux: extract low bit / var id / rounding
  uint32_t id; uint32_t hash;
  const Expr* a; const Expr* b; const Expr* c;
  u64 lo, hi;            // const value
  const VarSet* vars;
  Expr* next;
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) { return w >= 128 ? (i128)v : ((i128)(v << (128 - w)) >> (128 - w)); }
static inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }

struct VarInfo { std::string name; unsigned w; };

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
const VarInfo& varInfo(uint32_t id);
uint32_t numVars();
E mkBin(K k, E a, E b);
E mkNot(E a);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkFp(K k, unsigned w, E a, E b = nullptr, E c = nullptr, unsigned aux = 0);
uint32_t numExprs();

static inline bool isC(E e) { return e->k == K::Const; }
static inline u128 cval(E e) { return ((u128)e->hi << 64) | e->lo; }
static inline bool isTrue(E e) { return isC(e) && e->lo == 1; }
static inline bool isFalse(E e) { return isC(e) && e->lo == 0; }

u128 foldBin(K k, u128 a, u128 b, unsigned w);
u128 foldFp(K k, unsigned w, unsigned wa, u128 a, u128 b, u128 c, unsigned aux);

struct Assignment {
  std::unordered_map<uint32_t, u128> m;
  u128 get(uint32_t v) const { auto i = m.find(v); return i == m.end() ? 0 : i->second; }
};
u128 evalExpr(E e, const Assignment& as);

std::string exprStr(E e, int depth = 6);
