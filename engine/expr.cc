#include "expr.h"
#include <cmath>
#include <cstdio>
#include <algorithm>

static std::vector<VarInfo> gVars;
static std::vector<Expr*> gTable(1 << 16, nullptr);
static uint32_t gCount = 0;
static VarSet gEmpty;
static std::unordered_map<u64, const VarSet*> gUnion;
struct VSHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, VarSet*, VSHash> gSets;
static std::unordered_map<const VarSet*, uint32_t> gSetId;

const VarInfo& varInfo(uint32_t id) { return gVars[id]; }
uint32_t numVars() { return gVars.size(); }
uint32_t numExprs() { return gCount; }

static const VarSet* internSet(std::vector<uint32_t>&& v) {
  auto it = gSets.find(v);
  if (it != gSets.end()) return it->second;
  VarSet* s = new VarSet; s->v = v;
  gSets.emplace(std::move(v), s);
  gSetId[s] = gSetId.size() + 1;
  return s;
}
static const VarSet* unionSet(const VarSet* a, const VarSet* b) {
  if (a == b || b == &gEmpty) return a;
  if (a == &gEmpty) return b;
  uint32_t ia = gSetId[a], ib = gSetId[b];
  if (ia > ib) std::swap(ia, ib);
  u64 key = ((u64)ia << 32) | ib;
  auto it = gUnion.find(key);
  if (it != gUnion.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  auto s = internSet(std::move(r));
  gUnion[key] = s;
  return s;
}

static inline uint32_t mix(uint32_t h, u64 x) { u64 z = (h + 0x9E3779B97F4A7C15ull) ^ x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 27; return (uint32_t)(z ^ (z >> 32)); }

static E intern(K k, unsigned w, unsigned aux, E a, E b, E c, u64 lo = 0, u64 hi = 0) {
  uint32_t h = mix((uint32_t)k * 131 + w, aux);
  h = mix(h, (u64)a); h = mix(h, (u64)b); h = mix(h, (u64)c); h = mix(h, lo); h = mix(h, hi);
  size_t idx = h & (gTable.size() - 1);
  for (Expr* p = gTable[idx]; p; p = p->next)
    if (p->hash == h && p->k == k && p->w == w && p->aux == aux && p->a == a && p->b == b && p->c == c && p->lo == lo && p->hi == hi) return p;
  if (gCount > gTable.size()) {
    std::vector<Expr*> nt(gTable.size() * 4, nullptr);
    for (auto p : gTable) while (p) { auto n = p->next; size_t i = p->hash & (nt.size() - 1); p->next = nt[i]; nt[i] = p; p = n; }
    gTable.swap(nt);
    idx = h & (gTable.size() - 1);
  }
  static Expr* pool = nullptr; static size_t left = 0;
  if (!left) { pool = (Expr*)malloc(sizeof(Expr) * 4096); left = 4096; }
  Expr* e = pool++; left--;
  e->k = k; e->w = w; e->aux = aux; e->id = gCount++; e->hash = h; e->a = a; e->b = b; e->c = c; e->lo = lo; e->hi = hi;
  if (k == K::Var) e->vars = internSet(std::vector<uint32_t>{aux});
  else {
    const VarSet* s = &gEmpty;
    if (a) s = unionSet(s, a->vars);
    if (b) s = unionSet(s, b->vars);
    if (c) s = unionSet(s, c->vars);
    e->vars = s;
  }
  e->next = gTable[idx]; gTable[idx] = e;
  return e;
}

E mkConst(u128 v, unsigned w) { v &= maskw(w); return intern(K::Const, w, 0, nullptr, nullptr, nullptr, (u64)v, (u64)(v >> 64)); }
E mkVar(const std::string& name, unsigned w) { uint32_t id = gVars.size(); gVars.push_back({name, w}); return intern(K::Var, w, id, nullptr, nullptr, nullptr); }

u128 foldBin(K k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b ? a / b : m;
    case K::URem: return b ? a % b : a;
    case K::SDiv: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case K::SRem: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K::AShr: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sextw(a, w) < sextw(b, w);
    case K::Sle: return sextw(a, w) <= sextw(b, w);
    default: return 0;
  }
}

E mkNot(E a) {
  if (isC(a)) return mkConst(~cval(a), a->w);
  if (a->k == K::Xor && isC(a->b) && cval(a->b) == maskw(a->w)) return a->a;
  if (a->w == 1) {
    if (a->k == K::Ult) return intern(K::Ule, 1, 0, a->b, a->a, nullptr);
    if (a->k == K::Ule) return intern(K::Ult, 1, 0, a->b, a->a, nullptr);
    if (a->k == K::Slt) return intern(K::Sle, 1, 0, a->b, a->a, nullptr);
    if (a->k == K::Sle) return intern(K::Slt, 1, 0, a->b, a->a, nullptr);
  }
  return intern(K::Xor, a->w, 0, a, mkConst(maskw(a->w), a->w), nullptr);
}

static bool isCmp(K k) { return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle; }
static bool commut(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }
// number of known-zero high bits
static unsigned hiZero_(E e, int& fuel) {
  if (--fuel < 0) return 0;   // shared subterms: bound the walk (0 = nothing known)
  switch (e->k) {
    case K::Const: { u128 v = cval(e); unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((v >> i) & 1); i--) n++; return n; }
    case K::ZExt: return e->w - e->a->w + hiZero_(e->a, fuel);
    case K::Concat: { unsigned h = hiZero_(e->a, fuel); return h == e->a->w ? h + hiZero_(e->b, fuel) : h; }
    case K::And: return std::max(hiZero_(e->a, fuel), hiZero_(e->b, fuel));
    case K::Or: case K::Xor: return std::min(hiZero_(e->a, fuel), hiZero_(e->b, fuel));
    case K::Ite: return std::min(hiZero_(e->b, fuel), hiZero_(e->c, fuel));
    case K::URem: return isC(e->b) && cval(e->b) ? hiZero_(e->b, fuel) : 0;
    case K::UDiv: return hiZero_(e->a, fuel);
    default: return 0;
  }
}
static unsigned hiZero(E e) { int fuel = 256; return hiZero_(e, fuel); }
static bool lowMaskBits(u128 v, unsigned& n) { n = 0; while (v & 1) { n++; v >>= 1; } return v == 0; }

E mkExtract(E a, unsigned lo, unsigned w) {
  if (w == a->w) return a;
  switch (a->k) {
    case K::Const: return mkConst(cval(a) >> lo, w);
    case K::Extract: return mkExtract(a->a, a->aux + lo, w);
    case K::Concat:
      if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
      if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case K::ZExt:
      if (lo >= a->a->w) return mkConst(0, w);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case K::SExt:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
      return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case K::And: case K::Or: case K::Xor:
      return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case K::Ite:
      if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      break;
    case K::Add: case K::Sub: case K::Mul:
      if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return intern(K::Extract, w, lo, a, nullptr, nullptr);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((cval(hi) << lo->w) | cval(lo), w);
  if (isC(hi) && cval(hi) == 0) return mkZExt(lo, w);
  if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  // adjacent extracts
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
  if (lo->k == K::Extract && lo->aux + lo->w == lo->a->w && false) {}
  if (hi->k == K::Extract && lo == hi->a && hi->aux == lo->w && false) {}
  if (lo->k == K::Concat) {
    // right-assoc -> try merging hi with lo.a
    E m = nullptr;
    if (hi->k == K::Extract && lo->a->k == K::Extract && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w) m = mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w);
    else if (isC(hi) && isC(lo->a)) m = mkConst((cval(hi) << lo->a->w) | cval(lo->a), hi->w + lo->a->w);
    if (m) return mkConcat(m, lo->b);
  }
  if (hi->k == K::Concat) { // normalise to right-assoc
    return mkConcat(hi->a, mkConcat(hi->b, lo));
  }
  return intern(K::Concat, w, 0, hi, lo, nullptr);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(cval(a), w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  return intern(K::ZExt, w, 0, a, nullptr, nullptr);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sextw(cval(a), a->w), w);
  if (a->k == K::SExt) return mkSExt(a->a, w);
  if (hiZero(a) > 0) return mkZExt(a, w);
  return intern(K::SExt, w, 0, a, nullptr, nullptr);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->lo ? a : b;
  if (a == b) return a;
  if (c->k == K::Xor && c->w == 1 && isC(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isTrue(a)) return mkBin(K::Or, c, b);
    if (isFalse(a)) return mkBin(K::And, mkNot(c), b);
    if (isTrue(b)) return mkBin(K::Or, mkNot(c), a);
    if (isFalse(b)) return mkBin(K::And, c, a);
  }
  if (a->k == K::Ite && a->a == c) a = a->b;
  if (b->k == K::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->k == K::Ite && b->b == a) return mkIte(mkBin(K::Or, c, b->a), a, b->c);
  return intern(K::Ite, a->w, 0, c, a, b);
}

static unsigned loZero_(E e, int& fuel) { // known zero low bits
  if (--fuel < 0) return 0;
  switch (e->k) {
    case K::Const: { u128 v = cval(e); if (!v) return e->w; unsigned n = 0; while (!((v >> n) & 1)) n++; return n; }
    case K::Concat: { unsigned l = loZero_(e->b, fuel); return l == e->b->w ? l + loZero_(e->a, fuel) : l; }
    case K::ZExt: case K::SExt: { unsigned l = loZero_(e->a, fuel); return l == e->a->w ? e->w : l; }
    case K::And: return std::max(loZero_(e->a, fuel), loZero_(e->b, fuel));
    case K::Or: case K::Xor: case K::Add: case K::Sub: return std::min(loZero_(e->a, fuel), loZero_(e->b, fuel));
    case K::Mul: return std::min<unsigned>(e->w, loZero_(e->a, fuel) + loZero_(e->b, fuel));
    case K::Ite: return std::min(loZero_(e->b, fuel), loZero_(e->c, fuel));
    default: return 0;
  }
}
static unsigned loZero(E e) { int fuel = 256; return loZero_(e, fuel); }
unsigned exprLoZero(E e) { return loZero(e); }
unsigned exprHiZero(E e) { return hiZero(e); }

// low part constant: add (or subtract) a small constant without carrying out of it
static E addLow(E e, u128 c, bool sub) {
  if (isC(e)) {
    u128 v = cval(e), m = maskw(e->w); if (c > m) return nullptr;
    if (sub) { if (c > v) return nullptr; return mkConst(v - c, e->w); }
    if (v + c > m || v + c < v) return nullptr;
    return mkConst(v + c, e->w);
  }
  if (e->k == K::Concat) { E l = addLow(e->b, c, sub); return l ? mkConcat(e->a, l) : nullptr; }
  return nullptr;
}
E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  unsigned rw = isCmp(k) ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(foldBin(k, cval(a), cval(b), w), rw);
  if (commut(k)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  bool cb = isC(b); u128 bv = cb ? cval(b) : 0; u128 m = maskw(w);
  switch (k) {
    case K::Add:
      if (cb && bv == 0) return a;
      if (cb && a->k == K::Add && isC(a->b)) return mkBin(K::Add, a->a, mkConst(cval(a->b) + bv, w));
      if (cb && a->k == K::Sub && isC(a->a)) return mkBin(K::Sub, mkConst(cval(a->a) + bv, w), a->b);
      if (!cb && a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
      if (!cb && b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
      if (a->k == K::Sub && a->b == b) return a->a;
      if (b->k == K::Sub && b->b == a) return b->a;
      if (cb && a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      if (cb && a->k == K::Concat) { E r = addLow(a, bv, false); if (!r) r = addLow(a, (-bv) & m, true); if (r) return r; }
      // disjoint bits -> or
      if (loZero(a) + hiZero(b) >= w || loZero(b) + hiZero(a) >= w) return mkBin(K::Or, a, b);
      if (w == 1) return mkBin(K::Xor, a, b);
      break;
    case K::Sub:
      if (cb) return mkBin(K::Add, a, mkConst(-bv, w));
      if (a == b) return mkConst(0, w);
      if (a->k == K::Add && a->a == b) return a->b;
      if (a->k == K::Add && a->b == b) return a->a;
      if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
      if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Sub, a, b->a), mkConst(-cval(b->b), w));
      break;
    case K::Mul:
      if (cb && bv == 0) return b;
      if (cb && bv == 1) return a;
      if (cb && (bv & (bv - 1)) == 0) { unsigned s = 0; while (!((bv >> s) & 1)) s++; return mkBin(K::Shl, a, mkConst(s, w)); }
      if (cb && a->k == K::Mul && isC(a->b)) return mkBin(K::Mul, a->a, mkConst(cval(a->b) * bv, w));
      if (cb && a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      break;
    case K::UDiv:
      if (cb && bv == 1) return a;
      if (cb && bv && (bv & (bv - 1)) == 0) { unsigned s = 0; while (!((bv >> s) & 1)) s++; return mkBin(K::LShr, a, mkConst(s, w)); }
      { // narrow
        unsigned hz = std::min(hiZero(a), hiZero(b));
        if (hz >= 8 && cb && bv) { unsigned nw = w - hz; return mkZExt(mkBin(k, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w); }
      }
      break;
    case K::URem:
      if (cb && bv == 1) return mkConst(0, w);
      if (cb && bv && (bv & (bv - 1)) == 0) return mkBin(K::And, a, mkConst(bv - 1, w));
      { unsigned hz = std::min(hiZero(a), hiZero(b));
        if (hz >= 8 && cb && bv) { unsigned nw = w - hz; return mkZExt(mkBin(k, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w); } }
      break;
    case K::SDiv:
      if (cb && bv == 1) return a;
      if (hiZero(a) > 0 && hiZero(b) > 0) return mkBin(K::UDiv, a, b);
      break;
    case K::SRem:
      if (cb && bv == 1) return mkConst(0, w);
      if (hiZero(a) > 0 && hiZero(b) > 0) return mkBin(K::URem, a, b);
      break;
    case K::And:
      if (cb && bv == 0) return b;
      if (cb && bv == m) return a;
      if (a == b) return a;
      if (cb && a->k == K::And && isC(a->b)) return mkBin(K::And, a->a, mkConst(cval(a->b) & bv, w));
      if (cb && a->k == K::Or && isC(a->b)) return mkBin(K::Or, mkBin(K::And, a->a, b), mkConst(cval(a->b) & bv, w));
      if (w == 1) {
        if (a == mkNot(b)) return mkConst(0, 1);
        if (b->k == K::And && (b->a == a || b->b == a)) return b;
        if (a->k == K::And && (a->a == b || a->b == b)) return a;
      }
      if (cb && a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      if (cb) {
        // contiguous run of ones: extract
        unsigned lz = 0; while (!((bv >> lz) & 1)) lz++;
        unsigned n; if (lowMaskBits(bv >> lz, n)) {
          E x = mkExtract(a, lz, n);
          if (lz) x = mkConcat(x, mkConst(0, lz));
          return mkZExt(x, w);
        }
        // a run of zeros in the middle (field clear): concat pieces
        u128 inv = ~bv & m; unsigned iz = 0; while (!((inv >> iz) & 1)) iz++;
        unsigned in; if (lowMaskBits(inv >> iz, in)) {
          E r = mkConst(0, in);
          if (iz) r = mkConcat(r, mkExtract(a, 0, iz));
          if (iz + in < w) r = mkConcat(mkExtract(a, iz + in, w - iz - in), r);
          return r;
        }
      }
      break;
    case K::Or:
      if (cb && bv == 0) return a;
      if (cb && bv == m) return b;
      if (a == b) return a;
      if (cb && a->k == K::Or && isC(a->b)) return mkBin(K::Or, a->a, mkConst(cval(a->b) | bv, w));
      if (cb && w > 1) {
        if (a->k == K::Concat || a->k == K::ZExt) {
          unsigned lw = a->k == K::Concat ? a->b->w : a->a->w;
          E hi = a->k == K::Concat ? a->a : mkConst(0, w - lw);
          E lo = a->k == K::Concat ? a->b : a->a;
          return mkConcat(mkBin(K::Or, hi, mkExtract(b, lw, w - lw)), mkBin(K::Or, lo, mkExtract(b, 0, lw)));
        }
        // runs of ones become constants
        unsigned lz = 0; while (!((bv >> lz) & 1)) lz++;
        unsigned n; if (lowMaskBits(bv >> lz, n)) {
          E r = mkConst(maskw(n), n);
          if (lz) r = mkConcat(r, mkExtract(a, 0, lz));
          if (lz + n < w) r = mkConcat(mkExtract(a, lz + n, w - lz - n), r);
          return r;
        }
      }
      if (w > 1 && !cb) {
        // split at concat boundaries so that disjoint fields become plain concats
        auto split = [&](E x, unsigned& at) { if (x->k == K::Concat) { at = x->b->w; return true; } if (x->k == K::ZExt) { at = x->a->w; return true; } return false; };
        unsigned sa, sb;
        bool ha = split(a, sa), hb = split(b, sb);
        if (ha && hb) {
          unsigned s = std::min(sa, sb);
          return mkConcat(mkBin(K::Or, mkExtract(a, s, w - s), mkExtract(b, s, w - s)), mkBin(K::Or, mkExtract(a, 0, s), mkExtract(b, 0, s)));
        }
      }
      if (w == 1) { if (a == mkNot(b)) return mkConst(1, 1); }
      break;
    case K::Xor:
      if (cb && bv == 0) return a;
      if (a == b) return mkConst(0, w);
      if (cb && bv == m) return mkNot(a);
      if (cb && a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, a->a, mkConst(cval(a->b) ^ bv, w));
      if (cb && a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      break;
    case K::Shl:
      if (cb) { if (bv == 0) return a; if (bv >= w) return mkConst(0, w); unsigned s = (unsigned)bv; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      if (isC(a) && cval(a) == 0) return a;
      break;
    case K::LShr:
      if (cb) { if (bv == 0) return a; if (bv >= w) return mkConst(0, w); unsigned s = (unsigned)bv; return mkZExt(mkExtract(a, s, w - s), w); }
      if (isC(a) && cval(a) == 0) return a;
      break;
    case K::AShr:
      if (cb) { if (bv == 0) return a; unsigned s = bv >= w ? w - 1 : (unsigned)bv; return mkSExt(mkExtract(a, s, w - s), w); }
      if (hiZero(a) > 0) return mkBin(K::LShr, a, b);
      break;
    case K::Eq:
      if (a == b) return mkConst(1, 1);
      if (w == 1) { if (cb) return bv ? a : mkNot(a); }
      if (cb) {
        if (a->k == K::ZExt) { if (bv >> a->a->w) return mkConst(0, 1); return mkBin(K::Eq, a->a, mkConst(bv, a->a->w)); }
        if (a->k == K::SExt) { u128 t = bv & maskw(a->a->w); if (((u128)sextw(t, a->a->w) & m) != bv) return mkConst(0, 1); return mkBin(K::Eq, a->a, mkConst(t, a->a->w)); }
        if (a->k == K::Concat) return mkBin(K::And, mkBin(K::Eq, a->a, mkConst(bv >> a->b->w, a->a->w)), mkBin(K::Eq, a->b, mkConst(bv, a->b->w)));
        if (a->k == K::Add && isC(a->b)) return mkBin(K::Eq, a->a, mkConst(bv - cval(a->b), w));
        if (a->k == K::Sub && isC(a->a)) return mkBin(K::Eq, a->b, mkConst(cval(a->a) - bv, w));
        if (a->k == K::Sub && bv == 0) return mkBin(K::Eq, a->a, a->b);
        if (a->k == K::Xor && isC(a->b)) return mkBin(K::Eq, a->a, mkConst(cval(a->b) ^ bv, w));
        if (a->k == K::Xor && bv == 0) return mkBin(K::Eq, a->a, a->b);
        if (a->k == K::Ite && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(K::Eq, a->b, b), mkBin(K::Eq, a->c, b));
      } else {
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
        if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
        if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w) return mkBin(K::And, mkBin(K::Eq, a->a, b->a), mkBin(K::Eq, a->b, b->b));
        if (a->k == K::Add && b->k == K::Add && a->b == b->b) return mkBin(K::Eq, a->a, b->a);
        if (a->k == K::Add && a->a == b) return mkBin(K::Eq, a->b, mkConst(0, w));
        if (a->k == K::Add && a->b == b) return mkBin(K::Eq, a->a, mkConst(0, w));
        if (b->k == K::Add && b->a == a) return mkBin(K::Eq, b->b, mkConst(0, w));
        if (b->k == K::Add && b->b == a) return mkBin(K::Eq, b->a, mkConst(0, w));
        if (a->k == K::Ite && b->k == K::Ite && a->a == b->a) return mkIte(a->a, mkBin(K::Eq, a->b, b->b), mkBin(K::Eq, a->c, b->c));
      }
      break;
    case K::Ult:
      if (a == b) return mkConst(0, 1);
      if (cb && bv == 0) return mkConst(0, 1);
      if (cb && bv == 1) return mkBin(K::Eq, a, mkConst(0, w));
      if (isC(a) && cval(a) == m) return mkConst(0, 1);
      if (isC(a) && cval(a) == 0) return mkNot(mkBin(K::Eq, b, a));
      goto cmpcommon;
    case K::Ule:
      if (a == b) return mkConst(1, 1);
      if (cb && bv == m) return mkConst(1, 1);
      if (isC(a) && cval(a) == 0) return mkConst(1, 1);
      if (cb && bv == 0) return mkBin(K::Eq, a, b);
      goto cmpcommon;
    case K::Slt:
      if (a == b) return mkConst(0, 1);
      goto cmpcommon;
    case K::Sle:
      if (a == b) return mkConst(1, 1);
      goto cmpcommon;
    cmpcommon: {
      bool sgn = k == K::Slt || k == K::Sle;
      if (a->k == K::Ite && cb && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      if (b->k == K::Ite && isC(a) && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
      unsigned ha = hiZero(a), hb = hiZero(b);
      if (sgn && ha > 0 && hb > 0) return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
      if (a->k == K::Concat && b->k == K::Concat && a->a == b->a) return mkBin(k == K::Slt ? K::Ult : k == K::Sle ? K::Ule : k, a->b, b->b);
      if (!sgn && w > 1) {
        unsigned h = std::min(ha, hb);
        if (h == w) h = w - 1;
        if (h > 0 && (a->k == K::ZExt || b->k == K::ZExt)) return mkBin(k, mkExtract(a, 0, w - h), mkExtract(b, 0, w - h));
        // value ranges by known zero high bits
        if (cb && ha > 0) { u128 mx = maskw(w - ha); if (k == K::Ult ? mx < bv : mx <= bv) return mkConst(1, 1); }
        if (isC(a) && hb > 0) { u128 mx = maskw(w - hb); u128 av = cval(a); if (k == K::Ult ? av >= mx : av > mx) return mkConst(0, 1); }
      }
      if (sgn) {
        if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        if (a->k == K::SExt && cb) { i128 v = sextw(bv, w); unsigned n = a->a->w; i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
          if (v < lo) return mkConst(0, 1); if (v > hi) return mkConst(1, 1); return mkBin(k, a->a, mkConst((u128)v, n)); }
        if (b->k == K::SExt && isC(a)) { i128 v = sextw(cval(a), w); unsigned n = b->a->w; i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
          if (v < lo) return mkConst(1, 1); if (v > hi) return mkConst(0, 1); return mkBin(k, mkConst((u128)v, n), b->a); }
      }
      break;
    }
    default: break;
  }
  return intern(k, rw, 0, a, b, nullptr);
}

// ---------------------------------------------------------------- floating point
template <class T, class U> static T fromBits(u128 v) { U u = (U)v; T t; memcpy(&t, &u, sizeof t); return t; }
template <class T, class U> static u128 toBits(T t) { U u; if (t != t) { return sizeof(T) == 8 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000u; } memcpy(&u, &t, sizeof t); return u; }
static double getF(u128 v, unsigned w) { return w == 64 ? fromBits<double, u64>(v) : (double)fromBits<float, uint32_t>(v); }
static u128 putF(double d, unsigned w) { return w == 64 ? toBits<double, u64>(d) : toBits<float, uint32_t>((float)d); }

u128 foldFp(K k, unsigned w, unsigned wa, u128 a, u128 b, u128 c, unsigned aux) {
  double x = 0, y = 0;
  if (k != K::SIToF && k != K::UIToF) { x = getF(a, wa); y = getF(b, wa); }
  switch (k) {
    case K::FAdd: return w == 32 ? toBits<float, uint32_t>((float)x + (float)y) : putF(x + y, w);
    case K::FSub: return w == 32 ? toBits<float, uint32_t>((float)x - (float)y) : putF(x - y, w);
    case K::FMul: return w == 32 ? toBits<float, uint32_t>((float)x * (float)y) : putF(x * y, w);
    case K::FDiv: return w == 32 ? toBits<float, uint32_t>((float)x / (float)y) : putF(x / y, w);
    case K::FRem: return putF(fmod(x, y), w);
    case K::FSqrt: return w == 32 ? toBits<float, uint32_t>(sqrtf((float)x)) : putF(sqrt(x), w);
    case K::FMa: return w == 32 ? toBits<float, uint32_t>(fmaf((float)x, (float)y, (float)getF(c, wa))) : putF(fma(x, y, getF(c, wa)), w);
    case K::FRound: switch (aux) { case 0: return putF(floor(x), w); case 1: return putF(ceil(x), w); case 2: return putF(trunc(x), w); case 3: return putF(nearbyint(x), w); default: return putF(round(x), w); }
    case K::FOEq: return x == y;
    case K::FOLt: return x < y;
    case K::FOLe: return x <= y;
    case K::FUno: return x != x || y != y;
    case K::FToSI: { // out of range: x86 "indefinite"
      double lim = ldexp(1.0, w - 1);
      if (!(x >= -lim && x < lim)) { unsigned cw = w <= 32 ? 32 : 64; if (w < cw) { double l2 = ldexp(1.0, cw - 1); if (x >= -l2 && x < l2) return (u128)(i64)x & maskw(w); } return ((u128)1 << (cw - 1)) & maskw(w); }
      return (u128)(i64)x & maskw(w); }
    case K::FToUI: { if (!(x > -1 && x < ldexp(1.0, w))) { if (x >= -ldexp(1.0, 63) && x < ldexp(1.0, 63)) return (u128)(i64)x & maskw(w); return ((u128)1 << 63) & maskw(w); } return (u128)(u64)x & maskw(w); }
    case K::SIToF: { i64 v = (i64)sextw(a, wa); return w == 32 ? toBits<float, uint32_t>((float)v) : putF((double)v, w); }
    case K::UIToF: { u64 v = (u64)a; return w == 32 ? toBits<float, uint32_t>((float)v) : putF((double)v, w); }
    case K::FExt: return putF(x, w);
    case K::FTrunc: return putF((double)(float)x, w);
    default: return 0;
  }
}

// Exact fixed-point view of floating expressions: a value known to be p * 2^s with |p| < 2^bits (p a signed 64-bit term)
// is kept as SIToF(p) [* 2^s]; operations whose exact result again fits the significand are done on p. Every rewrite is
// an identity of IEEE arithmetic (results that could be -0 are left alone).
struct Dy { E p; int s; unsigned bits; bool nn; };
static unsigned sbits(E e, int d = 0) { // |e as signed| < 2^sbits
  unsigned full = e->w; unsigned r = full;
  if (isC(e)) { i128 v = sextw(cval(e), e->w); u128 m = v < 0 ? (u128)-v : (u128)v; unsigned n = 0; while (n < 128 && (m >> n)) n++; return n; }
  if (unsigned z = hiZero(e)) r = std::min(r, e->w - z);
  if (d > 16) return r;
  switch (e->k) {
    case K::SExt: r = std::min(r, sbits(e->a, d + 1)); break;
    case K::Add: case K::Sub: { unsigned n = std::max(sbits(e->a, d + 1), sbits(e->b, d + 1)) + 1; if (n < full) r = std::min(r, n); break; }
    case K::Mul: { unsigned n = sbits(e->a, d + 1) + sbits(e->b, d + 1); if (n < full) r = std::min(r, n); break; }
    case K::Shl: if (isC(e->b) && e->b->lo < full) { unsigned n = sbits(e->a, d + 1) + e->b->lo; if (n < full) r = std::min(r, n); } break;
    case K::AShr: { unsigned n = sbits(e->a, d + 1); if (isC(e->b) && e->b->lo < n) n -= (unsigned)e->b->lo; r = std::min(r, std::max(n, 1u)); break; }
    case K::Ite: r = std::min(r, std::max(sbits(e->b, d + 1), sbits(e->c, d + 1))); break;
    default: break;
  }
  return r;
}
static bool nonNeg(E e, int d = 0) {
  if (isC(e)) return !((cval(e) >> (e->w - 1)) & 1);
  if (hiZero(e) > 0) return true;
  if (d > 16) return false;
  switch (e->k) {
    case K::Ite: return nonNeg(e->b, d + 1) && nonNeg(e->c, d + 1);
    case K::Add: case K::Mul: return sbits(e) < e->w && nonNeg(e->a, d + 1) && nonNeg(e->b, d + 1) &&
      (e->k == K::Add ? std::max(sbits(e->a), sbits(e->b)) + 1 : sbits(e->a) + sbits(e->b)) < e->w;
    case K::Shl: return isC(e->b) && e->b->lo < e->w && sbits(e->a) + e->b->lo < e->w && nonNeg(e->a, d + 1);
    case K::SExt: return nonNeg(e->a, d + 1);
    default: return false;
  }
}
static unsigned prec(unsigned w) { return w == 64 ? 53 : 24; }
static E i64e(E x) { return x->w >= 64 ? mkExtract(x, 0, 64) : mkSExt(x, 64); }
static bool constDy(E e, Dy& d) {
  double x = e->w == 64 ? getF(cval(e), 64) : e->w == 32 ? getF(cval(e), 32) : 0.0 / 0.0;
  if (!(x - x == 0)) return false; // NaN, inf
  if (x == 0) { if (std::signbit(x)) return false; d = Dy{mkConst(0, 64), 0, 0, true}; return true; }
  int ex; double f = std::frexp(x, &ex); i64 m = (i64)std::ldexp(f, 53); int s = ex - 53; while (!(m & 1)) { m /= 2; s++; }
  if (s > 0 && s < 40) { u64 am = m < 0 ? -(u64)m : m; if ((am >> (62 - s)) == 0) { m *= (i64)1 << s; s = 0; } }
  u64 am = m < 0 ? -(u64)m : m; unsigned b = 0; while (b < 64 && (am >> b)) b++;
  if (s < -200 || s > 200) return false;
  d = Dy{mkConst((u64)m, 64), s, b, m >= 0}; return true;
}
static bool align(Dy& x, int s) { int k = x.s - s; if (k < 0 || x.bits + k > 62) return false; if (k) { x.p = mkBin(K::Shl, x.p, mkConst(k, 64)); x.s = s; x.bits += k; } return true; }
static bool asDy(E e, Dy& d, int depth = 0) {
  if (e->w != 64 && e->w != 32) return false;
  switch (e->k) {
    case K::Const: return constDy(e, d);
    case K::SIToF: { if (e->a->w > 64) return false; unsigned b = sbits(e->a); if (b > prec(e->w)) return false; d = Dy{i64e(e->a), 0, b, nonNeg(e->a)}; return true; }
    case K::UIToF: { if (e->a->w > 64) return false; unsigned b = e->a->w - hiZero(e->a); if (b > prec(e->w)) return false; d = Dy{e->a->w == 64 ? e->a : mkZExt(e->a, 64), 0, b, true}; return true; }
    case K::FMul: {
      E x = e->a, y = e->b; if (isC(x)) std::swap(x, y);
      if (!isC(y) || x->k != K::SIToF) return false;
      Dy c, v; if (!constDy(y, c) || !isC(c.p) || !asDy(x, v, depth + 1)) return false;
      u64 m = c.p->lo; if ((i64)m <= 0 || (m & (m - 1))) return false; int k = 0; while ((m >> k) > 1) k++;
      d = v; d.s += c.s + k; return true; }
    case K::FExt: return asDy(e->a, d, depth + 1);
    case K::Ite: { if (depth > 6) return false; Dy x, y; if (!asDy(e->b, x, depth + 1) || !asDy(e->c, y, depth + 1)) return false;
      int s = std::min(x.s, y.s); if (isC(x.p) && !x.p->lo) { x.s = s; } if (isC(y.p) && !y.p->lo) y.s = s;
      if (!align(x, s) || !align(y, s)) return false;
      d = Dy{mkIte(e->a, x.p, y.p), s, std::max(x.bits, y.bits), x.nn && y.nn}; return true; }
    default: return false;
  }
}
static E mkDy(const Dy& d, unsigned w) {
  if (isC(d.p)) { double x = std::ldexp((double)(i64)d.p->lo, d.s); return w == 64 ? mkConst(putF(x, 64), 64) : mkConst(toBits<float, uint32_t>((float)x), 32); }
  E x = intern(K::SIToF, w, 0, d.p, nullptr, nullptr);
  if (!d.s) return x;
  double k = std::ldexp(1.0, d.s); E c = w == 64 ? mkConst(putF(k, 64), 64) : mkConst(toBits<float, uint32_t>((float)k), 32);
  E p = x, q = c; if (p->id > q->id) std::swap(p, q);
  return intern(K::FMul, w, 0, p, q, nullptr);
}
// The exact value of e, ignoring the sign of a zero: enough for comparisons.
static bool asDyL(E e, Dy& d, int depth = 0) {
  if (asDy(e, d)) return true;
  if (depth > 20 || (e->w != 64 && e->w != 32)) return false; Dy x, y;
  switch (e->k) {
    case K::Const: { if (getF(cval(e), e->w) != 0) return false; d = Dy{mkConst(0, 64), 0, 0, true}; return true; }
    case K::FAdd: case K::FSub: case K::Ite: {
      if (!asDyL(e->k == K::Ite ? e->b : e->a, x, depth + 1) || !asDyL(e->k == K::Ite ? e->c : e->b, y, depth + 1)) return false;
      if (isC(x.p) && !x.p->lo) x.s = y.s; if (isC(y.p) && !y.p->lo) y.s = x.s;
      int s = std::min(x.s, y.s); if (!align(x, s) || !align(y, s)) return false;
      if (e->k == K::Ite) { d = Dy{mkIte(e->a, x.p, y.p), s, std::max(x.bits, y.bits), x.nn && y.nn}; return true; }
      unsigned bits = std::max(x.bits, y.bits) + 1; if (bits > prec(e->w)) return false;
      d = Dy{mkBin(e->k == K::FAdd ? K::Add : K::Sub, x.p, y.p), s, bits, e->k == K::FAdd && x.nn && y.nn}; return true; }
    case K::FMul: {
      if (!asDyL(e->a, x, depth + 1) || !asDyL(e->b, y, depth + 1)) return false;
      if (x.bits + y.bits > prec(e->w) || std::abs(x.s + y.s) > 200) return false;
      d = Dy{mkBin(K::Mul, x.p, y.p), x.s + y.s, x.bits + y.bits, x.nn && y.nn}; return true; }
    case K::FDiv: {
      if (!isC(e->b) || !constDy(e->b, y)) return false; u64 m = y.p->lo; if ((i64)m <= 0 || (m & (m - 1)) || !asDyL(e->a, x, depth + 1)) return false;
      int n = 0; while ((m >> n) > 1) n++; x.s -= y.s + n; if (std::abs(x.s) > 200) return false; d = x; return true; }
    default: return false;
  }
}
struct Rat { Dy n; u64 q; unsigned qb; };
static bool asRat(E e, Rat& r) {
  if (asDy(e, r.n)) { r.q = 1; r.qb = 0; return true; }
  if (e->k != K::FDiv || !isC(e->b)) return false;
  Dy c; if (!constDy(e->b, c) || !asDy(e->a, r.n)) return false;
  i64 m = (i64)c.p->lo; if (m <= 0) return false; int k = 0; while (!((m >> k) & 1)) k++;
  r.q = (u64)m >> k; r.n.s -= c.s + k; r.qb = 0; while (r.q >> r.qb) r.qb++;
  return true;
}
// |e| <= 2^n, finite and not NaN
static bool fmag(E e, int& n, int d = 0) {
  Dy x; if (asDy(e, x)) { n = (int)x.bits + x.s; return true; }
  if (d > 12) return false; int p, q;
  switch (e->k) {
    case K::FAdd: case K::FSub: if (!fmag(e->a, p, d + 1) || !fmag(e->b, q, d + 1)) return false; n = std::max(p, q) + 1; break;
    case K::FMul: if (!fmag(e->a, p, d + 1) || !fmag(e->b, q, d + 1)) return false; n = p + q + 1; break;
    case K::FDiv: { if (!isC(e->b) || !fmag(e->a, p, d + 1)) return false; double v = getF(cval(e->b), e->w); int ex; if (!(v - v == 0) || v == 0) return false; std::frexp(v, &ex); n = p - ex + 2; break; }
    case K::Ite: if (!fmag(e->b, p, d + 1) || !fmag(e->c, q, d + 1)) return false; n = std::max(p, q); break;
    case K::ZExt: if (e->a->k == K::Extract && e->a->aux == 0 && e->a->w + 1 == e->w && e->a->a->w == e->w) return fmag(e->a->a, n, d + 1); return false; // fabs
    default: return false;
  }
  return n < (e->w == 64 ? 900 : 100) && n > -900;
}
static E tryDy(K k, unsigned w, E a, E b, unsigned aux) {
  Dy x, y;
  switch (k) {
    case K::FOEq: case K::FOLt: case K::FOLe: {
      if (a == b && k == K::FOLt) return asDy(a, x) ? mkConst(0, 1) : nullptr;
      for (int side = 0; side < 2; side++) { // against a constant beyond the value's range
        E ce = side ? b : a, ve = side ? a : b; int n; if (!isC(ce) || isC(ve) || !fmag(ve, n)) continue;
        double cv = getF(cval(ce), ce->w); if (!(std::fabs(cv) > std::ldexp(1.0, n))) continue;
        if (k == K::FOEq) return mkConst(0, 1); return mkConst(side ? cv > 0 : cv < 0, 1); }
      Rat p, q; if (!asRat(a, p) || !asRat(b, q)) {
        if (!asDyL(a, x) || !asDyL(b, y)) return nullptr;
        if (isC(x.p) && !x.p->lo) x.s = y.s; if (isC(y.p) && !y.p->lo) y.s = x.s; int t = std::min(x.s, y.s); if (!align(x, t) || !align(y, t)) return nullptr;
        return mkBin(k == K::FOEq ? K::Eq : k == K::FOLt ? K::Slt : K::Sle, x.p, y.p); }
      if (isC(p.n.p) && !p.n.p->lo) p.n.s = q.n.s; if (isC(q.n.p) && !q.n.p->lo) q.n.s = p.n.s;
      int s = std::min(p.n.s, q.n.s); if (!align(p.n, s) || !align(q.n, s)) return nullptr;
      if ((p.q != 1 || q.q != 1) && std::max(p.n.bits, q.n.bits) + p.qb + q.qb > (a->w == 64 ? 50u : 21u)) return nullptr;
      E l = q.q == 1 ? p.n.p : mkBin(K::Mul, p.n.p, mkConst(q.q, 64)), r = p.q == 1 ? q.n.p : mkBin(K::Mul, q.n.p, mkConst(p.q, 64));
      return mkBin(k == K::FOEq ? K::Eq : k == K::FOLt ? K::Slt : K::Sle, l, r); }
    case K::FUno: { int n; return fmag(a, n) && (a == b || fmag(b, n)) ? mkConst(0, 1) : nullptr; }
    case K::FAdd: case K::FSub: {
      if (!asDy(a, x) || !asDy(b, y)) return nullptr;
      if (isC(x.p) && !x.p->lo) x.s = y.s; if (isC(y.p) && !y.p->lo) y.s = x.s;
      int s = std::min(x.s, y.s); if (!align(x, s) || !align(y, s)) return nullptr;
      unsigned bits = std::max(x.bits, y.bits) + 1; if (bits > prec(w)) return nullptr;
      E p = mkBin(k == K::FAdd ? K::Add : K::Sub, x.p, y.p);
      return mkDy(Dy{p, s, bits, false}, w); }
    case K::FMul: {
      if (!asDy(a, x) || !asDy(b, y)) return nullptr;
      bool cx = isC(x.p) && (i64)x.p->lo > 0, cy = isC(y.p) && (i64)y.p->lo > 0;
      if (!cx && !cy && !(x.nn && y.nn)) return nullptr;
      if (x.bits + y.bits > prec(w) || std::abs(x.s + y.s) > 200) return nullptr;
      // keep the canonical form when one side is a power of two
      Dy* c = cy ? &y : cx ? &x : nullptr; Dy* v = cy ? &x : &y;
      if (c) { u64 m = c->p->lo; if (!(m & (m - 1))) { int n = 0; while ((m >> n) > 1) n++; Dy r = *v; r.s += c->s + n; return mkDy(r, w); } }
      return mkDy(Dy{mkBin(K::Mul, x.p, y.p), x.s + y.s, x.bits + y.bits, x.nn && y.nn}, w); }
    case K::FDiv: {
      if (!isC(b) || !constDy(b, y)) return nullptr; u64 m = y.p->lo; if ((i64)m <= 0 || (m & (m - 1)) || !asDy(a, x)) return nullptr;
      int n = 0; while ((m >> n) > 1) n++; x.s -= y.s + n; if (std::abs(x.s) > 200) return nullptr; return mkDy(x, w); }
    case K::FRound: {
      if (!asDy(a, x)) return nullptr; if (x.s >= 0) return mkDy(x, w); int n = -x.s; if (n > 60 || x.bits > 60) return nullptr;
      if (aux == 0 || (aux == 2 && x.nn)) return mkDy(Dy{mkBin(K::AShr, x.p, mkConst(n, 64)), 0, x.bits, x.nn}, w);
      if (!x.nn) return nullptr;
      if (aux == 1) return mkDy(Dy{mkBin(K::AShr, mkBin(K::Add, x.p, mkConst(((u64)1 << n) - 1, 64)), mkConst(n, 64)), 0, x.bits, true}, w);
      if (aux == 4) return mkDy(Dy{mkBin(K::AShr, mkBin(K::Add, x.p, mkConst((u64)1 << (n - 1), 64)), mkConst(n, 64)), 0, x.bits, true}, w);
      return nullptr; }
    case K::FToSI: case K::FToUI: {
      if (!asDy(a, x)) return nullptr; if (k == K::FToUI && !x.nn) return nullptr;
      if (x.s > 0) { if (!align(x, 0)) return nullptr; }
      if (x.s < 0) { int n = -x.s; if (n > 60 || x.bits > 60) return nullptr;
        E sh = mkConst(n, 64), z = mkConst(0, 64); x.p = x.nn ? mkBin(K::AShr, x.p, sh) : mkIte(mkBin(K::Slt, x.p, z), mkBin(K::Sub, z, mkBin(K::AShr, mkBin(K::Sub, z, x.p), sh)), mkBin(K::AShr, x.p, sh)); x.s = 0; if (x.bits > (unsigned)n) x.bits -= n; else x.bits = 1; }
      if (x.bits > w - (k == K::FToSI ? 1 : 0)) return nullptr;
      return w <= 64 ? mkExtract(x.p, 0, w) : nullptr; }
    case K::FExt: return asDy(a, x) ? mkDy(x, w) : nullptr;
    case K::FTrunc: return asDy(a, x) && x.bits <= 24 && w == 32 ? mkDy(x, w) : nullptr;
    default: return nullptr;
  }
}
E mkFabs(E a) {
  Dy x; if (a->k != K::Ite && a->k != K::SIToF && a->k != K::UIToF && a->k != K::FMul) return nullptr;
  if (!asDy(a, x)) return nullptr; if (x.nn) return mkDy(x, a->w);
  return mkDy(Dy{mkIte(mkBin(K::Slt, x.p, mkConst(0, 64)), mkBin(K::Sub, mkConst(0, 64), x.p), x.p), x.s, x.bits, true}, a->w);
}
E mkFp(K k, unsigned w, E a, E b, E c, unsigned aux) {
  if (isC(a) && (!b || isC(b)) && (!c || isC(c)))
    return mkConst(foldFp(k, w, a->w, cval(a), b ? cval(b) : 0, c ? cval(c) : 0, aux), w);
  // int->fp->int of small ints is the identity
  if ((k == K::FToSI || k == K::FToUI) && (a->k == K::SIToF || a->k == K::UIToF)) {
    unsigned prec = a->w == 64 ? 53 : 24; E s = a->a; unsigned bits = s->w - (a->k == K::UIToF ? hiZero(s) : 0);
    if (a->k == K::SIToF && hiZero(s)) bits = s->w - hiZero(s) + 1;
    if (a->k == K::SIToF && s->k == K::SExt) bits = s->a->w;
    if (bits <= prec && bits <= w - (a->k == K::UIToF && k == K::FToSI ? 1 : 0)) {
      if (a->k == K::SIToF) return s->w >= w ? mkExtract(s, 0, w) : mkSExt(s, w);
      return s->w >= w ? mkExtract(s, 0, w) : mkZExt(s, w);
    }
  }
  if (E r = tryDy(k, w, a, b, aux)) return r;
  if ((k == K::FAdd || k == K::FMul || k == K::FOEq || k == K::FUno) && a->id > b->id) std::swap(a, b);
  if (k == K::FUno && a == b && (a->k == K::SIToF || a->k == K::UIToF)) return mkConst(0, 1);
  return intern(k, w, aux, a, b, c);
}

// ---------------------------------------------------------------- evaluation
static std::vector<uint32_t> gStamp; static std::vector<u128> gMemo; static uint32_t gCur = 0;
static u128 ev(E e, const Assignment& as) {
  if (e->k == K::Const) return cval(e);
  if (e->k == K::Var) return as.get(e->aux) & maskw(e->w);
  if (gStamp[e->id] == gCur) return gMemo[e->id];
  u128 r;
  switch (e->k) {
    case K::Ite: r = ev(e->a, as) ? ev(e->b, as) : ev(e->c, as); break;
    case K::Concat: r = (ev(e->a, as) << e->b->w) | ev(e->b, as); break;
    case K::Extract: r = (ev(e->a, as) >> e->aux) & maskw(e->w); break;
    case K::ZExt: r = ev(e->a, as); break;
    case K::SExt: r = (u128)sextw(ev(e->a, as), e->a->w) & maskw(e->w); break;
    default:
      if (e->k >= K::FAdd) r = foldFp(e->k, e->w, e->a->w, ev(e->a, as), e->b ? ev(e->b, as) : 0, e->c ? ev(e->c, as) : 0, e->aux);
      else r = foldBin(e->k, ev(e->a, as), ev(e->b, as), e->a->w);
  }
  gStamp[e->id] = gCur; gMemo[e->id] = r;
  return r;
}
u128 evalExpr(E e, const Assignment& as) {
  if (gStamp.size() < gCount) { gStamp.resize(gCount * 2 + 1024, 0); gMemo.resize(gCount * 2 + 1024); }
  gCur++; if (!gCur) { std::fill(gStamp.begin(), gStamp.end(), 0); gCur = 1; }
  return ev(e, as);
}

std::string exprStr(E e, int d) {
  static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite",
    "fadd","fsub","fmul","fdiv","fsqrt","fround","foeq","folt","fole","funo","ftosi","ftoui","sitof","uitof","fext","ftrunc","fma","frem"};
  char buf[64];
  if (isC(e)) { snprintf(buf, sizeof buf, "%llu", (unsigned long long)e->lo); return buf; }
  if (e->k == K::Var) return varInfo(e->aux).name;
  if (d == 0) return "...";
  std::string s = std::string("(") + n[(int)e->k];
  if (e->k == K::Extract) { snprintf(buf, sizeof buf, "[%u+%u]", e->aux, e->w); s += buf; }
  if (e->a) s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}
