// Bodies for the few non-header libstdc++/libc functions the code under test calls
// (symbolic execution only; the native replay uses the real ones).
#include <cstddef>
#include <cstdint>
#include <new>
#include <string>
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <bits/stl_tree.h>
#include <bits/hashtable_policy.h>
extern "C" {
#define SHIM __attribute__((noinline, used, optnone))
size_t symx_shim_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int symx_shim_strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int symx_shim_strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
void* symx_shim_memchr(const void* p, int c, size_t n) { auto s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
char* symx_shim_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* symx_shim_strrchr(const char* s, int c) { char* r = nullptr; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* symx_shim_strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return nullptr; } }
char* symx_shim_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* symx_shim_strcpy(char* d, const char* s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d; }
static int symx_errno;
int* __errno_location() { return &symx_errno; }
static int dig(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long parse(const char* s, char** e, int base, bool& neg, bool& ovf) {
  const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  neg = false; ovf = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  const char* st = p; unsigned long v = 0; while (dig(*p) < base) { unsigned long nv; if (__builtin_mul_overflow(v, (unsigned long)base, &nv) || __builtin_add_overflow(nv, (unsigned long)dig(*p), &nv)) ovf = true; v = nv; p++; }
  if (e) *e = (char*)(p == st ? s : p); return v;
}
long symx_shim_strtol(const char* s, char** e, int base) { bool n, o; unsigned long v = parse(s, e, base, n, o); if (o || (!n && v > (unsigned long)INT64_MAX) || (n && v > (unsigned long)INT64_MAX + 1)) { symx_errno = 34; return n ? INT64_MIN : INT64_MAX; } return n ? (long)(0 - v) : (long)v; }
unsigned long symx_shim_strtoul(const char* s, char** e, int base) { bool n, o; unsigned long v = parse(s, e, base, n, o); if (o) { symx_errno = 34; return ~0ul; } return n ? 0 - v : v; }
int shim_atoi(const char* s) asm("atoi"); int shim_atoi(const char* s) { return (int)symx_shim_strtol(s, nullptr, 10); }
char* strdup(const char* s) { size_t n = symx_shim_strlen(s); char* p = (char*)__builtin_malloc(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}
template class std::basic_string<char>;
namespace std {
using B = _Rb_tree_node_base;
B* _Rb_tree_increment(B* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { B* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const B* _Rb_tree_increment(const B* x) throw() { return _Rb_tree_increment(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { B* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { B* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const B* _Rb_tree_decrement(const B* x) throw() { return _Rb_tree_decrement(const_cast<B*>(x)); }
static void rotL(B* const x, B*& root) { B* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(B* const x, B*& root) { B* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& h) throw() {
  B*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    B* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { B* const y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); } }
    else { B* const y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); } }
  }
  root->_M_color = _S_black;
}
B* _Rb_tree_rebalance_for_erase(B* const z, B& h) throw() {
  B*& root = h._M_parent; B*& leftmost = h._M_left; B*& rightmost = h._M_right; B* y = z; B* x = 0; B* xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; { auto t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t; } y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { B* t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { B* t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black)) {
      if (x == xp->_M_left) {
        B* w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
      } else {
        B* w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
      }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 47, 59, 79, 103, 137, 179, 239, 317, 431, 577, 769, 1031, 1361, 1823, 2423, 3229, 4297, 5717, 7621, 10159, 13547, 18059, 24077, 32099, 42793, 57059, 76079, 101399, 135197, 180233, 240293, 320387, 427169, 569519, 759359, 1012429};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { if (n == 0) return 1; size_t r = primes[sizeof(primes) / sizeof(*primes) - 1]; for (size_t p : primes) if (p >= n) { r = p; break; } _M_next_resize = (size_t)__builtin_floor(r * (double)_M_max_load_factor); return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    double mb = (_M_next_resize ? 0 : 11); if (ne + ni > mb) mb = ne + ni; mb = mb / (double)_M_max_load_factor;
    if (mb >= nb) { size_t a = (size_t)__builtin_floor(mb) + 1, b = nb * 2; return {true, _M_next_bkt(a > b ? a : b)}; }
    _M_next_resize = (size_t)__builtin_floor(nb * (double)_M_max_load_factor); return {false, 0};
  }
  return {false, 0};
}
struct LN { LN* n; LN* p; };
}
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) { auto p = (const unsigned char*)ptr; size_t h = seed ^ 0xcbf29ce484222325ull; for (size_t i = 0; i < len; i++) { h ^= p[i]; h *= 0x100000001b3ull; } return h; }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_bad_variant_access(const char* s) { throw runtime_error(s); }
}
// list hooks
extern "C" {
struct LN { LN* n; LN* p; };
void shim_hook(LN* self, LN* pos) asm("_ZNSt8__detail15_List_node_base7_M_hookEPS0_"); void shim_hook(LN* self, LN* pos) { self->n = pos; self->p = pos->p; pos->p->n = self; pos->p = self; }
void shim_unhook(LN* self) asm("_ZNSt8__detail15_List_node_base9_M_unhookEv"); void shim_unhook(LN* self) { LN* a = self->n; LN* b = self->p; b->n = a; a->p = b; }
void shim_transfer(LN* self, LN* first, LN* last) asm("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_"); void shim_transfer(LN* self, LN* f, LN* l) { if (self != l) { l->p->n = self; f->p->n = l; self->p->n = f; LN* t = self->p; self->p = l->p; l->p = f->p; f->p = t; } }
void shim_swap(LN& x, LN& y) asm("_ZNSt8__detail15_List_node_base4swapERS0_S1_"); void shim_swap(LN& x, LN& y) {
  if (x.n != &x) { if (y.n != &y) { LN* t = x.n; x.n = y.n; y.n = t; t = x.p; x.p = y.p; y.p = t; x.n->p = x.p->n = &x; y.n->p = y.p->n = &y; } else { y.n = x.n; y.p = x.p; y.n->p = y.p->n = &y; x.n = x.p = &x; } }
  else if (y.n != &y) { x.n = y.n; x.p = y.p; x.n->p = x.p->n = &x; y.n = y.p = &y; } }
void shim_reverse(LN* self) asm("_ZNSt8__detail15_List_node_base10_M_reverseEv"); void shim_reverse(LN* self) { LN* t = self; do { LN* q = t->n; t->n = t->p; t->p = q; t = t->p; } while (t != self); }
}
// standard exceptions: object = { vptr, char* }
struct ExO { void* vp; char* s; };
static char* dupz(const char* p, size_t n) { char* r = (char*)__builtin_malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = p[i]; r[n] = 0; return r; }
extern "C" const char* shim_what(ExO* e) { return e->s; }
extern "C" const char* shim_what0(ExO* e) { return "exception"; }
extern "C" void shim_dtor(ExO* e) {}
extern "C" void shim_ddtor(ExO* e) { ::operator delete((void*)e); }
#define EXC(N, MN) \
  extern "C" void* vt_##N[] asm("_ZTVSt" MN); \
  extern "C" void* ti_##N asm("_ZTISt" MN); \
  extern "C" { void* vt_##N[] = {nullptr, (void*)&ti_##N, (void*)shim_dtor, (void*)shim_ddtor, (void*)shim_what}; \
  void N##_c(ExO* e, const char* s) asm("_ZNSt" MN "C2EPKc"); void N##_c(ExO* e, const char* s) { e->vp = &vt_##N[2]; e->s = dupz(s, symx_shim_strlen(s)); } \
  void N##_c1(ExO* e, const char* s) asm("_ZNSt" MN "C1EPKc"); void N##_c1(ExO* e, const char* s) { N##_c(e, s); } \
  void N##_d(ExO* e, const std::string& s) asm("_ZNSt" MN "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void N##_d(ExO* e, const std::string& s) { e->vp = &vt_##N[2]; e->s = dupz(s.data(), s.size()); } \
  void N##_d1(ExO* e, const std::string& s) asm("_ZNSt" MN "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void N##_d1(ExO* e, const std::string& s) { N##_d(e, s); } \
  void N##_k(ExO* e, const ExO& o) asm("_ZNSt" MN "C2ERKS_"); void N##_k(ExO* e, const ExO& o) { e->vp = &vt_##N[2]; e->s = o.s; } \
  void N##_k1(ExO* e, const ExO& o) asm("_ZNSt" MN "C1ERKS_"); void N##_k1(ExO* e, const ExO& o) { N##_k(e, o); } \
  void N##_x1(ExO* e) asm("_ZNSt" MN "D1Ev"); void N##_x1(ExO* e) {} \
  void N##_x2(ExO* e) asm("_ZNSt" MN "D2Ev"); void N##_x2(ExO* e) {} \
  const char* N##_w(ExO* e) asm("_ZNKSt" MN "4whatEv"); const char* N##_w(ExO* e) { return e->s; } }
EXC(runtime_error, "13runtime_error")
EXC(logic_error, "11logic_error")
EXC(out_of_range, "12out_of_range")
EXC(invalid_argument, "16invalid_argument")
EXC(length_error, "12length_error")
EXC(domain_error, "12domain_error")
extern "C" { extern void* ti_exception asm("_ZTISt9exception"); extern void* ti_bad_alloc asm("_ZTISt9bad_alloc");
void* vt_exception[] asm("_ZTVSt9exception") = {nullptr, (void*)&ti_exception, (void*)shim_dtor, (void*)shim_ddtor, (void*)shim_what0};
void* vt_bad_alloc[] asm("_ZTVSt9bad_alloc") = {nullptr, (void*)&ti_bad_alloc, (void*)shim_dtor, (void*)shim_ddtor, (void*)shim_what0};
const char* ex_what(ExO* e) asm("_ZNKSt9exception4whatEv"); const char* ex_what(ExO* e) { return "exception"; }
void ba_d1(ExO* e) asm("_ZNSt9bad_allocD1Ev"); void ba_d1(ExO* e) {}
void ex_d0(ExO* e) asm("_ZNSt9exceptionD0Ev"); void ex_d0(ExO* e) {} }
