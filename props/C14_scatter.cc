// C14: scatter over several ranks of the real runtime: any sender, any slice size, symbolic bytes.
#define WITH_COLL
#include "ranks.h"
using namespace vt;
#if ANYORDER
static long pick() { return 0; }
#else
static int const DEL[] = DELAYS;
static long pick() { return DEL[sym_choose("delay", sizeof(DEL) / sizeof(int))]; }
#endif
struct Slice { };                                        // the handler reads the raw bytes of its slice
static int esz[SCATTERS], from[SCATTERS], handled[SCATTERS][RANKS], laid[SCATTERS][RANKS]; static unsigned char byte_[SCATTERS][RANKS][MAXELM + 1];
static std::byte* slot[SCATTERS][RANKS]; static bool started[SCATTERS];
static void got(int k, char const* p) {
  int r = sim::cur;
  sym_assert(started[k], "no slice arrives before the scatter");
  sym_assert(++handled[k][r] == 1, "a rank receives its slice once");
  for (int i = 0; i < esz[k]; i++) sym_assert((unsigned char)p[i] == byte_[k][r][i], "each rank receives the bytes laid out for it");
  if (esz[k] > 0) sym_cover("slice"); else sym_cover("empty slice");
}
template <int K> static void han(Slice* m) { got(K, (char const*)m); }
template <int K> static void go() {
  int r = sim::cur;
  started[K] = true;
  sim::R[r].coll->scatter<Slice, han<K>>(
    (std::size_t)RANKS * esz[K], esz[K],
    [](NodeType) -> std::size_t { return esz[K]; },
    [](NodeType n, std::byte* p) {
      sym_assert(n >= 0 && n < RANKS, "slices are laid out for existing ranks");
      sym_assert(laid[K][n]++ == 0, "one slice per rank"); slot[K][n] = p;
      for (int i = 0; i < esz[K]; i++) p[i] = (std::byte)byte_[K][n][i];
    });
  for (int a = 0; a < RANKS; a++) { sym_assert(laid[K][a] == 1, "one slice per rank");
    for (int b = 0; b < a; b++) sym_assert(slot[K][a] + esz[K] <= slot[K][b] || slot[K][b] + esz[K] <= slot[K][a], "slices do not overlap"); }
}
static int next_; static long at;
static long localTime(int r) { return next_ < SCATTERS && from[next_] == r ? at : -1; }
static void doLocal(int) { at = sim::now + pick(); switch (next_++) { case 0: go<0>(); break; case 1: go<SCATTERS - 1>(); } }
static long wire(int, int, char const*, int) { return pick(); }
extern "C" void symx_main() {
#if ANYORDER
  sim::anyOrder = true;
#endif
  sim::start(); sim::delay = wire; sim::local = localTime; sim::doLocal = doLocal;
  for (int k = 0; k < SCATTERS; k++) {
    from[k] = (int)sym_choose("from", RANKS); esz[k] = (int)sym_choose("bytes per rank", MAXELM + 1);
    for (int r = 0; r < RANKS; r++) for (int i = 0; i < esz[k]; i++) byte_[k][r][i] = sym_u8("byte");
  }
  sim::runToEnd(3000);
  for (int k = 0; k < SCATTERS; k++) for (int r = 0; r < RANKS; r++) sym_assert(handled[k][r] == 1, "every rank receives its slice");
}
