// Interface between a property driver and (a) the symbolic executor, (b) the native replayer.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
uint8_t  sym_u8(const char* name);
uint16_t sym_u16(const char* name);
uint32_t sym_u32(const char* name);
uint64_t sym_u64(const char* name);
float    sym_f32(const char* name);
double   sym_f64(const char* name);
bool     sym_bool(const char* name);
uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi);  // lo <= result <= hi, symbolic
uint64_t sym_choose(const char* name, uint64_t n);               // one path per feasible value 0..n-1
uint64_t sym_concretize(uint64_t v);                             // one path per feasible value
void     sym_buf(void* p, size_t n, const char* name);
void     sym_assume(bool c);
void     sym_assert(bool c, const char* msg);
void     sym_fail(const char* msg);
void     sym_cover(const char* label);
void     sym_bound(const char* text);
void     sym_end();
void     sym_expect_abort(int on);
void     sym_print(const char* label, uint64_t v);
uint64_t sym_live_allocs();
uint64_t sym_room(void const* p);                               // bytes from p to the end of the live object it is in (0: none)
int      sym_is_symx();
int      symx_fork(int n);
void     symx_switch(int rank);
void*    symx_shared_alloc(size_t n);
void     symx_shared_free(void* p);
void     symx_main();
}
inline int64_t sym_i64(char const* n) { return static_cast<int64_t>(sym_u64(n)); }
inline int32_t sym_i32(char const* n) { return static_cast<int32_t>(sym_u32(n)); }
inline int16_t sym_i16(char const* n) { return static_cast<int16_t>(sym_u16(n)); }
