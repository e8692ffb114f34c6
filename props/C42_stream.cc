// Compressed streams: any content, any write and read sizes, any buffering by the codec.
// The codec is a stub with the documented interface of the Brotli streaming API: it keeps bytes back and consumes as it likes.
#include "sym.h"
#include "vt/config.h"
#include "vt/utils/compress/compressor.h"
#include "vt/utils/compress/decompressor.h"
#include "vt/utils/json/decompression_input_container.h"
#include "vt/utils/json/input_iterator.h"
#include <nlohmann/json.hpp>
#include "vt/utils/json/output_adaptor.h"
#ifndef LEN
#define LEN 4
#endif
#ifndef CHUNK
#define CHUNK 3
#endif
using namespace vt::util;
// stream format: a byte is (1, byte), the end is (0)
struct BrotliEncoderStateStruct { std::string pending; bool ended = false, marked = false; };
struct BrotliDecoderStateStruct { std::string pending; bool used = false, ended = false, half = false; };
extern "C" {
BrotliEncoderState* BrotliEncoderCreateInstance(brotli_alloc_func, brotli_free_func, void*) { return new BrotliEncoderState; }
void BrotliEncoderDestroyInstance(BrotliEncoderState* s) { delete s; }
BROTLI_BOOL BrotliEncoderSetParameter(BrotliEncoderState*, BrotliEncoderParameter, uint32_t) { return 1; }
BROTLI_BOOL BrotliEncoderIsFinished(BrotliEncoderState* s) { return s->marked && s->pending.empty(); }
BROTLI_BOOL BrotliEncoderHasMoreOutput(BrotliEncoderState* s) { return !s->pending.empty(); }
BROTLI_BOOL BrotliEncoderCompressStream(BrotliEncoderState* s, BrotliEncoderOperation op, size_t* ain, uint8_t const** in, size_t* aout, uint8_t** out, size_t*) {
  if (s->marked && *ain) { sym_fail("data after the end of the stream"); return 0; }
  size_t take = *ain > 1 && sym_choose("codec takes part", 2) ? 1 : *ain; bool hold = op == BROTLI_OPERATION_PROCESS && take && sym_choose("codec keeps output", 2);
  for (size_t i = 0; i < take; i++) { s->pending.push_back(1); s->pending.push_back((char)*(*in)++); (*ain)--; }
  if (op == BROTLI_OPERATION_FINISH && !*ain && !s->marked) { s->marked = true; s->pending.push_back(0); }
  if (!hold) { size_t n = s->pending.size() < *aout ? s->pending.size() : *aout; memcpy(*out, s->pending.data(), n); *out += n; *aout -= n; s->pending.erase(0, n); }
  return 1;
}
BrotliDecoderState* BrotliDecoderCreateInstance(brotli_alloc_func, brotli_free_func, void*) { return new BrotliDecoderState; }
void BrotliDecoderDestroyInstance(BrotliDecoderState* s) { delete s; }
BROTLI_BOOL BrotliDecoderIsUsed(BrotliDecoderState const* s) { return s->used; }
BROTLI_BOOL BrotliDecoderIsFinished(BrotliDecoderState const* s) { return s->ended && s->pending.empty(); }
BrotliDecoderErrorCode BrotliDecoderGetErrorCode(BrotliDecoderState const*) { return BROTLI_DECODER_NO_ERROR; }
char const* BrotliDecoderErrorString(BrotliDecoderErrorCode) { return ""; }
BrotliDecoderResult BrotliDecoderDecompressStream(BrotliDecoderState* s, size_t* ain, uint8_t const** in, size_t* aout, uint8_t** out, size_t*) {
  size_t ahead = *ain > 2 ? 1 + sym_choose("codec reads ahead", 2) * 8 : 1;                 // tokens decoded before output is written
  for (;;) {
    while (!s->ended && *ain && s->pending.size() < ahead) {
      s->used = true; uint8_t b = *(*in)++; (*ain)--;
      if (s->half) { s->pending.push_back((char)b); s->half = false; } else if (b == 1) s->half = true; else if (b == 0) s->ended = true; else return BROTLI_DECODER_RESULT_ERROR; }
    while (!s->pending.empty() && *aout) { *(*out)++ = (uint8_t)s->pending[0]; (*aout)--; s->pending.erase(0, 1); }
    if (!s->pending.empty()) return BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT;
    if (s->ended) return BROTLI_DECODER_RESULT_SUCCESS;
    if (!*ain) return BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT;
  }
}
}
static uint8_t data[LEN + 1]; static std::size_t len;
static void content() { len = sym_choose("length", LEN + 1); sym_buf(data, LEN, "data"); }
template <typename W> static void pieces(W w) { std::size_t at = 0; while (at < len) { std::size_t n = 1 + sym_choose("piece", len - at); w(data + at, n); at += n; } }
static void same(std::string const& got) { sym_assert(got.size() == len, "no byte is lost, repeated or added"); bool ok = true; for (std::size_t i = 0; i < len; i++) ok &= (uint8_t)got[i] == data[i]; sym_assert(ok, "what is read is what was written"); }
extern "C" void symx_main() {
  content(); std::stringstream os;
#if WHAT == 2
  { bool comp = sym_choose("compress", 2); { json::OutputAdaptor<std::stringstream> a{os, comp}; pieces([&](uint8_t* p, std::size_t n) { if (n == 1) a.write_character((char)*p); else a.write_characters((char const*)p, n); }); }
    if (!comp) { same(os.str()); sym_cover("plain"); return; } sym_cover("compressed"); }
#else
  { compress::Compressor c{8, 20, 1 + sym_choose("output buffer", CHUNK)}; pieces([&](uint8_t* p, std::size_t n) { sym_assert(c.write(os, p, n), "written"); }); sym_assert(c.finish(os), "finished"); }
#endif
  std::string got; std::size_t chunk = 1 + sym_choose("chunk", CHUNK); sym_cover("written");
#if WHAT == 0
  { compress::Decompressor<std::stringstream> d{std::stringstream{os.str()}, 1 + sym_choose("input buffer", CHUNK)}; uint8_t buf[CHUNK];
    for (int guard = 0;; guard++) { std::size_t n = d.read(buf, chunk); sym_assert(n <= chunk, "never more than asked for"); for (std::size_t i = 0; i < n; i++) got.push_back((char)buf[i]); if (n < chunk) { sym_assert(d.done(), "a short read means the end"); break; } if (guard > LEN + 2) { sym_fail("reading never ends"); return; } }
    sym_assert(d.read(buf, chunk) == 0, "nothing after the end"); }
#else
  if (!len) sym_end();                                                                      // the iterator has no empty state
  json::DecompressionInputContainer in{json::DecompressionInputContainer::AnyStreamTag{}, std::stringstream{os.str()}, chunk};
  int guard = 0; for (auto it = json::begin(in); it != json::end(in); ++it) { got.push_back(*it); if (++guard > LEN + 2) break; }
  sym_assert(!in.advance(), "the end stays the end"); if (len % chunk == 1) sym_cover("one more than a chunk");
#endif
  same(got);
}
