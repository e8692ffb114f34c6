// In-memory file and string streams with the standard's semantics for the operations vt uses; replaces std::ifstream,
// std::ofstream, std::stringstream, std::istringstream in the translation units compiled with -include fakeio.h.
#pragma once
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <string>
#include <cstdint>
#include <cstring>
namespace std {
struct symx_vfile { string name, text; bool used = false; };
inline symx_vfile symx_files[4];
inline symx_vfile* symx_vfind(string const& n) { for (auto& f : symx_files) if (f.used && f.name == n) return &f; return nullptr; }
inline symx_vfile* symx_vput(string const& n, string const& t) { auto f = symx_vfind(n); if (!f) for (auto& g : symx_files) if (!g.used) { f = &g; break; } f->used = true; f->name = n; f->text = t; return f; }
struct symx_stream {
  string buf; size_t pos = 0; bool eof_ = false, fail_ = false; size_t got = 0;
  using pos_type = long; using off_type = long; static constexpr int cur = 1; static constexpr ios_base::openmode binary = ios_base::binary, in = ios_base::in, out = ios_base::out;
  symx_stream() = default; explicit symx_stream(string const& s) : buf(s) {}
  bool good() const { return !eof_ && !fail_; } bool eof() const { return eof_; } bool fail() const { return fail_; } bool bad() const { return false; }
  explicit operator bool() const { return !fail_; } bool operator!() const { return fail_; }
  string str() const { return buf; } void str(string const& s) { buf = s; pos = 0; } size_t gcount() const { return got; } void clear() { eof_ = fail_ = false; }
  int peek() { if (!good()) { fail_ = true; return -1; } if (pos >= buf.size()) { eof_ = true; return -1; } return (unsigned char)buf[pos]; }
  int get() { got = 0; if (!good()) { fail_ = true; return -1; } if (pos >= buf.size()) { eof_ = fail_ = true; return -1; } got = 1; return (unsigned char)buf[pos++]; }
  symx_stream& read(char* p, long n) { got = 0; if (!good()) { fail_ = true; return *this; } while ((long)got < n && pos < buf.size()) p[got++] = buf[pos++]; if ((long)got < n) eof_ = fail_ = true; return *this; }
  symx_stream& write(char const* p, long n) { buf.append(p, n); return *this; }
  symx_stream& seekp(long, int) { return *this; } symx_stream& flush() { return *this; }
  static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool skip() { if (!good()) { fail_ = true; return false; } while (pos < buf.size() && space(buf[pos])) pos++; if (pos >= buf.size()) { eof_ = fail_ = true; return false; } return true; }
  symx_stream& operator>>(string& s) { s.clear(); if (!skip()) return *this; while (pos < buf.size() && !space(buf[pos])) s.push_back(buf[pos++]); if (pos >= buf.size()) eof_ = true; return *this; }
  symx_stream& operator>>(long& v) { if (!skip()) return *this; bool neg = false; size_t digits = 0; unsigned long x = 0; bool big = false;
    if (buf[pos] == '-' || buf[pos] == '+') neg = buf[pos++] == '-';
    while (pos < buf.size() && buf[pos] >= '0' && buf[pos] <= '9') { if (x > (~0ul - 9) / 10) big = true; x = x * 10 + (buf[pos++] - '0'); digits++; }
    if (pos >= buf.size()) eof_ = true; if (!digits) { v = 0; fail_ = true; return *this; }
    if (big || x > (1ul << 63) - (neg ? 0 : 1)) { v = neg ? INT64_MIN : INT64_MAX; fail_ = true; } else v = neg ? (long)(0 - x) : (long)x; return *this; }
  template <typename T, enable_if_t<is_integral_v<T> && !is_same_v<T, long>, int> = 0> symx_stream& operator>>(T& v) { long x = 0; *this >> x; v = (T)x; return *this; }
  symx_stream& operator<<(char const* s) { buf += s; return *this; } symx_stream& operator<<(string const& s) { buf += s; return *this; } symx_stream& operator<<(char c) { buf += c; return *this; }
  symx_stream& operator<<(ostream& (*)(ostream&)) { buf += "\n"; return *this; } symx_stream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
  template <typename T> symx_stream& operator<<(T const& v) { if constexpr (is_integral_v<T>) buf += to_string(v); return *this; }
};
inline symx_stream& getline(symx_stream& f, string& s, char d = '\n') { s.clear(); if (!f.good()) { f.fail_ = true; return f; } bool any = false; for (;;) { if (f.pos >= f.buf.size()) { f.eof_ = true; break; } char c = f.buf[f.pos++]; any = true; if (c == d) return f; s.push_back(c); } if (!any) f.fail_ = true; return f; }
struct symx_ifstream : symx_stream { bool open_ = false; symx_ifstream() = default; symx_ifstream(string const& n, ios_base::openmode = ios_base::in) { open(n); } void open(string const& n, ios_base::openmode = ios_base::in) { auto f = symx_vfind(n); if (f) { buf = f->text; open_ = true; } else fail_ = true; } bool is_open() const { return open_; } void close() { open_ = false; } };
struct symx_ofstream : symx_stream { string name; bool open_ = false; symx_ofstream() = default; symx_ofstream(string const& n, ios_base::openmode = ios_base::out) { open(n); } void open(string const& n, ios_base::openmode = ios_base::out) { name = n; open_ = true; symx_vput(n, ""); } bool is_open() const { return open_; } void close() { if (open_) symx_vput(name, buf); open_ = false; } ~symx_ofstream() { close(); } };
using symx_stringstream = symx_stream; using symx_istringstream = symx_stream; using symx_ostringstream = symx_stream;
}
#define ifstream symx_ifstream
#define ofstream symx_ofstream
#define stringstream symx_stringstream
#define istringstream symx_istringstream
#define ostringstream symx_ostringstream
