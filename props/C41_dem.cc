// Demangled names: every string over the significant characters up to the stated length.
#include "sym.h"
#include "vt/config.h"
#include "vt/utils/demangle/demangle.h"
#include <string>
#include <vector>
#ifndef LEN
#define LEN 7
#endif
using namespace vt::util::demangle;
static char const* alphabet;
static std::string pick(char const* a, std::size_t n) { std::size_t k = strlen(a); std::string s; for (std::size_t i = 0; i < n; i++) s.push_back(a[sym_choose("char", k)]); return s; }
static void names() {
  // tokens of a type name: an identifier character, a scope separator, template brackets, a reference
  std::string s; bool lastSep = false; int depth = 0; std::size_t n = sym_choose("length", LEN + 1); std::size_t prefix = sym_choose("prefix", 3);
  if (prefix == 1) s = "&"; else if (prefix == 2) s = "::"; std::size_t p = s.size(), divide = p; bool found = false;
  for (std::size_t i = 0; i < n; i++) {
    std::size_t t = sym_choose("token", 4);
    if (t == 1) { if (lastSep || i == 0) sym_end(); if (depth == 0) { divide = s.size(); found = true; } else sym_cover("separator inside template arguments"); s += "::"; lastSep = true; continue; }
    lastSep = false;
    if (t == 0) s += "a"; else if (t == 2) { s += "<"; depth++; } else { if (depth == 0) sym_end(); s += ">"; depth--; }
  }
  if (depth) sym_end();
  std::string ns = TemplateExtract::getNamespace(s), bare = TemplateExtract::getBarename(s), whole = s.substr(p);
  sym_assert((found ? ns + "::" + bare : ns + bare) == whole, "namespace and bare name re-assemble to the name");
  sym_assert(ns == s.substr(p, divide - p), "splits at the last top-level scope separator"); if (found) sym_cover("split"); else sym_cover("no namespace");
}
static void args() {
  std::size_t form = sym_choose("form", 6); std::string in = pick("a()<,v ", sym_choose("length", ARGS + 1));
  std::string s = form == 0 ? "void (" + in + ")" : form == 1 ? "void(" + in + ")" : form == 2 ? "void" + in : form == 3 ? "int (" + in + ")" : form == 4 ? "void (" + in : in;
  std::string got = TemplateExtract::getVoidFuncStrArgs(s);
  std::size_t o = 4; bool fn = s.compare(0, 4, "void") == 0; if (fn && o < s.size() && s[o] == ' ') o++; fn = fn && o < s.size() && s[o] == '(' && s.back() == ')';
  sym_assert(got == (fn ? s.substr(o + 1, s.size() - o - 2) : s), "returns what is between the outer parentheses of a void function type, otherwise the input"); if (fn) sym_cover("arguments"); else sym_cover("not a void function");
}
static void pieces() {
  std::string s = pick("a, b", sym_choose("length", ARGS + 2)), want; std::string clean = DemanglerUtils::removeSpaces(s);
  for (char c : s) if (c != ' ') want.push_back(c); sym_assert(clean == want, "space removal keeps every other character");
  std::vector<std::string> v; std::string cur; std::size_t k = sym_choose("pieces", 4); for (std::size_t i = 0; i < k; i++) v.push_back(pick("ab", sym_choose("piece length", 3)));
  std::string d = sym_bool("long separator") ? "::" : ","; std::string j = DemanglerUtils::join(d, v), e; for (std::size_t i = 0; i < k; i++) { if (i) e += d; e += v[i]; }
  sym_assert(j == e, "joining keeps every piece and puts the separator between them only");
}
static void split() {
  std::string s = pick("a, b", sym_choose("length", ARGS + 2));
  auto parts = DemanglerUtils::splitString(s, ','); std::string back = DemanglerUtils::join(",", parts);
  bool trail = !s.empty() && s.back() == ',';                                          // a trailing separator ends the last piece
  sym_assert(back + (trail ? "," : "") == s, "joining after splitting restores the text"); for (auto& x : parts) sym_assert(x.find(',') == std::string::npos, "pieces hold no separator"); if (parts.size() > 1) sym_cover("several pieces");
}
static void named() {
  std::string val = pick("a=:< ", sym_choose("length", ARGS)), pre = pick("T [", sym_choose("prefix", 4));
  std::string pf = pre + "PF_VALUE_NAME = " + val + "]"; sym_assert(TemplateExtract::lastNamedPfType(pf, "PF_VALUE_NAME") == val, "extracts exactly the named value");
  sym_assert(TemplateExtract::lastNamedPfType(pre + val, "PF_VALUE_NAME").empty(), "nothing named gives nothing"); sym_cover("named");
}
extern "C" void symx_main() { WHICH(); }
