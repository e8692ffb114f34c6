// Copy-on-write object store.
#pragma once
#include "expr.h"
#include <cstdlib>

struct SymB { E e; uint32_t idx; };
struct Obj {
  int rc; uint32_t size; uint8_t kind; uint8_t ro; uint16_t pad; SymB* sym;
  uint8_t data[1];
  static Obj* make(uint32_t size, uint8_t kind, int fill) {
    Obj* o = (Obj*)malloc(sizeof(Obj) + size + 16);
    o->rc = 1; o->size = size; o->kind = kind; o->ro = 0; o->sym = nullptr;
    memset(o->data, fill, size + 16);
    return o;
  }
  Obj* clone() const {
    Obj* o = (Obj*)malloc(sizeof(Obj) + size + 16);
    memcpy((void*)o, (const void*)this, sizeof(Obj) + size + 16);
    o->rc = 1;
    if (sym) { o->sym = (SymB*)malloc(sizeof(SymB) * size); memcpy(o->sym, sym, sizeof(SymB) * size); }
    return o;
  }
  void release() { if (--rc == 0) { free(sym); free(this); } }
  void ensureSym() { if (!sym) sym = (SymB*)calloc(size ? size : 1, sizeof(SymB)); }
};
struct Chunk {
  int rc; int used; Obj* o[256];
  static Chunk* make() { Chunk* c = (Chunk*)calloc(1, sizeof(Chunk)); c->rc = 1; return c; }
  Chunk* clone() const {
    Chunk* c = (Chunk*)malloc(sizeof(Chunk)); memcpy(c, this, sizeof(Chunk)); c->rc = 1;
    for (auto p : c->o) if (p) p->rc++;
    return c;
  }
  void release() { if (--rc == 0) { for (auto p : o) if (p) p->release(); free(this); } }
};
struct Region {
  std::vector<Chunk*> ch;
  uint32_t next = 1; // next index to hand out
  Region() {}
  Region(const Region& r) : ch(r.ch), next(r.next) { for (auto c : ch) if (c) c->rc++; }
  Region& operator=(const Region& r) { if (this != &r) { for (auto c : r.ch) if (c) c->rc++; for (auto c : ch) if (c) c->release(); ch = r.ch; next = r.next; } return *this; }
  Region(Region&& r) noexcept : ch(std::move(r.ch)), next(r.next) { r.ch.clear(); }
  ~Region() { for (auto c : ch) if (c) c->release(); }
  inline Obj* get(uint32_t i) const { uint32_t c = i >> 8; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[i & 255]; }
  void put(uint32_t i, Obj* o) {
    uint32_t c = i >> 8;
    if (c >= ch.size()) ch.resize(c + 1, nullptr);
    if (!ch[c]) ch[c] = Chunk::make();
    else if (ch[c]->rc > 1) { Chunk* n = ch[c]->clone(); ch[c]->release(); ch[c] = n; }
    Obj*& s = ch[c]->o[i & 255];
    if (s) { s->release(); if (!o) ch[c]->used--; } else if (o) ch[c]->used++;
    s = o;
    if (!ch[c]->used) { ch[c]->release(); ch[c] = nullptr; }
  }
  Obj* getW(uint32_t i) {
    uint32_t c = i >> 8;
    if (c >= ch.size() || !ch[c]) return nullptr;
    Chunk* k = ch[c];
    Obj* o = k->o[i & 255];
    if (!o) return nullptr;
    if (k->rc > 1) { Chunk* n = k->clone(); k->release(); ch[c] = k = n; o = k->o[i & 255]; }
    if (o->rc > 1) { Obj* n = o->clone(); o->release(); k->o[i & 255] = n; o = n; }
    return o;
  }
};
