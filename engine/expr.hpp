// Hash-consed bit-vector expressions (width 1..64) with a rewriting simplifier.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <functional>

enum Kind : uint8_t {
  K_CONST, K_VAR, K_EXTRACT, K_CONCAT, K_NOT, K_AND, K_OR, K_XOR,
  K_ADD, K_MUL, K_UDIV, K_UREM, K_SDIV, K_SREM, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_SLT, K_ITE
};

struct E {
  Kind k; uint8_t w; uint16_t lo; uint32_t n;
  uint32_t id; uint32_t epoch;
  uint64_t c;      // const value / var index
  uint64_t mz;     // bits that may be one
  uint64_t bloom;  // variable bloom filter
  uint64_t val;    // evaluation memo
  uint64_t hash;
  void *z3;        // memoised translation
  std::vector<uint32_t> *vars; // memoised variable list
  E *kid[0];
};
typedef E *Ex;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

struct ExprPool {
  std::vector<Ex> table; size_t count = 0; uint32_t nextId = 1;
  char *arena = nullptr; size_t arenaLeft = 0; size_t bytes = 0;
  uint32_t epoch = 1;
  ExprPool() { table.assign(1 << 16, nullptr); }
  void *alloc(size_t s) {
    s = (s + 15) & ~size_t(15);
    if (arenaLeft < s) { size_t b = std::max<size_t>(1 << 20, s); arena = (char *)malloc(b); arenaLeft = b; bytes += b; }
    void *p = arena; arena += s; arenaLeft -= s; return p;
  }
  static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 29); }
  Ex intern(Kind k, unsigned w, unsigned lo, uint64_t c, const Ex *kids, unsigned n) {
    uint64_t h = mix(mix(mix(mix(0x1234, k), w), lo), c);
    for (unsigned i = 0; i < n; i++) h = mix(h, kids[i]->id);
    size_t m = table.size() - 1, i = h & m;
    while (Ex e = table[i]) {
      if (e->hash == h && e->k == k && e->w == w && e->lo == lo && e->c == c && e->n == n && !memcmp(e->kid, kids, n * sizeof(Ex))) return e;
      i = (i + 1) & m;
    }
    Ex e = (Ex)alloc(sizeof(E) + n * sizeof(Ex));
    e->k = k; e->w = w; e->lo = lo; e->n = n; e->id = nextId++; e->epoch = 0; e->c = c; e->hash = h; e->z3 = nullptr; e->vars = nullptr; e->val = 0;
    e->bloom = k == K_VAR ? 1ULL << (c & 63) : 0;
    for (unsigned j = 0; j < n; j++) { e->kid[j] = kids[j]; e->bloom |= kids[j]->bloom; }
    e->mz = maskw(w);
    switch (k) {
    case K_CONST: e->mz = c; break;
    case K_CONCAT: { uint64_t v = 0; unsigned o = 0; for (unsigned j = 0; j < n; j++) { v |= kids[j]->mz << o; o += kids[j]->w; } e->mz = v; break; }
    case K_AND: { uint64_t v = ~0ULL; for (unsigned j = 0; j < n; j++) v &= kids[j]->mz; e->mz = v & maskw(w); break; }
    case K_OR: case K_XOR: { uint64_t v = 0; for (unsigned j = 0; j < n; j++) v |= kids[j]->mz; e->mz = v & maskw(w); break; }
    case K_ITE: e->mz = kids[1]->mz | kids[2]->mz; break;
    case K_EXTRACT: e->mz = (kids[0]->mz >> lo) & maskw(w); break;
    case K_UREM: if (kids[1]->k == K_CONST && kids[1]->c) { uint64_t v = kids[1]->c - 1; unsigned b = v ? 64 - __builtin_clzll(v) : 0; e->mz = maskw(w) & (b ? maskw(b) : 0); } break;
    case K_ADD: { uint64_t a = kids[0]->mz, b = kids[1]->mz; unsigned la = a ? 64 - __builtin_clzll(a) : 0, lb = b ? 64 - __builtin_clzll(b) : 0; unsigned l = std::max(la, lb) + 1; if (l < 64) e->mz = maskw(w) & maskw(l); break; }
    default: break;
    }
    table[i] = e; count++;
    if (count * 2 > table.size()) {
      std::vector<Ex> nt(table.size() * 2, nullptr); size_t nm = nt.size() - 1;
      for (Ex x : table) if (x) { size_t q = x->hash & nm; while (nt[q]) q = (q + 1) & nm; nt[q] = x; }
      table.swap(nt);
    }
    return e;
  }
};
extern ExprPool *P;

static inline Ex mkConst(unsigned w, uint64_t v) { return P->intern(K_CONST, w, 0, v & maskw(w), nullptr, 0); }
static inline Ex mkVar(uint32_t idx) { return P->intern(K_VAR, 8, 0, idx, nullptr, 0); }
static inline bool isC(Ex e) { return e->k == K_CONST; }
static inline Ex mkBool(bool b) { return mkConst(1, b); }
static inline bool isT(Ex e) { return e->k == K_CONST && e->w == 1 && e->c; }
static inline bool isF(Ex e) { return e->k == K_CONST && e->w == 1 && !e->c; }

Ex mkExtract(Ex e, unsigned lo, unsigned w);
Ex mkConcat(const Ex *parts, unsigned n);
Ex mkNot(Ex a);
Ex mkBit(Kind k, Ex a, Ex b);
Ex mkAdd(Ex a, Ex b);
Ex mkMul(Ex a, Ex b);
Ex mkEq(Ex a, Ex b);
Ex mkUlt(Ex a, Ex b);
Ex mkSlt(Ex a, Ex b);
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkZext(Ex a, unsigned w);
Ex mkSext(Ex a, unsigned w);
Ex mkShift(Kind k, Ex a, Ex b);
Ex mkDiv(Kind k, Ex a, Ex b);
static inline Ex mkAnd(Ex a, Ex b) { return mkBit(K_AND, a, b); }
static inline Ex mkOr(Ex a, Ex b) { return mkBit(K_OR, a, b); }
static inline Ex mkXor(Ex a, Ex b) { return mkBit(K_XOR, a, b); }
Ex mkNary(Kind k, std::vector<Ex> kids); // boolean and / or

uint64_t concOp(Kind k, unsigned w, uint64_t a, uint64_t b);
uint64_t evalE(Ex e, const std::vector<uint8_t> &m); // uses P->epoch memo
const std::vector<uint32_t> &varsOf(Ex e);
std::string showE(Ex e, int depth = 6);
