#include "expr.hpp"
ExprPool *P = new ExprPool();

static int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

uint64_t concOp(Kind k, unsigned w, uint64_t a, uint64_t b) {
  uint64_t m = maskw(w);
  switch (k) {
  case K_AND: return a & b;
  case K_OR: return a | b;
  case K_XOR: return a ^ b;
  case K_ADD: return (a + b) & m;
  case K_MUL: return (a * b) & m;
  case K_UDIV: return b ? a / b : m;
  case K_UREM: return b ? a % b : a;
  case K_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
  case K_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case K_SHL: return b >= w ? 0 : (a << b) & m;
  case K_LSHR: return b >= w ? 0 : a >> b;
  case K_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
  case K_EQ: return a == b;
  case K_ULT: return a < b;
  case K_SLT: return sx(a, w) < sx(b, w);
  default: abort();
  }
}

static Ex mk2(Kind k, unsigned w, Ex a, Ex b) { Ex ks[2] = {a, b}; return P->intern(k, w, 0, 0, ks, 2); }

Ex mkConcat(const Ex *parts, unsigned n) {
  Ex buf[128]; unsigned m = 0;
  std::function<void(Ex)> push;
  auto add1 = [&](Ex p) {
    if (m) {
      Ex q = buf[m - 1];
      if (isC(q) && isC(p)) { buf[m - 1] = mkConst(q->w + p->w, q->c | (p->c << q->w)); return; }
      Ex qb = q->k == K_EXTRACT ? q->kid[0] : q, pb = p->k == K_EXTRACT ? p->kid[0] : p;
      unsigned ql = q->k == K_EXTRACT ? q->lo : 0, pl = p->k == K_EXTRACT ? p->lo : 0;
      if (qb == pb && q->k == K_EXTRACT && p->k == K_EXTRACT && ql + q->w == pl) {
        unsigned w = q->w + p->w;
        if (ql == 0 && w == qb->w) buf[m - 1] = qb;
        else { Ex k[1] = {qb}; buf[m - 1] = P->intern(K_EXTRACT, w, ql, 0, k, 1); }
        return;
      }
    }
    buf[m++] = p;
  };
  for (unsigned i = 0; i < n; i++) {
    if (parts[i]->k == K_CONCAT) for (unsigned j = 0; j < parts[i]->n; j++) add1(parts[i]->kid[j]);
    else add1(parts[i]);
  }
  if (m == 1) return buf[0];
  unsigned w = 0; for (unsigned i = 0; i < m; i++) w += buf[i]->w;
  if (w > 64) abort();
  return P->intern(K_CONCAT, w, 0, 0, buf, m);
}

Ex mkExtract(Ex e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  switch (e->k) {
  case K_CONST: return mkConst(w, e->c >> lo);
  case K_EXTRACT: return mkExtract(e->kid[0], e->lo + lo, w);
  case K_CONCAT: {
    Ex buf[64]; unsigned m = 0, o = 0;
    for (unsigned i = 0; i < e->n && o < lo + w; i++) {
      Ex p = e->kid[i]; unsigned b = std::max(o, lo), t = std::min(o + p->w, lo + w);
      if (b < t) buf[m++] = mkExtract(p, b - o, t - b);
      o += p->w;
    }
    return mkConcat(buf, m);
  }
  case K_NOT: return mkNot(mkExtract(e->kid[0], lo, w));
  case K_AND: case K_OR: case K_XOR: return mkBit(e->k, mkExtract(e->kid[0], lo, w), mkExtract(e->kid[1], lo, w));
  case K_ITE: return mkIte(e->kid[0], mkExtract(e->kid[1], lo, w), mkExtract(e->kid[2], lo, w));
  case K_ADD: if (lo == 0) return mkAdd(mkExtract(e->kid[0], 0, w), mkExtract(e->kid[1], 0, w)); break;
  case K_MUL: if (lo == 0) return mkMul(mkExtract(e->kid[0], 0, w), mkExtract(e->kid[1], 0, w)); break;
  default: break;
  }
  if (((e->mz >> lo) & maskw(w)) == 0) return mkConst(w, 0);
  Ex k[1] = {e}; return P->intern(K_EXTRACT, w, lo, 0, k, 1);
}

Ex mkZext(Ex a, unsigned w) { if (w == a->w) return a; Ex p[2] = {a, mkConst(w - a->w, 0)}; return mkConcat(p, 2); }
Ex mkSext(Ex a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(w, (uint64_t)sx(a->c, a->w));
  if (a->w == 1) return mkIte(a, mkConst(w, ~0ULL), mkConst(w, 0));
  Ex top = mkExtract(a, a->w - 1, 1);
  Ex p[2] = {a, mkSext(top, w - a->w)}; return mkConcat(p, 2);
}

Ex mkNot(Ex a) {
  if (isC(a)) return mkConst(a->w, ~a->c);
  if (a->k == K_NOT) return a->kid[0];
  if (a->k == K_CONCAT) { Ex b[64]; for (unsigned i = 0; i < a->n; i++) b[i] = mkNot(a->kid[i]); return mkConcat(b, a->n); }
  if (a->k == K_ITE) { if (isC(a->kid[1]) || isC(a->kid[2])) return mkIte(a->kid[0], mkNot(a->kid[1]), mkNot(a->kid[2])); }
  Ex k[1] = {a}; return P->intern(K_NOT, a->w, 0, 0, k, 1);
}

Ex mkNary(Kind k, std::vector<Ex> in) {
  std::vector<Ex> v; v.reserve(in.size());
  Ex zero = mkBool(k == K_OR); // absorbing
  for (Ex e : in) {
    if (isC(e)) { if (e == zero) return zero; continue; }
    if (e->k == k) for (unsigned i = 0; i < e->n; i++) v.push_back(e->kid[i]); else v.push_back(e);
  }
  std::sort(v.begin(), v.end(), [](Ex a, Ex b) { return a->id < b->id; });
  v.erase(std::unique(v.begin(), v.end()), v.end());
  if (v.empty()) return mkBool(k == K_AND);
  if (v.size() == 1) return v[0];
  for (Ex e : v) if (e->k == K_NOT && std::binary_search(v.begin(), v.end(), e->kid[0], [](Ex a, Ex b) { return a->id < b->id; })) return zero;
  return P->intern(k, 1, 0, 0, v.data(), v.size());
}

static unsigned cuts(Ex a, Ex b, unsigned *out) { // segment boundaries (ends)
  uint64_t bm = 0; unsigned o = 0;
  auto walk = [&](Ex e) { if (e->k == K_CONCAT) { o = 0; for (unsigned i = 0; i < e->n; i++) { o += e->kid[i]->w; if (o < e->w) bm |= 1ULL << o; } } };
  walk(a); walk(b);
  unsigned n = 0; while (bm) { out[n++] = __builtin_ctzll(bm); bm &= bm - 1; }
  out[n++] = a->w; return n;
}

Ex mkBit(Kind k, Ex a, Ex b) {
  if (isC(a) && isC(b)) return mkConst(a->w, concOp(k, a->w, a->c, b->c));
  if (isC(a)) std::swap(a, b);
  unsigned w = a->w; uint64_t m = maskw(w);
  if (a == b) return k == K_XOR ? mkConst(w, 0) : a;
  if (isC(b)) {
    if (k == K_AND) { if (b->c == 0) return b; if (b->c == m) return a; }
    if (k == K_OR) { if (b->c == 0) return a; if (b->c == m) return b; }
    if (k == K_XOR) { if (b->c == 0) return a; if (b->c == m) return mkNot(a); }
  }
  if ((a->k == K_NOT && a->kid[0] == b) || (b->k == K_NOT && b->kid[0] == a)) return k == K_AND ? mkConst(w, 0) : mkConst(w, m);
  if (w == 1) {
    if (k == K_XOR) { // a xor b
      return mkNot(mkEq(a, b));
    }
    return mkNary(k, {a, b});
  }
  if (a->k == K_CONCAT || b->k == K_CONCAT) {
    unsigned c[64]; unsigned n = cuts(a, b, c); Ex buf[64]; unsigned o = 0;
    for (unsigned i = 0; i < n; i++) { buf[i] = mkBit(k, mkExtract(a, o, c[i] - o), mkExtract(b, o, c[i] - o)); o = c[i]; }
    return mkConcat(buf, n);
  }
  if (isC(b) && (k == K_AND || k == K_OR) && a->k != K_ITE) { // split on runs
    Ex buf[64]; unsigned n = 0, o = 0;
    while (o < w) {
      unsigned bit = (b->c >> o) & 1, t = o; while (t < w && ((b->c >> t) & 1) == bit) t++;
      bool keep = (k == K_AND) == (bit == 1);
      buf[n++] = keep ? mkExtract(a, o, t - o) : mkConst(t - o, k == K_AND ? 0 : ~0ULL); o = t;
    }
    return mkConcat(buf, n);
  }
  for (int s = 0; s < 2; s++) {
    Ex x = s ? b : a, y = s ? a : b;
    if (x->k == K_ITE) {
      if (isC(x->kid[1]) && isC(x->kid[2]) && (isC(y) || (k != K_XOR && (x->kid[1]->c == 0 || x->kid[1]->c == m) && (x->kid[2]->c == 0 || x->kid[2]->c == m))))
        return mkIte(x->kid[0], mkBit(k, x->kid[1], y), mkBit(k, x->kid[2], y));
      if (isC(x->kid[1]) && isC(x->kid[2]) && y->k == K_ITE && isC(y->kid[1]) && isC(y->kid[2]))
        return mkIte(x->kid[0], mkBit(k, x->kid[1], y), mkBit(k, x->kid[2], y));
    }
  }
  if (k == K_XOR && isC(b) && a->k == K_XOR && isC(a->kid[1])) return mkBit(K_XOR, a->kid[0], mkConst(w, a->kid[1]->c ^ b->c));
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return mk2(k, w, a, b);
}

Ex mkAdd(Ex a, Ex b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, a->c + b->c);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (b->c == 0) return a;
    if (a->k == K_ADD && isC(a->kid[1])) return mkAdd(a->kid[0], mkConst(w, a->kid[1]->c + b->c));
    if (a->k == K_ITE && isC(a->kid[1]) && isC(a->kid[2])) return mkIte(a->kid[0], mkAdd(a->kid[1], b), mkAdd(a->kid[2], b));
  } else {
    if (b->k == K_ADD && isC(b->kid[1])) return mkAdd(mkAdd(a, b->kid[0]), b->kid[1]);
    if (a->k == K_ADD && isC(a->kid[1])) return mkAdd(mkAdd(a->kid[0], b), a->kid[1]);
    // x + (~x + 1) cancels; Sub is built as a + ~b + 1
    if ((a->k == K_NOT && a->kid[0] == b) || (b->k == K_NOT && b->kid[0] == a)) return mkConst(w, ~0ULL);
  }
  if ((a->mz & b->mz) == 0) return mkBit(K_OR, a, b);
  if (w == 1) return mkXor(a, b);
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return mk2(K_ADD, w, a, b);
}

Ex mkMul(Ex a, Ex b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, a->c * b->c);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (b->c == 0) return b;
    if (b->c == 1) return a;
    if ((b->c & (b->c - 1)) == 0) return mkShift(K_SHL, a, mkConst(w, __builtin_ctzll(b->c)));
  } else if (a->id > b->id) std::swap(a, b);
  return mk2(K_MUL, w, a, b);
}

Ex mkDiv(Kind k, Ex a, Ex b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, concOp(k, w, a->c, b->c));
  if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) {
    unsigned s = __builtin_ctzll(b->c);
    if (k == K_UDIV) return mkShift(K_LSHR, a, mkConst(w, s));
    if (k == K_UREM) return s == 0 ? mkConst(w, 0) : mkZext(mkExtract(a, 0, s), w);
  }
  // narrow unsigned division when the high halves are known zero
  if ((k == K_UDIV || k == K_UREM) && w > 32 && !(a->mz >> 32) && !(b->mz >> 32) && isC(b) && b->c)
    return mkZext(mkDiv(k, mkExtract(a, 0, 32), mkExtract(b, 0, 32)), w);
  return mk2(k, w, a, b);
}

Ex mkShift(Kind k, Ex a, Ex b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, concOp(k, w, a->c, b->c));
  if (isC(a) && a->c == 0) return a;
  if (isC(b)) {
    unsigned s = b->c >= w ? w : (unsigned)b->c;
    if (s == 0) return a;
    if (k == K_SHL) { if (s == w) return mkConst(w, 0); Ex p[2] = {mkConst(s, 0), mkExtract(a, 0, w - s)}; return mkConcat(p, 2); }
    if (k == K_LSHR) { if (s == w) return mkConst(w, 0); return mkZext(mkExtract(a, s, w - s), w); }
    if (s == w) s = w - 1;
    return mkSext(mkExtract(a, s, w - s), w);
  }
  return mk2(k, w, a, b);
}

Ex mkIte(Ex c, Ex a, Ex b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return mkIte(c->kid[0], b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->k == K_ITE && a->kid[0] == c) a = a->kid[1];
  if (b->k == K_ITE && b->kid[0] == c) b = b->kid[2];
  if (a == b) return a;
  Ex k[3] = {c, a, b}; return P->intern(K_ITE, a->w, 0, 0, k, 3);
}

Ex mkEq(Ex a, Ex b) {
  if (a == b) return mkBool(true);
  if (isC(a) && isC(b)) return mkBool(a->c == b->c);
  if (isC(a)) std::swap(a, b);
  unsigned w = a->w;
  if (isC(b) && (b->c & ~a->mz)) return mkBool(false);
  if (w == 1) {
    if (isC(b)) return b->c ? a : mkNot(a);
    if (a->k == K_NOT && b->k == K_NOT) return mkEq(a->kid[0], b->kid[0]);
    if (a->k == K_NOT) return mkNot(mkEq(a->kid[0], b));
    if (b->k == K_NOT) return mkNot(mkEq(a, b->kid[0]));
    if (a->id > b->id) std::swap(a, b);
    return mk2(K_EQ, 1, a, b);
  }
  if (a->k == K_CONCAT || b->k == K_CONCAT) {
    unsigned c[64]; unsigned n = cuts(a, b, c); std::vector<Ex> v; unsigned o = 0;
    for (unsigned i = 0; i < n; i++) { Ex e = mkEq(mkExtract(a, o, c[i] - o), mkExtract(b, o, c[i] - o)); if (isF(e)) return e; v.push_back(e); o = c[i]; }
    return mkNary(K_AND, v);
  }
  if (isC(b)) {
    switch (a->k) {
    case K_NOT: return mkEq(a->kid[0], mkConst(w, ~b->c));
    case K_XOR: if (isC(a->kid[1])) return mkEq(a->kid[0], mkConst(w, b->c ^ a->kid[1]->c)); if (b->c == 0) return mkEq(a->kid[0], a->kid[1]); break;
    case K_ADD: if (isC(a->kid[1])) return mkEq(a->kid[0], mkConst(w, b->c - a->kid[1]->c)); break;
    case K_OR: if (b->c == 0) return mkAnd(mkEq(a->kid[0], b), mkEq(a->kid[1], b)); break;
    case K_AND: if (b->c == maskw(w)) return mkAnd(mkEq(a->kid[0], b), mkEq(a->kid[1], b)); break;
    case K_ITE: if (isC(a->kid[1]) || isC(a->kid[2])) return mkIte(a->kid[0], mkEq(a->kid[1], b), mkEq(a->kid[2], b)); break;
    default: break;
    }
  } else {
    if (a->k == K_NOT && b->k == K_NOT) return mkEq(a->kid[0], b->kid[0]);
    if (a->id > b->id) std::swap(a, b);
  }
  return mk2(K_EQ, 1, a, b);
}

static unsigned sigw(Ex e) { return e->mz ? 64 - __builtin_clzll(e->mz) : 1; }

Ex mkUlt(Ex a, Ex b) {
  if (a == b) return mkBool(false);
  if (isC(a) && isC(b)) return mkBool(a->c < b->c);
  unsigned w = a->w;
  if (isC(b)) { if (b->c == 0) return mkBool(false); if (b->c == 1) return mkEq(a, mkConst(w, 0)); if (a->mz < b->c) return mkBool(true); if (b->c == maskw(w)) return mkNot(mkEq(a, b)); }
  if (isC(a)) { if (a->c == maskw(w)) return mkBool(false); if (a->c == 0) return mkNot(mkEq(b, a)); if (b->mz <= a->c) return mkBool(false); }
  unsigned s = std::max(sigw(a), sigw(b));
  if (s < w) return mkUlt(mkExtract(a, 0, s), mkExtract(b, 0, s));
  if (w == 1) return mkAnd(mkNot(a), b);
  if (isC(b) && a->k == K_ITE && (isC(a->kid[1]) || isC(a->kid[2]))) return mkIte(a->kid[0], mkUlt(a->kid[1], b), mkUlt(a->kid[2], b));
  if (isC(a) && b->k == K_ITE && (isC(b->kid[1]) || isC(b->kid[2]))) return mkIte(b->kid[0], mkUlt(a, b->kid[1]), mkUlt(a, b->kid[2]));
  // power-of-two thresholds: x < 2^k  <=>  high bits zero
  if (isC(b) && (b->c & (b->c - 1)) == 0) { unsigned k = __builtin_ctzll(b->c); return mkEq(mkExtract(a, k, w - k), mkConst(w - k, 0)); }
  if (isC(a) && ((a->c + 1) & a->c) == 0) { unsigned k = __builtin_ctzll(a->c + 1); return mkNot(mkEq(mkExtract(b, k, w - k), mkConst(w - k, 0))); }
  return mk2(K_ULT, 1, a, b);
}

Ex mkSlt(Ex a, Ex b) {
  if (a == b) return mkBool(false);
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkBool(sx(a->c, w) < sx(b->c, w));
  uint64_t sb = 1ULL << (w - 1);
  bool ap = !(a->mz & sb), bp = !(b->mz & sb), an = isC(a) && (a->c & sb), bn = isC(b) && (b->c & sb);
  if (ap && bp) return mkUlt(a, b);
  if (an && bp) return mkBool(true);
  if (ap && bn) return mkBool(false);
  if (isC(b) && b->c == 0) return mkExtract(a, w - 1, 1);
  if (isC(a) && a->c == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
  if (isC(b) && a->k == K_ITE && (isC(a->kid[1]) || isC(a->kid[2]))) return mkIte(a->kid[0], mkSlt(a->kid[1], b), mkSlt(a->kid[2], b));
  if (isC(a) && b->k == K_ITE && (isC(b->kid[1]) || isC(b->kid[2]))) return mkIte(b->kid[0], mkSlt(a, b->kid[1]), mkSlt(a, b->kid[2]));
  if (w == 1) return mkAnd(a, mkNot(b));
  return mk2(K_SLT, 1, a, b);
}

uint64_t evalE(Ex e, const std::vector<uint8_t> &m) {
  if (e->k == K_CONST) return e->c;
  if (e->k == K_VAR) return e->c < m.size() ? m[e->c] : 0;
  if (e->epoch == P->epoch) return e->val;
  uint64_t r = 0;
  switch (e->k) {
  case K_EXTRACT: r = (evalE(e->kid[0], m) >> e->lo) & maskw(e->w); break;
  case K_CONCAT: { unsigned o = 0; for (unsigned i = 0; i < e->n; i++) { r |= evalE(e->kid[i], m) << o; o += e->kid[i]->w; } break; }
  case K_NOT: r = ~evalE(e->kid[0], m) & maskw(e->w); break;
  case K_ITE: r = evalE(e->kid[0], m) ? evalE(e->kid[1], m) : evalE(e->kid[2], m); break;
  case K_AND: r = maskw(e->w); for (unsigned i = 0; i < e->n && r; i++) r &= evalE(e->kid[i], m); break;
  case K_OR: for (unsigned i = 0; i < e->n; i++) { r |= evalE(e->kid[i], m); if (e->w == 1 && r) break; } break;
  default: r = concOp(e->k, e->kid[0]->w, evalE(e->kid[0], m), evalE(e->kid[1], m)); break;
  }
  e->epoch = P->epoch; e->val = r; return r;
}

const std::vector<uint32_t> &varsOf(Ex e) {
  if (e->vars) return *e->vars;
  auto *v = new std::vector<uint32_t>();
  if (e->k == K_VAR) v->push_back(e->c);
  for (unsigned i = 0; i < e->n; i++) { auto &k = varsOf(e->kid[i]); v->insert(v->end(), k.begin(), k.end()); }
  std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end());
  e->vars = v; return *v;
}

std::string showE(Ex e, int d) {
  static const char *nm[] = {"c", "v", "ext", "cat", "not", "and", "or", "xor", "add", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite"};
  if (e->k == K_CONST) return std::to_string(e->c) + ":" + std::to_string(e->w);
  if (e->k == K_VAR) return "v" + std::to_string(e->c);
  if (!d) return "...";
  std::string s = "(" + std::string(nm[e->k]);
  if (e->k == K_EXTRACT) s += "[" + std::to_string(e->lo) + "+" + std::to_string(e->w) + "]";
  for (unsigned i = 0; i < e->n; i++) s += " " + showE(e->kid[i], d - 1);
  return s + ")";
}
