#include "expr.hpp"
#include <unistd.h>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <unordered_set>

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
struct H { size_t operator()(E e) const { return e->hash; } };
struct Q {
  bool operator()(E x, E y) const {
    return x->op == y->op && x->w == y->w && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c;
  }
};
static std::unordered_set<E, H, Q>& table() { static auto* t = new std::unordered_set<E, H, Q>(1 << 16); return *t; }
size_t exprCount() { return table().size(); }

static void range(Expr* e) {
  uint64_t m = maskw(e->w);
  e->umin = 0; e->umax = m;
  E a = e->a, b = e->b, c = e->c;
  switch (e->op) {
    case O_CONST: e->umin = e->umax = e->val; break;
    case O_CONCAT:
      e->umin = (a->umin << b->w) | b->umin;
      e->umax = (a->umax << b->w) | b->umax;
      break;
    case O_ZEXT: e->umin = a->umin; e->umax = a->umax; break;
    case O_SEXT:
      if (!(a->umax >> (a->w - 1))) { e->umin = a->umin; e->umax = a->umax; }
      break;
    case O_EXTRACT:
      if (e->val == 0 && a->umax <= m) { e->umin = a->umin; e->umax = a->umax; }
      else if (e->val + e->w == a->w) { e->umin = a->umin >> e->val; e->umax = a->umax >> e->val; }
      break;
    case O_ADD: {
      unsigned __int128 s = (unsigned __int128)a->umax + b->umax;
      if (s <= m) { e->umin = a->umin + b->umin; e->umax = (uint64_t)s; }
      break;
    }
    case O_SUB: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; } break;
    case O_MUL: {
      unsigned __int128 s = (unsigned __int128)a->umax * b->umax;
      if (s <= m) { e->umin = a->umin * b->umin; e->umax = (uint64_t)s; }
      break;
    }
    case O_UDIV: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; } break;
    case O_UREM: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); if (a->umax < b->umin) e->umin = a->umin; } break;
    case O_AND: e->umax = std::min(a->umax, b->umax); break;
    case O_OR: {
      e->umin = std::max(a->umin, b->umin);
      uint64_t mx = a->umax | b->umax;
      while (mx & (mx + 1)) mx |= mx >> 1;
      e->umax = mx; break;
    }
    case O_XOR: {
      uint64_t mx = a->umax | b->umax;
      while (mx & (mx + 1)) mx |= mx >> 1;
      e->umax = mx; break;
    }
    case O_LSHR: if (isConst(b) && b->val < e->w) { e->umin = a->umin >> b->val; e->umax = a->umax >> b->val; }
      else e->umax = a->umax; break;
    case O_ITE: e->umin = std::min(b->umin, c->umin); e->umax = std::max(b->umax, c->umax); break;
    default: break;
  }
}

static E intern(Op op, unsigned w, uint64_t val, E a, E b, E c) {
  assert(w >= 1 && w <= 64);
  Expr t;
  t.op = op; t.w = w; t.val = val; t.a = a; t.b = b; t.c = c;
  uint64_t h = mix(op * 131 + w, val);
  h = mix(h, a ? a->hash : 1); h = mix(h, b ? b->hash : 2); h = mix(h, c ? c->hash : 3);
  t.hash = h;
  auto it = table().find(&t);
  if (it != table().end()) return *it;
  Expr* e = (Expr*)malloc(sizeof(Expr));
  *e = t;
  e->zbv = e->zbool = nullptr; e->syms = nullptr; e->epoch = 0; e->eval = 0;
  range(e);
  if (e->umin == e->umax && op != O_CONST) { uint64_t v = e->umin; free(e); return mkConst(v, w); }
  table().insert(e);
  return e;
}

E mkConst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & maskw(w), nullptr, nullptr, nullptr); }
E mkSym(uint32_t id) { return intern(O_SYM, 8, id, nullptr, nullptr, nullptr); }

uint64_t constBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  a &= m; b &= m;
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m;
    case O_UREM: return b ? a % b : a;
    case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (uint64_t)(-(uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sx(a, w) < sx(b, w);
    case O_SLE: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}

static bool adjacent(E hi, E lo) {
  return hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w;
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 64);
  if (isConst(hi) && isConst(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isConst(hi) && hi->val == 0) return mkZext(lo, w);
  if (adjacent(hi, lo)) return mkExtract(hi->a, lo->val, w);
  // hi is the top of what lo is the bottom of, via ZEXT tails
  if (lo->op == O_CONCAT) {
    if (adjacent(hi, lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
    if (isConst(hi) && isConst(lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
  }
  if (hi->op == O_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->op == O_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  return intern(O_CONCAT, w, 0, hi, lo, nullptr);
}
E mkExtract(E x, unsigned lo, unsigned w) {
  assert(lo + w <= x->w);
  if (lo == 0 && w == x->w) return x;
  switch (x->op) {
    case O_CONST: return mkConst(x->val >> lo, w);
    case O_EXTRACT: return mkExtract(x->a, x->val + lo, w);
    case O_CONCAT: {
      unsigned bw = x->b->w;
      if (lo >= bw) return mkExtract(x->a, lo - bw, w);
      if (lo + w <= bw) return mkExtract(x->b, lo, w);
      return mkConcat(mkExtract(x->a, 0, lo + w - bw), mkExtract(x->b, lo, bw - lo));
    }
    case O_ZEXT: {
      unsigned aw = x->a->w;
      if (lo >= aw) return mkConst(0, w);
      if (lo + w <= aw) return mkExtract(x->a, lo, w);
      return mkZext(mkExtract(x->a, lo, aw - lo), w);
    }
    case O_SEXT: {
      unsigned aw = x->a->w;
      if (lo + w <= aw) return mkExtract(x->a, lo, w);
      if (lo < aw) return mkSext(mkExtract(x->a, lo, aw - lo), w);
      return mkSext(mkExtract(x->a, aw - 1, 1), w);
    }
    case O_AND: case O_OR: case O_XOR:
      return mkBin(x->op, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0) return mkBin(x->op, mkExtract(x->a, 0, w), mkExtract(x->b, 0, w));
      break;
    case O_ITE:
      return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->c, lo, w));
    default: break;
  }
  if (x->umax <= maskw(lo) && lo > 0) return mkConst(0, w);
  return intern(O_EXTRACT, w, lo, x, nullptr, nullptr);
}
E mkZext(E x, unsigned w) {
  if (w == x->w) return x;
  assert(w > x->w);
  if (isConst(x)) return mkConst(x->val, w);
  if (x->op == O_ZEXT) return mkZext(x->a, w);
  return intern(O_ZEXT, w, 0, x, nullptr, nullptr);
}
E mkSext(E x, unsigned w) {
  if (w == x->w) return x;
  assert(w > x->w);
  if (isConst(x)) return mkConst((uint64_t)sx(x->val, x->w), w);
  if (!(x->umax >> (x->w - 1))) return mkZext(x, w);
  if (x->op == O_SEXT) return mkSext(x->a, w);
  return intern(O_SEXT, w, 0, x, nullptr, nullptr);
}
E mkNot(E a) {
  assert(a->w == 1);
  if (isConst(a)) return mkConst(!a->val, 1);
  if (a->op == O_XOR && isConst(a->a) && a->a->val == 1) return a->b;
  switch (a->op) {
    case O_ULT: return mkBin(O_ULE, a->b, a->a);
    case O_ULE: return mkBin(O_ULT, a->b, a->a);
    case O_SLT: return mkBin(O_SLE, a->b, a->a);
    case O_SLE: return mkBin(O_SLT, a->b, a->a);
    default: break;
  }
  return intern(O_XOR, 1, 0, mkConst(1, 1), a, nullptr);
}
E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (isConst(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && isConst(c->a)) return mkIte(c->b, b, a);
  if (a->w == 1 && isConst(a) && isConst(b)) return a->val ? c : mkNot(c);
  if (a->w == 1 && isConst(a)) return a->val ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
  if (b->w == 1 && isConst(b)) return b->val ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
  if (a->op == O_ITE && a->a == c) a = a->b;
  if (b->op == O_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w)
    return mkZext(mkIte(c, a->a, b->a), a->w);
  return intern(O_ITE, a->w, 0, c, a, b);
}
E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }

static bool leafConstIte(E e, int depth) {
  if (isConst(e)) return true;
  if (e->op == O_ITE && depth > 0) return leafConstIte(e->b, depth - 1) && leafConstIte(e->c, depth - 1);
  return false;
}

static E simpEq(E a, E b) {
  if (a == b) return mkConst(1, 1);
  if (isConst(b)) std::swap(a, b);
  if (a->umin > b->umax || b->umin > a->umax) return mkConst(0, 1);
  if (isConst(a)) {
    uint64_t v = a->val;
    if (b->w == 1) return v ? b : mkNot(b);
    switch (b->op) {
      case O_ZEXT: return (v >> b->a->w) ? mkConst(0, 1) : simpEq(mkConst(v, b->a->w), b->a);
      case O_SEXT: {
        uint64_t t = v & maskw(b->a->w);
        if (((uint64_t)sx(t, b->a->w) & maskw(b->w)) != v) return mkConst(0, 1);
        return mkEq(mkConst(t, b->a->w), b->a);
      }
      case O_CONCAT:
        return mkBin(O_AND, mkEq(mkConst(v >> b->b->w, b->a->w), b->a), mkEq(mkConst(v, b->b->w), b->b));
      case O_ADD: if (isConst(b->a)) return mkEq(mkConst(v - b->a->val, b->w), b->b); break;
      case O_SUB: if (isConst(b->a)) return mkEq(mkConst(b->a->val - v, b->w), b->b);
        if (v == 0) return mkEq(b->a, b->b); break;
      case O_XOR: if (isConst(b->a)) return mkEq(mkConst(v ^ b->a->val, b->w), b->b); break;
      case O_ITE:
        if (isConst(b->b) || isConst(b->c) || leafConstIte(b, 8))
          return mkIte(b->a, mkEq(a, b->b), mkEq(a, b->c));
        break;
      case O_OR:
        if (v == 0) return mkBin(O_AND, mkEq(a, b->a), mkEq(a, b->b));
        break;
      default: break;
    }
  } else {
    if (a->op == O_ZEXT && b->op == O_ZEXT) {
      unsigned w = std::max(a->a->w, b->a->w);
      return mkEq(mkZext(a->a, w), mkZext(b->a, w));
    }
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w)
      return mkBin(O_AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == O_ADD && b->op == O_ADD && isConst(a->a) && isConst(b->a))
      return mkEq(mkBin(O_ADD, mkConst(a->a->val - b->a->val, a->w), a->b), b->b);
    if (a->hash > b->hash) std::swap(a, b);
  }
  return intern(O_EQ, 1, 0, a, b, nullptr);
}

static E splitConst(E x, uint64_t& c) {
  if (x->op == O_ADD && isConst(x->a)) { c = x->a->val; return x->b; }
  c = 0; return x;
}

E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  assert(a->w == b->w);
  bool cmp = op >= O_EQ && op <= O_SLE;
  if (isConst(a) && isConst(b)) return mkConst(constBin(op, a->val, b->val, w), cmp ? 1 : w);
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD: {
      if (isConst(b)) std::swap(a, b);
      if (isConst(a)) {
        if (a->val == 0) return b;
        if (b->op == O_ADD && isConst(b->a)) return mkBin(O_ADD, mkConst(a->val + b->a->val, w), b->b);
        if (b->op == O_SUB && isConst(b->a)) return mkBin(O_SUB, mkConst(a->val + b->a->val, w), b->b);
        if (b->op == O_ITE && isConst(b->b) && isConst(b->c))
          return mkIte(b->a, mkBin(O_ADD, a, b->b), mkBin(O_ADD, a, b->c));
        if (w == 1) return mkNot(b);
        break;
      }
      if (b->op == O_ADD && isConst(b->a)) return mkBin(O_ADD, b->a, mkBin(O_ADD, a, b->b));
      if (a->op == O_ADD && isConst(a->a)) return mkBin(O_ADD, a->a, mkBin(O_ADD, a->b, b));
      if (a->op == O_SUB && a->b == b) return a->a;
      if (b->op == O_SUB && b->b == a) return b->a;
      if (w == 1) return mkBin(O_XOR, a, b);
      if (a->hash > b->hash) std::swap(a, b);
      break;
    }
    case O_SUB: {
      if (a == b) return mkConst(0, w);
      if (isConst(b)) return mkBin(O_ADD, mkConst(-b->val, w), a);
      uint64_t ca, cb;
      E a2 = splitConst(a, ca), b2 = splitConst(b, cb);
      if (a2 == b2) return mkConst(ca - cb, w);
      if ((ca || cb) && !isConst(a2)) return mkBin(O_ADD, mkConst(ca - cb, w), mkBin(O_SUB, a2, b2));
      if (isConst(a2) && cb) return mkBin(O_SUB, mkConst(a2->val - cb, w), b2);
      if (a2->op == O_ADD && a2->a == b2) return a2->b;
      if (a2->op == O_ADD && a2->b == b2) return a2->a;
      break;
    }
    case O_MUL:
      if (isConst(b)) std::swap(a, b);
      if (isConst(a)) {
        if (a->val == 0) return a;
        if (a->val == 1) return b;
        if ((a->val & (a->val - 1)) == 0) return mkBin(O_SHL, b, mkConst(__builtin_ctzll(a->val), w));
      }
      break;
    case O_UDIV:
      if (b->umin > 0) for (unsigned k = 8; k <= 32 && k < w; k *= 2)  // no wider than needed
        if (!(a->umax >> k) && !(b->umax >> k)) return mkZext(mkBin(op, mkExtract(a, 0, k), mkExtract(b, 0, k)), w);
      if (isConst(b) && b->val == 1) return a;
      if (isConst(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(O_LSHR, a, mkConst(__builtin_ctzll(b->val), w));
      break;
    case O_UREM:
      if (b->umin > 0) for (unsigned k = 8; k <= 32 && k < w; k *= 2)
        if (!(a->umax >> k) && !(b->umax >> k)) return mkZext(mkBin(op, mkExtract(a, 0, k), mkExtract(b, 0, k)), w);
      if (isConst(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(O_AND, a, mkConst(b->val - 1, w));
      if (b->umin > a->umax) return a;
      break;
    case O_SDIV: case O_SREM:
      if (!(a->umax >> (w - 1)) && !(b->umax >> (w - 1)) && b->umin > 0) return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
      break;
    case O_AND:
      if (isConst(b)) std::swap(a, b);
      if (a == b) return a;
      if (isConst(a)) {
        if (a->val == 0) return a;
        if (a->val == m) return b;
        if (b->op == O_AND && isConst(b->a)) return mkBin(O_AND, mkConst(a->val & b->a->val, w), b->b);
        if (((a->val + 1) & a->val) == 0) {  // low mask
          unsigned k = __builtin_popcountll(a->val);
          return mkZext(mkExtract(b, 0, k), w);
        }
        if (b->op == O_ZEXT) return mkZext(mkBin(O_AND, mkConst(a->val, b->a->w), b->a), w);
        if (b->op == O_CONCAT)
          return mkConcat(mkBin(O_AND, mkConst(a->val >> b->b->w, b->a->w), b->a), mkBin(O_AND, mkConst(a->val, b->b->w), b->b));
        // contiguous mask
        unsigned tz = __builtin_ctzll(a->val);
        uint64_t s = a->val >> tz;
        if (tz && ((s + 1) & s) == 0) {
          unsigned k = __builtin_popcountll(s);
          return mkZext(mkConcat(mkExtract(b, tz, k), mkConst(0, tz)), w);
        }
        break;
      }
      if (a->op == O_ZEXT && b->op == O_ZEXT) {
        unsigned k = std::min(a->a->w, b->a->w);
        return mkZext(mkBin(O_AND, mkExtract(a, 0, k), mkExtract(b, 0, k)), w);
      }
      if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
      if (a->hash > b->hash) std::swap(a, b);
      break;
    case O_OR:
      if (isConst(b)) std::swap(a, b);
      if (a == b) return a;
      if (isConst(a)) {
        if (a->val == 0) return b;
        if (a->val == m) return a;
        if (b->op == O_OR && isConst(b->a)) return mkBin(O_OR, mkConst(a->val | b->a->val, w), b->b);
        if (b->op == O_CONCAT)
          return mkConcat(mkBin(O_OR, mkConst(a->val >> b->b->w, b->a->w), b->a), mkBin(O_OR, mkConst(a->val, b->b->w), b->b));
        if (b->op == O_ZEXT) {
          unsigned k = b->a->w;
          return mkConcat(mkConst(a->val >> k, w - k), mkBin(O_OR, mkConst(a->val, k), b->a));
        }
        break;
      }
      // disjoint halves -> concat
      for (int i = 0; i < 2; i++) {
        E z = i ? b : a, y = i ? a : b;
        unsigned k = 0; 
        E t = z;
        if (t->op == O_ZEXT) t = t->a;
        if (t->op == O_CONCAT) { E l = t; while (l->op == O_CONCAT) l = l->b; if (isConst(l) && l->val == 0) k = l->w; }
        if (k && y->umax <= maskw(k)) return mkConcat(mkExtract(z, k, w - k), mkExtract(y, 0, k));
      }
      if (a->op == O_ZEXT && b->op == O_ZEXT) {
        unsigned k = std::max(a->a->w, b->a->w);
        if (k < w) return mkZext(mkBin(O_OR, mkExtract(a, 0, k), mkExtract(b, 0, k)), w);
      }
      if (w == 1) { if (a == mkNot(b)) return mkConst(1, 1); }
      if (a->hash > b->hash) std::swap(a, b);
      break;
    case O_XOR:
      if (isConst(b)) std::swap(a, b);
      if (a == b) return mkConst(0, w);
      if (isConst(a)) {
        if (a->val == 0) return b;
        if (w == 1) return mkNot(b);
        if (b->op == O_XOR && isConst(b->a)) return mkBin(O_XOR, mkConst(a->val ^ b->a->val, w), b->b);
      } else if (a->op == O_ZEXT && b->op == O_ZEXT) {
        unsigned k = std::max(a->a->w, b->a->w);
        if (k < w) return mkZext(mkBin(O_XOR, mkExtract(a, 0, k), mkExtract(b, 0, k)), w);
      }
      if (!isConst(a) && a->hash > b->hash) std::swap(a, b);
      break;
    case O_SHL:
      if (isConst(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - b->val), mkConst(0, b->val));
      }
      if (isConst(a) && a->val == 0) return a;
      break;
    case O_LSHR:
      if (isConst(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        return mkZext(mkExtract(a, b->val, w - b->val), w);
      }
      if (isConst(a) && a->val == 0) return a;
      break;
    case O_ASHR:
      if (isConst(b)) {
        if (b->val == 0) return a;
        uint64_t k = b->val >= w ? w - 1 : b->val;
        return mkSext(mkExtract(a, k, w - k), w);
      }
      if (isConst(a) && a->val == 0) return a;
      break;
    case O_EQ: return simpEq(a, b);
    case O_ULT:
      if (a == b) return mkConst(0, 1);
      if (a->umax < b->umin) return mkConst(1, 1);
      if (a->umin >= b->umax) return mkConst(0, 1);
      if (isConst(b) && b->val == 1) return mkEq(mkConst(0, w), a);
      if (isConst(a) && a->val == 0) return mkNot(mkEq(a, b));
      if ((a->op == O_ZEXT || isConst(a)) && (b->op == O_ZEXT || isConst(b))) {
        unsigned k = std::max(a->op == O_ZEXT ? a->a->w : 1, b->op == O_ZEXT ? b->a->w : 1);
        uint64_t mm = maskw(k);
        if (k < w && (!isConst(a) || a->val <= mm) && (!isConst(b) || b->val <= mm))
          return mkBin(O_ULT, mkExtract(a, 0, k), mkExtract(b, 0, k));
      }
      if (w == 1) return mkBin(O_AND, mkNot(a), b);
      break;
    case O_ULE:
      if (a == b) return mkConst(1, 1);
      if (a->umax <= b->umin) return mkConst(1, 1);
      if (a->umin > b->umax) return mkConst(0, 1);
      if (isConst(b) && b->val == 0) return mkEq(b, a);
      if (isConst(b) && b->val != m) return mkBin(O_ULT, a, mkConst(b->val + 1, w));
      if (isConst(a) && a->val > 0) return mkBin(O_ULT, mkConst(a->val - 1, w), b);
      if (a->op == O_ZEXT && b->op == O_ZEXT) {
        unsigned k = std::max(a->a->w, b->a->w);
        if (k < w) return mkBin(O_ULE, mkExtract(a, 0, k), mkExtract(b, 0, k));
      }
      if (w == 1) return mkBin(O_OR, mkNot(a), b);
      break;
    case O_SLT: case O_SLE: {
      if (a == b) return mkConst(op == O_SLE, 1);
      uint64_t sb = 1ull << (w - 1);
      bool ap = !(a->umax & sb), bp = !(b->umax & sb), an = (a->umin & sb), bn = (b->umin & sb);
      if ((ap && bp) || (an && bn)) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
      if (ap && bn) return mkConst(0, 1);
      if (an && bp) return mkConst(1, 1);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
      if (a->op == O_SEXT && isConst(b)) {
        unsigned k = a->a->w; int64_t v = sx(b->val, w), lo = -(1ll << (k - 1)), hi = (1ll << (k - 1)) - 1;
        if (v > hi) return mkConst(1, 1);
        if (v < lo) return mkConst(0, 1);
        return mkBin(op, a->a, mkConst(b->val, k));
      }
      if (b->op == O_SEXT && isConst(a)) {
        unsigned k = b->a->w; int64_t v = sx(a->val, w), lo = -(1ll << (k - 1)), hi = (1ll << (k - 1)) - 1;
        if (v < lo) return mkConst(1, 1);
        if (v > hi) return mkConst(0, 1);
        return mkBin(op, mkConst(a->val, k), b->a);
      }
      // x <s 0  -> sign bit ; x >s -1
      if (op == O_SLT && isConst(b) && b->val == 0) return mkExtract(a, w - 1, 1);
      if (op == O_SLE && isConst(a) && a->val == 0) return mkNot(mkExtract(b, w - 1, 1));
      if (op == O_SLT && isConst(a) && a->val == m) return mkNot(mkExtract(b, w - 1, 1));
      if (op == O_SLE && isConst(b) && b->val == m) return mkExtract(a, w - 1, 1);
      break;
    }
    default: break;
  }
  return intern(op, cmp ? 1 : w, 0, a, b, nullptr);
}

static std::set<SymSet>& sets() { static auto* s = new std::set<SymSet>(); return *s; }
static void orInto(SymSet& d, const SymSet& s) {
  if (d.size() < s.size()) d.resize(s.size(), 0);
  for (size_t i = 0; i < s.size(); i++) d[i] |= s[i];
}
const SymSet* symsOf(E e) {
  if (e->syms) return e->syms;
  SymSet r;
  if (e->op == O_SYM) { r.resize(e->val / 64 + 1, 0); r[e->val / 64] |= 1ull << (e->val % 64); }
  else {
    if (e->a) orInto(r, *symsOf(e->a));
    if (e->b) orInto(r, *symsOf(e->b));
    if (e->c) orInto(r, *symsOf(e->c));
  }
  e->syms = &*sets().insert(r).first;
  return e->syms;
}

static uint64_t g_epoch = 1;
void evalNewEpoch() { g_epoch++; }
uint64_t evalExpr(E e, const Model& m) {
  if (e->op == O_CONST) return e->val;
  if (e->epoch == g_epoch) return e->eval;
  uint64_t r = 0;
  switch (e->op) {
    case O_SYM: r = e->val < m.size() ? m[e->val] : 0; break;
    case O_CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
    case O_EXTRACT: r = (evalExpr(e->a, m) >> e->val) & maskw(e->w); break;
    case O_ZEXT: r = evalExpr(e->a, m); break;
    case O_SEXT: r = (uint64_t)sx(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
    case O_ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
    default: r = constBin(e->op, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w); break;
  }
  e->epoch = g_epoch; e->eval = r;
  return r;
}

static Z3_context g_ctx;
static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  _exit(3);
}
Z3_context zctx() {
  if (!g_ctx) {
    Z3_config cfg = Z3_mk_config();
    g_ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(g_ctx, zerr);
  }
  return g_ctx;
}
static Z3_sort bvs(unsigned w) {
  static Z3_sort s[65];
  if (!s[w]) { s[w] = Z3_mk_bv_sort(zctx(), w); Z3_inc_ref(zctx(), Z3_sort_to_ast(zctx(), s[w])); }
  return s[w];
}
Z3_ast toBool(E e) {
  if (e->zbool) return e->zbool;
  Z3_context c = zctx();
  Z3_ast r = nullptr;
  assert(e->w == 1);
  switch (e->op) {
    case O_CONST: r = e->val ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case O_EQ: r = e->a->w == 1 ? Z3_mk_iff(c, toBool(e->a), toBool(e->b)) : Z3_mk_eq(c, toBV(e->a), toBV(e->b)); break;
    case O_ULT: r = Z3_mk_bvult(c, toBV(e->a), toBV(e->b)); break;
    case O_ULE: r = Z3_mk_bvule(c, toBV(e->a), toBV(e->b)); break;
    case O_SLT: r = Z3_mk_bvslt(c, toBV(e->a), toBV(e->b)); break;
    case O_SLE: r = Z3_mk_bvsle(c, toBV(e->a), toBV(e->b)); break;
    case O_AND: { Z3_ast t[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(c, 2, t); break; }
    case O_OR: { Z3_ast t[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(c, 2, t); break; }
    case O_XOR:
      if (isConst(e->a)) r = e->a->val ? Z3_mk_not(c, toBool(e->b)) : toBool(e->b);
      else r = Z3_mk_xor(c, toBool(e->a), toBool(e->b));
      break;
    case O_ITE: r = Z3_mk_ite(c, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    default: r = Z3_mk_eq(c, toBV(e), Z3_mk_unsigned_int64(c, 1, bvs(1))); break;
  }
  Z3_inc_ref(c, r);
  return e->zbool = r;
}
Z3_ast toBV(E e) {
  if (e->zbv) return e->zbv;
  Z3_context c = zctx();
  Z3_ast r = nullptr;
  switch (e->op) {
    case O_CONST: r = Z3_mk_unsigned_int64(c, e->val, bvs(e->w)); break;
    case O_SYM: {
      char nm[32]; snprintf(nm, sizeof nm, "b%llu", (unsigned long long)e->val);
      r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), bvs(8)); break;
    }
    case O_CONCAT: r = Z3_mk_concat(c, toBV(e->a), toBV(e->b)); break;
    case O_EXTRACT: r = Z3_mk_extract(c, e->val + e->w - 1, e->val, toBV(e->a)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a->w, toBV(e->a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, toBV(e->a)); break;
    case O_ADD: r = Z3_mk_bvadd(c, toBV(e->a), toBV(e->b)); break;
    case O_SUB: r = Z3_mk_bvsub(c, toBV(e->a), toBV(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(c, toBV(e->a), toBV(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(c, toBV(e->a), toBV(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(c, toBV(e->a), toBV(e->b)); break;
    case O_UREM: r = Z3_mk_bvurem(c, toBV(e->a), toBV(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(c, toBV(e->a), toBV(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(c, toBV(e->a), toBV(e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(c, toBV(e->a), toBV(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(c, toBV(e->a), toBV(e->b)); break;
    case O_ITE: r = Z3_mk_ite(c, toBool(e->a), toBV(e->b), toBV(e->c)); break;
    case O_AND: case O_OR: case O_XOR:
      if (e->w > 1) {
        r = e->op == O_AND ? Z3_mk_bvand(c, toBV(e->a), toBV(e->b)) : e->op == O_OR ? Z3_mk_bvor(c, toBV(e->a), toBV(e->b)) : Z3_mk_bvxor(c, toBV(e->a), toBV(e->b));
        break;
      }  // fallthrough
    default:
      r = Z3_mk_ite(c, toBool(e), Z3_mk_unsigned_int64(c, 1, bvs(1)), Z3_mk_unsigned_int64(c, 0, bvs(1)));
      break;
  }
  Z3_inc_ref(c, r);
  return e->zbv = r;
}

std::string exprStr(E e, int d) {
  static const char* n[] = {"const","sym","concat","extract","zext","sext","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite"};
  char b[64];
  if (isConst(e)) { snprintf(b, sizeof b, "%llu:%d", (unsigned long long)e->val, e->w); return b; }
  if (e->op == O_SYM) { snprintf(b, sizeof b, "b%llu", (unsigned long long)e->val); return b; }
  if (!d) return "..";
  std::string s = std::string("(") + n[e->op];
  if (e->op == O_EXTRACT) { snprintf(b, sizeof b, "[%d:%d]", (int)(e->val + e->w - 1), (int)e->val); s += b; }
  for (E k : {e->a, e->b, e->c}) if (k) s += " " + exprStr(k, d - 1);
  return s + ")";
}
