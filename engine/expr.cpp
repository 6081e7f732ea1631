#include "expr.h"
#include <algorithm>

static Expr** table; static u32 tcap, tcount; static u32 nextId = 1;
static char* arena; static size_t arenaLeft;

static Expr* allocExpr() {
  if (arenaLeft < sizeof(Expr)) { size_t n = 1 << 18; arena = (char*)aligned_alloc(64, n); arenaLeft = n; }
  Expr* e = (Expr*)arena; arena += (sizeof(Expr)+15)&~15; arenaLeft -= std::min(arenaLeft, (sizeof(Expr)+15)&~(size_t)15); return e;
}
u32 eCount() { return tcount; }
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
static u64 hashOf(EOp op, unsigned w, unsigned off, Expr* a, Expr* b, Expr* c, u128 v) {
  u64 h = op * 131 + w; h = mix(h, off); h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, c ? c->id : 0);
  h = mix(h, (u64)v); h = mix(h, (u64)(v >> 64)); return h;
}
static u64 hashOf(Expr* e) { return hashOf(e->op, e->width, e->off, e->a, e->b, e->c, e->val); }
static void grow() {
  u32 nc = tcap ? tcap * 2 : 1 << 12; Expr** nt = (Expr**)calloc(nc, sizeof(Expr*));
  for (u32 i = 0; i < tcap; i++) if (table[i]) { u64 h = hashOf(table[i]); u32 j = h & (nc-1); while (nt[j]) j = (j+1) & (nc-1); nt[j] = table[i]; }
  free(table); table = nt; tcap = nc;
}
static Expr* mk(EOp op, unsigned w, unsigned off, Expr* a, Expr* b, Expr* c, u128 v) {
  if (tcount * 2 >= tcap) grow();
  u64 h = hashOf(op, w, off, a, b, c, v); u32 j = h & (tcap-1);
  while (Expr* e = table[j]) { if (e->op == op && e->width == w && e->off == off && e->a == a && e->b == b && e->c == c && e->val == v) return e; j = (j+1) & (tcap-1); }
  Expr* e = allocExpr(); memset((void*)e, 0, sizeof *e);
  e->op = op; e->width = w; e->off = off; e->id = nextId++; e->a = a; e->b = b; e->c = c; e->val = v;
  e->single = -1; e->size = 1;
  if (op == E_VAR) { e->single = (int)(u32)v; u32 i = (u32)v & 255; e->mask.w[i >> 6] = 1ull << (i & 63); }
  for (Expr* k : {a, b, c}) if (k) {
    e->mask.add(k->mask);
    e->size = std::min<u64>((u64)e->size + k->size, 1u << 30);
    if (k->single != -1) e->single = e->single == -1 ? k->single : e->single == k->single ? e->single : -2;
  }
  table[j] = e; tcount++;
  return e;
}
Expr* eConst(u128 v, unsigned w) { return mk(E_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
Expr* eVar(u32 idx, unsigned w) { return mk(E_VAR, w, 0, 0, 0, 0, idx); }

u128 foldBin(EOp op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w); a &= m; b &= m;
  switch (op) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m; case E_UREM: return b ? a % b : a;
    case E_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case E_SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case E_ASHR: return (u128)(sx(a, w) >> (b >= w ? w-1 : (unsigned)b)) & m;
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b; case E_SLT: return sx(a, w) < sx(b, w); case E_SLE: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}
Expr* eNot(Expr* a) { return eBin(E_XOR, a, eConst(1, 1)); }
static bool isTrue(Expr* e) { return e->op == E_CONST && e->val == 1; }
static bool isNot(Expr* e) { return e->op == E_XOR && e->width == 1 && isC(e->b) && e->b->val == 1; }

// known upper bound of an expression value (cheap)
static u128 ub(Expr* e, int d = 6) {
  u128 m = maskw(e->width); if (d == 0) return m;
  switch (e->op) {
    case E_CONST: return e->val; case E_ZEXT: return ub(e->a, d-1);
    case E_AND: return std::min(ub(e->a, d-1), ub(e->b, d-1));
    case E_ITE: return std::max(ub(e->b, d-1), ub(e->c, d-1));
    case E_LSHR: if (isC(e->b)) return e->b->val >= e->width ? 0 : ub(e->a, d-1) >> (unsigned)e->b->val; return m;
    case E_UREM: if (isC(e->b) && e->b->val) return e->b->val - 1; return m;
    case E_UDIV: if (isC(e->b) && e->b->val) return ub(e->a, d-1) / e->b->val; return m;
    case E_ADD: { u128 x = ub(e->a, d-1), y = ub(e->b, d-1); if (x > m - y) return m; return x + y; }
    case E_MUL: { u128 x = ub(e->a, d-1), y = ub(e->b, d-1); if (x && y > m / x) return m; return x * y; }
    case E_OR: case E_XOR: { u128 x = ub(e->a, d-1) | ub(e->b, d-1); u128 r = 1; while (r - 1 < x && r) r <<= 1; return std::min(m, r - 1); }
    case E_SHL: if (isC(e->b) && e->b->val < e->width) { u128 x = ub(e->a, d-1); if (x > (m >> (unsigned)e->b->val)) return m; return x << (unsigned)e->b->val; } return m;
    default: return m;
  }
}
static bool cmpOp(EOp op) { return op >= E_EQ && op <= E_SLE; }
static bool commut(EOp op) { return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ; }

Expr* eBin(EOp op, Expr* a, Expr* b) {
  unsigned w = a->width, rw = cmpOp(op) ? 1 : w;
  if (a->width != b->width) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->width, b->width); abort(); }
  if (isC(a) && isC(b)) return eConst(foldBin(op, a->val, b->val, w), rw);
  if (commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  u128 m = maskw(w);
  bool cb = isC(b), ca = isC(a); u128 bv = cb ? b->val : 0;
  switch (op) {
    case E_ADD: if (cb && bv == 0) return a; if (cb && a->op == E_ADD && isC(a->b)) return eBin(E_ADD, a->a, eConst(a->b->val + bv, w));
      if (cb && a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eConst(a->b->val + bv, w), eConst(a->c->val + bv, w));
      if (w == 1) return eBin(E_XOR, a, b); break;
    case E_SUB: if (a == b) return eConst(0, w); if (cb) return eBin(E_ADD, a, eConst((u128)0 - bv, w)); if (w == 1) return eBin(E_XOR, a, b);
      if (a->op == E_ADD && a->a == b) return a->b; if (a->op == E_ADD && a->b == b) return a->a;
      if (a->op == E_ADD && isC(a->b)) return eBin(E_ADD, eBin(E_SUB, a->a, b), a->b);
      if (b->op == E_ADD && isC(b->b)) return eBin(E_ADD, eBin(E_SUB, a, b->a), eConst((u128)0 - b->b->val, w));
      break;
    case E_MUL: if (cb && bv == 0) return b; if (cb && bv == 1) return a; if (w == 1) return eBin(E_AND, a, b);
      if (cb && (bv & (bv-1)) == 0) { unsigned s = 0; while (((u128)1 << s) != bv) s++; return eBin(E_SHL, a, eConst(s, w)); } break;
    case E_UDIV: if (cb && bv == 1) return a; if (cb && bv && (bv & (bv-1)) == 0) { unsigned s = 0; while (((u128)1 << s) != bv) s++; return eBin(E_LSHR, a, eConst(s, w)); }
      if (cb && bv && ub(a) < bv) return eConst(0, w); break;
    case E_UREM: if (cb && bv && (bv & (bv-1)) == 0) return eBin(E_AND, a, eConst(bv-1, w)); if (cb && bv && ub(a) < bv) return a; break;
    case E_SDIV: case E_SREM: if (cb && bv && !((bv >> (w-1)) & 1) && !((ub(a) >> (w-1)) & 1)) return eBin(op == E_SDIV ? E_UDIV : E_UREM, a, b); break;
    case E_AND: if (a == b) return a; if (cb && bv == 0) return b; if (cb && bv == m) return a;
      if (w == 1 && isNot(a) && a->a == b) return eConst(0, 1); if (w == 1 && isNot(b) && b->a == a) return eConst(0, 1);
      if (cb && a->op == E_AND && isC(a->b)) return eBin(E_AND, a->a, eConst(a->b->val & bv, w));
      if (cb && (bv & (bv + 1)) == 0) { unsigned k = 0; while (k < w && ((bv >> k) & 1)) k++; return eZext(eExtract(a, 0, k), w); }
      if (cb && a->op == E_ZEXT) { return eZext(eBin(E_AND, a->a, eConst(bv, a->a->width)), w); }
      if (cb && a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eConst(a->b->val & bv, w), eConst(a->c->val & bv, w));
      break;
    case E_OR: if (a == b) return a; if (cb && bv == 0) return a; if (cb && bv == m) return b;
      if (w == 1 && isNot(a) && a->a == b) return eConst(1, 1); if (w == 1 && isNot(b) && b->a == a) return eConst(1, 1);
      // (zext x) | (y << k) where x narrower than k => concat
      if (b->op == E_SHL || a->op == E_SHL) {
        Expr* s = b->op == E_SHL ? b : a; Expr* o = s == b ? a : b;
        if (isC(s->b) && s->b->val > 0 && s->b->val < w) { unsigned k = (unsigned)s->b->val; if (ub(o) <= maskw(k)) return eConcat(eExtract(s->a, 0, w - k), eExtract(o, 0, k)); }
      }
      { // disjoint concats: Concat(x, 0_k) | zext(y)
        for (int t = 0; t < 2; t++) { Expr* s = t ? a : b; Expr* o = t ? b : a;
          if (s->op == E_CONCAT && isC(s->b) && s->b->val == 0 && ub(o) <= maskw(s->b->width)) return eConcat(s->a, eExtract(o, 0, s->b->width)); 
          if (s->op == E_ZEXT && s->a->op == E_CONCAT && isC(s->a->b) && s->a->b->val == 0 && ub(o) <= maskw(s->a->b->width)) return eZext(eConcat(s->a->a, eExtract(o, 0, s->a->b->width)), w); } }
      if (cb && a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eConst(a->b->val | bv, w), eConst(a->c->val | bv, w));
      break;
    case E_XOR: if (a == b) return eConst(0, w); if (cb && bv == 0) return a; if (cb && a->op == E_XOR && isC(a->b)) return eBin(E_XOR, a->a, eConst(a->b->val ^ bv, w));
      if (w == 1 && cb) { if (a->op == E_ULT) return eBin(E_ULE, a->b, a->a); if (a->op == E_ULE) return eBin(E_ULT, a->b, a->a); if (a->op == E_SLT) return eBin(E_SLE, a->b, a->a); if (a->op == E_SLE) return eBin(E_SLT, a->b, a->a);
        if (a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eNot(a->b), eNot(a->c)); }
      if (cb && w > 1 && a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eConst(a->b->val ^ bv, w), eConst(a->c->val ^ bv, w));
      break;
    case E_SHL: if (cb) { if (bv == 0) return a; if (bv >= w) return eConst(0, w); unsigned k = (unsigned)bv; return eConcat(eExtract(a, 0, w - k), eConst(0, k)); }
      if (ca && a->val == 0) return a; break;
    case E_LSHR: if (cb) { if (bv == 0) return a; if (bv >= w) return eConst(0, w); unsigned k = (unsigned)bv; return eZext(eExtract(a, k, w - k), w); }
      if (ca && a->val == 0) return a; break;
    case E_ASHR: if (cb) { if (bv == 0) return a; unsigned k = bv >= w ? w - 1 : (unsigned)bv; return eSext(eExtract(a, k, w - k), w); } break;
    case E_EQ:
      if (a == b) return eConst(1, 1);
      if (w == 1) { if (cb) return bv ? a : eNot(a); }
      if (cb) {
        if (a->op == E_ZEXT) { if (bv > maskw(a->a->width)) return eConst(0, 1); return eBin(E_EQ, a->a, eConst(bv, a->a->width)); }
        if (a->op == E_SEXT) { u128 lo = bv & maskw(a->a->width); if (((u128)sx(lo, a->a->width) & m) != bv) return eConst(0, 1); return eBin(E_EQ, a->a, eConst(lo, a->a->width)); }
        if (a->op == E_CONCAT) { unsigned lw = a->b->width; return eBin(E_AND, eBin(E_EQ, a->b, eConst(bv, lw)), eBin(E_EQ, a->a, eConst(bv >> lw, a->a->width))); }
        if (a->op == E_ADD && isC(a->b)) return eBin(E_EQ, a->a, eConst(bv - a->b->val, w));
        if (a->op == E_XOR && isC(a->b)) return eBin(E_EQ, a->a, eConst(bv ^ a->b->val, w));
        if (a->op == E_ITE) { if (isC(a->b) && isC(a->c)) { bool x = a->b->val == bv, y = a->c->val == bv; return x && y ? eConst(1, 1) : x ? a->a : y ? eNot(a->a) : eConst(0, 1); }
          if (isC(a->b)) return a->b->val == bv ? eBin(E_OR, a->a, eBin(E_EQ, a->c, b)) : eBin(E_AND, eNot(a->a), eBin(E_EQ, a->c, b));
          if (isC(a->c)) return a->c->val == bv ? eBin(E_OR, eNot(a->a), eBin(E_EQ, a->b, b)) : eBin(E_AND, a->a, eBin(E_EQ, a->b, b)); }
        if (ub(a) < bv) return eConst(0, 1);
      } else {
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->width == b->a->width) return eBin(E_EQ, a->a, b->a);
        if (a->op == E_SEXT && b->op == E_SEXT && a->a->width == b->a->width) return eBin(E_EQ, a->a, b->a);
        if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->width == b->b->width) return eBin(E_AND, eBin(E_EQ, a->b, b->b), eBin(E_EQ, a->a, b->a));
        if (a->op == E_ADD && isC(a->b) && b->op == E_ADD && isC(b->b)) return eBin(E_EQ, a->a, eBin(E_ADD, b->a, eConst(b->b->val - a->b->val, w)));
      }
      break;
    case E_ULT: if (a == b) return eConst(0, 1); if (cb && bv == 0) return eConst(0, 1); if (cb && ub(a) < bv) return eConst(1, 1); if (ca && a->val >= ub(b)) return eConst(0, 1);
      if (cb && bv == 1) return eBin(E_EQ, a, eConst(0, w));
      if (ca && a->val == 0) return eNot(eBin(E_EQ, b, a));
      if (a->op == E_ZEXT && cb) return eBin(E_ULT, a->a, eConst(bv, a->a->width)); // bv <= max since ub check
      if (b->op == E_ZEXT && ca) return eBin(E_ULT, eConst(a->val, b->a->width), b->a);
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->width == b->a->width) return eBin(E_ULT, a->a, b->a);
      if (cb && a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eConst(a->b->val < bv, 1), eConst(a->c->val < bv, 1));
      break;
    case E_ULE: if (a == b) return eConst(1, 1); if (cb && ub(a) <= bv) return eConst(1, 1); if (ca && a->val == 0) return eConst(1, 1); if (ca && a->val > ub(b)) return eConst(0, 1);
      if (cb && bv == 0) return eBin(E_EQ, a, b); if (ca && a->val == m) return eBin(E_EQ, b, a);
      if (a->op == E_ZEXT && cb) return eBin(E_ULE, a->a, eConst(bv, a->a->width));
      if (b->op == E_ZEXT && ca) return eBin(E_ULE, eConst(a->val, b->a->width), b->a);
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->width == b->a->width) return eBin(E_ULE, a->a, b->a);
      if (cb && a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eConst(a->b->val <= bv, 1), eConst(a->c->val <= bv, 1));
      break;
    case E_SLT: case E_SLE:
      if (a == b) return eConst(op == E_SLE, 1);
      { bool na = (ub(a) >> (w-1)) & 1, nb = (ub(b) >> (w-1)) & 1; // may be negative
        if (!na && !nb) return eBin(op == E_SLT ? E_ULT : E_ULE, a, b);
        if (cb && (bv >> (w-1)) && !na) return eConst(0, 1);
        if (ca && (a->val >> (w-1)) && !nb) return eConst(1, 1); }
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->width == b->a->width) return eBin(op, a->a, b->a);
      if (a->op == E_SEXT && cb) { unsigned iw = a->a->width; i128 c = sx(bv, w), lo = sx((u128)1 << (iw-1), iw), hi = (i128)maskw(iw-1);
        if (op == E_SLT) { if (c > hi) return eConst(1,1); if (c <= lo) return eConst(0,1); } else { if (c >= hi) return eConst(1,1); if (c < lo) return eConst(0,1); }
        return eBin(op, a->a, eConst(bv, iw)); }
      if (b->op == E_SEXT && ca) { unsigned iw = b->a->width; i128 c = sx(a->val, w), lo = sx((u128)1 << (iw-1), iw), hi = (i128)maskw(iw-1);
        if (op == E_SLT) { if (c < lo) return eConst(1,1); if (c >= hi) return eConst(0,1); } else { if (c <= lo) return eConst(1,1); if (c > hi) return eConst(0,1); }
        return eBin(op, eConst(a->val, iw), b->a); }
      if (cb && a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eConst(foldBin(op, a->b->val, bv, w), 1), eConst(foldBin(op, a->c->val, bv, w), 1));
      break;
    default: break;
  }
  return mk(op, rw, 0, a, b, 0, 0);
}
Expr* eIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (isNot(c)) return eIte(c->a, b, a);
  if (a->width == 1) {
    if (isC(a)) return a->val ? eBin(E_OR, c, b) : eBin(E_AND, eNot(c), b);
    if (isC(b)) return b->val ? eBin(E_OR, eNot(c), a) : eBin(E_AND, c, a);
  }
  if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->width == b->a->width) return eZext(eIte(c, a->a, b->a), a->width);
  if (a->op == E_ZEXT && isC(b) && b->val <= maskw(a->a->width)) return eZext(eIte(c, a->a, eConst(b->val, a->a->width)), a->width);
  if (b->op == E_ZEXT && isC(a) && a->val <= maskw(b->a->width)) return eZext(eIte(c, eConst(a->val, b->a->width), b->a), b->width);
  if (a->op == E_ITE && a->a == c) return eIte(c, a->b, b);
  if (b->op == E_ITE && b->a == c) return eIte(c, a, b->c);
  return mk(E_ITE, a->width, 0, c, a, b, 0);
}
Expr* eExtract(Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (isC(a)) return eConst(a->val >> off, w);
  switch (a->op) {
    case E_EXTRACT: return eExtract(a->a, off + a->off, w);
    case E_ZEXT: { unsigned iw = a->a->width; if (off >= iw) return eConst(0, w); if (off + w <= iw) return eExtract(a->a, off, w); return eZext(eExtract(a->a, off, iw - off), w); }
    case E_SEXT: { unsigned iw = a->a->width; if (off + w <= iw) return eExtract(a->a, off, w); if (off < iw) return eSext(eExtract(a->a, off, iw - off), w); break; }
    case E_CONCAT: { unsigned lw = a->b->width; if (off + w <= lw) return eExtract(a->b, off, w); if (off >= lw) return eExtract(a->a, off - lw, w); return eConcat(eExtract(a->a, 0, off + w - lw), eExtract(a->b, off, lw - off)); }
    case E_AND: case E_OR: case E_XOR: return eBin(a->op, eExtract(a->a, off, w), eExtract(a->b, off, w));
    case E_ADD: case E_SUB: case E_MUL: if (off == 0 && a->size <= 10) return eBin(a->op, eExtract(a->a, 0, w), eExtract(a->b, 0, w)); break;
    case E_ITE: if (isC(a->b) || isC(a->c) || (a->size < 200)) return eIte(a->a, eExtract(a->b, off, w), eExtract(a->c, off, w)); break;
    default: break;
  }
  return mk(E_EXTRACT, w, off, a, 0, 0, 0);
}
// for bytes stored to memory: loading all of them again restores the expression
Expr* eExtractRaw(Expr* a, unsigned off, unsigned w) { if (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL) return off == 0 && w == a->width ? a : mk(E_EXTRACT, w, off, a, 0, 0, 0); return eExtract(a, off, w); }
Expr* eConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->width + lo->width;
  if (isC(hi) && isC(lo)) return eConst((hi->val << lo->width) | lo->val, w);
  if (isC(hi) && hi->val == 0) return eZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->off == lo->off + lo->width) return eExtract(lo->a, lo->off, w);
  if (hi->op == E_EXTRACT && hi->a == lo && hi->off == lo->width) return eExtract(lo, 0, w); // unreachable mostly
  if (lo->op == E_CONCAT) { Expr* t = nullptr; Expr* m = lo->a; if (hi->op == E_EXTRACT && m->op == E_EXTRACT && hi->a == m->a && hi->off == m->off + m->width) t = eExtract(m->a, m->off, hi->width + m->width);
    else if (isC(hi) && isC(m)) t = eConcat(hi, m); if (t) return eConcat(t, lo->b); }
  if (hi->op == E_ZEXT) return eZext(eConcat(hi->a, lo), w);
  // right-associate: Concat(Concat(x,y),z) -> Concat(x,Concat(y,z))
  if (hi->op == E_CONCAT) return eConcat(hi->a, eConcat(hi->b, lo));
  if (hi->op == E_ITE && lo->op == E_ITE && hi->a == lo->a) return eIte(hi->a, eConcat(hi->b, lo->b), eConcat(hi->c, lo->c));
  if (hi->op == E_ITE && isC(hi->b) && isC(hi->c) && isC(lo)) return eIte(hi->a, eConcat(hi->b, lo), eConcat(hi->c, lo));
  return mk(E_CONCAT, w, 0, hi, lo, 0, 0);
}
Expr* eZext(Expr* a, unsigned w) {
  if (w == a->width) return a; if (w < a->width) return eExtract(a, 0, w);
  if (isC(a)) return eConst(a->val, w);
  if (a->op == E_ZEXT) return eZext(a->a, w);
  if (a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eConst(a->b->val, w), eConst(a->c->val, w));
  return mk(E_ZEXT, w, 0, a, 0, 0, 0);
}
Expr* eSext(Expr* a, unsigned w) {
  if (w == a->width) return a; if (w < a->width) return eExtract(a, 0, w);
  if (isC(a)) return eConst((u128)sx(a->val, a->width), w);
  if (a->op == E_ZEXT) return eZext(a->a, w);
  if (a->op == E_SEXT) return eSext(a->a, w);
  if (!((ub(a) >> (a->width-1)) & 1)) return eZext(a, w);
  if (a->op == E_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eSext(a->b, w), eSext(a->c, w));
  return mk(E_SEXT, w, 0, a, 0, 0, 0);
}
static std::string cstr(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "%llu", (unsigned long long)v); return b; }
std::string eStr(Expr* e, int d) {
  static const char* n[] = {"const","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","++","ext","zx","sx"};
  if (e->op == E_CONST) return cstr(e->val); if (e->op == E_VAR) return "v" + cstr(e->val);
  if (d == 0) return "...";
  if (e->op == E_EXTRACT) return eStr(e->a, d-1) + "[" + std::to_string(e->off) + ":" + std::to_string(e->width) + "]";
  if (e->op == E_ZEXT || e->op == E_SEXT) return std::string(n[e->op]) + std::to_string(e->width) + "(" + eStr(e->a, d-1) + ")";
  if (e->op == E_ITE) return "(" + eStr(e->a, d-1) + " ? " + eStr(e->b, d-1) + " : " + eStr(e->c, d-1) + ")";
  return "(" + eStr(e->a, d-1) + " " + n[e->op] + " " + eStr(e->b, d-1) + ")";
}
