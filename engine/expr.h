// Hash-consed bit-vector expressions (width 1..128) with simplification, evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT };

struct Mask { u64 w[4]; bool any() const { return w[0]|w[1]|w[2]|w[3]; }
  bool inter(const Mask& o) const { return (w[0]&o.w[0])|(w[1]&o.w[1])|(w[2]&o.w[2])|(w[3]&o.w[3]); }
  void add(const Mask& o) { for (int i=0;i<4;i++) w[i]|=o.w[i]; } };

struct Expr {
  EOp op; u8 width; u16 off; // off: extract offset
  u32 id;
  int single;                // -1: constant, >=0: the only variable, -2: several
  u32 size;                  // tree size (saturating)
  Expr *a, *b, *c;
  u128 val;                  // const value, or variable index
  Mask mask;
  Z3_ast zbv, zbool;
  u32 evalEpoch; u32 simpEpoch; u128 evalVal; Expr* simpVal;
};

extern Z3_context Z;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; v &= maskw(w); if ((v >> (w-1)) & 1) v |= ~maskw(w); return (i128)v; }

Expr* eConst(u128 v, unsigned w);
Expr* eVar(u32 idx, unsigned w = 8);
Expr* eBin(EOp op, Expr* a, Expr* b);
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eExtractRaw(Expr* a, unsigned off, unsigned w); Expr* eExtract(Expr* a, unsigned off, unsigned w);
Expr* eConcat(Expr* hi, Expr* lo);
Expr* eZext(Expr* a, unsigned w);
Expr* eSext(Expr* a, unsigned w);
Expr* eNot(Expr* a);  // width-1 negation
static inline bool isC(Expr* e) { return e->op == E_CONST; }
u128 foldBin(EOp op, u128 a, u128 b, unsigned w);
u32 eCount();
std::string eStr(Expr* e, int depth = 6);
