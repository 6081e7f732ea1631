#include "solver.h"
#include <unistd.h>
#include <stdlib.h>
#include <time.h>
Z3_context Z;
static u64 nowus() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
Solver::Solver() { st = new SolverStats(); Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, errh); }
u32 Solver::newVar() { VarInfo v; v.dom.set(); v.ndom = 256; v.bound = false; vars.push_back(v); model.push_back(0); evEpoch++; return vars.size() - 1; }

Expr* Solver::simp(Expr* e) {
  if (!e->mask.inter(boundMask)) return e;
  if (e->simpEpoch == epoch) return e->simpVal;
  Expr* r = e;
  switch (e->op) {
    case E_CONST: break;
    case E_VAR: if (vars[(u32)e->val].bound) r = eConst(model[(u32)e->val], 8); break;
    case E_ITE: { Expr* c = simp(e->a); r = isC(c) ? (c->val ? simp(e->b) : simp(e->c)) : eIte(c, simp(e->b), simp(e->c)); break; }
    case E_CONCAT: r = eConcat(simp(e->a), simp(e->b)); break;
    case E_EXTRACT: r = eExtract(simp(e->a), e->off, e->width); break;
    case E_ZEXT: r = eZext(simp(e->a), e->width); break;
    case E_SEXT: r = eSext(simp(e->a), e->width); break;
    default: r = eBin(e->op, simp(e->a), simp(e->b));
  }
  e->simpEpoch = epoch; e->simpVal = r; return r;
}
static u32 EVE = 1; // global evaluation epoch
template <class F> static u128 evalRec(Expr* e, u32 ep, F& var) {
  if (e->op == E_CONST) return e->val;
  if (e->op == E_VAR) return var((u32)e->val);
  if (e->evalEpoch == ep) return e->evalVal;
  u128 r;
  switch (e->op) {
    case E_ITE: r = evalRec(e->a, ep, var) ? evalRec(e->b, ep, var) : evalRec(e->c, ep, var); break;
    case E_CONCAT: r = (evalRec(e->a, ep, var) << e->b->width) | evalRec(e->b, ep, var); break;
    case E_EXTRACT: r = (evalRec(e->a, ep, var) >> e->off) & maskw(e->width); break;
    case E_ZEXT: r = evalRec(e->a, ep, var); break;
    case E_SEXT: r = (u128)sx(evalRec(e->a, ep, var), e->a->width) & maskw(e->width); break;
    default: { u128 x = evalRec(e->a, ep, var), y = evalRec(e->b, ep, var); r = foldBin(e->op, x, y, e->a->width); }
  }
  e->evalEpoch = ep; e->evalVal = r; return r;
}
u128 Solver::eval(Expr* e) {
  static u32 last = 0, lastEv = 0; // reuse memo while the model is unchanged
  if (lastEv != evEpoch || last != EVE) { EVE++; last = EVE; lastEv = evEpoch; }
  auto f = [&](u32 v) { return (u128)model[v]; };
  return evalRec(e, EVE, f);
}
u128 Solver::evalWith(Expr* e, u32 var, u8 val) { EVE++; auto f = [&](u32 v) { return (u128)(v == var ? val : model[v]); }; return evalRec(e, EVE, f); }
void Solver::interval(Expr* e, u128& lo, u128& hi) { int budget = 400; intervalRec(e, lo, hi, budget); }
void Solver::intervalRec(Expr* e, u128& lo, u128& hi, int& budget) {
  u128 M = maskw(e->width);
  e = simp(e); if (isC(e)) { lo = hi = e->val; return; }
  if (--budget < 0) { lo = 0; hi = M; return; }
  if (e->single >= 0) { auto it = ivMemo.find(e); VarInfo& vi = vars[e->single]; if (it != ivMemo.end() && it->second.n == vi.ndom) { lo = it->second.lo; hi = it->second.hi; return; }
    lo = M; hi = 0; for (int x = 0; x < 256; x++) if (vi.dom[x]) { u128 v = evalWith(e, e->single, x); if (v < lo) lo = v; if (v > hi) hi = v; } if (lo > hi) { lo = 0; hi = M; } evEpoch++; ivMemo[e] = Iv{vi.ndom, lo, hi}; return; }
  u128 al, ah, bl_, bh; lo = 0; hi = M; auto A = [&] { intervalRec(e->a, al, ah, budget); }; auto Bv = [&] { intervalRec(e->b, bl_, bh, budget); };
  switch (e->op) {
    case E_ZEXT: intervalRec(e->a, lo, hi, budget); return;
    case E_SEXT: A(); if (ah <= maskw(e->a->width) >> 1) { lo = al; hi = ah; } return;
    case E_EXTRACT: A(); if ((ah >> e->off) <= M) { lo = al >> e->off; hi = ah >> e->off; } return;
    case E_CONCAT: A(); Bv(); if (al != ah) { lo = (al << e->b->width); hi = (ah << e->b->width) | maskw(e->b->width); lo |= bl_; } else { lo = (al << e->b->width) | bl_; hi = (al << e->b->width) | bh; } return;
    case E_OR: A(); Bv(); { lo = al > bl_ ? al : bl_; u128 m = ah > bh ? ah : bh; u128 t = 1; while (t && t - 1 < m) t <<= 1; hi = t - 1; if (hi > M) hi = M; } return;
    case E_AND: A(); Bv(); lo = 0; hi = ah < bh ? ah : bh; return;
    case E_ITE: intervalRec(e->b, al, ah, budget); intervalRec(e->c, bl_, bh, budget); lo = al < bl_ ? al : bl_; hi = ah > bh ? ah : bh; return;
    case E_ADD: if (e->width > 64) return; A(); Bv(); if (ah + bh <= M) { lo = al + bl_; hi = ah + bh; } else if (al + bl_ > M) { lo = (al + bl_) & M; hi = (ah + bh) & M; } return;
    case E_SUB: if (e->width > 64) return; A(); Bv(); if (al >= bh) { lo = al - bh; hi = ah - bl_; } return;
    case E_MUL: if (e->width > 64) return; A(); Bv(); if (ah * bh <= M) { lo = al * bl_; hi = ah * bh; } return;
    case E_UDIV: A(); Bv(); if (bl_) { lo = al / bh; hi = ah / bl_; } return;
    case E_UREM: A(); Bv(); if (bl_) { hi = bh - 1; if (ah < hi) hi = ah; } return;
    case E_LSHR: if (!isC(e->b) || e->b->val >= e->width) return; A(); lo = al >> (unsigned)e->b->val; hi = ah >> (unsigned)e->b->val; return;
    case E_SHL: if (!isC(e->b) || e->b->val >= e->width || e->width > 64) return; A(); if ((ah << (unsigned)e->b->val) <= M) { lo = al << (unsigned)e->b->val; hi = ah << (unsigned)e->b->val; } return;
    default: return;
  }
}
// true only if the comparison is false for every value of the byte domains
bool Solver::refutedByIntervals(Expr* c) {
  bool neg = false; if (c->op == E_XOR && c->width == 1 && isC(c->b) && c->b->val) { neg = true; c = c->a; }
  u128 al, ah, bl_, bh;
  switch (c->op) {
    case E_ULT: interval(c->a, al, ah); interval(c->b, bl_, bh); return neg ? ah < bl_ : al >= bh;
    case E_ULE: interval(c->a, al, ah); interval(c->b, bl_, bh); return neg ? ah <= bl_ : al > bh;
    case E_SLT: case E_SLE: { interval(c->a, al, ah); interval(c->b, bl_, bh); u128 h = maskw(c->a->width) >> 1; if (ah > h || bh > h) return false; return c->op == E_SLT ? (neg ? ah < bl_ : al >= bh) : (neg ? ah <= bl_ : al > bh); }
    case E_EQ: if (neg) return false; interval(c->a, al, ah); interval(c->b, bl_, bh); return ah < bl_ || bh < al;
    case E_AND: return !neg && c->width == 1 && (refutedByIntervals(c->a) || refutedByIntervals(c->b));
    default: return false;
  }
}
// an expression of one input byte that is the byte plus a constant over its domain is rewritten to that sum
Expr* Solver::normSingle(Expr* e) {
  if (e->single < 0 || isC(e) || e->width > 64 || e->op == E_VAR || (e->op == E_ZEXT && e->a->op == E_VAR)) return e;
  VarInfo& vi = vars[e->single]; bool first = true, ok = true; u128 d = 0, M = maskw(e->width);
  for (int x = 0; x < 256 && ok; x++) if (vi.dom[x]) { u128 k = (evalWith(e, e->single, x) - (u128)x) & M; if (first) { d = k; first = false; } else ok = k == d; }
  evEpoch++; if (!ok || first) return e; return eBin(E_ADD, eZext(eVar(e->single), e->width), eConst(d, e->width));
}
void Solver::setModel(const std::vector<std::pair<u32,u8>>& m) { for (auto& p : m) model[p.first] = p.second; evEpoch++; }
static inline bool inMask(const Mask& m, u32 v) { v &= 255; return (m.w[v >> 6] >> (v & 63)) & 1; }
static inline void setMask(Mask& m, u32 v) { v &= 255; m.w[v >> 6] |= 1ull << (v & 63); }

Res Solver::check(Expr* c, std::vector<std::pair<u32,u8>>* nm, bool forceZ3) {
  c = simp(c);
  if (nm) nm->clear();
  if (isC(c) && !forceZ3) return c->val ? R_SAT : R_UNSAT;
  if (!forceZ3) {
    auto k = known.find(c); if (k != known.end()) { st->modelHits++; return k->second ? R_SAT : R_UNSAT; }
    if (eval(c)) { st->modelHits++; return R_SAT; }
    if (c->single >= 0) {
      u32 v = c->single; VarInfo& vi = vars[v]; int hit = -1; st->domQueries++;
      for (int x = 0; x < 256; x++) if (vi.dom[x] && evalWith(c, v, x)) { hit = x; break; }
      if (hit < 0) { certified(c); return R_UNSAT; }
      if (!inMask(multiMask, v)) { if (nm) nm->push_back({v, (u8)hit}); return R_SAT; }
    }
  }
  if (!forceZ3 && refutedByIntervals(c)) { st->domQueries++; certified(c); return R_UNSAT; }
  return z3check(c, nm);
}
// a branch that the byte domains rule out is put to Z3 as well (once for each distinct query)
void Solver::certified(Expr* c) {
  if (!certify) return; u64 h = (u64)c * 0x9e3779b97f4a7c15ull; if (c->single >= 0) for (Expr* e : vars[c->single].cons) h ^= (u64)e * 0xc2b2ae3d27d4eb4full; else for (Expr* e : multi) h += (u64)e * 0x165667b19e3779f9ull;
  if (!done.insert(h).second) return; 
  Res r = z3check(c, nullptr); st->certified++; if (r == R_SAT) { fprintf(stderr, "Z3 contradicts the byte domains\n"); abort(); }
}
Res Solver::z3check(Expr* c, std::vector<std::pair<u32,u8>>* nm) {
  u64 t0 = nowus();
  std::vector<Expr*> use; Mask m = c->mask; std::vector<char> taken(multi.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < multi.size(); i++) if (!taken[i] && multi[i]->mask.inter(m)) { taken[i] = 1; use.push_back(multi[i]); m.add(multi[i]->mask); ch = true; } }
  std::vector<u32> vs;
  for (u32 v = 0; v < vars.size(); v++) if (inMask(m, v)) { vs.push_back(v); for (Expr* e : vars[v].cons) use.push_back(e); }
  static Z3_solver s = nullptr;
  if (!s) { s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, s);
    if (rlimit) { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), rlimit); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p); } }
  Z3_solver_push(Z, s);
  for (Expr* e : use) Z3_solver_assert(Z, s, bl(e));
  Z3_solver_assert(Z, s, bl(c));
  Z3_lbool r = Z3_solver_check(Z, s);
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (res == R_SAT && nm) {
    Z3_model mo = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, mo);
    for (u32 v : vs) { Z3_ast out; Expr* ve = eVar(v); if (!Z3_model_eval(Z, mo, bv(ve), true, &out)) abort(); Z3_inc_ref(Z, out); uint64_t x = 0; Z3_get_numeral_uint64(Z, out, &x); Z3_dec_ref(Z, out); nm->push_back({v, (u8)x}); }
    Z3_model_dec_ref(Z, mo);
  }
  Z3_solver_pop(Z, s, 1);
  u64 d = nowus() - t0; st->z3Queries++;
  if (getenv("VPSE_SLOW") && d > strtoul(getenv("VPSE_SLOW"), 0, 10) * 1000) { static int k = 0; char fn[64]; snprintf(fn, 64, "/tmp/slow.%d.%d.smt2", getpid(), k++); Z3_solver_push(Z, s); for (Expr* e : use) Z3_solver_assert(Z, s, bl(e)); Z3_solver_assert(Z, s, bl(c)); FILE* f = fopen(fn, "w"); fprintf(f, "; %.1f s result %d\n%s\n(check-sat)\n", d / 1e6, (int)res, Z3_solver_to_string(Z, s)); fclose(f); Z3_solver_pop(Z, s, 1); } st->z3Micros += d; if (d > st->z3MaxMicros) st->z3MaxMicros = d; if (res == R_UNKNOWN) st->z3Unknown++;
  return res;
}
void Solver::bindIfSingleton(u32 v) {
  VarInfo& vi = vars[v]; if (vi.bound || vi.ndom != 1) return;
  vi.bound = true; setMask(boundMask, v); epoch++;
}
void Solver::add(Expr* c) {
  c = simp(c);
  if (isC(c)) return;
  if (c->op == E_AND) { Expr *a = c->a, *b = c->b; known[c] = true; add(a); add(b); return; }
  if (c->op == E_XOR && isC(c->b) && c->a->op == E_OR) { known[c] = true; Expr *a = c->a->a, *b = c->a->b; add(eNot(a)); add(eNot(b)); return; }
  addOne(c);
}
void Solver::addOne(Expr* c) {
  if (!known.emplace(c, true).second && known[c]) return;
  known[eNot(c)] = false;
  if (c->single >= 0) {
    u32 v = c->single; VarInfo& vi = vars[v]; vi.ndom = 0;
    for (int x = 0; x < 256; x++) if (vi.dom[x]) { if (evalWith(c, v, x)) vi.ndom++; else vi.dom.reset(x); }
    vi.cons.push_back(c); bindIfSingleton(v);
  } else { multi.push_back(c); multiMask.add(c->mask); }
}
Z3_ast Solver::bl(Expr* e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  switch (e->width == 1 ? e->op : E_VAR) {
    case E_CONST: r = e->val ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case E_EQ: if (e->a->width == 1) r = Z3_mk_iff(Z, bl(e->a), bl(e->b)); else r = Z3_mk_eq(Z, bv(e->a), bv(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(Z, bv(e->a), bv(e->b)); break;
    case E_ULE: r = Z3_mk_bvule(Z, bv(e->a), bv(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(Z, bv(e->a), bv(e->b)); break;
    case E_SLE: r = Z3_mk_bvsle(Z, bv(e->a), bv(e->b)); break;
    case E_AND: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_and(Z, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_or(Z, 2, x); break; }
    case E_XOR: if (isC(e->b)) r = Z3_mk_not(Z, bl(e->a)); else r = Z3_mk_xor(Z, bl(e->a), bl(e->b)); break;
    case E_ITE: r = Z3_mk_ite(Z, bl(e->a), bl(e->b), bl(e->c)); break;
    default: { Z3_ast one = Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)); r = Z3_mk_eq(Z, bv(e), one); }
  }
  Z3_inc_ref(Z, r); e->zbool = r; return r;
}
Z3_ast Solver::bv(Expr* e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  auto sort = [&](unsigned w) { return Z3_mk_bv_sort(Z, w); };
  switch (e->op) {
    case E_CONST: if (e->width <= 64) r = Z3_mk_unsigned_int64(Z, (u64)e->val, sort(e->width)); else { Z3_ast lo = Z3_mk_unsigned_int64(Z, (u64)e->val, sort(64)), hi = Z3_mk_unsigned_int64(Z, (u64)(e->val >> 64), sort(e->width - 64)); r = Z3_mk_concat(Z, hi, lo); } break;
    case E_VAR: { char n[16]; snprintf(n, 16, "v%u", (u32)e->val); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), sort(e->width)); break; }
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = Z3_mk_ite(Z, bl(e), Z3_mk_unsigned_int64(Z, 1, sort(1)), Z3_mk_unsigned_int64(Z, 0, sort(1))); break;
    case E_ITE: r = Z3_mk_ite(Z, bl(e->a), bv(e->b), bv(e->c)); break;
    case E_CONCAT: r = Z3_mk_concat(Z, bv(e->a), bv(e->b)); break;
    case E_EXTRACT: r = Z3_mk_extract(Z, e->off + e->width - 1, e->off, bv(e->a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(Z, e->width - e->a->width, bv(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(Z, e->width - e->a->width, bv(e->a)); break;
    case E_ADD: r = Z3_mk_bvadd(Z, bv(e->a), bv(e->b)); break; case E_SUB: r = Z3_mk_bvsub(Z, bv(e->a), bv(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(Z, bv(e->a), bv(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(Z, bv(e->a), bv(e->b)); break; case E_SDIV: r = Z3_mk_bvsdiv(Z, bv(e->a), bv(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(Z, bv(e->a), bv(e->b)); break; case E_SREM: r = Z3_mk_bvsrem(Z, bv(e->a), bv(e->b)); break;
    case E_AND: r = Z3_mk_bvand(Z, bv(e->a), bv(e->b)); break; case E_OR: r = Z3_mk_bvor(Z, bv(e->a), bv(e->b)); break; case E_XOR: r = Z3_mk_bvxor(Z, bv(e->a), bv(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(Z, bv(e->a), bv(e->b)); break; case E_LSHR: r = Z3_mk_bvlshr(Z, bv(e->a), bv(e->b)); break; case E_ASHR: r = Z3_mk_bvashr(Z, bv(e->a), bv(e->b)); break;
    default: abort();
  }
  Z3_inc_ref(Z, r); e->zbv = r; return r;
}
