/* P04 straight-line programs under register pressure: every instruction sequence of a bounded
 * length behind every prefix that leaves K typed values pending; the whole operand stack is returned. */
#include "num.h"
static int ts[80], tn; /* type stack of the program being built */
static Fn *F;
enum { P_I32, P_I64, P_F32, P_F64, L_I32, L_I64, L_F32, L_F64, NLOCS };
static uint64_t pv(int k, int i) { /* distinct small values that stay inside the first page when used as addresses */
  switch (k) { case 0: return 16 + 8 * i; case 1: return 0x100000000ull * (i + 1) + 24 + i; case 2: return f32b(1.5f + i); default: return f64b(-2.25 - i); }
}
static int tk(int t) { return t == I32 ? 0 : t == I64 ? 1 : t == F32 ? 2 : 3; }
static void push(int t) { ts[tn++] = t; }
static int is(int d, int t) { return tn > d && ts[tn - 1 - d] == t; }
/* op k of the alphabet; returns 0 when it does not type-check here */
#define NUN(op, a, r) if (!is(0, a)) return 0; E0(F, op); ts[tn - 1] = r; return 1;
#define NBIN(op, a, r) if (!is(0, a) || !is(1, a)) return 0; E0(F, op); tn--; ts[tn - 1] = r; return 1;
static int step_no;
static int do_op(int k) {
  switch (k) {
  case 0: emit_k(F, I32, 40 + 4 * step_no); push(I32); return 1;
  case 1: emit_k(F, I64, 0x700000050ull + step_no); push(I64); return 1;
  case 2: emit_k(F, F32, f32b(0.75f + step_no)); push(F32); return 1;
  case 3: emit_k(F, F64, f64b(1e10 + step_no)); push(F64); return 1;
  case 4: case 5: case 6: case 7: E1(F, LGET, k - 4); push(all_t[k - 4]); return 1;
  case 8: case 9: case 10: case 11: E1(F, LGET, L_I32 + k - 8); push(all_t[k - 8]); return 1;
  case 12: NBIN(0x6b, I32, I32)  /* sub */
  case 13: NBIN(0x6d, I32, I32)  /* div_s */
  case 14: NBIN(0x74, I32, I32)  /* shl */
  case 15: NBIN(0x77, I32, I32)  /* rotl */
  case 16: NBIN(0x48, I32, I32)  /* lt_s */
  case 17: NUN(0x45, I32, I32)   /* eqz */
  case 18: NUN(0x67, I32, I32)   /* clz */
  case 19: NBIN(0x7d, I64, I64)
  case 20: NBIN(0x82, I64, I64)  /* rem_u */
  case 21: NBIN(0x87, I64, I64)  /* shr_s */
  case 22: NBIN(0x8a, I64, I64)  /* rotr */
  case 23: NBIN(0x54, I64, I32)  /* lt_u */
  case 24: NUN(0x7b, I64, I64)   /* popcnt */
  case 25: NBIN(0x93, F32, F32)  /* sub */
  case 26: NBIN(0x96, F32, F32)  /* min */
  case 27: NBIN(0x5d, F32, I32)  /* lt */
  case 28: NUN(0x8c, F32, F32)   /* neg */
  case 29: NUN(0x8e, F32, F32)   /* floor */
  case 30: NBIN(0xa1, F64, F64)
  case 31: NBIN(0xa6, F64, F64)  /* copysign */
  case 32: NBIN(0x64, F64, I32)  /* gt */
  case 33: NUN(0x9f, F64, F64)   /* sqrt */
  case 34: NUN(0xac, I32, I64)   /* extend_s */
  case 35: NUN(0xa7, I64, I32)   /* wrap */
  case 36: NUN(0xb2, I32, F32) case 37: NUN(0xba, I64, F64) case 38: NUN(0xbb, F32, F64) case 39: NUN(0xaa, F64, I32)
  case 40: NUN(0xbc, F32, I32) case 41: NUN(0xbf, I64, F64) case 42: NUN(0xbd, F64, I64) case 43: NUN(0xbe, I32, F32)
  case 44: if (!is(0, I32)) return 0; emit_mem(F, 0x28, 4, 0); return 1; /* i32.load */
  case 45: if (!is(0, I32)) return 0; emit_mem(F, 0x32, 8, 0); ts[tn - 1] = I64; return 1; /* i64.load16_s */
  case 46: if (!is(0, I32)) return 0; emit_mem(F, 0x2b, 0, 0); ts[tn - 1] = F64; return 1;
  case 47: if (!is(1, I32) || tn < 2) return 0; emit_mem(F, st_op(ts[tn - 1]), 64, 0); tn -= 2; return 1; /* any store */
  case 48: if (!is(0, I32) || tn < 3 || ts[tn - 2] != ts[tn - 3]) return 0; E0(F, SELECT); tn -= 2; return 1;
  case 49: if (tn < 1) return 0; E0(F, DROP); tn--; return 1;
  case 50: if (tn < 1) return 0; E1(F, LTEE, L_I32 + tk(ts[tn - 1])); return 1;
  case 51: if (tn < 1) return 0; E1(F, LSET, L_I32 + tk(ts[tn - 1])); tn--; return 1;
  case 52: if (tn < 1) return 0; E1(F, LSET, P_I32 + tk(ts[tn - 1])); tn--; return 1;
  case 53: if (tn < 1) return 0; E1(F, GSET, 2 * tk(ts[tn - 1])); tn--; return 1;
  case 54: E1(F, GGET, 3); push(I64); return 1;
  case 55: E1(F, GGET, 6); push(F64); return 1;
  case 56: if (tn < 1) return 0; E1(F, CALL, tk(ts[tn - 1])); return 1;             /* identity call of top */
  case 57: if (!is(0, F64) || !is(1, I32)) return 0; E1(F, CALL, 4); ts[tn - 2] = F64; ts[tn - 1] = I32; return 1; /* swap (i32 f64)->(f64 i32) */
  case 58: if (!is(0, I32) || !is(1, I64)) return 0; E1(F, CALL, 5); tn -= 2; push(I32); push(I64); push(F32); return 1; /* (i64 i32)->(i32 i64 f32) */
  case 59: E1(F, MSIZE, 0); push(I32); return 1;
  case 60: E1(F, CALL, 6); return 1; /* () -> () clobbers everything it may */
  case 61: if (!is(0, I32)) return 0; E1(F, IF, 0x40); E0(F, END); tn--; return 1;
  case 62: if (!is(0, I32)) return 0; E1(F, IF, F64); emit_k(F, F64, f64b(3)); E0(F, ELSE); E1(F, LGET, 3); E0(F, END); ts[tn - 1] = F64; return 1;
  case 63: NBIN(0x98, F32, F32) case 64: NUN(0xb5, I64, F32) case 65: NUN(0xb0, F64, I64) case 66: NUN(0xb6, F64, F32)
  case 67: NBIN(0x7f, I64, I64) case 68: NBIN(0x70, I32, I32) case 69: NUN(0xab, F64, I32) case 70: NUN(0xad, I32, I64) case 71: NBIN(0x97, F32, F32) case 72: NBIN(0xa4, F64, F64)
  case 73: NUN(0xa9, F32, I32) case 74: NUN(0xb3, I32, F32) case 75: NUN(0xc4, I64, I64) case 76: NUN(0xc0, I32, I32) case 77: NBIN(0x7e, I64, I64) case 78: NBIN(0x66, F64, I32) case 79: NUN(0x50, I64, I32)
  }
  return 0;
}
#define NOP_ALL 80
static void skel4(void) {
  skeleton(0, 0, 0, 0); /* identity functions 0..3; the last (index 4) is rebuilt */
  M.nfn = 4; M.nexp = 0;
  int t1 = mod_ft(&M, 2, (uint8_t[]){I32, F64}, 2, (uint8_t[]){F64, I32});
  Fn *g = mod_fn(&M, t1); E1(g, LGET, 1); E1(g, LGET, 0);
  int t2 = mod_ft(&M, 2, (uint8_t[]){I64, I32}, 3, (uint8_t[]){I32, I64, F32});
  g = mod_fn(&M, t2); E1(g, LGET, 1); E1(g, LGET, 0); emit_k(g, F32, f32b(9.5f));
  int t3 = mod_ft(&M, 0, 0, 0, 0);
  g = mod_fn(&M, t3); { int l = add_local(g, I32), l2 = add_local(g, F64), l3 = add_local(g, I64); E1(g, KI32, 8); emit_mem(g, 0x29, 0, 0); E1(g, KI64, 3); E0(g, 0x7e); E1(g, LSET, l3); emit_k(g, F64, 5); emit_k(g, F64, 6); E0(g, 0xa0); E1(g, LSET, l2); E1(g, KI32, 4); E1(g, LSET, l); }
  int t = mod_ft(&M, 4, all_t, 0, 0);
  F = mod_fn(&M, t);
  mod_exp(&M, "f", 0, 7); mod_exp(&M, "m", 2, 0);
  for (int i = 0; i < 4; i++) add_local(F, all_t[i]);
  M.glob[3].ins[0].a = 0x1234567890; M.glob[6].ins[0].a = (int64_t)f64b(6.5);
  Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->noff = 1; d->off[0].op = KI32; d->n = 64; for (int i = 0; i < 64; i++) d->bytes[i] = i * 37 + 11;
  tn = 0; step_no = 0;
}
/* one pending value of type t from a given origin */
static void push_from(int t, int org, int i) {
  int k = tk(t);
  switch (org) {
  case 0: E1(F, LGET, k); emit_k(F, t, t == I32 ? 4 * i : t == I64 ? i : pv(k, i)); E0(F, t == I32 ? 0x6a : t == I64 ? 0x7c : t == F32 ? 0x92 : 0xa0); break; /* register */
  case 1: emit_k(F, t, pv(k, i)); break;
  case 2: E1(F, LGET, k); break;
  case 3: E1(F, KI32, 8 * (i % 6)); emit_mem(F, ld_op(t), 0, 0); break;
  case 4: E1(F, LGET, L_I32 + k); break;
  case 5: if (t == I32) { E1(F, LGET, 0); E1(F, KI32, 3 * i); E0(F, 0x4a); } else { E1(F, LGET, k); E1(F, CALL, k); } break; /* pending comparison / call result */
  }
  push(t);
}
static void prologue(void) { for (int i = 0; i < 4; i++) { emit_k(F, all_t[i], pv(i, 9)); E1(F, LSET, L_I32 + i); } }
static void finish(void) {
  FT *t = &M.ft[F->type]; t->nr = tn; for (int i = 0; i < tn; i++) t->r[i] = ts[i];
  V a[4]; for (int i = 0; i < 4; i++) a[i] = mk(all_t[i], pv(i, 0));
  g_outh = 7;
  inst_both(NULL, NULL);
  int tr = diff_call("f", M.nfn - 1, a);
  if (!tr) cmp_memory(0, "m");
  free_both();
  mc_outcome(g_outh);
  if (tr) mc_skip();
}
static const int patq[7][4] = {{I32, I32, I32, I32}, {I64, I64, I64, I64}, {F32, F32, F32, F32}, {F64, F64, F64, F64}, {I32, F64, I64, F32}, {I64, I32, F32, I32}, {F32, F64, I32, F64}};
static void go(const int *Ks, int nk, int npat, int norg, int L, const int *ops, int nops, int ncfg) {
  int c = choose(ncfg); set_cfg(c & 1 ? 0 : 1, c & 2 ? 2 : 3);
  int K = Ks[choose(nk)], p = K ? choose(npat) : 0, org = K ? choose(norg) : 0;
  int sel[8], n = 0; for (; n < L; n++) sel[n] = ops[choose(nops)];
  /* type check first (cheap), then decide ownership */
  if (!mc_mine()) return;
  skel4(); prologue();
  for (int i = 0; i < K; i++) push_from(patq[p][i & 3], org == 6 ? i % 6 : org, i);
  for (int i = 0; i < L; i++) { step_no = i + 1; if (tn > 27 || !do_op(sel[i])) { mc_slot_->execs--; return; } }
  finish();
}
/* typed DFS: the choice at each step is among the operations that type-check here */
static void go2(const int *Ks, int nk, int npat, int norg, int L, int ncfg) {
  int c = choose(ncfg); set_cfg(c & 1 ? 0 : 1, c & 2 ? 2 : 3);
  int K = Ks[choose(nk)], p = K ? choose(npat) : 0, org = K ? choose(norg) : 0;
  skel4(); prologue();
  for (int i = 0; i < K; i++) push_from(patq[p][i & 3], org == 6 ? i % 6 : org, i);
  for (int i = 0; i < L; i++) {
    step_no = i + 1; int ok[NOP_ALL], m = 0, n0 = F->nins, t0 = tn, sv[80]; memcpy(sv, ts, sizeof sv);
    for (int k = 0; k < NOP_ALL; k++) { if (do_op(k)) { ok[m++] = k; } F->nins = n0; tn = t0; memcpy(ts, sv, sizeof sv); }
    if (i == 0 && 0) break;
    int k = ok[choose(m)]; if (tn > 27) { mc_owned = 0; return; }
    do_op(k);
    if (i == 0 && !mc_mine()) return;
  }
  finish();
}
static const int Kq[] = {0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24}, K3[] = {0, 3, 9, 13}, K1[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}, K4[] = {0, 2};
static void b_wide(void) { if (mc_thorough) go2(K1, 27, 7, 7, 2, 4); else go2(Kq, 17, 5, 3, 2, 2); }
static void b_one(void) { go2(K1, 27, 7, 7, 1, 4); }
static void b_deep(void) { if (mc_thorough) go2(Kq, 17, 7, 3, 3, 2); else go2(K3, 4, 7, 1, 3, 1); }
static void b_deeper(void) { go2(K4, mc_thorough ? 2 : 1, 1, 1, mc_thorough ? 5 : 4, 1); }
/* order of consumption: K mixed values, then every sequence of "binary reduce / swap by call / tee" that consumes all */
static void b_reduce(void) {
  int c = choose(2); set_cfg(c, 3);
  int K = 2 + choose(mc_thorough ? 7 : 6), org = choose(6);
  int t = all_t[choose(4)];
  skel4(); prologue();
  for (int i = 0; i < 10; i++) push_from(all_t[i & 3], 0, i); /* register pressure below */
  for (int i = 0; i < K; i++) push_from(t, org, i);
  static const int bin[4][4] = {{0x6b, 0x74, 0x48, 0x6d}, {0x7d, 0x86, 0x8a, 0x80}, {0x93, 0x96, 0x95, 0x98}, {0xa1, 0xa5, 0xa3, 0xa6}};
  for (int i = 0; i < K - 1; i++) { int b = choose(4); if (i == 0 && !mc_mine()) return; E0(F, bin[tk(t)][b]); tn--; }
  finish();
}
/* every operator with memory, table or call operands above K pending values: operand origins x the memory or table used (the one
 * whose base the function keeps in a register, another one, a 64-bit one) x patterns of pending registers */
enum { X_LOAD = 14, X_STORE = 9, X_REST = 34 };
static void b_state(void) {
  static const uint8_t lt[] = {I32, I64, F32, F64, I32, I32, I32, I32, I64, I64, I64, I64, I64, I64}, stt[] = {I32, I64, F32, F64, I32, I32, I64, I64, I64};
  static const int qf[5] = {FO_CONST, FO_PARAM, FO_TEMP, FO_MEM, FO_LOCAL}, Ks[] = {0, 5, 7, 8, 9, 10, 11, 13, 20};
  int cls = choose(3), op, m = 0, x = 0, at = I32, vt = I32;
  if (cls == 0) { op = 0x28 + choose(X_LOAD); m = choose(3); vt = lt[op - 0x28]; } else if (cls == 1) { op = 0x36 + choose(X_STORE); m = choose(3); vt = stt[op - 0x36]; } else { op = 0; x = choose(X_REST); }
  int c = choose(mc_thorough ? 4 : 2), touch = choose(2), fa = mc_thorough ? choose(NFORM) : qf[choose(5)], fv = cls == 0 ? FO_PARAM : mc_thorough ? choose(NFORM) : qf[choose(5)];
  int K = mc_thorough ? choose(25) : Ks[choose(9)], p = K ? choose(mc_thorough ? 7 : 4) : 0; if (!mc_thorough && p == 3) p = 5; else if (!mc_thorough && p == 2) p = 4;
  if (!mc_mine()) return;
  if (cls == 2) { if (x < 7) m = x < 3 ? x : (x - 3) / 2; if (x >= 26) vt = all_t[(x - 26) / 2]; if (x == 9) m = 2; } at = m == 2 ? I64 : I32;
  set_cfg(c & 1 ? 0 : 1, c & 2 ? 2 : 3);
  uint8_t pt[3] = {at, vt, I32}; uint64_t a0 = 24, v0 = vt == F32 ? f32b(-1.75f) : vt == F64 ? f64b(-2.5e-77) : vt == I32 ? 0xb5a69788u : 0xf1e2d3c4b5a69788ull; if (cls == 2 && x >= 12) a0 = 1 + (x & 1);
  F = skeleton(3, pt, 0, 0); M.nexp = 0; tn = 0;
  M.mem[1] = (Mem){1, 0, 0, 0}; M.mem[2] = (Mem){1, 0, 0, 1}; M.nmem = 3;
  /* (i32)->i32 adding 1000, the entry that is looked for: function 5 */
  Fn *g = mod_fn(&M, 0); E1(g, LGET, 0); E1(g, KI32, 1000); E0(g, 0x6a);
  for (int k = 0; k < 2; k++) { M.tab[k] = (Tab){FREF, 6, 6, 1}; Elem *e = &M.elem[k]; *e = (Elem){0}; e->flags = k ? 2 : 0; e->tab = k; e->noff = 1; e->off[0].op = KI32; e->off[0].a = 0; e->n = 6; for (int i = 0; i < 6; i++) e->fidx[i] = vt == I32 ? (i & 1 ? 5 : 0) : vt == I64 ? 1 : vt == F32 ? 2 : 3; } M.ntab = M.nelem = 2;
  for (int i = 0; i < 3; i++) { Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->flags = i ? 2 : 0; d->mem = i; d->noff = 1; d->off[0].op = i == 2 ? KI64 : KI32; d->off[0].a = 32; d->n = 48; for (int j = 0; j < 48; j++) d->bytes[j] = j * (37 + 2 * i) + 11 + i; }
  mod_exp(&M, "f", 0, 4); mod_exp(&M, "m", 2, 0); mod_exp(&M, "n", 2, 1); mod_exp(&M, "o", 2, 2);
  int l4[4]; for (int i = 0; i < 4; i++) l4[i] = add_local(F, all_t[i]);
  if (touch) { E1(F, KI32, 0); emit_mem(F, 0x28, 0, 0); E0(F, DROP); }
  int ax = 0, vx = 0; form_prologue(F, fa, at, 0, &ax); form_prologue(F, fv, vt, 1, &vx);
  for (int i = 0; i < 4; i++) { emit_k(F, all_t[i], pv(i, 9)); E1(F, LSET, l4[i]); }
  for (int i = 0; i < K; i++) { int t = patq[p][i & 3], k = tk(t); E1(F, LGET, l4[k]); emit_k(F, t, t == I32 ? 4 * i : t == I64 ? i : pv(k, i)); E0(F, t == I32 ? 0x6a : t == I64 ? 0x7c : t == F32 ? 0x92 : 0xa0); push(t); }
#define AD form_push(F, fa, at, 0, a0, ax)
#define VA form_push(F, fv, vt, 1, v0, vx)
#define N_(v) if (m == 2 && x != 9) E1(F, KI64, v); else E1(F, KI32, v)
  if (cls == 0) { AD; emit_mem(F, op, 8, m); push(vt); }
  else if (cls == 1) { AD; VA; emit_mem(F, op, 16, m); }
  else if (x < 3) { AD; VA; N_(13); E1(F, MFILL, m); }
  else if (x < 7) { AD; if (((x - 3) & 1 ? 2 - m : m) == 2) E1(F, KI64, 40); else E1(F, KI32, 40); int s = (x - 3) & 1 ? 2 - m : m; if (m == 2 && s == 2) E1(F, KI64, 13); else E1(F, KI32, 13); E2(F, MCOPY, m, s); }
  else if (x < 9) { E1(F, MSIZE, x - 7); push(I32); if (x == 8) E1(F, KI64, 2); else E1(F, LGET, 2); E1(F, MGROW, x - 6); push(I32); if (x == 8) ts[tn - 1] = I64; E1(F, MSIZE, 1); push(I32); }
  else if (x == 9) { E1(F, MSIZE, 2); push(I64); AD; emit_mem(F, 0x29, 24, 2); push(I64); }
  else if (x < 12) { AD; E1(F, TGET, x - 10); E0(F, REFISNULL); push(I32); E1(F, TSIZE, x - 10); push(I32); }
  else if (x < 18) { int t = (x - 12) / 3, r = (x - 12) % 3; AD; if (r == 0) E1(F, REFFUNC, 5); else if (r == 1) E1(F, REFNULL, FREF); else { E1(F, KI32, 3); E1(F, TGET, 1 - t); } E1(F, TSET, t); if (r == 1) { E1(F, KI32, a0); E1(F, TGET, t); E0(F, REFISNULL); } else { VA; E1(F, KI32, a0); E2(F, CALL_IND, 0, t); } push(I32); }
  else if (x < 20) { int t = x - 18; AD; E1(F, REFFUNC, 5); E1(F, LGET, 2); E1(F, TFILL, t); for (int i = 0; i < 5; i++) { E1(F, KI32, 70 + i); E1(F, KI32, i); E2(F, CALL_IND, 0, t); push(I32); } }
  else if (x < 24) { int t = x & 1, s = (x - 20) / 2; AD; E1(F, KI32, 0); E1(F, KI32, 3); E2(F, TCOPY, t, s); for (int i = 0; i < 5; i++) { E1(F, KI32, 70 + i); E1(F, KI32, i); E2(F, CALL_IND, 0, t); push(I32); } }
  else if (x < 26) { VA; AD; E0(F, x == 24 ? 0x6a : 0x74); AD; emit_mem(F, 0x2f, 30, x == 24); E0(F, 0x6b); push(I32); }
  else { VA; AD; E2(F, CALL_IND, vt == I32 ? 0 : vt == I64 ? 1 : vt == F32 ? 2 : 3, x & 1); push(vt); }
  FT *t = &M.ft[F->type]; t->nr = tn; for (int i = 0; i < tn; i++) t->r[i] = ts[i];
  V a[3] = {mk(at, a0), mk(vt, v0), mk(I32, 2)}; g_outh = 7; inst_both(NULL, NULL);
  int tr = diff_call("f", 4, a); if (!tr) { cmp_memory(0, "m"); cmp_memory(1, "n"); cmp_memory(2, "o"); for (int i = 0; i < 3; i++) g_outh = mc_hash(g_outh, R.mem[i]->b, 128); }
  free_both(); mc_outcome(g_outh); if (tr) mc_skip();
}
static struct mc_space sp[] = {
  {"one-op", b_one, "every prefix of 0..26 pending values (7 type patterns, 7 origins of the values) x every single operation that type-checks x 4 configurations"},
  {"two-ops", b_wide, "pending prefixes x every pair of operations that type-checks x configurations"},
  {"three-ops", b_deep, "pending prefixes x every triple of operations that type-checks"},
  {"deep-sequences", b_deeper, "every well-typed sequence of 4 (thorough: 5) operations from a small prefix"},
  {"reduce-orders", b_reduce, "K values above ten pending ones, reduced by every sequence of operators"},
  {"state-operators", b_state, "every load, store, bulk, table and indirect-call operator x operand origins x which memory or table x 0..20 (thorough 24) pending values of 4 (7) patterns x configurations"}};
static const char *as[] = {"operand stack at most 27 deep (the library rejects more than 31)", "programs in which the model traps are outside the claim", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P04", "one execution = one straight-line program, compiled and run, its whole operand stack and memory compared with the interpreter; non-trivial = distinct result stacks", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
