/* P06 locals: initial zeros for every declaration shape, and every short history of get/set/tee over locals
 * that live in the different places (parameter, saved register, native stack), with values pending. */
#include "num.h"
static Fn *F;
static const uint8_t lt6[] = {I32, I64, F32, F64, FREF, XREF};
static int getl(Fn *f, int i) { FT *t = &M.ft[f->type]; return i < t->np ? t->p[i] : f->loc[i - t->np]; }
static void st_local(Fn *f, int i, int addr) { /* memory[addr] = local i */
  int t = getl(f, i); E1(f, KI32, addr); E1(f, LGET, i);
  if (t == FREF || t == XREF) { E0(f, REFISNULL); emit_mem(f, 0x36, 0, 0); } else emit_mem(f, st_op(t), 0, 0);
}
/* every declaration shape: n locals with a type pattern, np parameters, grouping; all read before any write; then written, read back, called again */
static const int shq[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 33, 60, 120, 200, 300};
static void zero_(int maxn) {
  set_cfg(choose(2), 3);
  int n = maxn ? 1 + choose(maxn) : choose_from(shq), pat = choose(9), npar = choose(4), grp = choose(3), nomem = choose(2);
  int custom[8]; if (maxn) { if (pat) { return; } for (int i = 0; i < n; i++) custom[i] = choose(maxn > 4 ? 4 : 6); }
  if (!mc_mine()) return;
  if (nomem && npar > 1 && !mc_thorough) { mc_slot_->execs--; return; }
  uint8_t pt[4] = {F64, I32, I64, F32};
  Fn *f = F = skeleton(npar, pt, 1, (uint8_t[]){I32}); M.locals_mode = grp; mod_exp(&M, "m", 2, 0);
  for (int i = 0; i < n; i++) { int t = maxn ? lt6[custom[i]] : pat < 6 ? lt6[pat] : pat == 6 ? lt6[i % 6] : pat == 7 ? lt6[(i / 3) % 4] : lt6[(i * 5 / 3) % 4]; f->loc[f->nloc++] = t; }
  int base = npar;
  if (!nomem) {
    for (int i = 0; i < n; i++) st_local(f, base + i, 8 * i + 8);
    for (int i = 0; i < n; i++) { int t = getl(f, base + i); if (t == FREF) { E1(f, REFFUNC, 1); E1(f, LSET, base + i); } else if (t != XREF) { emit_k(f, t, t == I32 || t == I64 ? 1000 + i : t == F32 ? f32b(i + 1) : f64b(i + 1)); E1(f, LSET, base + i); } }
    for (int i = 0; i < npar; i++) st_local(f, i, 4096 + 8 * i);
    for (int i = 0; i < n; i++) st_local(f, base + i, 8192 + 8 * i);
    E1(f, KI32, 1);
  } else { /* fold into one number without a memory access: no memory base register is reserved */
    E1(f, KI32, 0);
    for (int i = 0; i < n; i++) { int t = getl(f, base + i); E1(f, LGET, base + i); if (t == I64) { E0(f, 0x50); } else if (t == F32) { E0(f, 0xbc); E0(f, 0x45); } else if (t == F64) { E0(f, 0xbd); E0(f, 0x50); } else if (t == FREF || t == XREF) E0(f, REFISNULL); else E0(f, 0x45); E0(f, 0x6a);
      if (t == I32 || t == I64) { emit_k(f, t, 5); E1(f, LSET, base + i); } }
  }
  V a[4]; for (int i = 0; i < npar; i++) a[i] = mk(pt[i], pt[i] == F64 ? f64b(3) : pt[i] == F32 ? f32b(4) : 77 + i);
  inst_both(NULL, NULL); g_outh = n * 9 + pat;
  for (int k = 0; k < 2; k++) { if (diff_call("f", M.nfn - 1, a)) mc_die("trap"); cmp_memory(0, "m"); }
  free_both(); mc_outcome(g_outh);
}
static void b_shapes(void) { zero_(0); }
static void b_combos(void) { zero_(mc_thorough ? 5 : 4); }
/* histories of local operations: three locals of type t in the three places + the operand stack */
static int ts[64], tn;
static void hist(int L, int cross, int ncfg) {
  int c = choose(ncfg); set_cfg(c & 1 ? 0 : 1, 3);
  int t = all_t[choose(4)], fill = choose(3), o = other(t);
  /* locals: P0 param t, P1 param o; then `fill` dummy locals so that the tested ones are in registers / spill to the native stack */
  uint8_t pt[2] = {t, o}; uint8_t rt[1];
  Fn *f = F = skeleton(2, pt, 0, rt); mod_exp(&M, "m", 2, 0); mod_exp(&M, "t", 3, 0);
  int nf = fill == 0 ? 0 : fill == 1 ? 4 : 9; for (int i = 0; i < nf; i++) { add_local(f, t); if (fill == 2) add_local(f, o); }
  int A = add_local(f, t), B = add_local(f, t), O = add_local(f, o);
  int loc[4] = {0, A, B, cross ? O : 1}; int ltt[4] = {t, t, t, o};
  int nl = cross ? 4 : 3;
  tn = 0;
  emit_k(f, t, t == I32 || t == I64 ? 77 : t == F32 ? f32b(7.5f) : f64b(7.75)); E1(f, LSET, A);
  int kk = 0;
  for (int s = 0; s < L; s++) {
    /* ops: get l (nl), set l (nl), tee l (nl), push const, drop, reinterpret top, op(top two), block boundary, call */
    int n = 3 * nl + (cross ? 7 : 5), x = choose(n);
    if (x < nl) { E1(f, LGET, loc[x]); ts[tn++] = ltt[x]; }
    else if (x < 2 * nl) { x -= nl; if (!tn || ts[tn - 1] != ltt[x]) { mc_owned = 0; return; } E1(f, LSET, loc[x]); tn--; }
    else if (x < 3 * nl) { x -= 2 * nl; if (!tn || ts[tn - 1] != ltt[x]) { mc_owned = 0; return; } E1(f, LTEE, loc[x]); }
    else switch (x - 3 * nl) {
      case 0: kk++; emit_k(f, t, t == I32 || t == I64 ? 0x500 + kk : t == F32 ? f32b(kk + 0.25f) : f64b(kk + 0.125)); ts[tn++] = t; break;
      case 1: if (!tn) { mc_owned = 0; return; } E0(f, DROP); tn--; break;
      case 2: if (tn < 2 || ts[tn - 1] != ts[tn - 2]) { mc_owned = 0; return; } { int q = ts[tn - 1]; E0(f, q == I32 ? 0x6b : q == I64 ? 0x7d : q == F32 ? 0x93 : 0xa1); tn--; } break;
      case 3: E1(f, KI32, 1); E1(f, IF, 0x40); E1(f, LGET, loc[1]); E1(f, LSET, loc[2]); E0(f, END); break; /* conditional write while values are pending */
      case 4: if (!tn) { mc_owned = 0; return; } E1(f, CALL, ts[tn - 1] == I32 ? 0 : ts[tn - 1] == I64 ? 1 : ts[tn - 1] == F32 ? 2 : 3); break;
      case 5: if (!tn) { mc_owned = 0; return; } { int to = ts[tn - 1] == t ? o : t; E0(f, rein(to)); ts[tn - 1] = to; } break;
      case 6: if (!tn || ts[tn - 1] != I64) { if (!tn || ts[tn - 1] != I32) { mc_owned = 0; return; } E0(f, 0xad); E0(f, 0xa7); break; } E0(f, 0xa7); E0(f, 0xac); break;
    }
    if (s == 1 && !mc_mine()) return;
  }
  for (int i = 0; i < nl; i++) { E1(f, LGET, loc[i]); ts[tn++] = ltt[i]; }
  FT *ft = &M.ft[f->type]; ft->nr = tn; for (int i = 0; i < tn; i++) ft->r[i] = ts[i];
  V a[2]; for (int i = 0; i < 2; i++) { int q = pt[i]; a[i] = mk(q, q == I32 || q == I64 ? 0x1234 : q == F32 ? f32b(1.5f) : f64b(2.5)); }
  inst_both(NULL, NULL); g_outh = t; int tr = diff_call("f", M.nfn - 1, a); free_both(); mc_outcome(g_outh); if (tr) mc_skip();
}
static void b_hist(void) { hist(mc_thorough ? 6 : 5, 0, 1 + mc_thorough); }
static void b_cross(void) { hist(mc_thorough ? 5 : 4, 1, 2); }
/* recursion and loops: locals of one activation are untouched by inner activations; zero again on each call */
static void b_recur(void) {
  set_cfg(choose(2), 3);
  int n = 1 + choose(14), pat = choose(5), depth = 1 + choose(4), tail = choose(2);
  if (!mc_mine()) return;
  uint8_t pt[1] = {I32}, rt[1] = {I64}; Fn *f = skeleton(1, pt, 1, rt); mod_exp(&M, "m", 2, 0);
  for (int i = 0; i < n; i++) f->loc[f->nloc++] = pat < 4 ? all_t[pat] : all_t[i & 3];
  /* store zero check; set all to depth-dependent values; recurse; sum must survive */
  for (int i = 0; i < n; i++) { E1(f, KI32, 0); E1(f, LGET, 0); E1(f, KI32, 256); E0(f, 0x6c); E0(f, 0x6a); E1(f, LGET, 1 + i); emit_mem(f, st_op(getl(f, 1 + i)), 8 * i, 0); }
  for (int i = 0; i < n; i++) { int t = getl(f, 1 + i); E1(f, LGET, 0); E1(f, KI32, i + 3); E0(f, 0x6c); if (t == I64) E0(f, 0xac); else if (t == F32) E0(f, 0xb2); else if (t == F64) E0(f, 0xb7); E1(f, LSET, 1 + i); }
  E1(f, LGET, 0); E1(f, IF, 0x40); E1(f, LGET, 0); E1(f, KI32, 1); E0(f, 0x6b); if (tail) { E1(f, RCALL, 4); } else { E1(f, CALL, 4); E0(f, DROP); } E0(f, END);
  E1(f, KI64, 0);
  for (int i = 0; i < n; i++) { int t = getl(f, 1 + i); E1(f, LGET, 1 + i); if (t == I32) E0(f, 0xac); else if (t == F32) E0(f, 0xae); else if (t == F64) E0(f, 0xb0); E0(f, 0x7c); }
  V a[1] = {mk(I32, depth)};
  inst_both(NULL, NULL); g_outh = n; for (int k = 0; k < 2; k++) { if (diff_call("f", 4, a)) mc_die("trap"); cmp_memory(0, "m"); } free_both(); mc_outcome(g_outh);
}
/* all sequences of sets across an if/else/loop joining paths */
static void b_paths(void) {
  set_cfg(choose(2), 3);
  int t = all_t[choose(4)], nf = choose(2) * 8, k[6], pend = choose(2);
  for (int i = 0; i < (mc_thorough ? 6 : 5); i++) k[i] = choose(4);
  if (!mc_thorough) k[5] = 1;
  if (!mc_mine()) return;
  uint8_t pt[2] = {t, I32}, rt[3] = {t, t, t}; Fn *f = F = skeleton(2, pt, pend ? 3 : 2, rt); for (int i = 0; i < nf; i++) add_local(f, t);
  int A = add_local(f, t), C = add_local(f, I32);
#define ACT(w, id) switch (k[w]) { case 0: break; case 1: emit_k(f, t, t == I32 || t == I64 ? id : t == F32 ? f32b(id) : f64b(id)); E1(f, LSET, A); break; case 2: E1(f, LGET, A); E1(f, LSET, 0); break; case 3: E1(f, LGET, 0); E1(f, LTEE, A); emit_k(f, t, t == I32 || t == I64 ? 3 : t == F32 ? f32b(3) : f64b(3)); E0(f, t == I32 ? 0x6a : t == I64 ? 0x7c : t == F32 ? 0x92 : 0xa0); E1(f, LSET, 0); break; }
  if (pend) E1(f, LGET, 0);
  ACT(0, 11)
  E1(f, LGET, 1); E1(f, IF, 0x40); ACT(1, 12) E0(f, ELSE); ACT(2, 13) E0(f, END);
  E1(f, KI32, 3); E1(f, LSET, C); E1(f, LOOP, 0x40); ACT(3, 14) E1(f, LGET, C); E1(f, KI32, 1); E0(f, 0x6b); E1(f, LTEE, C); E1(f, BR_IF, 0); E0(f, END);
  E1(f, BLOCK, 0x40); E1(f, LGET, 1); E1(f, BR_IF, 0); ACT(4, 15) E0(f, END); ACT(5, 16)
  E1(f, LGET, 0); E1(f, LGET, A);
  inst_both(NULL, NULL); g_outh = t; for (int i = 0; i < 2; i++) { V a[2] = {mk(t, t == I32 || t == I64 ? 100 : t == F32 ? f32b(100) : f64b(100)), mk(I32, i)}; if (diff_call("f", 4, a)) mc_die("trap"); } free_both(); mc_outcome(g_outh);
}
static struct mc_space sp[] = {
  {"declaration-shapes", b_shapes, "24 counts (0..300) x 9 type patterns x 0..3 parameters x 3 groupings x with/without memory x 2 layouts, called twice"},
  {"type-combinations", b_combos, "every type vector of up to 4 (5) locals of 6 types"},
  {"histories", b_hist, "every history of 5 (6) get/set/tee/const/drop/op/conditional-set/call operations over a parameter and two locals in each place"},
  {"cross-type-histories", b_cross, "the same of length 4 (5) with reinterpretations and a local of the other class"},
  {"recursion", b_recur, "1..14 locals x type patterns x recursion depth 1..4, normal and tail calls"},
  {"paths", b_paths, "every assignment pattern on the paths of if/else, loop and early exit"}};
static const char *as[] = {"at most 300 declared locals", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P06", "one execution = one function, compiled and run (twice), values read from locals compared with the interpreter; non-trivial = distinct result vectors", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
