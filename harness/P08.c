/* P08 tables: every sequence of table operations on three tables (own or host-provided function tables, an externref
 * table), every bulk range, every indirect call index, each against model tables; entries compared one by one. */
#include "host.h"
#include "num.h"
#include <pwart.h>
#define TS 6
static void *imps[16];
static struct pwart_wasm_table *imp_t; static RTab imp_rt; /* the host's own table */
static int grow_nomax, grow_max;                           /* whether this library grows tables at all (it may refuse) */
enum { NF = 5 };                                            /* 0: host import; 1..4 own, type ()->i32 */
static const char *fname[] = {"f0", "f1", "f2", "f3", "f4"};
static void *more(const char *mod, const char *field, int kind) { return kind == PWART_KIND_TABLE ? (void *)imp_t : NULL; }
static void *code_of(uint64_t rf) { if (!rf) return NULL; for (int k = 0; k < NF; k++) if ((uint64_t)(uintptr_t)R.f[k] == rf) { void *p = pwart_get_export_function(g_st, fname[k]); if (!p) mc_fail("export %s not found", fname[k]); return p; } mc_die("unknown reference"); return 0; }
static const char *tnm[] = {"t0", "t1", "t2"};
static void cmp_table(int k) {
  struct pwart_wasm_table *t = pwart_get_export_table(g_st, tnm[k]); RTab *r = R.tab[k];
  if (!t) mc_fail("exported table %s not found", tnm[k]);
  if (t->size != r->size) mc_fail("table %d has %u entries, must have %u", k, t->size, r->size);
  for (uint32_t i = 0; i < r->size; i++) { void *w = k == 2 ? (void *)r->e[i] : code_of(r->e[i]); if (t->entries[i] != w) mc_fail("table %d entry %u is wrong after the sequence (%s, must be %s)", k, i, t->entries[i] ? "a reference" : "null", w ? "a reference" : "null"); }
}
/* tables: t0 funcref, t1 funcref, t2 externref; which of t0/t1 is imported: 0 none, 1: t0 */
static Fn *base(int imported, int np, const uint8_t *pt, int nr, const uint8_t *rt, int hasmax) {
  mod_reset(&M); host_reset(); static uint8_t ri[1] = {I32};
  int ty = mod_ft(&M, 0, 0, 1, ri), tm = mod_ft(&M, np, pt, nr, rt);
  imp_host(0, ty, imps);
  if (imported) { Imp *p = mod_imp(&M, 1, "h", "tab"); p->vt = FREF; p->min = TS; p->hasmax = 1; p->max = TS; imps[M.nimp - 1] = &imp_rt; host_res_more = more;
    free(imp_t ? imp_t->entries : 0); free(imp_t); imp_t = calloc(1, sizeof *imp_t); imp_t->elem_type = FREF; imp_t->initial = 1; imp_t->size = TS; imp_t->maximum = TS; imp_t->entries = calloc(TS, 8); free(imp_rt.e); imp_rt = (RTab){calloc(TS + 1, 8), TS, TS};
    for (int i = 0; i < TS; i += 2) { imp_t->entries[i] = pwart_wrap_host_function_c(host_w[0]); imp_rt.e[i] = (uint64_t)(uintptr_t)&host_rf[0]; } }
  M.ntab = 0; if (!imported) M.tab[M.ntab++] = (Tab){FREF, TS, TS + 4, hasmax}; M.tab[M.ntab++] = (Tab){FREF, TS, TS + 4, hasmax}; M.tab[M.ntab++] = (Tab){XREF, TS, TS + 4, hasmax};
  for (int k = 0; k < 3; k++) mod_exp(&M, tnm[k], 1, k);
  M.nelem = 0; for (int k = imported ? 1 : 0; k < 2; k++) { Elem *e = &M.elem[M.nelem++]; *e = (Elem){0}; e->flags = k ? 2 : 0; e->tab = k; e->noff = 1; e->off[0].op = KI32; e->off[0].a = k; e->n = 4; for (int i = 0; i < 4; i++) e->fidx[i] = k ? 4 - i : i + 1; }
  M.nmem = 1; M.mem[0] = (Mem){1, 1, 1, 0}; mod_exp(&M, "m", 2, 0);
  for (int k = 1; k < NF; k++) { Fn *f = mod_fn(&M, ty); E1(f, KI32, 1000 + k); }
  for (int k = 0; k < NF; k++) mod_exp(&M, fname[k], 0, k);
  Fn *f = mod_fn(&M, tm); mod_exp(&M, "f", 0, NF);
  return f;
}
static void run(V *a) {
  inst_both(&host_rs, imps); if (!grow_nomax) for (int k = 0; k < 3; k++) if (!M.tab[0].hasmax) R.tab[k]->max = R.tab[k]->size; if (!grow_max) for (int k = 0; k < 3; k++) if (M.tab[0].hasmax) R.tab[k]->max = R.tab[k]->size;
  g_outh = 1; if (diff_call("f", NF - 1, a)) { free_both(); mc_skip(); }
  cmp_memory(0, "m"); for (int k = 0; k < 3; k++) cmp_table(k); host_check();
  g_outh = mc_hash(g_outh ^ hlog_m, R.mem[0]->b, 128); for (int k = 0; k < 3; k++) for (uint32_t i = 0; i < R.tab[k]->size; i++) { uint64_t x = R.tab[k]->e[i]; if (k < 2) for (int q = 0; q < NF; q++) if (x == (uint64_t)(uintptr_t)R.f[q]) x = q + 1; g_outh = mc_hash(g_outh, &x, 8); }
  free_both(); mc_outcome(g_outh);
}
static void probe(void) { /* may this library grow tables? (refusing with -1 is allowed) */
  for (int hm = 0; hm < 2; hm++) {
    set_cfg(0, 3); Fn *f = base(0, 0, 0, 1, (uint8_t[]){I32}, hm); E1(f, REFNULL, FREF); E1(f, KI32, 1); E1(f, TGROW, 1);
    char *e; pwart_module_state st = real_load(&M, &host_rs, &e); if (!st) { continue; }
    V r[1]; call_real(pwart_get_export_function(st, "f"), &M.ft[1], 0, r); if (hm) grow_max = (int32_t)r[0].b != -1; else grow_nomax = (int32_t)r[0].b != -1;
    pwart_free_module_state(st);
  }
}
/* ---- operand origins for an i32 index ---- */
enum { O_K, O_P, O_T, O_M, NO };
static int g_o, g_slot; /* params: 0..7 i32 holding the value of their index */
static void idx(Fn *f, int v) { switch (g_o) { case O_K: E1(f, KI32, v); break; case O_P: E1(f, LGET, v); break; case O_T: E1(f, LGET, v); E1(f, KI32, 0); E0(f, 0x6a); break; default: E1(f, KI32, 4 * v); emit_mem(f, 0x28, 512, 0); } }
static void storeres(Fn *f) { int l = M.ft[f->type].np + 0; E1(f, LSET, l); E1(f, KI32, 8 * g_slot++); E1(f, LGET, l); emit_mem(f, 0x36, 0, 0); }
static const uint8_t par[10] = {I32, I32, I32, I32, I32, I32, I32, I32, XREF, XREF};
static V args0[10];
static Fn *fbegin(int imported, int hasmax, int nr, const uint8_t *rt) {
  Fn *f = base(imported, 10, par, nr, rt, hasmax); g_slot = 0; add_local(f, I32);
  if (g_o == O_M) for (int i = 0; i < 8; i++) { E1(f, KI32, 4 * i); E1(f, KI32, i); emit_mem(f, 0x36, 512, 0); }
  for (int i = 0; i < 8; i++) args0[i] = mk(I32, i); args0[8] = mk(XREF, 0x7100000000012340ull); args0[9] = mk(XREF, 0x123);
  return f;
}
static void ref(Fn *f, int t, int k) { /* some reference for table t */
  switch (k) { case 0: E1(f, REFNULL, t == 2 ? XREF : FREF); break; case 1: if (t == 2) E1(f, LGET, 8); else E1(f, REFFUNC, 2); break; case 2: if (t == 2) E1(f, LGET, 9); else E1(f, REFFUNC, 0); break;
    case 3: idx(f, 1); E1(f, TGET, t == 2 ? 2 : 1 - t); break; case 4: idx(f, 3); E1(f, TGET, t); break; }
}
static void one_op(Fn *f) {
  int op = choose(8), t = choose(op == 4 || op == 5 ? 2 : 3);
  switch (op) {
  case 0: { int i = choose(3), k = choose(4); idx(f, i == 2 ? TS - 1 : i * 2); ref(f, t, k == 3 ? 3 : k); E1(f, TSET, t); break; }
  case 1: { int i = choose(3); idx(f, i == 2 ? TS - 1 : i * 2); E1(f, TGET, t); E0(f, REFISNULL); storeres(f); break; }
  case 2: E1(f, TSIZE, t); storeres(f); break;
  case 3: { int c = choose(3); static const int a[3][2] = {{0, 3}, {4, 2}, {2, 0}}; idx(f, a[c][0]); ref(f, t, c == 0 ? 1 : c == 1 ? 3 : 0); idx(f, a[c][1]); E1(f, TFILL, t); break; }
  case 4: { int c = choose(3); static const int a[3][3] = {{1, 0, 4}, {0, 1, 4}, {3, 3, 3}}; idx(f, a[c][0]); idx(f, a[c][1]); idx(f, a[c][2]); E2(f, TCOPY, t, choose(2)); break; }
  case 5: { int i = choose(3); idx(f, 1 + i); E2(f, CALL_IND, 0, t); storeres(f); break; }
  case 6: { int n = choose_from(((int[]){2, 7})); ref(f, t, 1); idx(f, n); E1(f, TGROW, t); storeres(f); break; }
  case 7: idx(f, 0); idx(f, 1); idx(f, 4); E2(f, TCOPY, 2, 2); break;
  }
}
static void b_ops(void) {
  int var = choose(mc_thorough ? 8 : 3), cfg = var & 1, im = var < 3 ? var == 1 : var >> 1 & 1, hm = var < 3 ? var == 2 : var >> 2; g_o = choose(2); int L = mc_thorough ? 4 : 3; set_cfg(cfg, 3);
  Fn *f = fbegin(im, hm, 0, 0);
  for (int i = 0; i < L; i++) { one_op(f); if (i == 1 && !mc_mine()) return; }
  run(args0);
}
/* every range of fill and copy, with operands of every origin and values pending around them */
static void b_bulk(void) {
  int cfg = choose(2), im = choose(2), op = choose(2), t = choose(3), s = op ? (t == 2 ? 2 : choose(2)) : 0, a = choose(TS + 1), n = choose(TS + 1); if (a + n > TS) { mc_owned = 0; return; }
  int b = op ? choose(TS + 1) : choose(5); if (op && b + n > TS) { mc_owned = 0; return; } g_o = choose(NO); int pend = choose(3);
  if (!mc_mine()) return; set_cfg(cfg, 3);
  static const uint8_t rt[3] = {I32, F64, I64}; Fn *f = fbegin(im, 0, pend == 2 ? 3 : pend, rt);
  if (pend) E1(f, LGET, 5); if (pend == 2) { emit_k(f, F64, f64b(2.5)); E1(f, KI64, 3); E1(f, LGET, 4); E0(f, 0xad); E0(f, 0x7e); }
  if (t == 2) { for (int i = 0; i < 4; i++) { E1(f, KI32, i); E1(f, LGET, 8 + (i & 1)); E1(f, TSET, 2); } }
  idx(f, a); if (op) { idx(f, b); idx(f, n); E2(f, TCOPY, t, s); } else { ref(f, t, b); idx(f, n); E1(f, TFILL, t); }
  run(args0);
}
/* get / set / call at every index, every origin of index and reference, either stack layout, index extension on or off */
static void b_single(void) {
  int cfg = choose(2), misc = choose(2), im = choose(2), op = choose(5), t = choose(op > 1 ? 2 : 3), i = choose(TS); g_o = choose(NO); int k = op == 0 ? choose(5) : 0, pend = choose(4);
  if (!mc_mine()) return; set_cfg(cfg, misc ? 3 : 2);
  static const uint8_t rt[5] = {I32, F64, I32, F32, I32}; Fn *f = fbegin(im, 0, pend == 3 ? 5 : pend == 2 ? 3 : 1, pend == 3 ? rt : pend == 2 ? rt : rt);
  if (t == 2) { for (int q = 0; q < TS; q++) { E1(f, KI32, q); if (q == 2) E1(f, REFNULL, XREF); else E1(f, LGET, 8 + (q & 1)); E1(f, TSET, 2); } }
  int np = pend == 3 ? 4 : pend == 2 ? 2 : 0; for (int q = 0; q < np && op < 3; q++) { if (rt[q] == I32) { E1(f, LGET, q + 2); E1(f, LGET, 3); E0(f, 0x6c); } else emit_k(f, rt[q], rt[q] == F64 ? f64b(3) : f32b(4)); }
  switch (op) {
  case 0: idx(f, i); ref(f, t, k); E1(f, TSET, t); E1(f, KI32, 5); break;
  case 1: idx(f, i); E1(f, TGET, t); E0(f, REFISNULL); break;
  case 2: idx(f, i); E2(f, CALL_IND, 0, t); break;
  case 3: if (pend) { free(0); mc_owned = 0; mc_slot_->execs--; return; } idx(f, i); E2(f, RCALL_IND, 0, t); break;
  case 4: { /* call through the entry just stored, in a loop over all entries */ if (pend > 1) { mc_owned = 0; mc_slot_->execs--; return; } int l = add_local(f, I32), s = add_local(f, I32);
      E1(f, KI32, 0); E1(f, REFFUNC, 1); E1(f, KI32, TS); E1(f, TFILL, t); idx(f, i); E1(f, REFFUNC, pend ? 0 : 3); E1(f, TSET, t);
      E1(f, LOOP, 0x40); E1(f, LGET, s); E1(f, KI32, 31); E0(f, 0x6c); E1(f, LGET, l); E2(f, CALL_IND, 0, t); E0(f, 0x6a); E1(f, LSET, s); E1(f, LGET, l); E1(f, KI32, 1); E0(f, 0x6a); E1(f, LTEE, l); E1(f, KI32, TS); E0(f, 0x49); E1(f, BR_IF, 0); E0(f, END); E1(f, LGET, s); break; }
  }
  run(args0);
}
/* calls between modifications made by the called functions themselves */
static void b_nested(void) {
  int cfg = choose(2), im = choose(2), t = choose(2), a = choose(4), b = choose(4), c = choose(3), d = choose(4); g_o = choose(NO);
  if (!mc_mine()) return; set_cfg(cfg, 3);
  Fn *f = fbegin(im, 0, 2, (uint8_t[]){I32, I32}); int ty = 0;
  /* function 4 becomes a modifier: stores f1 at entry a of table t, copies to b, then returns the size */
  Fn *g = &M.fn[3]; g->nins = 0; int o = g_o; g_o = O_K; E1(g, KI32, a + 1); E1(g, REFFUNC, 1); E1(g, TSET, t); if (c == 1) { E1(g, KI32, b); E1(g, KI32, a + 1); E1(g, KI32, 1); E2(g, TCOPY, 1 - t, t); } if (c == 2) { E1(g, KI32, b); E1(g, REFNULL, FREF); E1(g, KI32, 2); E1(g, TFILL, 1 - t); } E1(g, TSIZE, t); g_o = o;
  idx(f, 3); E1(f, REFFUNC, 4); E1(f, TSET, 1 - t); idx(f, 3); E2(f, CALL_IND, ty, 1 - t); idx(f, d + 1); E2(f, CALL_IND, ty, t);
  run(args0);
}
static struct mc_space sp[] = {
  {"sequences", b_ops, "every sequence of 3 (4) operations among set/get/size/fill/copy/call/grow over three tables x index origin x own or imported x with or without maximum"},
  {"bulk", b_bulk, "every in-range fill and copy of a 6-entry table x table pairs x 4 operand origins x pending values"},
  {"single", b_single, "every get/set/indirect call at every index x origin x reference x layout x index extension"},
  {"nested", b_nested, "indirectly called functions that change tables the caller uses next"}};
static const char *as[] = {"table.grow may refuse (-1), as the library's documentation of fixed-size tables allows, even below the maximum", "table indices in range and called entries non-null with the right type: traps are outside the library's contract", 0};
int main(int c, char **v) { r_nan_skip = 1; mc_worker_init = probe; static struct mc_check k = {"P08", "one execution = one module with three tables running one operation sequence; results, all tables entry by entry, host calls compared; non-trivial = distinct results", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
