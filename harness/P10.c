/* P10 memory.size/grow/fill/copy: every operation sequence on fixed and growing memories, growth also by callees, in
 * branches and in loops; every small fill and copy range; growth that cannot be satisfied. */
#include "num.h"
#include "host.h"
static int grow_fixed[2]; /* a library may refuse to grow memories that declare a maximum (documented) */
static const Mem KIND[] = {{1, 0, 0, 0}, {1, 3, 1, 0}, {0, 0, 0, 0}, {1, 1, 1, 0}, {2, 4, 1, 0}, {0, 2, 1, 0}};
static void go(V *a, int fi) {
  g_outh = 3; inst_both(0, 0);
  if (M.mem[0].hasmax && !grow_fixed[0]) R.mem[0]->max = R.mem[0]->pages;
  if (diff_call("f", fi, a)) { free_both(); mc_skip(); } cmp_memory(0, "m");
  g_outh = mc_hash(g_outh, R.mem[0]->b, 4096); if (R.mem[0]->pages) g_outh = mc_hash(g_outh, R.mem[0]->b + R.mem[0]->pages * RPAGE - 64, 64);
  free_both(); mc_outcome(g_outh);
}
static void probe(void) {
  set_cfg(0, 3); mod_reset(&M); int t = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32}); M.nmem = 1; M.mem[0] = (Mem){1, 3, 1, 0}; Fn *f = mod_fn(&M, t); E1(f, KI32, 1); E1(f, MGROW, 0); mod_exp(&M, "f", 0, 0);
  char *e; pwart_module_state st = real_load(&M, 0, &e); if (!st) return; V r[1]; call_real(pwart_get_export_function(st, "f"), &M.ft[0], 0, r); grow_fixed[0] = (int32_t)r[0].b != -1; pwart_free_module_state(st);
}
static Fn *base(int kind) {
  mod_reset(&M); M.nmem = 1; M.mem[0] = KIND[kind]; mod_exp(&M, "m", 2, 0);
  int tg = mod_ft(&M, 1, (uint8_t[]){I32}, 1, (uint8_t[]){I32}), tf = mod_ft(&M, 4, (uint8_t[]){I32, I32, I32, I64}, 0, 0);
  Fn *g = mod_fn(&M, tg); E1(g, LGET, 0); E1(g, MGROW, 0);                               /* function 0: grow */
  Fn *h = mod_fn(&M, tg); E1(h, LGET, 0); E1(h, CALL, 0); E0(h, DROP); E1(h, MSIZE, 0);  /* function 1: grows in a callee, reports the size */
  Fn *f = mod_fn(&M, tf); mod_exp(&M, "f", 0, 2); return f;
}
static void res(Fn *f, int t) { FT *ft = &M.ft[f->type]; ft->r[ft->nr++] = t; }
static void last_addr(Fn *f) { E1(f, MSIZE, 0); E1(f, KI32, 16); E0(f, 0x74); E1(f, KI32, 8); E0(f, 0x6b); } /* 8 bytes before the end */
static int one(Fn *f, int kind) {
  int c = choose(18), ok = KIND[kind].min > 0;
  switch (c) {
  case 0: E1(f, MSIZE, 0); res(f, I32); break;
  case 1: E1(f, KI32, 1); E1(f, MGROW, 0); res(f, I32); break;
  case 2: E1(f, LGET, 0); E1(f, MGROW, 0); res(f, I32); break;           /* by 2 */
  case 3: E1(f, KI32, 0); E1(f, MGROW, 0); res(f, I32); break;
  case 4: E1(f, KI32, choose(2) ? 0x10000 : -1); E1(f, MGROW, 0); res(f, I32); break;
  case 5: E1(f, LGET, 1); E1(f, CALL, choose(2)); res(f, I32); break;    /* callee grows by 1 */
  case 6: E1(f, LGET, 2); E1(f, IF, 0x40); E1(f, LGET, 1); E1(f, MGROW, 0); E0(f, DROP); E0(f, END); break; /* taken */
  case 7: E1(f, LGET, 2); E0(f, 0x45); E1(f, IF, I32); E1(f, LGET, 1); E1(f, MGROW, 0); E0(f, ELSE); E1(f, MSIZE, 0); E0(f, END); res(f, I32); break; /* growth not taken */
  case 8: { int l = add_local(f, I32); E1(f, LOOP, 0x40); E1(f, KI32, 1); E1(f, CALL, 0); E0(f, DROP); last_addr(f); E1(f, LGET, l); emit_mem(f, 0x36, 0, 0); E1(f, LGET, l); E1(f, KI32, 1); E0(f, 0x6a); E1(f, LTEE, l); E1(f, KI32, 2); E0(f, 0x49); E1(f, BR_IF, 0); E0(f, END); break; }
  case 9: if (!ok) return 0; E1(f, KI32, 5); E1(f, LGET, 3); emit_mem(f, 0x37, 0, 0); break;
  case 10: if (!ok) return 0; E1(f, KI32, 3); emit_mem(f, 0x29, 0, 0); res(f, I64); break;
  case 11: last_addr(f); E1(f, LGET, 3); emit_mem(f, 0x37, 0, 0); break;
  case 12: last_addr(f); emit_mem(f, 0x29, 0, 0); res(f, I64); break;
  case 13: last_addr(f); E1(f, KI32, 0x1a7); E1(f, KI32, 8); E1(f, MFILL, 0); break;
  case 14: last_addr(f); E1(f, KI32, 2); E1(f, KI32, 8); E2(f, MCOPY, 0, 0); break;
  case 15: if (!ok) return 0; E1(f, KI32, 0); last_addr(f); E1(f, KI32, 8); E2(f, MCOPY, 0, 0); break;
  case 16: if (!ok) return 0; E1(f, KI32, choose(2) ? 12 : 5); E1(f, KI32, 9); E1(f, LGET, 0); E1(f, KI32, 12); E0(f, 0x6c); E2(f, MCOPY, 0, 0); break; /* overlapping, 24 bytes */
  case 17: if (!ok) return 0; E1(f, LGET, 1); E1(f, LGET, 2); E1(f, KI32, 7); E1(f, MFILL, 0); break;
  }
  return 1;
}
static void b_seq(void) {
  int kind = choose(6), cfg = choose(2), L = mc_thorough ? 5 : 4; set_cfg(cfg, 3); Fn *f = base(kind);
  for (int i = 0; i < L; i++) { if (!one(f, kind)) { mc_owned = 0; return; } if (i == 1 && !mc_mine()) return; }
  go((V[]){mk(I32, 2), mk(I32, 1), mk(I32, 0x5a), mk(I64, 0xf1e2d3c4b5a69788ull)}, 2);
}
static const int NS[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 130, 255, 256, 257, 1000, 4096, 65536};
static void op3(Fn *f, int form, int k, uint32_t v, int *aux) { form_push(f, form, I32, k, v, aux[k]); }
static void pattern(void) { struct pwart_wasm_memory *m = pwart_get_export_memory(g_st, "m"); for (uint32_t i = 0; i < m->pages * 65536u; i++) m->bytes[i] = R.mem[0]->b[i] = (uint8_t)(i * 167 + (i >> 8)); }
static void go2(V *a) { g_outh = 3; inst_both(0, 0); pattern(); if (diff_call("f", 4, a)) { free_both(); mc_skip(); } cmp_memory(0, "m"); g_outh = mc_hash(g_outh, R.mem[0]->b, 8192); free_both(); mc_outcome(g_outh); }
static void b_bulk(void) { /* all sizes, alignments and overlaps */
  int op = choose(2), n = choose_from(NS), d = choose(10), s = op ? choose(24) : choose(4), kind = choose(2), cfg = choose(2), dyn = choose(2); 
  if (!mc_mine()) return; set_cfg(cfg, 3); static const int DS[] = {0, 1, 3, 4, 7, 8, 9, 15, 16, 100};
  static const int SO[] = {-257, -65, -33, -17, -16, -15, -9, -8, -7, -4, -2, -1, 0, 1, 2, 3, 7, 8, 9, 16, 17, 31, 64, 256};
  int64_t da = DS[d] + 300, sa = op ? da + SO[s] : 0; if (n == 65536) { da = 0; sa = 0; if (d || (op && SO[s])) { mc_slot_->execs--; mc_owned = 0; return; } }
  if (d == 9) { da = 65536 - n; sa = op ? da + SO[s] : 0; if (sa + n > 65536 || sa < 0) sa = 65536 - n; }
  static const uint32_t fv[] = {0, 0xff, 0x1a5, 0xffffff80u};
  uint8_t pt[3] = {I32, I32, I32}; Fn *f = skeleton(3, pt, 0, 0); if (kind) M.mem[0] = (Mem){1, 0, 0, 0}; mod_exp(&M, "m", 2, 0);
  uint32_t b = op ? (uint32_t)sa : fv[s]; uint32_t v[3] = {da, b, n};
  for (int i = 0; i < 3; i++) if (dyn) E1(f, LGET, i); else E1(f, KI32, (int32_t)v[i]);
  if (op) E2(f, MCOPY, 0, 0); else E1(f, MFILL, 0);
  go2((V[]){mk(I32, v[0]), mk(I32, v[1]), mk(I32, v[2])});
}
static void b_forms(void) { /* operand origins and register pressure */
  int op = choose(2), f0 = choose(NFORM), f1 = choose(NFORM), f2 = choose(NFORM), cfg = choose(4), np = choose(3) * 4, kind = choose(2);
  if (!mc_mine()) return; set_cfg(cfg & 1, cfg & 2 ? 3 : 2); uint32_t v[3] = {300, op ? 310 : 0x1b7, 21}; uint8_t pt[3] = {I32, I32, I32}; Fn *f = skeleton(3, pt, 0, 0); if (kind) M.mem[0] = (Mem){1, 0, 0, 0}; mod_exp(&M, "m", 2, 0); FT *ft = &M.ft[f->type];
  int aux[3]; M.nglob = 0; for (int i = 0; i < 8; i++) { Glob *g = &M.glob[M.nglob++]; g->vt = i < 3 ? I32 : all_t[i / 2]; g->mut = 1; g->nins = 1; memset(&g->ins[0], 0, sizeof(Ins)); g->ins[0].op = kop(g->vt); }
  int ff[3] = {f0, f1, f2}; for (int i = 0; i < 3; i++) form_prologue(f, ff[i], I32, i, &aux[i]);
  for (int i = 0; i < np; i++) { int t = all_t[i & 3]; emit_k(f, t, t == F32 ? f32b(i + .5f) : t == F64 ? f64b(i + .25) : 100 + i); if (t == I32) { E1(f, LGET, 0); E0(f, 0x6c); } else if (t == I64) { E1(f, LGET, 0); E0(f, 0xac); E0(f, 0x7e); } else E0(f, neg_op(t)); ft->r[ft->nr++] = t; }
  for (int i = 0; i < 3; i++) op3(f, ff[i], i, v[i], aux); if (op) E2(f, MCOPY, 0, 0); else E1(f, MFILL, 0);
  E1(f, KI32, 316); emit_mem(f, 0x29, 0, 0); ft->r[ft->nr++] = I64;
  go2((V[]){mk(I32, v[0]), mk(I32, v[1]), mk(I32, v[2])});
}
static void b_growforms(void) { /* origin of the growth operand, consumer of its result, pending values */
  int fo = choose(NFORM), n = choose_from(((int[]){0, 1, 2, 3, 70000, -1, -65536})), cons = choose(4), np = choose(4) * 3, cfg = choose(2), kind = choose(6);
  if (!mc_mine()) return; if (!KIND[kind].min) { mc_slot_->execs--; mc_owned = 0; return; } set_cfg(cfg, 3); uint8_t pt[2] = {I32, I32}; Fn *f = skeleton(2, pt, 0, 0); M.mem[0] = KIND[kind]; mod_exp(&M, "m", 2, 0); FT *ft = &M.ft[f->type]; int aux;
  form_prologue(f, fo, I32, 0, &aux);
  for (int i = 0; i < np; i++) { int t = all_t[i & 3]; if (i & 1) { E1(f, KI32, 24 + i); emit_mem(f, ld_op(t), 0, 0); } else { emit_k(f, t, t == F32 ? f32b(i + .5f) : t == F64 ? f64b(i + .25) : 100 + i); if (t == I32) { E1(f, LGET, 1); E0(f, 0x6c); } else if (t == I64) { E1(f, LGET, 1); E0(f, 0xac); E0(f, 0x7e); } else E0(f, neg_op(t)); } ft->r[ft->nr++] = t; }
  form_push(f, fo, I32, 0, n, aux); E1(f, MGROW, 0);
  if (cons == 0) ft->r[ft->nr++] = I32; else if (cons == 1) { E1(f, MSIZE, 0); E0(f, 0x6b); ft->r[ft->nr++] = I32; } else if (cons == 2) { E1(f, KI32, -1); E0(f, 0x46); E1(f, IF, I32); E1(f, MSIZE, 0); E0(f, ELSE); E1(f, MSIZE, 0); E1(f, KI32, 100); E0(f, 0x6a); E0(f, END); ft->r[ft->nr++] = I32; } else { int l = add_local(f, I32); E1(f, LSET, l); E1(f, KI32, 16); E1(f, LGET, l); emit_mem(f, 0x36, 0, 0); last_addr(f); emit_mem(f, 0x29, 0, 0); ft->r[ft->nr++] = I64; last_addr(f); E1(f, LGET, l); emit_mem(f, 0x3b, 6, 0); }
  set_cfg(cfg, 3); V a[2] = {mk(I32, n), mk(I32, 7)}; g_outh = 3; inst_both(0, 0); if (M.mem[0].hasmax && !grow_fixed[0]) R.mem[0]->max = R.mem[0]->pages; pattern(); if (diff_call("f", 4, a)) { free_both(); mc_skip(); } cmp_memory(0, "m"); free_both(); mc_outcome(g_outh);
}
static void b_grow64(void) { /* 64-bit memories: amounts beyond 32 bits */
  static const int64_t ns[] = {0, 1, 2, 3, 70000, -1, 0xffffffffll, 0x100000000ll, 0x100000001ll, 0x200000000ll, 0x7fffffff00000001ll, (int64_t)0x8000000000000000ull, (int64_t)0x8000000000000001ull, -65536, (int64_t)0xffffffff00000001ull, (int64_t)0xffff000000000000ull, 0xffffffffffffll};
  int fo = choose(NFORM); int64_t n = ns[choose(sizeof ns / 8)]; int cons = choose(4), np = choose(3) * 2, cfg = choose(2), kind = choose(6);
  if (!mc_mine()) return; if (!KIND[kind].min) { mc_slot_->execs--; mc_owned = 0; return; } set_cfg(cfg, 3); uint8_t pt[2] = {I64, I32}; Fn *f = skeleton(2, pt, 0, 0); M.mem[0] = KIND[kind]; FT *ft = &M.ft[f->type]; int aux;
  if (fo == FO_MEM) { mc_slot_->execs--; mc_owned = 0; return; } M.mem[0].is64 = 1; mod_exp(&M, "m", 2, 0); ft = &M.ft[f->type];
  form_prologue(f, fo, I64, 0, &aux);
  for (int i = 0; i < np; i++) { E1(f, KI64, 24 + i); emit_mem(f, ld_op(all_t[i]), 0, 0); ft->r[ft->nr++] = all_t[i]; }
  form_push(f, fo, I64, 0, n, aux); E1(f, MGROW, 0);
  if (cons == 0) ft->r[ft->nr++] = I64; else if (cons == 1) { E1(f, MSIZE, 0); E0(f, 0x7d); ft->r[ft->nr++] = I64; } else if (cons == 2) { E1(f, KI64, -1); E0(f, 0x51); E1(f, IF, I64); E1(f, MSIZE, 0); E0(f, ELSE); E1(f, MSIZE, 0); E1(f, KI64, 100); E0(f, 0x7c); E0(f, END); ft->r[ft->nr++] = I64; } else { int l = add_local(f, I64); E1(f, LSET, l); E1(f, KI64, 16); E1(f, LGET, l); emit_mem(f, 0x37, 0, 0); E1(f, KI64, 18); emit_mem(f, 0x29, 0, 0); ft->r[ft->nr++] = I64; }
  E1(f, MSIZE, 0); ft->r[ft->nr++] = I64;
  set_cfg(cfg, 3); V a[2] = {mk(I64, n), mk(I32, 7)}; g_outh = 3; inst_both(0, 0); if (M.mem[0].hasmax && !grow_fixed[0]) R.mem[0]->max = R.mem[0]->pages; pattern(); if (diff_call("f", 4, a)) { free_both(); mc_skip(); } cmp_memory(0, "m"); free_both(); mc_outcome(g_outh);
}
static void b_oom(void) { /* the host has no more memory: growth must fail cleanly, whatever was grown before */
  int a = choose(4), b = choose_from(((int[]){2000, 8000, 30000})), cfg = choose(2), via = choose(2);
  if (!mc_mine()) return; set_cfg(cfg, 3); mod_reset(&M); M.nmem = 1; M.mem[0] = (Mem){1, 0, 0, 0}; mod_exp(&M, "m", 2, 0);
  int t = mod_ft(&M, 1, (uint8_t[]){I32}, 1, (uint8_t[]){I32}), t2 = mod_ft(&M, 1, (uint8_t[]){I32}, 3, (uint8_t[]){I32, I32, I64}); Fn *g = mod_fn(&M, t); E1(g, LGET, 0); E1(g, MGROW, 0);
  Fn *f = mod_fn(&M, t2); E1(f, KI32, 16); E1(f, KI64, 0x1122334455667788ll); emit_mem(f, 0x37, 0, 0); E1(f, LGET, 0); if (via) E1(f, CALL, 0); else E1(f, MGROW, 0); E1(f, MSIZE, 0); E1(f, KI32, 16); emit_mem(f, 0x29, 0, 0);
  mod_exp(&M, "g", 0, 0); mod_exp(&M, "f", 0, 1); mc_describe_cb = describe_M; mc_predesc(); g_st = real_load(&M, 0, &g_err); if (!g_st) mc_fail("a valid module was rejected: %s", g_err);
  V r[3], x = mk(I32, a); if (a) { call_real(pwart_get_export_function(g_st, "g"), &M.ft[t], &x, r); if (r[0].b != 1) mc_fail("growing by %d yields %u", a, (uint32_t)r[0].b); }
  /* leave the process about 64 MiB of address space */
  FILE *fp = fopen("/proc/self/statm", "r"); unsigned long vm = 0; if (fp) { if (fscanf(fp, "%lu", &vm) != 1) vm = 0; fclose(fp); } struct rlimit o, n; getrlimit(RLIMIT_AS, &o); n = o; n.rlim_cur = vm * 4096 + (64u << 20); setrlimit(RLIMIT_AS, &n);
  x = mk(I32, b); call_real(pwart_get_export_function(g_st, "f"), &M.ft[t2], &x, r); setrlimit(RLIMIT_AS, &o);
  struct pwart_wasm_memory *m = pwart_get_export_memory(g_st, "m");
  if ((int32_t)r[0].b != -1) mc_fail("growing by %d pages without memory yields %d, must be -1", b, (int32_t)r[0].b); if (r[1].b != 1 + a || m->pages != 1 + a) mc_fail("a failed growth changed the size to %u pages", m->pages); if (r[2].b != 0x1122334455667788ull) mc_fail("a failed growth changed the contents");
  pwart_free_module_state(g_st); mc_steps(1); mc_outcome(a * 10 + via);
}
/* a callee moves the memory: every signature shape of the callee, every kind of call, what the caller had used before and uses after */
static void b_callee(void) {
  int ps = choose(4), rs = choose(6), how = choose(6), before = choose(4), after = choose(5), np = choose(2) * 5, cfg = choose(2), two = choose(2);
  if (!mc_mine()) return; set_cfg(cfg, 3); mod_reset(&M); M.nmem = 1 + two; int mi = two ? choose(2) : 0; M.mem[0] = (Mem){1, 0, 0, 0}; if (two) M.mem[1] = (Mem){1, 0, 0, 0}; mod_exp(&M, "m", 2, 0); if (two) mod_exp(&M, "m1", 2, 1);
  static const uint8_t PT[4][3] = {{0}, {I32}, {I64, F64}, {F32, I32, I32}}; static const int PN[] = {0, 1, 2, 3};
  static const uint8_t RT[6][5] = {{0}, {I32}, {I64}, {F64}, {I32, F32, I64}, {I64, I64, F64, I32, I32}}; static const int RN[] = {0, 1, 1, 1, 3, 5};
  int tc = mod_ft(&M, PN[ps], PT[ps], RN[rs], RT[rs]), tf = mod_ft(&M, 4, (uint8_t[]){I32, I32, I32, I64}, 0, 0);
  Fn *g = mod_fn(&M, tc); E1(g, KI32, 3); E1(g, MGROW, mi); E0(g, DROP); for (int i = 0; i < RN[rs]; i++) emit_k(g, RT[rs][i], RT[rs][i] == F32 ? f32b(i + .5f) : RT[rs][i] == F64 ? f64b(i + .25) : 70 + i); /* 0: grows */
  Fn *h = mod_fn(&M, tc); for (int i = 0; i < PN[ps]; i++) E1(h, LGET, i); E1(h, CALL, 0);                                               /* 1: calls it */
  Fn *k = mod_fn(&M, tc); for (int i = 0; i < PN[ps]; i++) E1(k, LGET, i); E1(k, RCALL, 0);                                              /* 2: continues with it */
  M.ntab = 1; M.tab[0] = (Tab){FREF, 3, 3, 1}; Elem *el = &M.elem[M.nelem++]; memset(el, 0, sizeof *el); el->noff = 1; el->off[0].op = KI32; el->n = 3; for (int i = 0; i < 3; i++) { el->fidx[i] = i; }
  Fn *f = mod_fn(&M, tf); mod_exp(&M, "f", 0, 3); FT *ft = &M.ft[tf]; 
#define OUT(t) ft->r[ft->nr++] = (t)
  if (before == 1 || before == 3) { E1(f, KI32, 24); emit_mem(f, 0x29, 0, mi); OUT(I64); } if (before >= 2) { E1(f, KI32, 32); E1(f, LGET, 3); emit_mem(f, 0x37, 0, mi); }
  for (int i = 0; i < np; i++) { int t = all_t[i & 3]; emit_k(f, t, t == F32 ? f32b(i + .5f) : t == F64 ? f64b(i + .25) : 100 + i); if (t == I32) { E1(f, LGET, 0); E0(f, 0x6c); } else if (t == I64) { E1(f, LGET, 3); E0(f, 0x7e); } else E0(f, neg_op(t)); OUT(t); }
  for (int i = 0; i < PN[ps]; i++) emit_k(f, PT[ps][i], PT[ps][i] == F32 ? f32b(3) : PT[ps][i] == F64 ? f64b(4) : 5);
  if (how < 3) E1(f, CALL, how); else { E1(f, KI32, how - 3); E2(f, CALL_IND, tc, 0); } for (int i = 0; i < RN[rs]; i++) OUT(RT[rs][i]);
  switch (after) {
  case 0: E1(f, KI32, 24); emit_mem(f, 0x29, 0, mi); OUT(I64); break;
  case 1: E1(f, KI32, 40); E1(f, LGET, 3); emit_mem(f, 0x37, 0, mi); break;
  case 2: E1(f, LGET, 2); emit_mem(f, 0x2d, 3, mi); OUT(I32); E1(f, LGET, 2); E1(f, LGET, 0); emit_mem(f, 0x3a, 9, mi); break;
  case 3: E1(f, LGET, 2); E1(f, IF, 0x40); E1(f, KI32, 48); E1(f, LGET, 3); emit_mem(f, 0x37, 0, mi); E0(f, END); E1(f, KI32, 48); emit_mem(f, 0x29, 0, mi); OUT(I64); break;
  case 4: E1(f, KI32, 60); E1(f, LGET, 0); E1(f, KI32, 9); E1(f, MFILL, mi); E1(f, MSIZE, mi); OUT(I32); break;
  }
  if (two) { E1(f, KI32, 8); E1(f, LGET, 3); emit_mem(f, 0x37, 0, 1 - mi); }
  g_outh = 3; inst_both(0, 0); for (int q = 0; q <= two; q++) { struct pwart_wasm_memory *m = pwart_get_export_memory(g_st, q ? "m1" : "m"); for (uint32_t i = 0; i < 65536; i++) m->bytes[i] = R.mem[q]->b[i] = (uint8_t)(i * 167 + (i >> 8) + q); }
  void *block = malloc(64 << 10); V a[] = {mk(I32, 2), mk(I32, 1), mk(I32, 0x5a), mk(I64, 0xf1e2d3c4b5a69788ull)}; int sk = diff_call("f", 3, a); free(block); if (sk) { free_both(); mc_skip(); } cmp_memory(0, "m"); if (two) cmp_memory(1, "m1"); free_both(); mc_outcome(g_outh + rs);
}
static struct mc_space sp[] = {
  {"sequences", b_seq, "every sequence of 4 (5) operations from 21 (size, growth in line, by callees, in branches and loops, fills, copies, loads and stores at both ends) on 6 kinds of memory in both layouts"},
  {"ranges", b_bulk, "24 lengths x 10 destinations x 24 source distances (or 4 fill values) x fixed and growing x constant and dynamic operands"},
  {"origins", b_forms, "every triple of 12 operand origins for fill and copy x pending values x layout x index extension"},
  {"growth", b_growforms, "growth operand origin x amount x consumer x pending loads x memory kind"},
  {"growth-64", b_grow64, "the same for 64-bit memories: 17 amounts up to 64 bits"},
  {"callees", b_callee, "4 parameter lists x 6 result lists of a callee that moves the memory x direct, nested, tail and indirect call x the caller's accesses before and after x pending values x second memory"},
  {"exhausted", b_oom, "growth the host cannot satisfy"}};
static const char *as[] = {"ranges in bounds: out-of-bounds traps are outside the library's contract", "a memory that declares a maximum may refuse to grow (documented): then -1 and no change are required", 0};
int main(int c, char **v) { r_nan_skip = 1; mc_worker_init = probe; static struct mc_check k = {"P10", "one execution = one module and one call; results, page count and all memory bytes compared; non-trivial = distinct results and contents", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
