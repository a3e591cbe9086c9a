/* P11 several memories: every triple of memory kinds (own or host-provided, fixed or growing, 32- or 64-bit), every
 * operation sequence; the 64-bit address forms; memories beyond 4 GiB; the native memory. */
#include "num.h"
#include "host.h"
enum { K32, K32G, K64, K64G, I32F, I32G, I64F, I64G, NK };
static const char *fld[] = {"A", "B", "C"}, *mn[] = {"m0", "m1", "m2"};
static struct pwart_wasm_memory hm[3]; static RMem hr[3]; static int hfree[3];
static void *imps[16];
static void *more(const char *mod, const char *field, int kind) { if (kind == PWART_KIND_MEMORY && field[0] >= 'A' && field[0] <= 'C' && !field[1]) return &hm[field[0] - 'A']; return NULL; }
static void host_mems_free(void) { for (int i = 0; i < 3; i++) if (hfree[i]) { free(hm[i].bytes); free(hr[i].b); hfree[i] = 0; } }
static int is64(int k) { return k == K64 || k == K64G || k == I64F || k == I64G; }
static void setup(const int *k) { /* mod_reset done */
  host_reset(); host_res_more = more; M.nmem = 0;
  for (int i = 0; i < 3; i++) {
    if (k[i] >= I32F) { int g = k[i] == I32G || k[i] == I64G; Imp *p = mod_imp(&M, 2, "env", fld[i]); p->min = 1; p->hasmax = !g; p->max = 1; p->is64 = is64(k[i]);
      hm[i] = (struct pwart_wasm_memory){!g, g ? 3 : 1, 1, malloc(65536), !g}; memset(hm[i].bytes, 0, 65536); hr[i] = (RMem){calloc(5, 65536), 1, g ? 3 : 1, is64(k[i]), 4}; hfree[i] = 1; imps[M.nimp - 1] = &hr[i]; }
    else { int g = k[i] == K32G || k[i] == K64G; M.mem[M.nmem++] = (Mem){1, g ? 0 : 1, !g, is64(k[i])}; }
    mod_exp(&M, mn[i], 2, i);
  }
}
static void pattern(void) { for (int i = 0; i < 3; i++) { struct pwart_wasm_memory *m = pwart_get_export_memory(g_st, mn[i]); if (!m) mc_fail("exported memory %s not found", mn[i]); for (uint32_t q = 0; q < 65536u; q += 8) { uint64_t v = q * 0x9E3779B97F4A7C15ull + i * 0x0101010101010101ull; memcpy(m->bytes + q, &v, 8); } memcpy(R.mem[i]->b, m->bytes, 65536); } }
static void go(V *a, int fi) {
  g_outh = 3; inst_both(&host_rs, imps); pattern(); if (diff_call("f", fi, a)) { free_both(); host_mems_free(); mc_skip(); }
  for (int i = 0; i < 3; i++) { cmp_memory(i, mn[i]); g_outh = mc_hash(g_outh, R.mem[i]->b, 2048); g_outh += R.mem[i]->pages; }
  free_both(); host_mems_free(); mc_outcome(g_outh);
}
static int g_k[3], g_o; static FT *g_ft;
static void ad(Fn *f, int m, uint32_t v) { /* an address or count operand of memory m */
  if (is64(g_k[m])) { if (g_o == 0) E1(f, KI64, v); else { E1(f, LGET, 1); E1(f, KI64, v); E0(f, 0x7c); } }
  else { if (g_o == 0) E1(f, KI32, v); else { E1(f, LGET, 0); E1(f, KI32, v); E0(f, 0x6a); } }
}
static void kk(Fn *f, int w64, uint32_t v) { if (w64) E1(f, KI64, v); else E1(f, KI32, v); }
static void res(int t) { g_ft->r[g_ft->nr++] = t; }
static void one(Fn *f) {
  int c = choose(7), m = choose(3);
  switch (c) {
  case 0: { int w = choose(2); ad(f, m, 9); emit_mem(f, w ? 0x35 : 0x2d, 4, m); res(w ? I64 : I32); break; }
  case 1: { int w = choose(2); ad(f, m, 12); E1(f, LGET, w ? 3 : 2); emit_mem(f, w ? 0x37 : 0x3b, 1, m); break; }
  case 2: E1(f, MSIZE, m); res(is64(g_k[m]) ? I64 : I32); break;
  case 3: ad(f, m, 1); E1(f, MGROW, m); res(is64(g_k[m]) ? I64 : I32); break;
  case 4: ad(f, m, 10); E1(f, KI32, 0x1c3); ad(f, m, 6); E1(f, MFILL, m); break;
  case 5: { int s = choose(3); ad(f, m, 8); ad(f, s, 11); int w = is64(g_k[m]) && is64(g_k[s]); if (g_o && !w) { E1(f, LGET, 0); E1(f, KI32, 13); E0(f, 0x6a); } else kk(f, w, 13); E2(f, MCOPY, m, s); break; }
  case 6: E1(f, MSIZE, m); if (is64(g_k[m])) { E1(f, KI64, 16); E0(f, 0x86); E1(f, KI64, 8); E0(f, 0x7d); } else { E1(f, KI32, 16); E0(f, 0x74); E1(f, KI32, 8); E0(f, 0x6b); } if (choose(2)) { emit_mem(f, 0x29, 0, m); res(I64); } else { E1(f, LGET, 3); emit_mem(f, 0x37, 0, m); } break;
  }
}
static V A4[4];
static Fn *begin(const int *k) { mod_reset(&M); memcpy(g_k, k, sizeof g_k); setup(k); int t = mod_ft(&M, 4, (uint8_t[]){I32, I64, I32, I64}, 0, 0); Fn *f = mod_fn(&M, t); g_ft = &M.ft[t]; mod_exp(&M, "f", 0, 0); A4[0] = mk(I32, 0); A4[1] = mk(I64, 0); A4[2] = mk(I32, 0xa1b2c3d4); A4[3] = mk(I64, 0xf1e2d3c4b5a69788ull); return f; }
static void triple(int *k) { /* imports come first in the index space */ int ni = choose(4); for (int i = 0; i < 3; i++) k[i] = i < ni ? I32F + choose(4) : choose(4); }
static void b_seq(void) {
  int k[3], L; triple(k); int cfg = choose(2); g_o = mc_thorough ? choose(2) : 1 - cfg; L = mc_thorough ? 3 : 2; set_cfg(cfg, cfg ? 3 : 2); Fn *f = begin(k);
  for (int i = 0; i < L; i++) { one(f); if (i == 0 && !mc_mine()) { host_mems_free(); return; } }
  go(A4, 0);
}
/* one representative triple, longer sequences */
static void b_deep(void) {
  static const int rep[4][3] = {{I32F, K64G, K32G}, {K32G, K64, K32}, {I64G, I32G, K64G}, {K64, K32G, K64G}};
  const int *k = rep[choose(4)]; g_o = choose(2); int L = mc_thorough ? 4 : 3; set_cfg(1, 3); Fn *f = begin(k);
  for (int i = 0; i < L; i++) { one(f); if (i == 1 && !mc_mine()) { host_mems_free(); return; } }
  go(A4, 0);
}
/* every access on every memory of a triple, 64-bit and 32-bit address operands of every origin, values pending */
static void b_forms(void) {
  static const int rep[4][3] = {{I64F, K64G, K32}, {K64, K64G, K32G}, {I64G, I32G, K64}, {K32, K64, K64G}};
  int r = choose(4), m = choose(3), op = 0x28 + choose(23), fo = choose(NFORM), off = choose_from(((int[]){0, 1, 200, 40000})), cfg = choose(2), np = choose(3) * 4;
  if (!mc_mine()) return; const int *k = rep[r]; set_cfg(cfg, 3);
  static const uint8_t vts[] = {I32, I64, F32, F64, I32, I32, I32, I32, I64, I64, I64, I64, I64, I64, I32, I64, F32, F64, I32, I32, I64, I64, I64}; int t = vts[op - 0x28], ld = is_load(op), at = is64(k[m]) ? I64 : I32;
  uint8_t pt[2] = {at, t}; Fn *f = skeleton(2, pt, 0, 0); M.nexp = 0; mod_exp(&M, "f", 0, 4); memcpy(g_k, k, sizeof g_k); 
  /* the address may pass through memory 0, which may be 64-bit: such a form uses a global instead */ if (fo == FO_MEM) fo = FO_GLOBAL;
  setup(k); FT *ft = &M.ft[f->type]; int aux = 0; form_prologue(f, fo, at, 0, &aux);
  for (int i = 0; i < np; i++) { int z = all_t[i & 3]; emit_k(f, z, z == F32 ? f32b(i + .5f) : z == F64 ? f64b(i + .25) : 100 + i); if (z == F32 || z == F64) E0(f, neg_op(z)); ft->r[ft->nr++] = z; }
  form_push(f, fo, at, 0, 24, aux); if (!ld) E1(f, LGET, 1); emit_mem(f, op, off, m); if (ld) ft->r[ft->nr++] = t;
  go((V[]){mk(at, 24), mk(t, t == F32 ? f32b(-1.75f) : t == F64 ? f64b(-2.5e-77) : 0xf1e2d3c4b5a69788ull)}, 4);
}
/* a 64-bit memory larger than 4 GiB */
static void b_huge(void) {
  static const struct { uint64_t b, o; } H[] = {{0xffffffffull, 1}, {0x100000000ull, 0}, {0x100000008ull, 0xfff00000u}, {0x180000123ull, 0x7fff0000}, {0x10, 0xffffffffu}, {0x80000000ull, 0x80000000u}, {0x1fffffff8ull, 0}, {0x7fffffff, 0}, {0, 0x100000000ull}, {0x80000007ull, 0x1234567f8ull}};
  int op = 0x28 + choose(23), h = choose(10), fo = choose(NFORM), cfg = choose(4), kind = choose(2), mi = choose(3);
  if (!mc_mine()) return; set_cfg(cfg & 1, cfg & 2 ? 3 : 2); static const uint8_t vts[] = {I32, I64, F32, F64, I32, I32, I32, I32, I64, I64, I64, I64, I64, I64, I32, I64, F32, F64, I32, I32, I64, I64, I64}; int t = vts[op - 0x28], w = mem_width(op), ld = is_load(op);
  if (fo == FO_MEM) { mc_slot_->execs--; mc_owned = 0; return; }
  uint8_t pt[2] = {I64, t}; Fn *f = skeleton(2, pt, 0, 0); FT *ft = &M.ft[f->type]; for (int i = 0; i < mi; i++) M.mem[i] = (Mem){1, 1, 1, 0}; M.nmem = mi + 1; M.mem[mi] = kind ? (Mem){131072, 0, 0, 1} : (Mem){131072, 131072, 1, 1}; mod_exp(&M, "m", 2, mi);
  int aux = 0; form_prologue(f, fo, I64, 0, &aux); form_push(f, fo, I64, 0, H[h].b, aux); if (!ld) E1(f, LGET, 1); emit_mem(f, op, H[h].o, mi); if (ld) ft->r[ft->nr++] = t;
  mc_describe_cb = describe_M; mc_predesc(); mallopt(M_PERTURB, 0); g_st = real_load(&M, 0, &g_err); mallopt(M_PERTURB, 0xa5); if (!g_st) { if (strstr(g_err, "memory")) mc_skip(); mc_fail("a valid module was rejected: %s", g_err); }
  struct pwart_wasm_memory *m = pwart_get_export_memory(g_st, "m"); uint64_t ea = H[h].b + H[h].o, pat = 0xf9e8d7c6b5a49382ull, v0 = t == F32 ? f32b(-1.75f) : t == F64 ? f64b(-2.5e-77) : 0xf1e2d3c4b5a69788ull; for (int i = -1; i < 2; i++) if (ea + 8 * i + 8 <= (1ull << 33)) memcpy(m->bytes + ea + 8 * i, &pat, 8);
  V a[2] = {mk(I64, H[h].b), mk(t, v0)}, got[4]; call_real(pwart_get_export_function(g_st, "f"), ft, a, got); uint64_t z;
  if (ld) { uint64_t v = 0, want; memcpy(&v, &pat, w); switch (op) { case 0x2c: case 0x2e: want = (uint32_t)(w == 1 ? (int32_t)(int8_t)v : (int32_t)(int16_t)v); break; case 0x30: want = (int64_t)(int8_t)v; break; case 0x32: want = (int64_t)(int16_t)v; break; case 0x34: want = (int64_t)(int32_t)v; break; default: want = v; } if (got[0].b != want) mc_fail("%s of address 0x%llx yields 0x%llx, must be 0x%llx", opname(op), (unsigned long long)ea, (unsigned long long)got[0].b, (unsigned long long)want); z = want; }
  else { uint8_t e[24]; memcpy(e, &pat, 8); memcpy(e + 8, &pat, 8); memcpy(e + 16, &pat, 8); memcpy(e + 8, &v0, w); int n = ea + 16 <= (1ull << 33) ? 24 : 16; if (memcmp(e, m->bytes + ea - 8, n)) mc_fail("%s to address 0x%llx changed other bytes or wrote wrong ones", opname(op), (unsigned long long)ea); z = v0 + op; }
  pwart_free_module_state(g_st); mc_steps(1); mc_outcome(z);
}
/* the native memory: addresses are native pointers; beside one own memory, in either index position */
static uint8_t nbuf[256] __attribute__((aligned(16)));
static void b_native(void) {
  int op = choose(25), fo = choose(NFORM), off = choose_from(((int[]){0, 1, 8, 100})), cfg = choose(4), own = choose(3), np = choose(3) * 4;
  if (!mc_mine()) return; if (fo == FO_MEM || fo == FO_CONST) { mc_slot_->execs--; mc_owned = 0; return; } set_cfg(cfg & 1, cfg & 2 ? 3 : 2);
  static const uint8_t vts[] = {I32, I64, F32, F64, I32, I32, I32, I32, I64, I64, I64, I64, I64, I64, I32, I64, F32, F64, I32, I32, I64, I64, I64}; int t = op < 23 ? vts[op] : I64;
  uint8_t pt[3] = {I64, t, I32}; Fn *f = skeleton(3, pt, 0, 0); FT *ft = &M.ft[f->type]; M.nmem = 0; if (own) M.mem[M.nmem++] = own == 1 ? (Mem){1, 1, 1, 0} : (Mem){1, 0, 0, 1};
  Imp *p = mod_imp(&M, 2, "pwart_builtin", "native_memory"); p->min = 1; p->is64 = 1; int nat = 0, wi = 1;
  int aux = 0; form_prologue(f, fo, I64, 0, &aux);
  for (int i = 0; i < np; i++) { int z = all_t[i & 3]; emit_k(f, z, z == F32 ? f32b(i + .5f) : z == F64 ? f64b(i + .25) : 100 + i); if (z == F32 || z == F64) E0(f, neg_op(z)); ft->r[ft->nr++] = z; }
  if (own) { if (own == 1) E1(f, KI32, 40); else E1(f, KI64, 40); E1(f, KI64, 0x77); emit_mem(f, 0x37, 0, wi); }
  form_push(f, fo, I64, 0, 0, aux); uint64_t pat[32], v0 = t == F32 ? f32b(-1.75f) : t == F64 ? f64b(-2.5e-77) : 0xf1e2d3c4b5a69788ull;
  for (int i = 0; i < 32; i++) pat[i] = 0x9E3779B97F4A7C15ull * (i + 3) | 0x8080808080808080ull; memcpy(nbuf, pat, 256); uint8_t *want = (uint8_t *)pat; uint64_t wr = 0; int ld = 0, realop = op < 23 ? 0x28 + op : 0, w = op < 23 ? mem_width(realop) : 0;
  if (op < 23) { ld = is_load(realop); if (!ld) { E1(f, LGET, 1); memcpy(want + 64 + off, &v0, w); } emit_mem(f, realop, off, nat); if (ld) { ft->r[ft->nr++] = t; uint64_t v = 0; memcpy(&v, want + 64 + off, w); switch (realop) { case 0x2c: case 0x2e: wr = (uint32_t)(w == 1 ? (int32_t)(int8_t)v : (int32_t)(int16_t)v); break; case 0x30: wr = (int64_t)(int8_t)v; break; case 0x32: wr = (int64_t)(int16_t)v; break; case 0x34: wr = (int64_t)(int32_t)v; break; default: wr = v; } } }
  else if (op == 23) { E1(f, LGET, 2); E1(f, KI64, off & 31); E1(f, MFILL, nat); memset(want + 64, 0x5b, off & 31); }
  else { E1(f, LGET, 0); E1(f, KI64, 3); E0(f, 0x7c); E1(f, KI64, off & 31); E2(f, MCOPY, nat, nat); memmove(want + 64, want + 67, off & 31); }
  if (own) { if (own == 1) E1(f, KI32, 40); else E1(f, KI64, 40); emit_mem(f, 0x29, 0, wi); ft->r[ft->nr++] = I64; }
  mc_describe_cb = describe_M; mc_predesc(); g_st = real_load(&M, 0, &g_err); if (!g_st) mc_fail("a valid module was rejected: %s", g_err);
  V a[3] = {mk(I64, (uint64_t)(uintptr_t)(nbuf + 64)), mk(t, v0), mk(I32, 0x15b)}, got[20]; call_real(pwart_get_export_function(g_st, "f"), ft, a, got);
  if (memcmp(nbuf, pat, 256)) mc_fail("the native memory holds other bytes than it must");
  for (int i = 0; i < np; i++) { int z = all_t[i & 3]; uint64_t e = z == F32 ? f32b(-(i + .5f)) : z == F64 ? f64b(-(i + .25)) : 100 + i; if (got[i].b != e) mc_fail("pending value %d became 0x%llx", i, (unsigned long long)got[i].b); }
  if (ld && got[np].b != wr) mc_fail("%s from native memory yields 0x%llx, must be 0x%llx", opname(realop), (unsigned long long)got[np].b, (unsigned long long)wr);
  if (own && got[np + ld].b != 0x77) mc_fail("the module's own memory lost a value");
  pwart_free_module_state(g_st); mc_steps(f->nins); mc_outcome(wr + op * 77 + off);
}
static struct mc_space sp[] = {
  {"pairs", b_seq, "340 triples of memory kinds x every sequence of 2 (3) operations on any of the memories x layout x operand origin"},
  {"sequences", b_deep, "4 triples x every sequence of 3 (4) operations"},
  {"accesses", b_forms, "4 triples x 23 accesses x memory x 13 address origins x 4 offsets x pending values x layout"},
  {"beyond-4GiB", b_huge, "23 accesses x 10 address splits around and above 4 GiB x address origins x fixed and growing x memory index 0..2"},
  {"native", b_native, "23 accesses, fill and copy on the native memory x address origins x own memory beside it x pending values"}};
static const char *as[] = {"accesses in bounds", "fill and copy counts below 4 GiB", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P11", "one execution = one module with up to three memories, one call; results, sizes and contents of every memory compared; non-trivial = distinct results and contents", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
