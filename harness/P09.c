/* P09 loads and stores: every access width x address split x operand origin x register pressure; aliasing of pending
 * loads with later stores; every overlapping store/store/load triple; addresses beyond 2 GiB. */
#include "num.h"
static const struct { uint32_t base, off; } AD[] = {{0, 0}, {0, 5}, {3, 0}, {1, 127}, {2, 128}, {255, 65000}, {0xfff0, 0}, {0, 0xfff1}, {32768, 32753}, {65535, 0}, {1, 65534}, {70, 16383}};
#define NAD ((int)(sizeof AD / sizeof *AD))
static int is_f(int op) { return op == 0x2a || op == 0x2b || op == 0x38 || op == 0x39; }
static int vtype(int op) { static const uint8_t t[] = {I32, I64, F32, F64, I32, I32, I32, I32, I64, I64, I64, I64, I64, I64, I32, I64, F32, F64, I32, I32, I64, I64, I64}; return t[op - 0x28]; }
static void fill_pat(int k) { struct pwart_wasm_memory *m = pwart_get_export_memory(g_st, "m"); for (uint32_t i = 0; i < m->pages * 65536u; i += 8) { uint64_t v = (i * 0x9E3779B97F4A7C15ull + k) | 0x8080008000800080ull; memcpy(m->bytes + i, &v, 8); } memcpy(R.mem[0]->b, m->bytes, m->pages * 65536u); }
static uint64_t VAL[4] = {0x8f9e2d3c, 0xf1e2d3c4b5a69788ull, 0, 0};
static uint64_t val(int t) { return t == I32 ? 0x8f9e2d3cu : t == I64 ? 0xf1e2d3c4b5a69788ull : t == F32 ? f32b(-1.7182f) : f64b(-2.5e-77); }
static void pend(Fn *f, FT *ft, int n) { /* n values pending below the access */
  static const uint8_t pt[9] = {I32, F64, I64, F32, I64, I64, F64, I32, I64};
  for (int i = 0; i < n; i++) { int t = pt[i]; emit_k(f, t, t == F32 ? f32b(i + 1.5f) : t == F64 ? f64b(i + 2.25) : 1000 + i); if (t == I32) { E1(f, LGET, 0); E0(f, 0x73); } else if (t == I64) { E1(f, LGET, 0); E0(f, 0xad); E0(f, 0x85); } else E0(f, neg_op(t)); ft->r[ft->nr++] = t; }
}
static void go(V *a) { g_outh = 3; inst_both(0, 0); fill_pat(1); if (diff_call("f", 4, a)) { free_both(); mc_skip(); } cmp_memory(0, "m"); free_both(); mc_outcome(g_outh); }
static void setmem(int kind) { M.mem[0] = kind ? (Mem){1, 0, 0, 0} : (Mem){1, 1, 1, 0}; mod_exp(&M, "m", 2, 0); }
static uint32_t adj(int k, int w) { uint32_t b = AD[k].base; if ((uint64_t)b + AD[k].off + w > 65536) b -= b + AD[k].off + w - 65536; return b; }
static void b_load(void) {
  int op = 0x28 + choose(14), k = choose(NAD), fo = choose(NFORM), cfg = choose(4), kind = choose(2), np = choose(4) * 3, al = choose(natalign(op) + 1), cons = choose(3);
  if (!mc_mine()) return; set_cfg(cfg & 1, cfg & 2 ? 3 : 2); int w = mem_width(op); if (AD[k].off + w > 65536) { mc_slot_->execs--; mc_owned = 0; return; }
  int t = vtype(op); uint8_t pt[2] = {I32, I32}; Fn *f = skeleton(2, pt, 0, 0); setmem(kind); FT *ft = &M.ft[f->type]; int aux = 0; uint32_t b = adj(k, w);
  form_prologue(f, fo, I32, 0, &aux); pend(f, ft, np); form_push(f, fo, I32, 0, b, aux); emit_mem(f, op, AD[k].off, 0)->al = al;
  if (cons == 1) { int l = add_local(f, t); E1(f, LTEE, l); } if (cons == 2) { int l = add_local(f, t); E1(f, LSET, l); E1(f, KI32, 8); E1(f, LGET, l); emit_mem(f, st_op(t), 0, 0); E1(f, LGET, l); }
  ft->r[ft->nr++] = t; go((V[]){mk(I32, b), mk(I32, 0)});
}
static void b_store(void) {
  int op = 0x36 + choose(9), k = choose(NAD), fo = choose(NFORM), fv = choose(NFORM), cfg = choose(4), kind = choose(2), np = choose(4) * 3;
  if (!mc_mine()) return; set_cfg(cfg & 1, cfg & 2 ? 3 : 2); int w = mem_width(op); if (AD[k].off + w > 65536) { mc_slot_->execs--; mc_owned = 0; return; }
  int t = vtype(op); uint8_t pt[2] = {I32, t}; Fn *f = skeleton(2, pt, 0, 0); setmem(kind); FT *ft = &M.ft[f->type]; int aux = 0, aux2 = 0; uint32_t b = adj(k, w);
  form_prologue(f, fo, I32, 0, &aux); form_prologue(f, fv, t, 1, &aux2); pend(f, ft, np); form_push(f, fo, I32, 0, b, aux); form_push(f, fv, t, 1, val(t), aux2); emit_mem(f, op, AD[k].off, 0);
  go((V[]){mk(I32, b), mk(t, val(t))});
}
/* values loaded but still pending when an overlapping store happens */
static void b_alias(void) {
  int ld = 0x28 + choose(14), st = 0x36 + choose(9), d = choose(9), n = choose(4), ao = choose(4), cfg = choose(2), vo = choose(3);
  if (!mc_mine()) return; set_cfg(cfg, 3); int tl = vtype(ld), ts = vtype(st); uint8_t pt[3] = {I32, I32, ts}; Fn *f = skeleton(3, pt, 0, 0); setmem(0); FT *ft = &M.ft[f->type];
  int l = add_local(f, I32); if (ao == 2) { E1(f, LGET, 0); E1(f, LSET, l); }
  for (int i = 0; i <= n; i++) { int o = i ? 0x28 + (ld - 0x28 + 3 * i) % 14 : ld; if (ao == 0) E1(f, KI32, 96); else E1(f, LGET, ao == 2 ? l : 0); emit_mem(f, o, i, 0); ft->r[ft->nr++] = vtype(o); }
  if (ao == 3) { E1(f, LGET, 0); E1(f, LGET, 1); E0(f, 0x6a); } else E1(f, ao == 0 ? KI32 : LGET, ao == 0 ? 96 + d : 1);
  int off = ao == 0 || ao == 3 ? 0 : 92;
  if (vo == 0) E1(f, LGET, 2); else if (vo == 1) emit_k(f, ts, val(ts)); else { E1(f, LGET, 0); emit_mem(f, ld_op(ts), 4, 0); }
  emit_mem(f, st, off, 0); go((V[]){mk(I32, 96), mk(I32, d + (off ? 4 : 0)), mk(ts, val(ts))});
}
/* overlapping store, store, load */
static void b_triple(void) {
  int s1 = 0x36 + choose(9), s2 = 0x36 + choose(9), ld = 0x28 + choose(14), d1 = choose(8), d2 = choose(8), dyn = choose(2);
  if (!mc_mine()) return; set_cfg(0, 3); int t1 = vtype(s1), t2 = vtype(s2); uint8_t pt[3] = {I32, t1, t2}; Fn *f = skeleton(3, pt, 0, 0); setmem(0); FT *ft = &M.ft[f->type];
  E1(f, LGET, 0); E1(f, LGET, 1); emit_mem(f, s1, d1, 0); if (dyn) { E1(f, LGET, 0); E1(f, KI32, d2); E0(f, 0x6a); } else E1(f, KI32, 200 + d2); E1(f, LGET, 2); emit_mem(f, s2, 0, 0);
  E1(f, LGET, 0); emit_mem(f, ld, 4, 0); ft->r[ft->nr++] = vtype(ld); go((V[]){mk(I32, 200), mk(t1, val(t1)), mk(t2, ~val(t2))});
}
/* short programs over two address locals and a value stack */
static void b_prog(void) {
  int L = mc_thorough ? 8 : 7, cfg = choose(2); set_cfg(cfg, 3); static uint8_t ty[64]; int n = 0; uint8_t pt[4] = {I32, I64, F64, I32}; Fn *f = skeleton(4, pt, 0, 0); setmem(0); FT *ft = &M.ft[f->type];
  for (int i = 0; i < L; i++) {
    int c = choose(11);
    switch (c) {
    case 0: case 1: case 2: case 3: E1(f, LGET, c); ty[n++] = pt[c]; break;
    case 4: case 5: case 6: { static const uint8_t o[] = {0x2e, 0x34, 0x2b}; if (!n || ty[n - 1] != I32) goto bad; emit_mem(f, o[c - 4], 3, 0); ty[n - 1] = vtype(o[c - 4]); if (c == 4) { E1(f, KI32, 127); E0(f, 0x71); } break; }
    case 7: { if (n < 2 || ty[n - 2] != I32) goto bad; int t = ty[n - 1]; emit_mem(f, t == I32 ? 0x3b : t == I64 ? 0x3e : 0x39, 1, 0); n -= 2; break; }
    case 8: if (!n) goto bad; if (ty[n - 1] == I32) E1(f, LTEE, 0); else if (ty[n - 1] == I64) E1(f, LTEE, 1); else E1(f, LTEE, 2); break;
    case 9: if (n < 2 || ty[n - 1] != ty[n - 2]) goto bad; E0(f, ty[n - 1] == I32 ? 0x6a : ty[n - 1] == I64 ? 0x7d : 0xa0); n--; if (ty[n - 1] == I32) { E1(f, KI32, 255); E0(f, 0x71); } break;
    case 10: if (n < 2 || ty[n - 1] != I64) goto bad; emit_mem(f, 0x37, 9, 0); if (ty[n - 2] != I32) goto bad; n -= 2; break;
    }
    if (i == 2 && !mc_mine()) return;
  }
  ft->nr = n; memcpy(ft->r, ty, n); go((V[]){mk(I32, 40), mk(I64, val(I64)), mk(F64, val(F64)), mk(I32, 44)}); return;
bad: mc_owned = 0; return;
}
/* addresses and offsets beyond 2 GiB in a memory of 4 GiB less one page (pages are touched only where the program acts) */
static void b_huge(void) {
  static const struct { uint32_t b, o; } H[] = {{0x7fffffff, 1}, {0x80000000u, 0}, {0, 0x80000000u}, {0xfffe0000u, 0x100}, {0x100, 0xfffe0000u}, {0x7fffffff, 0x7fff0000}, {0xfffeffe0u, 16}, {0x80000000u, 0x7ffeffe0u}};
  int op = 0x28 + choose(23), h = choose(8), fo = choose(NFORM), cfg = choose(2), np = choose(2) * 9, kind = choose(2), vk = choose(2);
  if (!mc_mine()) return; set_cfg(cfg, 3); int t = vtype(op), w = mem_width(op), ld = is_load(op); uint8_t pt[2] = {I32, t}; Fn *f = skeleton(2, pt, 0, 0); FT *ft = &M.ft[f->type]; M.mem[0] = kind ? (Mem){65535, 0, 0, 0} : (Mem){65535, 65535, 1, 0}; mod_exp(&M, "m", 2, 0);
  int aux = 0; form_prologue(f, fo, I32, 0, &aux); pend(f, ft, np); form_push(f, fo, I32, 0, H[h].b, aux); if (!ld) { if (vk) emit_k(f, t, val(t)); else E1(f, LGET, 1); } emit_mem(f, op, H[h].o, 0); if (ld) ft->r[ft->nr++] = t;
  mc_describe_cb = describe_M; mc_predesc(); mallopt(M_PERTURB, 0); g_st = real_load(&M, 0, &g_err); mallopt(M_PERTURB, 0xa5); if (!g_st) { if (strstr(g_err, "memory")) mc_skip(); mc_fail("a valid module was rejected: %s", g_err); }
  struct pwart_wasm_memory *m = pwart_get_export_memory(g_st, "m"); uint64_t ea = (uint64_t)H[h].b + H[h].o; uint64_t pat = 0xf9e8d7c6b5a49382ull, z = 0; memcpy(m->bytes + ea - 8, &pat, 8); memcpy(m->bytes + ea, &pat, 8); memcpy(m->bytes + ea + 8, &pat, 8);
  V a[2] = {mk(I32, H[h].b), mk(t, val(t))}, got[40]; call_real(pwart_get_export_function(g_st, "f"), ft, a, got);
  if (ld) { uint64_t v = 0, want; memcpy(&v, &pat, w); switch (op) { case 0x2c: case 0x2e: want = (uint32_t)(w == 1 ? (int32_t)(int8_t)v : (int32_t)(int16_t)v); break; case 0x30: want = (int64_t)(int8_t)v; break; case 0x32: want = (int64_t)(int16_t)v; break; case 0x34: want = (int64_t)(int32_t)v; break; default: want = v; } if (got[ft->nr - 1].b != want) mc_fail("%s of address 0x%llx yields 0x%llx, must be 0x%llx", opname(op), (unsigned long long)ea, (unsigned long long)got[ft->nr - 1].b, (unsigned long long)want); z = want; }
  else { uint8_t e[24]; uint64_t v = val(t); memcpy(e, &pat, 8); memcpy(e + 8, &pat, 8); memcpy(e + 16, &pat, 8); memcpy(e + 8, &v, w); if (memcmp(e, m->bytes + ea - 8, 24)) mc_fail("%s to address 0x%llx changed other bytes or wrote wrong ones", opname(op), (unsigned long long)ea); z = v + op; }
  pwart_free_module_state(g_st); mc_steps(1); mc_outcome(z);
}
static struct mc_space sp[] = {
  {"loads", b_load, "14 loads x 12 address splits up to the last byte x 12 address origins x layout x index extension x memory kind x 0/3/6/9 pending values x every alignment hint x consumer"},
  {"stores", b_store, "9 stores x 12 address splits x 12 x 12 operand origins x layout x index extension x memory kind x pending values"},
  {"alias", b_alias, "every load pending over every overlapping store x distance x up to 4 pending loads x address and value origin"},
  {"overlap", b_triple, "every store, store, load triple at every pair of distances"},
  {"programs", b_prog, "every well-typed program of 7 (8) steps of address/value/load/store/tee/add"},
  {"beyond-2GiB", b_huge, "every access x 8 address splits above 2 GiB x 12 address origins"}};
static const char *as[] = {"accesses in bounds: out-of-bounds traps are outside the library's contract", "little-endian 64-bit x86 host", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P09", "one execution = one module, memory filled with a pattern, one call; results and all memory bytes compared; non-trivial = distinct results", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
