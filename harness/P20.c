/* P20 stack helpers and the documented frame layout */
#include "num.h"
#include "host.h"
#include "alloc.h"
static char dbuf[2000]; static int dn;
static void describe(void) { mc_desc("%s", dbuf); }
static const uint8_t TY[5] = {I32, I64, F32, F64, XREF};
static struct pwart_global_compile_config initial;
static uint64_t pat(int t, int i, int k) { static const uint64_t A[] = {0x8000000180000001ull, 0x7ff0000000000001ull, 0xfff8123456789abcull, 0x0123456789abcdefull, 0xffffffffffffffffull, 0}; uint64_t v = k == 0 ? 0x1111111111111111ull * (i % 15 + 1) + 0x0807060504030201ull * (i / 15) : A[(i + k) % 6]; if (t == F32 && k) { static const uint32_t F[] = {0x7f800001, 0xffc00000, 0x80000000, 0x7f7fffff, 1}; v = F[(i + k) % 5]; } return tsize(t) == 4 ? (uint32_t)v : v; }
static void put1(void **sp, int t, uint64_t b) { switch (t) { case I32: pwart_rstack_put_i32(sp, (int)b); break; case I64: pwart_rstack_put_i64(sp, (long long)b); break; case F32: { float f; memcpy(&f, &b, 4); pwart_rstack_put_f32(sp, f); break; } case F64: { double f; memcpy(&f, &b, 8); pwart_rstack_put_f64(sp, f); break; } default: pwart_rstack_put_ref(sp, (void *)(uintptr_t)b); } }
static uint64_t get1(void **sp, int t) { uint64_t r = 0; switch (t) { case I32: r = (uint32_t)pwart_rstack_get_i32(sp); break; case I64: r = pwart_rstack_get_i64(sp); break; case F32: { float f = pwart_rstack_get_f32(sp); memcpy(&r, &f, 4); break; } case F64: { double f = pwart_rstack_get_f64(sp); memcpy(&r, &f, 8); break; } default: r = (uintptr_t)pwart_rstack_get_ref(sp); } return r; }
static int lay(const uint8_t *t, int n, uintptr_t base, int *off) { uintptr_t p = base; for (int i = 0; i < n; i++) { int s = tsize(t[i]); if (g_cfg.stack_flags && s == 8) p = (p + 7) & ~7ull; off[i] = p - base; p += s; } return p - base; }
static void b_default(void) { int k = choose(2); if (!mc_mine()) return; strcpy(dbuf, "the configuration a process starts with\n"); mc_describe_cb = describe; mc_predesc(); if (k == 0 && initial.stack_flags != PWART_STACK_FLAGS_AUTO_ALIGN) mc_fail("stack flags start as %d, documented default is %d", initial.stack_flags, PWART_STACK_FLAGS_AUTO_ALIGN); if (k == 1 && initial.misc_flags != PWART_MISC_FLAGS_LOCALS_ZERO_INIT) mc_fail("misc flags start as %d, documented default is %d", initial.misc_flags, PWART_MISC_FLAGS_LOCALS_ZERO_INIT); mc_outcome(k); }
static void b_config(void) { /* every value set is the value read back, and the last one is in force */
  int n = 3, v[3]; for (int i = 0; i < n; i++) v[i] = choose(8); if (!mc_mine()) return; dn = sprintf(dbuf, "configurations %d %d %d\n", v[0], v[1], v[2]); mc_describe_cb = describe; mc_predesc();
  for (int i = 0; i < n; i++) { struct pwart_global_compile_config c = {v[i] & 1, v[i] >> 1}, g = {9, 9}; char *e = pwart_set_global_compile_config(&c); if (e) mc_fail("set failed: %s", e); if (c.stack_flags != (v[i] & 1) || c.misc_flags != v[i] >> 1) mc_fail("the argument was changed"); e = pwart_get_global_compile_config(&g); if (e) mc_fail("get failed: %s", e); if (g.stack_flags != (v[i] & 1) || g.misc_flags != v[i] >> 1) mc_fail("reads back %d %d", g.stack_flags, g.misc_flags); uint8_t b[64] __attribute__((aligned(8))); void *sp = b + 4; pwart_rstack_put_i64(&sp, 1); if (sp != b + (v[i] & 1 ? 16 : 12)) mc_fail("layout not in force"); }
  set_cfg(g_cfg.stack_flags, g_cfg.misc_flags); mc_outcome(v[0] * 64 + v[1] * 8 + v[2]);
}
static void b_seq(void) {
  int mx = mc_thorough ? 8 : 7, n = choose(mx + 1), st = choose(2), base = choose(4) * 4, k = choose(3); uint8_t t[9]; for (int i = 0; i < n; i++) t[i] = TY[choose(5)]; if (!mc_mine()) return; dn = sprintf(dbuf, "%s layout, start at 8n+%d, values:", st ? "aligned" : "packed", base); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " %s", tname(t[i])); sprintf(dbuf + dn, "\n"); mc_describe_cb = describe; mc_predesc(); set_cfg(st, 2);
  static uint8_t raw[512] __attribute__((aligned(16))); uint8_t want[512]; memset(raw, 0xd7, 512); memset(want, 0xd7, 512); uint8_t *b = raw + 64 + base; int off[9]; int tot = lay(t, n, (uintptr_t)b, off); void *sp = b;
  for (int i = 0; i < n; i++) { uint64_t v = pat(t[i], i, k); put1(&sp, t[i], v); memcpy(want + (b - raw) + off[i], &v, tsize(t[i])); if ((uint8_t *)sp != b + off[i] + tsize(t[i])) mc_fail("after putting value %d the pointer is at %ld, must be at %d", i, (long)((uint8_t *)sp - b), off[i] + tsize(t[i])); if (memcmp(raw, want, 512)) mc_fail("putting value %d stored other bytes", i); }
  sp = b; for (int i = 0; i < n; i++) { uint64_t g = get1(&sp, t[i]); if (g != pat(t[i], i, k)) mc_fail("value %d is 0x%llx, 0x%llx was put", i, (unsigned long long)g, (unsigned long long)pat(t[i], i, k)); if ((uint8_t *)sp != b + off[i] + tsize(t[i])) mc_fail("after getting value %d the pointer is at %ld, must be at %d", i, (long)((uint8_t *)sp - b), off[i] + tsize(t[i])); if (memcmp(raw, want, 512)) mc_fail("getting changed memory"); }
  uint64_t o = mc_hash(tot, t, n); mc_outcome(o * 8 + base / 4 * 2 + st);
}
/* compiled code: parameters P, results a permutation of them */
static int perm(int n, int how, int i) { return how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? (i + 1) % n : (i * 3 + 1) % n; }
static uint8_t hp[16]; static int hnp, hhow, hk; static int hbad; static char hmsg[200];
/* host function: checks its arguments with the helpers, answers with a permutation of them */
static void host_perm(void *fp) { void *sp = fp; uint64_t v[16]; if (g_cfg.stack_flags && ((uintptr_t)fp & 7)) { hbad = 1; sprintf(hmsg, "the host function's frame is at 8n+%d", (int)((uintptr_t)fp & 7)); } for (int i = 0; i < hnp; i++) { v[i] = get1(&sp, hp[i]); if (v[i] != pat(hp[i], i, hk)) { hbad = 1; sprintf(hmsg, "argument %d of the host function is 0x%llx, must be 0x%llx", i, (unsigned long long)v[i], (unsigned long long)pat(hp[i], i, hk)); } } sp = fp; for (int i = 0; i < hnp; i++) { int j = perm(hnp, hhow, i); put1(&sp, hp[j], v[j]); } }
static void *hfn; static void rs_h(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { q->result = hfn; } static struct pwart_symbol_resolver hrs = {rs_h};
static void run_sig(int n, const uint8_t *t, int how, int via, int cfg, int fo, int k, int live) {
  set_cfg(cfg & 1, cfg >> 1); mod_reset(&M); uint8_t r[16]; for (int i = 0; i < n; i++) r[i] = t[perm(n, how, i)]; int ti = mod_ft(&M, n, t, n, r); int tg = mod_ft(&M, n, t, n, t); (void)tg; Imp *p = mod_imp(&M, 0, "h", "f"); p->type = ti; Fn *f;
  M.tab[M.ntab++] = (Tab){FREF, 2, 2, 1}; Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->noff = 1; e->off[0].op = KI32; e->n = 1; e->fidx[0] = via == 3 ? 1 : 0;
  if (via == 0) { f = mod_fn(&M, ti); for (int i = 0; i < n; i++) E1(f, LGET, perm(n, how, i)); }
  else { if (via >= 2) { f = mod_fn(&M, ti); for (int i = 0; i < n; i++) E1(f, LGET, perm(n, how, i)); }
    f = mod_fn(&M, ti); for (int i = 0; i < live; i++) { f->loc[f->nloc++] = I64; } for (int i = 0; i < live; i++) { if (i & 1) { E1(f, KI32, 70 + i); } else E1(f, KI64, 70 + i); } for (int i = 0; i < n; i++) E1(f, LGET, i); if (via == 3 || via == 4) { E1(f, KI32, 0); E2(f, CALL_IND, ti, 0); } else E1(f, CALL, via == 1 ? 0 : 1);
    if (live) { /* keep the results in parameters of the same type order is not possible in general: check the live values under them through locals */ int base = f->nloc; for (int i = 0; i < n; i++) f->loc[f->nloc++] = r[i]; for (int i = n - 1; i >= 0; i--) E1(f, LSET, n + base + i); for (int i = live - 1; i >= 0; i--) { if (i & 1) { E1(f, KI32, 70 + i); E0(f, 0x47); } else { E1(f, KI64, 70 + i); E0(f, 0x52); } E1(f, IF, 0x40); E0(f, UNREACHABLE); E0(f, END); } for (int i = 0; i < n; i++) E1(f, LGET, n + base + i); } }
  mod_exp(&M, "f", 0, M.nimp + M.nfn - 1); char *er; memcpy(hp, t, n); hnp = n; hhow = how; hk = k; hbad = 0; hfn = pwart_wrap_host_function_c(host_perm); pwart_module_state s = real_load(&M, &hrs, &er); if (!s) mc_fail("rejected: %s", er); pwart_wasm_function fn = pwart_get_export_function(s, "f"); if (!fn) mc_fail("no export");
  uint8_t *fp = wstack() + fo; memset(fp - 80, WPOISON, w_poison_len); void *spx = fp; for (int i = 0; i < n; i++) put1(&spx, t[i], pat(t[i], i, k)); call_real_on(fp, fn); if (hbad) mc_fail("%s", hmsg);
  spx = fp; int off[16]; lay(r, n, (uintptr_t)fp, off); for (int i = 0; i < n; i++) { uint64_t w = pat(r[i], perm(n, how, i), k), m = 0, g; memcpy(&m, fp + off[i], tsize(r[i])); if (m != w) mc_fail("at the documented place of result %d is 0x%llx, must be 0x%llx", i, (unsigned long long)m, (unsigned long long)w); g = get1(&spx, r[i]); if (g != w) mc_fail("the helper reads result %d as 0x%llx, must be 0x%llx", i, (unsigned long long)g, (unsigned long long)w); }
  for (int i = 1; i <= 64; i++) if (fp[-i] != WPOISON) mc_fail("bytes below the frame were overwritten"); pwart_free_module_state(s); pwart_free_wrapped_function(hfn);
}
static const char *vian[] = {"itself", "by calling the host", "by calling another function", "through a table", "through a table from the host"};
static void b_sig(void) {
  int n = 1 + choose(mc_thorough ? 6 : 5), how = choose(2), via = choose(5), cfg = choose(mc_thorough ? 8 : 4); cfg = mc_thorough ? cfg : (cfg & 1) | (cfg & 2 ? 6 : 4); int fo = choose(2), k = choose(2), live = choose(2) * 3; uint8_t t[8]; for (int i = 0; i < n; i++) t[i] = TY[choose(5)]; if ((via == 0 || how) && live) { mc_owned = 0; return; } if (!mc_mine()) return; fo *= cfg & 1 ? 8 : 4; dn = sprintf(dbuf, "configuration %d, frame at 16n+%d, computed %s, permutation %d, %d live values, parameters:", cfg, fo, vian[via], how, live); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " %s", tname(t[i])); sprintf(dbuf + dn, "\n"); mc_describe_cb = describe; mc_predesc(); run_sig(n, t, how, via, cfg, fo, k, live); mc_outcome(mc_hash(how * 5 + via, t, n) * 16 + cfg);
}
static void b_long(void) {
  int n = 5 + choose(8), a = choose(5), m = 1 + choose(4), how = choose(4), via = choose(5), cfg = choose(8), fo = choose(2), k = choose(2); uint8_t t[16]; for (int i = 0; i < n; i++) t[i] = TY[(a + i * m + i / 5 * (m & 1)) % 5]; if (how == 3 && n % 3 == 0) { mc_owned = 0; return; } if (!mc_mine()) return; fo *= cfg & 1 ? 8 : 4; dn = sprintf(dbuf, "configuration %d, frame at 16n+%d, computed %s, permutation %d, parameters:", cfg, fo, vian[via], how); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " %s", tname(t[i])); sprintf(dbuf + dn, "\n"); mc_describe_cb = describe; mc_predesc(); run_sig(n, t, how, via, cfg, fo, k, 0); mc_outcome(mc_hash(how * 5 + via, t, n) * 16 + cfg);
}
/* stack buffers: as many bytes as asked for, aligned to 16, apart from each other, all memory returned; in every order of two or three allocations and frees */
static const int BSZ[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131073, 1 << 20, (1 << 20) + 9};
static void buf_check(uint8_t **b, int *sz, int n, int live) { for (int i = 0; i < n; i++) if (live >> i & 1) { if ((uintptr_t)b[i] & 15) mc_fail("the buffer is at 16n+%d", (int)((uintptr_t)b[i] & 15)); for (int j = 0; j < sz[i]; j++) if (b[i][j] != (uint8_t)(i * 77 + j * 3 + 1)) mc_fail("byte %d of buffer %d changed", j, i); } }
static void buf_run(int n, int *sz, int order) { uint8_t *b[3]; static const uint8_t PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; long b0 = a_blocks, y0 = a_bytes; int live = 0;
  for (int i = 0; i < n; i++) { a_track = 1; b[i] = pwart_allocate_stack(sz[i]); a_track = 0; if (!b[i]) mc_fail("no buffer of %d bytes", sz[i]); for (int j = 0; j < sz[i]; j++) b[i][j] = i * 77 + j * 3 + 1; live |= 1 << i; buf_check(b, sz, n, live); }
  for (int i = 0; i < 3; i++) { int k = PM[order][i]; if (k >= n) continue; a_track = 1; pwart_free_stack(b[k]); a_track = 0; live &= ~(1 << k); buf_check(b, sz, n, live); }
  if (a_blocks != b0 || a_bytes != y0) mc_fail("%ld blocks, %ld bytes are left after freeing the buffers", a_blocks - b0, a_bytes - y0); }
static void b_buf(void) { int hi = mc_thorough ? 20000 : 2000, k = choose(hi); if (!mc_mine()) return; sprintf(dbuf, "one stack buffer of %d bytes\n", k); mc_describe_cb = describe; mc_predesc(); buf_run(1, &k, 0); mc_outcome(k); }
static void b_bufs(void) { int n = 2 + choose(2), o = choose(n == 2 ? 2 : 6), q = sizeof BSZ / sizeof *BSZ, sz[3] = {0}; dn = sprintf(dbuf, "stack buffers freed in order %d:", o); for (int i = 0; i < n; i++) { sz[i] = BSZ[choose(n == 2 || mc_thorough ? q : 12)]; dn += sprintf(dbuf + dn, " %d", sz[i]); } if (n == 2) o *= 2; if (!mc_mine()) return; sprintf(dbuf + dn, "\n"); mc_describe_cb = describe; mc_predesc(); buf_run(n, sz, o); mc_outcome(mc_hash(o * 4 + n, sz, sizeof sz)); }
static struct mc_space sp[] = {
  {"buffers", b_buf, "one stack buffer of every size below 2000 (20000), all bytes of it used"},
  {"buffer-histories", b_bufs, "2 or 3 buffers of every combination of boundary sizes, freed in every order"},
  {"default", b_default, "the configuration before any call"},
  {"config", b_config, "every sequence of 3 configurations"},
  {"helpers", b_seq, "every sequence of up to 7 (8) values of 5 types x 2 layouts x 4 start alignments x 3 value patterns"},
  {"signatures", b_sig, "every sequence of 1..5 (6) parameter types, results in the same or reverse order, 5 ways to compute them, 4 (8) configurations, 2 frame positions, 2 value patterns"},
  {"long-signatures", b_long, "5..12 parameters in 20 type rotations, 4 orders of results, 5 ways, 8 configurations"}};
static const char *as[] = {"in the aligned layout a frame given to compiled code starts at a multiple of 8, as documented", "x86-64", 0};
int main(int c, char **v) { pwart_get_global_compile_config(&initial); static struct mc_check k = {"P20", "one execution = one sequence of values put, passed and read back; non-trivial = distinct type sequences and layouts", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
