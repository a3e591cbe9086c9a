/* P19 built-in host functions */
#include "num.h"
#include "host.h"
#include "alloc.h"
static char dbuf[3000]; static int dn;
static void describe(void) { mc_desc("%s", dbuf); }
static struct pwart_named_symbol *bs; static int nbs;
static void *builtin(const char *n, int kind) { for (int i = 0; i < nbs; i++) if (!strcmp(bs[i].name, n)) { if (bs[i].kind != kind) mc_fail("built-in %s is of kind %d", n, bs[i].kind); return kind == 0 ? bs[i].val.fn : (void *)bs[i].val.mem; } mc_fail("no built-in symbol %s", n); }
/* ---- ways of calling ---- */
enum { W_HOST, W_CALL, W_IND, W_RET, W_RETIF, W_REEXP, W_LIVE, W_IMPORTED, NWAY };
static const char *wayn[] = {"called by the host", "call", "call_indirect", "return_call", "return_call in a branch", "re-exported", "call above live values", "import of a re-export"};
static pwart_module_state mods[3]; static int nmods; static pwart_module_state reexp_st;
static void rs_reexp(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { q->result = reexp_st && !strcmp(q->import_module, "re") ? pwart_get_export_function(reexp_st, q->import_field) : NULL; }
static struct pwart_symbol_resolver rrs = {rs_reexp};
/* the function to call for built-in n of type t, in the given way; the modules stay loaded until done() */
static void *make(int way, const char *n, FT *t) {
  if (way == W_HOST) return builtin(n, 0);
  if (way == W_IMPORTED) { reexp_st = NULL; void *f = make(W_REEXP, n, t); (void)f; reexp_st = mods[nmods - 1]; }
  mod_reset(&M); int ti = mod_ft(&M, t->np, t->p, t->nr, t->r); Imp *p = mod_imp(&M, 0, way == W_IMPORTED ? "re" : "pwart_builtin", way == W_IMPORTED ? "f" : n); p->type = ti;
  M.tab[M.ntab++] = (Tab){FREF, 2, 2, 1}; Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->noff = 1; e->off[0].op = KI32; e->off[0].a = 1; e->n = 1; e->fidx[0] = 0;
  Fn *f = mod_fn(&M, ti);
  if (way == W_LIVE) { for (int i = 0; i < t->nr; i++) f->loc[f->nloc++] = t->r[i]; E1(f, KI32, 0x1234567); E1(f, KI64, 0x123456789abcdefll); E1(f, KF64, f64b(3.25)); }
  if (way == W_RETIF) { E1(f, KI32, 1); E1(f, IF, 0x40); }
  for (int i = 0; i < t->np; i++) E1(f, LGET, i);
  if (way == W_RETIF) { E1(f, RCALL, 0); E0(f, END); E0(f, UNREACHABLE); } else if (way == W_IND) { E1(f, KI32, 1); E2(f, CALL_IND, ti, 0); } else if (way == W_RET) E1(f, RCALL, 0); else E1(f, CALL, 0);
  if (way == W_LIVE) { for (int i = t->nr - 1; i >= 0; i--) E1(f, LSET, t->np + i); E1(f, KF64, f64b(3.25)); E0(f, 0x62); E1(f, IF, 0x40); E0(f, UNREACHABLE); E0(f, END); E1(f, KI64, 0x123456789abcdefll); E0(f, 0x52); E1(f, IF, 0x40); E0(f, UNREACHABLE); E0(f, END); E1(f, KI32, 0x1234567); E0(f, 0x47); E1(f, IF, 0x40); E0(f, UNREACHABLE); E0(f, END); for (int i = 0; i < t->nr; i++) E1(f, LGET, t->np + i); }
  mod_exp(&M, "f", 0, way == W_REEXP ? 0 : 1); char *er; pwart_module_state s = real_load(&M, &rrs, &er); if (!s) mc_fail("module calling %s rejected: %s", n, er); mods[nmods++] = s; return pwart_get_export_function(s, "f");
}
static void done(void) { while (nmods) pwart_free_module_state(mods[--nmods]); reexp_st = NULL; }
static void ensure(void) { static int d; if (d) return; d = 1; mallopt(M_PERTURB, 0); bs = pwart_get_builtin_symbols(&nbs); FT t = {0, 1, {0}, {I32}}; V r; call_real(builtin("version", 0), &t, 0, &r); }
static void begin(int cfg) { ensure(); nmods = 0; set_cfg(cfg & 1, cfg >> 1 & 3); mc_describe_cb = describe; mc_predesc(); }
static V vref(const void *p) { return mk(XREF, (uintptr_t)p); }
/* ---- scalars ---- */
static void b_scalar(void) {
  int w = choose(2), way = choose(NWAY), cfg = choose(8), rep = 1 + choose(2); if (!mc_mine()) return; sprintf(dbuf, "%s, %s, configuration %d\n", w ? "native_index_size" : "version", wayn[way], cfg); begin(cfg); FT t = {0, 1, {0}, {I32}}; V r; void *f = make(way, w ? "native_index_size" : "version", &t); for (int i = 0; i < rep; i++) { call_real(f, &t, 0, &r); if ((uint32_t)r.b != (w ? sizeof(void *) : (uint32_t)pwart_get_version())) mc_fail("returned %u", (uint32_t)r.b); } done(); mc_outcome(w * 100 + way * 8 + cfg);
}
static const uint64_t u64s[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x1ffffffff, 0x7fffffffffff, 0x800000000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffff80000000, 0xffffffffffffffff, 0x0123456789abcdef, 0xfedcba9876543210};
static void b_cast(void) {
  int w = choose(3), v = choose(24), way = choose(NWAY), cfg = choose(8); if (w == 2 && way) { mc_owned = 0; return; } if (!mc_mine()) return; sprintf(dbuf, "%s(0x%llx), %s, configuration %d\n", w == 0 ? "ref_from_i64" : w == 1 ? "i64_from_ref" : "i64_from_ref(ref_from_i64)", (unsigned long long)u64s[v], wayn[way], cfg); begin(cfg); FT t = {1, 1, {w == 1 ? XREF : I64}, {w == 0 ? XREF : I64}}; V a = mk(t.p[0], u64s[v]), r; void *f;
  if (w == 2) { mod_reset(&M); FT q = {1, 1, {I64}, {XREF}}; int t0 = mod_ft(&M, 1, q.p, 1, q.r), t1 = mod_ft(&M, 1, q.r, 1, q.p), t2 = mod_ft(&M, 1, q.p, 1, q.p); Imp *p = mod_imp(&M, 0, "pwart_builtin", "ref_from_i64"); p->type = t0; p = mod_imp(&M, 0, "pwart_builtin", "i64_from_ref"); p->type = t1; Fn *fn = mod_fn(&M, t2); E1(fn, LGET, 0); E1(fn, CALL, 0); E1(fn, LGET, 0); E1(fn, CALL, 0); E1(fn, CALL, 1); E0(fn, DROP); E1(fn, CALL, 1); mod_exp(&M, "f", 0, 2); char *e; pwart_module_state s = real_load(&M, NULL, &e); if (!s) mc_fail("rejected: %s", e); mods[nmods++] = s; f = pwart_get_export_function(s, "f"); }
  else f = make(way, w ? "i64_from_ref" : "ref_from_i64", &t);
  call_real(f, &t, &a, &r); if (r.b != u64s[v]) mc_fail("returned 0x%llx", (unsigned long long)r.b); done(); mc_outcome(w * 10000 + v * 100 + way);
}
static void b_self(void) {
  int form = choose(4), cfg = choose(8), nfn = 1 + choose(3), drop = choose(2); if (!mc_mine()) return; sprintf(dbuf, "get_self_runtime_context in form %d, configuration %d\n", form, cfg); begin(cfg); pwart_module_state st[2];
  for (int k = 0; k < 2; k++) { mod_reset(&M); uint8_t x = XREF; int t = mod_ft(&M, 0, 0, 1, &x); Imp *p = mod_imp(&M, 0, "pwart_builtin", "get_self_runtime_context"); p->type = t; for (int i = 0; i < nfn; i++) { Fn *f = mod_fn(&M, t); if (drop) { E1(f, CALL, 0); E0(f, DROP); } switch (form) { case 0: E1(f, CALL, 0); break; case 1: f->nloc = 1; f->loc[0] = XREF; E1(f, CALL, 0); E1(f, LSET, 0); E1(f, LGET, 0); break; case 2: E1(f, BLOCK, XREF); E1(f, CALL, 0); E0(f, END); break; case 3: f->nloc = 3; memset(f->loc, I64, 3); E1(f, KI64, 5); E1(f, CALL, 0); E1(f, KI64, 6); E0(f, DROP); f->loc[0] = XREF; E1(f, LSET, 0); E0(f, DROP); E1(f, LGET, 0); break; } } static const char *en[] = {"a", "b", "c"}; for (int i = 0; i < nfn; i++) mod_exp(&M, en[i], 0, 1 + i); char *e; st[k] = real_load(&M, NULL, &e); if (!st[k]) mc_fail("rejected: %s", e); mods[nmods++] = st[k]; }
  for (int k = 0; k < 2; k++) for (int i = 0; i < nfn; i++) { FT t = {0, 1, {0}, {XREF}}; V r; static const char *en[] = {"a", "b", "c"}; call_real(pwart_get_export_function(st[k], en[i]), &t, 0, &r); if ((void *)(uintptr_t)r.b != st[k]) mc_fail("returned 0x%llx, the module is %p", (unsigned long long)r.b, st[k]); } done(); mc_outcome(form * 100 + cfg * 10 + nfn);
}
/* ---- ref_from_index ---- */
static struct pwart_wasm_memory xmem; static uint8_t xbytes[65536];
static void rs_x(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { q->result = q->kind == 2 ? &xmem : NULL; } static struct pwart_symbol_resolver xrs = {rs_x};
static void b_index(void) {
  int mem = choose(5), form = choose(7), vi = choose(24), cfg = choose(8), live = choose(3); int is64 = mem == 2 || mem == 4; uint64_t v = u64s[vi]; if (!is64 && v > 0xffffffffu) { mc_owned = 0; return; } if (!mc_mine()) return; static const char *mname[] = {"imported", "own growable", "own fixed 64-bit", "own fixed", "native"}; static const char *fnm[] = {"constant", "parameter", "local", "computed", "loaded", "block result", "comparison"}; sprintf(dbuf, "ref_from_index(%s memory, 0x%llx as %s), %d live values, configuration %d\n", mname[mem], (unsigned long long)v, fnm[form], live, cfg); begin(cfg); int T = is64 ? I64 : I32;
  if (form == 6 && v > 1) { mc_slot_->execs--; mc_owned = 0; return; }
  mod_reset(&M); uint8_t i32 = I32, x = XREF, ty = T, p2[2] = {I32, T}; int t0 = mod_ft(&M, 2, p2, 1, &x), t1 = mod_ft(&M, 1, &ty, 1, &x), t2 = mod_ft(&M, 1, &ty, 1, (uint8_t[]){I64}), t3 = mod_ft(&M, 1, &x, 1, (uint8_t[]){I64}); (void)i32; (void)t1; Imp *p = mod_imp(&M, 0, "pwart_builtin", "ref_from_index"); p->type = t0; p = mod_imp(&M, 0, "pwart_builtin", "i64_from_ref"); p->type = t3; p = mod_imp(&M, 2, "x", "m"); p->min = 1; p->hasmax = 1; p->max = 1; M.mem[M.nmem++] = (Mem){1, 9, 0, 0}; M.mem[M.nmem++] = (Mem){1, 2, 1, 1}; M.mem[M.nmem++] = (Mem){1, 2, 1, 0}; int mi = mem; if (mem == 4) { p = mod_imp(&M, 2, "pwart_builtin", "native_memory"); p->is64 = 1; p->min = 1; mi = 1; } else if (mem) mi = mem; 
  xmem = (struct pwart_wasm_memory){1, 1, 1, xbytes, 1}; Fn *f = mod_fn(&M, t2); static const char *mx[] = {"m0", "m1", "m2", "m3", "m4"}; for (int i = 0; i < 4 + (mem == 4); i++) mod_exp(&M, mx[i], 2, i); mod_exp(&M, "f", 0, 2);
  f->nloc = 3; f->loc[0] = T; f->loc[1] = I64; f->loc[2] = XREF; if (form == 2) { E1(f, LGET, 0); E1(f, LSET, 1); } if (form == 4) { E1(f, KI32, 16); E1(f, LGET, 0); emit_mem(f, st_op(T), 0, 0); }
  for (int i = 0; i < live * 4; i++) { E1(f, LGET, 0); if (T == I32) E0(f, 0xad); E1(f, KI64, i + 1); E0(f, 0x7c); }
  E1(f, KI32, mi); switch (form) { case 0: emit_k(f, T, v); break; case 1: E1(f, LGET, 0); break; case 2: E1(f, LGET, 1); break; case 3: E1(f, LGET, 0); emit_k(f, T, 5); E0(f, T == I32 ? 0x6a : 0x7c); emit_k(f, T, 5); E0(f, T == I32 ? 0x6b : 0x7d); break; case 4: E1(f, KI32, 16); emit_mem(f, ld_op(T), 0, 0); break; case 5: E1(f, BLOCK, T); E1(f, LGET, 0); E0(f, END); break; case 6: E1(f, LGET, 0); emit_k(f, T, 1); E0(f, T == I32 ? 0x46 : 0x51); if (T == I64) E0(f, 0xad); break; }
  E1(f, CALL, 0); E1(f, CALL, 1); E1(f, LSET, 2); for (int i = live * 4 - 1; i >= 0; i--) { E1(f, LGET, 0); if (T == I32) E0(f, 0xad); E1(f, KI64, i + 1); E0(f, 0x7c); E0(f, 0x52); E1(f, IF, 0x40); E0(f, UNREACHABLE); E0(f, END); } E1(f, LGET, 2);
  char *e; pwart_module_state s = real_load(&M, &xrs, &e); if (!s && form == 5) { mc_outcome(7); return; } /* the index is not directly the result of a constant any more: may be refused */ if (!s) mc_fail("rejected: %s", e); mods[nmods++] = s; struct pwart_wasm_memory *m = pwart_get_export_memory(s, mx[mi]); FT t = {1, 1, {T}, {I64}}; V a = mk(T, v), r; call_real(pwart_get_export_function(s, "f"), &t, &a, &r); uint64_t want = (uintptr_t)m->bytes + v; if (r.b != want) mc_fail("is 0x%llx, the byte is at 0x%llx", (unsigned long long)r.b, (unsigned long long)want); done(); mc_outcome(mem * 10000 + form * 1000 + vi * 8 + cfg);
}
/* ---- ref_copy_bytes, ref_string_length, host_definition ---- */
static void b_copy(void) {
  int way = choose(NWAY), cfg = choose(2) * 3, d = choose(mc_thorough ? 24 : 12), s = choose(mc_thorough ? 24 : 12), n = choose(mc_thorough ? 24 : 12); if (!mc_mine()) return; sprintf(dbuf, "ref_copy_bytes(%d, %d, %d), %s\n", d, s, n, wayn[way]); begin(cfg); static uint8_t b[80], w[80]; for (int i = 0; i < 80; i++) b[i] = w[i] = i * 3 + 1; memmove(w + 8 + d, w + 8 + s, n); FT t = {3, 0, {XREF, XREF, I32}, {0}}; V a[3] = {vref(b + 8 + d), vref(b + 8 + s), mk(I32, n)}; call_real(make(way, "ref_copy_bytes", &t), &t, a, 0); for (int i = 0; i < 80; i++) if (b[i] != w[i]) mc_fail("byte %d is %d, must be %d", i - 8, b[i], w[i]); done(); mc_outcome((d * 30 + s) * 30 + n);
}
static void b_copybig(void) {
  static const int ns[] = {63, 64, 65, 127, 128, 129, 255, 256, 4095, 4096, 4097, 65535, 65536, 70000}; int way = choose(NWAY), cfg = choose(2) * 3, n = choose_from(ns), ov = choose(5); if (!mc_mine()) return; sprintf(dbuf, "ref_copy_bytes of %d bytes, overlap %d, %s\n", n, ov, wayn[way]); begin(cfg); static uint8_t b[220000], w[220000]; for (int i = 0; i < 220000; i++) b[i] = w[i] = i * 7 + (i >> 8); int so = 1000, dof = ov == 0 ? 1000 + n : ov == 1 ? 1001 : ov == 2 ? 999 : ov == 3 ? 1000 + n / 2 : 100000 + 7; if (ov == 4) so = 100000 + 7, dof = 17; memmove(w + dof, w + so, n); FT t = {3, 0, {XREF, XREF, I32}, {0}}; V a[3] = {vref(b + dof), vref(b + so), mk(I32, n)}; call_real(make(way, "ref_copy_bytes", &t), &t, a, 0); if (memcmp(b, w, sizeof b)) mc_fail("memory differs"); done(); mc_outcome(n * 5 + ov);
}
static void b_strlen(void) {
  int way = choose(NWAY), cfg = choose(2) * 3, l = choose(42), al = choose(9), pat = choose(3); if (!mc_mine()) return; if (l > 30) { static const int L[] = {63, 64, 127, 255, 256, 1000, 4095, 4096, 65535, 65536, 200001}; l = L[l - 31]; } sprintf(dbuf, "ref_string_length of %d bytes at offset %d, %s\n", l, al, wayn[way]); begin(cfg); static uint8_t b[200100]; memset(b, 'x', sizeof b); for (int i = 0; i < l; i++) b[al + i] = pat == 0 ? 'a' : pat == 1 ? 0x80 | i : 1 + i % 255; b[al + l] = 0; FT t = {1, 1, {XREF}, {I32}}; V a = vref(b + al), r; call_real(make(way, "ref_string_length", &t), &t, &a, &r); if ((uint32_t)r.b != (uint32_t)strlen((char *)b + al)) mc_fail("returned %u", (uint32_t)r.b); done(); mc_outcome(l * 10 + al);
}
static void b_hostdef(void) {
  int way = choose(NWAY), cfg = choose(8), twice = choose(2); if (!mc_mine()) return; sprintf(dbuf, "host_definition, %s, configuration %d\n", wayn[way], cfg); begin(cfg); FT t = {1, 1, {I32}, {XREF}}; void *f = make(way, "host_definition", &t); int lin = 0, arch = 0, n = 0; const char *seen[70];
  for (n = 0; n < 64; n++) { V a = mk(I32, n), r; call_real(f, &t, &a, &r); const char *s = (const char *)(uintptr_t)r.b; if (twice) { V r2; call_real(f, &t, &a, &r2); if (r2.b != r.b) mc_fail("entry %d differs when read again", n); } if (!s) break; seen[n] = s; if (!*s) mc_fail("entry %d is empty", n); for (int i = 0; i < n; i++) if (!strcmp(seen[i], s)) mc_fail("'%s' is listed twice", s); if (!strcmp(s, "__linux__")) lin = 1; else if (!strcmp(s, "__x86_64__")) arch = 1;
    static const char *no[] = {"_WIN32", "_WIN64", "__x86__", "__arm__", "__aarch64__", "__ANDROID__", "__APPLE__", "__MIPSEL__", "__NetBSD__", "__SOFTFP__"}; for (int i = 0; i < 10; i++) if (!strcmp(s, no[i])) mc_fail("'%s' is not true of this host", s); if (!strncmp(s, "__ARM", 5) || !strncmp(s, "__riscv", 7) || !strncmp(s, "__ANDROID_API", 13)) mc_fail("'%s' is not true of this host", s); }
  if (n == 64) mc_fail("the list does not end"); if (!lin || !arch) mc_fail("%s is missing", lin ? "__x86_64__" : "__linux__"); done(); mc_outcome(way * 8 + cfg);
}
/* ---- memory_alloc and native_memory ---- */
#define NB 3
static void b_alloc(void) {
  int depth = mc_thorough ? 6 : 5, op[8], ar[8], live[NB] = {0}, way = choose(3), cfg = choose(2) * 3; static const uint32_t sz[] = {1, 8, 24, 100, 32769, 200000}; way = way == 0 ? W_HOST : way == 1 ? W_CALL : W_IND;
  for (int d = 0; d < depth; d++) { int en[40], n = 0, fr = -1; for (int i = 0; i < NB; i++) if (!live[i]) { fr = i; break; } if (fr >= 0) for (int k = 0; k < 6; k++) if (k % 2 == (d & 1) || mc_thorough) en[n++] = k; for (int i = 0; i < NB; i++) if (live[i]) en[n++] = 10 + i; int c = en[choose(n)]; op[d] = c < 10 ? 0 : 1; ar[d] = c < 10 ? c : c - 10; if (c < 10) live[fr] = 1; else live[c - 10] = 0; }
  if (!mc_mine()) return; dn = sprintf(dbuf, "%s, steps:", wayn[way]); for (int d = 0; d < depth; d++) dn += op[d] ? sprintf(dbuf + dn, " free(%d)", ar[d]) : sprintf(dbuf + dn, " alloc(%u)", sz[ar[d]]); sprintf(dbuf + dn, "\n"); begin(cfg); FT ta = {1, 1, {I32}, {I64}}, tf = {1, 0, {I64}, {0}}; void *fa = make(way, "memory_alloc", &ta), *ff = make(way, "memory_free", &tf);
  /* a module that reads and writes the native memory */
  mod_reset(&M); uint8_t i64 = I64, i32 = I32, p2[2] = {I64, I32}; int tl = mod_ft(&M, 1, &i64, 1, &i32), ts = mod_ft(&M, 2, p2, 0, 0); Imp *p = mod_imp(&M, 2, "pwart_builtin", "native_memory"); p->is64 = 1; p->min = 0; Fn *f = mod_fn(&M, tl); E1(f, LGET, 0); emit_mem(f, 0x2d, 0, 0); f = mod_fn(&M, ts); E1(f, LGET, 0); E1(f, LGET, 1); emit_mem(f, 0x3a, 0, 0); mod_exp(&M, "l", 0, 0); mod_exp(&M, "s", 0, 1); char *e; pwart_module_state s = real_load(&M, NULL, &e); if (!s) mc_fail("rejected: %s", e); mods[nmods++] = s; void *fl = pwart_get_export_function(s, "l"), *fs = pwart_get_export_function(s, "s");
  struct { uint64_t a; uint32_t n; uint8_t c; } B[NB]; memset(B, 0, sizeof B); long b0 = a_blocks;
  for (int d = 0; d < depth; d++) {
    if (!op[d]) { int i = 0; while (B[i].a) i++; V a = mk(I32, sz[ar[d]]), r; a_track = 1; call_real(fa, &ta, &a, &r); a_track = 0; if (!r.b) mc_fail("memory_alloc(%u) returned 0", sz[ar[d]]); for (int j = 0; j < NB; j++) if (B[j].a && r.b < B[j].a + B[j].n && B[j].a < r.b + sz[ar[d]]) mc_fail("the new block overlaps a live one"); B[i].a = r.b; B[i].n = sz[ar[d]]; B[i].c = 50 + d; for (int k = 0; k < 3; k++) { uint64_t at = k == 0 ? 0 : k == 1 ? B[i].n / 2 : B[i].n - 1; V v[2] = {mk(I64, B[i].a + at), mk(I32, B[i].c + k)}; FT q = {2, 0, {I64, I32}, {0}}; call_real(fs, &q, v, 0); } }
    else { V a = mk(I64, B[ar[d]].a); a_track = 1; call_real(ff, &tf, &a, 0); a_track = 0; B[ar[d]].a = 0; }
    int nl = 0; for (int j = 0; j < NB; j++) if (B[j].a) { nl++; for (int k = 2; k >= 0; k--) { uint64_t at = k == 0 ? 0 : k == 1 ? B[j].n / 2 : B[j].n - 1; int w = B[j].n == 1 ? 2 : k; if (((uint8_t *)(uintptr_t)B[j].a)[at] != B[j].c + w) mc_fail("the host sees %d at %llu of block %d, the module stored %d", ((uint8_t *)(uintptr_t)B[j].a)[at], (unsigned long long)at, j, B[j].c + w); V v = mk(I64, B[j].a + at), r; FT q = {1, 1, {I64}, {I32}}; call_real(fl, &q, &v, &r); if ((uint32_t)r.b != (uint32_t)B[j].c + w) mc_fail("native memory reads %u, must be %u", (uint32_t)r.b, B[j].c + w); } }
    if (a_blocks - b0 != nl) mc_fail("%d blocks are live, %ld are allocated", nl, a_blocks - b0);
  }
  for (int j = 0; j < NB; j++) if (B[j].a) { V a = mk(I64, B[j].a); a_track = 1; call_real(ff, &tf, &a, 0); a_track = 0; } if (a_blocks != b0) mc_fail("freed blocks are still held"); done(); uint64_t o = way; for (int d = 0; d < depth; d++) o = o * 16 + op[d] * 8 + ar[d]; mc_outcome(o);
}
static void b_native(void) {
  int op = 0x28 + choose(0x3f - 0x28), form = choose(4), oi_ = choose(6), cfg = choose(8), at = choose(3); static const uint64_t offs[] = {0, 1, 8, 0x7fffffff, 0xfffffff0, 0x123456789ull}; if (!mc_mine()) return; sprintf(dbuf, "native memory, opcode 0x%02x, address form %d, offset 0x%llx, configuration %d\n", op, form, (unsigned long long)offs[oi_], cfg); begin(cfg); static uint8_t buf[64]; for (int i = 0; i < 64; i++) buf[i] = 0x81 + i * 5; uint8_t w[64]; memcpy(w, buf, 64); uint64_t ea = (uintptr_t)buf + 16 + at * 3, idx = ea - offs[oi_];
  int isst = op >= 0x36, ty = isst ? (op == 0x36 || op == 0x3a || op == 0x3b ? I32 : op == 0x38 ? F32 : op == 0x39 ? F64 : I64) : (op == 0x28 || (op >= 0x2c && op <= 0x2f) ? I32 : op == 0x2a ? F32 : op == 0x2b ? F64 : I64); int sz = op == 0x28 || op == 0x2a || op == 0x34 || op == 0x35 || op == 0x36 || op == 0x38 || op == 0x3e ? 4 : op == 0x29 || op == 0x2b || op == 0x37 || op == 0x39 ? 8 : op == 0x2c || op == 0x2d || op == 0x30 || op == 0x31 || op == 0x3a || op == 0x3c ? 1 : 2, sg = op == 0x2c || op == 0x2e || op == 0x30 || op == 0x32 || op == 0x34;
  mod_reset(&M); uint8_t i64 = I64, T = ty, p2[2] = {I64, T}; Imp *p = mod_imp(&M, 2, "pwart_builtin", "native_memory"); p->is64 = 1; M.mem[M.nmem++] = (Mem){1, 1, 1, 0}; int t = isst ? mod_ft(&M, 2, p2, 0, 0) : mod_ft(&M, 1, &i64, 1, &T); Fn *f = mod_fn(&M, t); f->nloc = 1; f->loc[0] = I64; int L = isst ? 2 : 1; if (form == 2) { E1(f, LGET, 0); E1(f, LSET, L); } if (form == 0) E1(f, KI64, idx); else if (form == 1) E1(f, LGET, 0); else if (form == 2) E1(f, LGET, L); else { E1(f, LGET, 0); E1(f, KI64, 3); E0(f, 0x7c); E1(f, KI64, 3); E0(f, 0x7d); } if (isst) E1(f, LGET, 1); emit_mem(f, op, offs[oi_], 0); mod_exp(&M, "f", 0, 0);
  char *e; pwart_module_state s = real_load(&M, NULL, &e); if (!s) mc_fail("rejected: %s", e); mods[nmods++] = s; V a[2] = {mk(I64, idx), mk(ty, 0x1122334455667788ull)}, r; call_real(pwart_get_export_function(s, "f"), &M.ft[t], a, &r); uint8_t *q = w + 16 + at * 3;
  if (isst) { memcpy(q, &a[1].b, sz); if (memcmp(buf, w, 64)) mc_fail("other bytes changed than the %d at the address", sz); } else { uint64_t v = 0; memcpy(&v, q, sz); if (sg && sz < 8 && v >> (sz * 8 - 1)) v |= ~0ull << (sz * 8); if (tsize(ty) == 4) v = (uint32_t)v; if (r.b != v) mc_fail("loaded 0x%llx, must be 0x%llx", (unsigned long long)r.b, (unsigned long long)v); } done(); mc_outcome(op * 1000 + form * 100 + oi_ * 10 + at);
}
/* ---- files: every call is mirrored with the C library on a second directory ---- */
static char dir_a[300], dir_b[300];
static void file_path(char *o, const char *dir, int k) { sprintf(o, "%s/%s", dir, k == 0 ? "one" : k == 1 ? "two" : "no/such"); }
static const char *modes[] = {"r", "w", "a", "r+", "w+b", "bad?"};
static void slurp(const char *p, uint8_t *b, int *n) { *n = -1; FILE *f = fopen(p, "rb"); if (!f) return; *n = fread(b, 1, 4000, f); fclose(f); }
static void b_files(void) {
  int depth = mc_thorough ? 6 : 5, way = choose(3), cfg = choose(2) * 3, c[8], kk[8], open[2] = {0}, md[2] = {0}, last[2] = {0}; way = way == 0 ? W_HOST : way == 1 ? W_CALL : W_RET; /* ops: open, write, read, close */
  for (int d = 0; d < depth; d++) { struct { int o, k; } en[80]; int n = 0; for (int h = 0; h < 2; h++) { if (!open[h]) { if (h == 0 || open[0]) for (int p = 0; p < 3; p++) for (int m = 0; m < 6; m++) if ((p == 0 || m < 2) && (m != 5 || p == 0) && !(h == 1 && m > 2)) { en[n].o = h; en[n++].k = p * 6 + m; } } else { int rd = md[h] == 0 || md[h] >= 3, wr = md[h] >= 1; if (wr && last[h] != 2) for (int q = 0; q < 2; q++) { en[n].o = 2 + h; en[n++].k = q; } if (rd && last[h] != 1) for (int q = 0; q < 2; q++) { en[n].o = 4 + h; en[n++].k = q; } en[n].o = 6 + h; en[n++].k = 0; } } int x = choose(n); c[d] = en[x].o; kk[d] = en[x].k; int h = c[d] & 1; if (c[d] < 2) { int p = kk[d] / 6, m = kk[d] % 6; open[h] = p < 2 && m < 5 ? (m == 0 || m == 3 ? 1 : 1) : 0; md[h] = m; last[h] = 0; } else if (c[d] < 4) last[h] = 1; else if (c[d] < 6) last[h] = 2; else open[h] = 0; }
  if (!mc_mine()) return; dn = sprintf(dbuf, "%s, steps:", wayn[way]); for (int d = 0; d < depth; d++) { int h = c[d] & 1; dn += c[d] < 2 ? sprintf(dbuf + dn, " %d=fopen(%s,%s)", h, kk[d] / 6 == 0 ? "one" : kk[d] / 6 == 1 ? "two" : "no/such", modes[kk[d] % 6]) : c[d] < 4 ? sprintf(dbuf + dn, " fwrite(%d,%d)", h, kk[d]) : c[d] < 6 ? sprintf(dbuf + dn, " fread(%d,%d)", h, kk[d]) : sprintf(dbuf + dn, " fclose(%d)", h); } sprintf(dbuf + dn, "\n"); begin(cfg);
  static int made; if (!made) { made = 1; const char *s = getenv("MC_SCRATCH"); if (!s) mc_die("MC_SCRATCH"); sprintf(dir_a, "%s/fa%d", s, getpid()); sprintf(dir_b, "%s/fb%d", s, getpid()); mkdir(dir_a, 0700); mkdir(dir_b, 0700); }
  char pa[400], pb[400]; for (int k = 0; k < 2; k++) { file_path(pa, dir_a, k); file_path(pb, dir_b, k); unlink(pa); unlink(pb); } file_path(pa, dir_a, 0); file_path(pb, dir_b, 0); for (int i = 0; i < 2; i++) { FILE *f = fopen(i ? pb : pa, "w"); fputs("0123456789abcdefghij", f); fclose(f); }
  FT to = {2, 2, {XREF, XREF}, {XREF, I32}}, tr = {4, 1, {XREF, I32, I32, XREF}, {I32}}, tc = {1, 1, {XREF}, {I32}}; void *fo = make(way, "fopen", &to), *fr = make(way, "fread", &tr), *fw = make(way, "fwrite", &tr), *fc = make(way, "fclose", &tc); uint64_t A[2] = {0}; FILE *B[2] = {0}; uint64_t out = way; V a[4], r[2];
  for (int d = 0; d < depth; d++) { int h = c[d] & 1, q = kk[d]; uint8_t ba[64], bb[64]; memset(ba, 0x2b, 64); memset(bb, 0x2b, 64);
    if (c[d] >= 2 && !B[h]) continue; static const int sz[2] = {1, 3}, ct[2] = {4, 5};
    switch (c[d] >> 1) {
    case 0: { file_path(pa, dir_a, q / 6); file_path(pb, dir_b, q / 6); a[0] = vref(pa); a[1] = vref(modes[q % 6]); errno = 77; call_real(fo, &to, a, r); errno = 0; B[h] = fopen(pb, modes[q % 6]); int er = errno; A[h] = r[0].b; if ((A[h] != 0) != (B[h] != NULL)) mc_fail("fopen returned %s", A[h] ? "a file" : "null"); int32_t e = r[1].b; if (B[h] ? e != 0 : e != er) mc_fail("fopen reports error %d, must be %d", e, B[h] ? 0 : er); out = out * 7 + e; break; }
    case 1: { for (int i = 0; i < 16; i++) ba[i] = bb[i] = 'A' + d * 5 + i; a[0] = vref(ba); a[1] = mk(I32, sz[q]); a[2] = mk(I32, ct[q]); a[3] = mk(XREF, A[h]); call_real(fw, &tr, a, r); uint32_t n = fwrite(bb, sz[q], ct[q], B[h]); if ((uint32_t)r[0].b != n) mc_fail("fwrite returned %u, must be %u", (uint32_t)r[0].b, n); if (memcmp(ba, bb, 64)) mc_fail("fwrite changed its buffer"); out = out * 7 + n; break; }
    case 2: { a[0] = vref(ba); a[1] = mk(I32, sz[q]); a[2] = mk(I32, ct[q]); a[3] = mk(XREF, A[h]); call_real(fr, &tr, a, r); uint32_t n = fread(bb, sz[q], ct[q], B[h]); if ((uint32_t)r[0].b != n) mc_fail("fread returned %u, must be %u", (uint32_t)r[0].b, n); if (memcmp(ba, bb, 64)) mc_fail("fread stored other bytes"); out = mc_hash(out, bb, 16); break; }
    case 3: { a[0] = mk(XREF, A[h]); errno = 78; call_real(fc, &tc, a, r); int w = fclose(B[h]); if ((int32_t)r[0].b != (w ? errno : 0)) mc_fail("fclose returned %d, must be %d", (int32_t)r[0].b, w ? errno : 0); B[h] = NULL; A[h] = 0; break; }
    }
  }
  for (int h = 0; h < 2; h++) if (B[h]) { fclose(B[h]); fclose((FILE *)(uintptr_t)A[h]); }
  for (int k = 0; k < 2; k++) { uint8_t x[4000], y[4000]; int nx, ny; file_path(pa, dir_a, k); file_path(pb, dir_b, k); slurp(pa, x, &nx); slurp(pb, y, &ny); if (nx != ny || (nx > 0 && memcmp(x, y, nx))) mc_fail("file %d holds %d bytes, must hold %d, or they differ", k, nx, ny); out = mc_hash(out, x, nx > 0 ? nx : 0); }
  done(); mc_outcome(out);
}
/* sizes and counts beyond 16 bits */
static void b_filesbig(void) {
  static const uint32_t S[] = {1, 2, 3, 127, 128, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072}; static uint8_t ba[300000], bb[300000], x[300000], y[300000];
  int way = choose(3), cfg = choose(2) * 3, op = choose(2), swap = choose(2), i = choose(16), cnt = choose(7), have = choose(4); way = way == 0 ? W_HOST : way == 1 ? W_CALL : W_RET; static const uint32_t C[] = {0, 1, 2, 3, 255, 256, 70000}; uint32_t a0 = S[i], a1 = C[cnt]; if ((uint64_t)a0 * a1 > 200000) { mc_owned = 0; return; } if (!mc_mine()) return; uint32_t size = swap ? a1 : a0, count = swap ? a0 : a1; static const int fl[] = {0, 1000, 66000, 200000}; int n0 = fl[have];
  sprintf(dbuf, "%s, %s(size %u, count %u) on a file of %d bytes\n", wayn[way], op ? "fwrite" : "fread", size, count, n0); begin(cfg); static int made; if (!made) { made = 1; const char *s = getenv("MC_SCRATCH"); if (!s) mc_die("MC_SCRATCH"); sprintf(dir_a, "%s/fa%d", s, getpid()); sprintf(dir_b, "%s/fb%d", s, getpid()); mkdir(dir_a, 0700); mkdir(dir_b, 0700); }
  for (int k = 0; k < 300000; k++) ba[k] = bb[k] = k * 13 + (k >> 8); char p[2][400]; FILE *F[2]; for (int k = 0; k < 2; k++) { file_path(p[k], k ? dir_b : dir_a, 0); F[k] = fopen(p[k], "w"); for (int j = 0; j < n0; j++) fputc((j * 5 + (j >> 7)) & 255, F[k]); fclose(F[k]); F[k] = fopen(p[k], "r+"); }
  FT tr = {4, 1, {XREF, I32, I32, XREF}, {I32}}; V a[4] = {vref(ba), mk(I32, size), mk(I32, count), vref(F[0])}, r; call_real(make(way, op ? "fwrite" : "fread", &tr), &tr, a, &r); uint32_t n = op ? fwrite(bb, size, count, F[1]) : fread(bb, size, count, F[1]); if ((uint32_t)r.b != n) mc_fail("returned %u, must be %u", (uint32_t)r.b, n); if (memcmp(ba, bb, sizeof ba)) mc_fail("the buffer holds other bytes"); if (ftell(F[0]) != ftell(F[1])) mc_fail("the file is at %ld, must be at %ld", ftell(F[0]), ftell(F[1])); long len[2]; for (int k = 0; k < 2; k++) { fclose(F[k]); FILE *f = fopen(p[k], "rb"); len[k] = fread(k ? y : x, 1, 300000, f); fclose(f); unlink(p[k]); } if (len[0] != len[1] || memcmp(x, y, len[0])) mc_fail("the file holds %ld bytes, must hold %ld, or they differ", len[0], len[1]);
  done(); mc_outcome(mc_hash(mc_hash(n * 2 + op, x, len[0]), ba, 1000));
}
static void b_stdio(void) {
  int way = choose(NWAY), cfg = choose(8); if (!mc_mine()) return; sprintf(dbuf, "stdio, %s, configuration %d\n", wayn[way], cfg); begin(cfg); FT t = {0, 3, {0}, {XREF, XREF, XREF}}; V r[3]; call_real(make(way, "stdio", &t), &t, 0, r); void *w[3] = {stdin, stdout, stderr}; for (int i = 0; i < 3; i++) if ((void *)(uintptr_t)r[i].b != w[i]) mc_fail("result %d is not the standard stream", i); done(); mc_outcome(way * 8 + cfg);
}
/* ---- load_module, unload_module and import, called by a module of the namespace ---- */
enum { LK_PLAIN, LK_START, LK_IMP, LK_BAD, LK_BAD2, NLK };
static struct { uint8_t b[600]; int n; } img[NLK], caller_img; static int img_done;
static uint32_t start_count; static void host_started(void *fp) { (void)fp; start_count++; }
static const char *bn[] = {"get_self_runtime_context", "ref_from_index", "load_module", "unload_module", "import", "ref_string_length"};
static void gen_imgs(void) {
  if (img_done) return; img_done = 1; uint8_t i32 = I32, x = XREF;
  for (int k = 0; k < NLK; k++) { mod_reset(&M); int t = mod_ft(&M, 0, 0, 1, &i32), v = mod_ft(&M, 0, 0, 0, 0); if (k == LK_START) { Imp *p = mod_imp(&M, 0, "host", "started"); p->type = v; } if (k == LK_IMP) { Imp *p = mod_imp(&M, 0, "caller", "cv"); p->type = t; } if (k == LK_BAD2) { Imp *p = mod_imp(&M, 0, "nobody", "x"); p->type = t; } int fb = M.nimp; Glob *g = &M.glob[M.nglob++]; memset(g, 0, sizeof *g); g->vt = I32; g->mut = 1; g->nins = 1; g->ins[0].op = KI32; g->ins[0].a = 100 + k; Fn *f = mod_fn(&M, t); if (k == LK_IMP) { E1(f, CALL, 0); E1(f, KI32, 1); E0(f, 0x6a); } else E1(f, GGET, 0); f = mod_fn(&M, v); E1(f, GGET, 0); E1(f, KI32, 1000); E0(f, 0x6a); E1(f, GSET, 0); if (k == LK_START) E1(f, CALL, 0); mod_exp(&M, "v", 0, fb); if (k == LK_START) M.start = fb + 1; mod_encode(&M, &g_out); img[k].n = k == LK_BAD ? g_out.n - 3 : g_out.n; memcpy(img[k].b, g_out.p, g_out.n); }
  mod_reset(&M); FT ty[6] = {{0, 1, {0}, {XREF}}, {2, 1, {I32, I32}, {XREF}}, {4, 1, {XREF, XREF, XREF, I32}, {XREF}}, {2, 1, {XREF, XREF}, {XREF}}, {4, 1, {XREF, XREF, XREF, I32}, {XREF}}, {1, 1, {XREF}, {I32}}}; for (int i = 0; i < 6; i++) { int t = mod_ft(&M, ty[i].np, ty[i].p, ty[i].nr, ty[i].r); Imp *p = mod_imp(&M, 0, "pwart_builtin", bn[i]); p->type = t; } M.mem[M.nmem++] = (Mem){2, 0, 0, 0}; M.tab[M.ntab++] = (Tab){FREF, 1, 1, 1}; uint8_t i3[3] = {I32, I32, I32}; int tl = mod_ft(&M, 3, i3, 1, &x), tu = mod_ft(&M, 1, i3, 1, &x), ti = mod_ft(&M, 3, i3, 1, &x), tc = mod_ft(&M, 2, i3, 1, i3), t0 = mod_ft(&M, 0, 0, 1, i3);
#define REFI(n) E1(f, KI32, 0), E1(f, LGET, n), E1(f, CALL, 1)
  Fn *f = mod_fn(&M, tl); E1(f, CALL, 0); REFI(0); REFI(1); E1(f, LGET, 2); E1(f, CALL, 2);
  f = mod_fn(&M, tu); E1(f, CALL, 0); REFI(0); E1(f, CALL, 3);
  f = mod_fn(&M, ti); E1(f, CALL, 0); REFI(0); REFI(1); E1(f, LGET, 2); E1(f, CALL, 4);
  f = mod_fn(&M, tc); E1(f, KI32, 0); E1(f, CALL, 0); REFI(0); REFI(1); E1(f, KI32, 0); E1(f, CALL, 4); E1(f, TSET, 0); E1(f, KI32, 0); E2(f, CALL_IND, t0, 0);
  f = mod_fn(&M, t0); E1(f, KI32, 7777); 
  static const char *en[] = {"load", "unload", "import", "icall", "cv"}; for (int i = 0; i < 5; i++) mod_exp(&M, en[i], 0, 6 + i); mod_exp(&M, "m", 2, 0); mod_encode(&M, &g_out); caller_img.n = g_out.n; if (g_out.n > 600) mc_die("caller"); memcpy(caller_img.b, g_out.p, g_out.n);
}
static void b_load(void) {
  int depth = mc_thorough ? 5 : 4, cfg = choose(2) * 3, o[6], names = 2; for (int d = 0; d < depth; d++) o[d] = choose(names * (NLK + 3)); if (!mc_mine()) return; static const char *lkn[] = {"load plain", "load with-start", "load importing", "load truncated", "load unresolved", "unload", "import", "call"}; dn = sprintf(dbuf, "steps:"); for (int d = 0; d < depth; d++) dn += sprintf(dbuf + dn, " %s '%c';", lkn[o[d] / 2], 'a' + o[d] % 2); sprintf(dbuf + dn, "\n"); begin(cfg); gen_imgs(); static pwart_namespace ns; static const char *hn[] = {"started"}; static void *hs[1]; hs[0] = pwart_wrap_host_function_c(host_started); ns = pwart_namespace_new(); struct pwart_host_module *hm = pwart_namespace_new_host_module2(hn, hs, 1); pwart_namespace_define_host_module(ns, "host", hm); char *e = NULL; pwart_module_state C = (pwart_module_state)pwart_namespace_define_wasm_module(ns, "caller", (char *)caller_img.b, caller_img.n, &e); if (!C) mc_fail("caller rejected: %s", e); start_count = 0;
  struct pwart_wasm_memory *m = pwart_get_export_memory(C, "m"); int cur[2] = {-1, -1}; uint32_t want_starts = 0; uint64_t out = 3;
  for (int d = 0; d < depth; d++) { int w = o[d] / 2, k = o[d] % 2; memset(m->bytes, 0xcc, 2000); m->bytes[40 + d] = 'a' + k; m->bytes[41 + d] = 0; strcpy((char *)m->bytes + 60, "v"); strcpy((char *)m->bytes + 62, "nosuch"); V a[3], r; FT tl = {3, 1, {I32, I32, I32}, {XREF}}, tu = {1, 1, {I32}, {XREF}}, tc = {2, 1, {I32, I32}, {I32}}; void *in_ns; struct pwart_named_module *f = pwart_namespace_find_module(ns, k ? "b" : "a"); in_ns = f && f->type ? f->val.wasm : NULL;
    if (w < NLK) { memcpy(m->bytes + 100 + d, img[w].b, img[w].n); a[0] = mk(I32, 40 + d); a[1] = mk(I32, 100 + d); a[2] = mk(I32, img[w].n); call_real(pwart_get_export_function(C, "load"), &tl, a, &r); int bad = w >= LK_BAD; if (!!r.b != bad) mc_fail("load_module returned %s", r.b ? (char *)(uintptr_t)r.b : "no error for a module that cannot be loaded"); if (bad && !*(char *)(uintptr_t)r.b) mc_fail("the error text is empty"); if (!bad) { cur[k] = w; if (w == LK_START) want_starts++; } }
    else if (w == NLK) { a[0] = mk(I32, 40 + d); call_real(pwart_get_export_function(C, "unload"), &tu, a, &r); if (cur[k] >= 0 && r.b) mc_fail("unload_module reports '%s'", (char *)(uintptr_t)r.b); cur[k] = -1; }
    else if (w == NLK + 1) { for (int miss = 0; miss < 2; miss++) { a[0] = mk(I32, 40 + d); a[1] = mk(I32, miss ? 62 : 60); a[2] = mk(I32, 0); call_real(pwart_get_export_function(C, "import"), &tl, a, &r); void *want = cur[k] >= 0 && !miss ? pwart_get_export_function(in_ns, "v") : NULL; if ((void *)(uintptr_t)r.b != want) mc_fail("import returned %p, must be %p", (void *)(uintptr_t)r.b, want); } }
    else if (cur[k] >= 0) { a[0] = mk(I32, 40 + d); a[1] = mk(I32, 60); call_real(pwart_get_export_function(C, "icall"), &tc, a, &r); uint32_t want = cur[k] == LK_PLAIN ? 100 : cur[k] == LK_START ? 1101 : 7778; if ((uint32_t)r.b != want) mc_fail("the imported function returns %u, must return %u", (uint32_t)r.b, want); out = out * 31 + want; }
    if (start_count != want_starts) mc_fail("start functions ran %u times, must be %u", start_count, want_starts);
    for (int q = 0; q < 2; q++) { f = pwart_namespace_find_module(ns, q ? "b" : "a"); if ((f && f->type == PWART_MODULE_TYPE_WASM_MODULE) != (cur[q] >= 0)) mc_fail("module '%c' %s", 'a' + q, cur[q] >= 0 ? "is not found" : "is found although it is not loaded"); } out = out * 7 + cur[0] + 1 + 7 * (cur[1] + 1);
  }
  pwart_namespace_delete(ns); pwart_namespace_delete_host_module(hm); mc_outcome(out);
}
static struct mc_space sp[] = {
  {"scalar", b_scalar, "version, native_index_size x 8 ways of calling x 8 configurations"},
  {"casts", b_cast, "ref_from_i64, i64_from_ref and both x 24 values x 8 ways x 8 configurations"},
  {"self", b_self, "get_self_runtime_context x 4 uses x 8 configurations x 1..3 functions, two modules"},
  {"ref-from-index", b_index, "5 kinds of memory x 7 operand forms x 24 indices x 8 configurations x 0/4/8 live values"},
  {"copy", b_copy, "ref_copy_bytes: every source, destination and length below 12 (24), 8 ways, 2 configurations"},
  {"copy-large", b_copybig, "14 lengths up to 70000 x 5 overlaps x 8 ways"},
  {"strlen", b_strlen, "ref_string_length: 42 lengths x 9 alignments x 3 contents x 8 ways"},
  {"host-definition", b_hostdef, "the whole list x 8 ways x 8 configurations"},
  {"alloc", b_alloc, "every history of 5 (6) memory_alloc/memory_free steps, contents checked through native_memory"},
  {"native-memory", b_native, "every load and store x 4 address forms x 6 offsets x 3 alignments x 8 configurations"},
  {"files", b_files, "every history of 5 (6) fopen/fread/fwrite/fclose steps on 2 handles and 3 paths, mirrored with the C library"},
  {"files-large", b_filesbig, "fread and fwrite: 16 sizes up to 131072 x 7 counts, either way round x 4 file lengths x 3 ways, mirrored with the C library"},
  {"stdio", b_stdio, "stdio x 8 ways x 8 configurations"},
  {"load-unload-import", b_load, "every history of 4 (5) load_module/unload_module/import steps issued by a module: 2 names x 8 operations"}};
static const char *as[] = {"ref_from_index and get_self_runtime_context are called directly with a constant memory index, as documented", "file operations stay in a scratch directory; reads and writes of one file handle do not alternate without repositioning", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P19", "one execution = one call or history of calls of built-in functions compared with their documentation; non-trivial = distinct results", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
