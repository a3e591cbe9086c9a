/* P16 modules that cannot be loaded */
#include "num.h"
#include "host.h"
#include "alloc.h"
#include <sljitLir.h>
static char dbuf[3000]; static int dn;
static const uint8_t *d_b; static int d_n;
static void describe(void) { mc_desc("%s", dbuf); int n = d_n < 400 ? d_n : 400; char h[1300]; int q = 0; for (int i = 0; i < n; i++) q += sprintf(h + q, "%02x%s", d_b[i], i % 32 == 31 ? "\n" : " "); h[q] = 0; mc_desc("bytes (%d):\n%s\n", d_n, h); }
/* ---- a good module that must keep working ---- */
static pwart_module_state G; static uint8_t gbytes[1200]; static int gn; static uint32_t g_state; static uint8_t gmem[64];
static void gen_good(void) {
  mod_reset(&M); int t = mod_ft(&M, 1, (uint8_t[]){I32}, 1, (uint8_t[]){I32}); M.tab[M.ntab++] = (Tab){FREF, 3, 3, 1}; M.mem[M.nmem++] = (Mem){1, 2, 0, 0}; Glob *g = &M.glob[M.nglob++]; memset(g, 0, sizeof *g); g->vt = I32; g->mut = 1; g->nins = 1; g->ins[0].op = KI32; g->ins[0].a = 5;
  Fn *f = mod_fn(&M, t); E1(f, LGET, 0); E1(f, GGET, 0); E0(f, 0x6a); E1(f, GSET, 0); E1(f, KI32, 9); E1(f, GGET, 0); emit_mem(f, 0x36, 0, 0); E1(f, LGET, 0); E1(f, KI32, 1); E2(f, CALL_IND, 0, 0);
  f = mod_fn(&M, t); E1(f, KI32, 9); emit_mem(f, 0x28, 0, 0); E1(f, LGET, 0); E0(f, 0x6c); mod_exp(&M, "f", 0, 0);
  Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->noff = 1; e->off[0].op = KI32; e->off[0].a = 1; e->n = 1; e->fidx[0] = 1;
  mod_encode(&M, &g_out); gn = g_out.n; memcpy(gbytes, g_out.p, gn);
}
static int good_call(pwart_module_state s, uint32_t a) { FT t = {1, 1, {I32}, {I32}}; V v = mk(I32, a), r; call_real(pwart_get_export_function(s, "f"), &t, &v, &r); return (int32_t)r.b; }
static void good_check(int fresh) {
  g_state += 3; uint32_t w = g_state * 3; int r = good_call(G, 3); if ((uint32_t)r != w) mc_fail("a module loaded before now returns %d, must return %u", r, w);
  if (fresh) { char *e; a_track = 1; pwart_module_state s = real_load_bytes(gbytes, gn, NULL, &e); a_track = 0; if (!s) mc_fail("a good module loaded afterwards is rejected: %s", e); r = good_call(s, 4); if (r != 36) mc_fail("a good module loaded afterwards returns %d", r); pwart_free_module_state(s); }
}
static void worker(void) { set_cfg(1, 3); gen_good(); char *e; G = real_load_bytes(gbytes, gn, NULL, &e); if (!G) mc_die("good module"); g_state = 5; int nb; pwart_get_builtin_symbols(&nb); /* built once per process */ }
static void ensure(void) { if (!G) { mallopt(M_PERTURB, 0); worker(); } }
static pwart_namespace last_ns;
/* load bytes in one of several ways; returns 1 if accepted (and freed again). Checks everything that must hold on failure. */
static int oom_armed, oom_hit; static void *fill_[4096]; static int nfill; extern void *sljit_malloc_exec(sljit_uw); extern void sljit_free_exec(void *); static void fill_exec(void) { a_track = 1; static const int sz[] = {4000, 400, 64, 32, 16}; for (int i = 0; i < 5; i++) for (;;) { a_mmap_fail_at = 0; void *p = sljit_malloc_exec(sz[i]); if (!p) break; fill_[nfill++] = p; if (nfill >= 4096) mc_die("filling"); } a_track = 0; a_mmap_fail_at = -1; }
enum { W_RAW, W_LOAD, W_LOADNULL, W_NS, W_NSNULL, W_RAWEND, NW };
static int try_load(const uint8_t *b, int n, int way, struct pwart_symbol_resolver *rs) {
  d_b = b; d_n = n; mc_describe_cb = describe; mc_predesc();
  uint8_t *c = guard_copy(b, n); char *e = NULL; pwart_module_state st = NULL; ASnap s0 = a_snap(); pwart_namespace ns = NULL;
  if (way == W_RAWEND) { /* the bytes begin right behind an inaccessible page */
    static uint8_t *lo; if (!lo) { lo = mmap(0, 65536 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(lo, 4096, PROT_NONE); } if (n <= 60000) { c = lo + 4096; memcpy(c, b, n); memset(c + n, 0xff, 64); } }
  a_track = 1; a_bad = 0;
  if (way == W_RAW || way == W_RAWEND) { pwart_module_compiler m = pwart_new_module_compiler(); if (rs) pwart_set_symbol_resolver(m, rs); e = pwart_compile(m, (char *)c, n); if (!e) st = pwart_get_module_state(m); pwart_free_module_compiler(m); }
  else if (way == W_LOAD || way == W_LOADNULL) st = (pwart_module_state)pwart_load_module((char *)c, n, way == W_LOAD ? &e : NULL);
  else { ns = pwart_namespace_new(); st = (pwart_module_state)pwart_namespace_define_wasm_module(ns, "bad", (char *)c, n, way == W_NS ? &e : NULL); if (!st && pwart_namespace_find_module(ns, "bad")) mc_fail("the module that failed to load is found in the namespace"); }
  a_track = 0; oom_hit = oom_armed && a_fail_at < 0 && a_mmap_fail_at < 0; oom_armed = 0; a_fail_at = a_mmap_fail_at = -1; while (nfill) sljit_free_exec(fill_[--nfill]); memset(c, 0xee, n);
  int acc = st != NULL;
  if (acc && e) mc_fail("both a module and an error text were returned"); if (!acc && way != W_LOADNULL && way != W_NSNULL) { if (!e) mc_fail("neither a module nor an error text was returned"); if (!*e || strlen(e) > 500) mc_fail("the error text is unreadable"); }
  if (ns) pwart_namespace_delete(ns); else if (acc) pwart_free_module_state(st);
  sljit_free_unused_memory_exec(); ASnap s1 = a_snap();
  if (s1.blocks != s0.blocks || s1.bytes != s0.bytes) mc_fail("%ld allocations (%ld bytes) made by %s load were not returned", s1.blocks - s0.blocks, s1.bytes - s0.bytes, acc ? "a successful" : "the failed");
  good_check(1); sljit_free_unused_memory_exec(); if (a_exec != s0.exec) mc_fail("%ld bytes of executable memory are still mapped", a_exec - s0.exec);
  return acc;
}
/* ---- corpus of good modules with every section ---- */
static void oi(Ins *o, int op, int64_t a) { memset(o, 0, sizeof *o); o->op = op; o->a = a; }
#define NC 6
static int corpus(int k) { /* returns 1 if it needs the resolver */
  mod_reset(&M); g_custom_kind = 0; int t = mod_ft(&M, 1, (uint8_t[]){I32}, 1, (uint8_t[]){I32}), v = mod_ft(&M, 0, 0, 0, 0), t4 = mod_ft(&M, 4, (uint8_t[]){I64, F32, F64, XREF}, 2, (uint8_t[]){F64, I32});
  int imp = k == 1 || k == 4;
  if (imp) { Imp *p = mod_imp(&M, 0, "h", "0"); p->type = t; p = mod_imp(&M, 3, "env", "g"); p->vt = I32; p = mod_imp(&M, 1, "env", "t"); p->vt = FREF; p->min = 1; p = mod_imp(&M, 2, "env", "m"); p->min = 1; p->hasmax = 1; p->max = 9; }
  int fb = mod_nimpk(&M, 0), nm = imp ? 1 : 0; if (!imp || k == 4) { M.tab[M.ntab++] = (Tab){FREF, 4, 200, 1}; M.mem[M.nmem++] = (Mem){1, k == 2 ? 130 : 3, 1, 0}; }
  if (k == 2) { M.tab[M.ntab++] = (Tab){XREF, 2, 0, 0}; M.mem[M.nmem++] = (Mem){1, 1, 1, 1}; }
  for (int i = 0; i < 3; i++) { Glob *g = &M.glob[M.nglob++]; memset(g, 0, sizeof *g); g->vt = i == 0 ? I64 : i == 1 ? F64 : I32; g->mut = i; g->nins = 1; if (i == 2) { g->nins = 3; oi(&g->ins[0], KI32, 300); oi(&g->ins[1], KI32, -70000); oi(&g->ins[2], 0x6a, 0); } else oi(&g->ins[0], i ? KF64 : KI64, i ? 0x3ff123456789abcdll : -5000000000ll); }
  Fn *f = mod_fn(&M, t); f->nloc = 4; f->loc[0] = f->loc[1] = I32; f->loc[2] = F64; f->loc[3] = I64;
  E1(f, BLOCK, 0x40); E1(f, LOOP, 0x40); E1(f, LGET, 0); E0(f, 0x45); E1(f, BR_IF, 1); E1(f, LGET, 0); E1(f, KI32, 1); E0(f, 0x6b); E1(f, LSET, 0); E1(f, LGET, 1); E1(f, KI32, 1000); E0(f, 0x6a); E1(f, LTEE, 1); E0(f, DROP); E1(f, BR, 0); E0(f, END); E0(f, END);
  E1(f, KI32, 8); E1(f, LGET, 1); emit_mem(f, 0x36, 200, 0); E1(f, KF64, f64b(1.5)); E1(f, LSET, 3); E1(f, KF32, f32b(2.5)); E0(f, DROP); E1(f, KI64, 0x7fffffffffll); E1(f, LSET, 4); E1(f, KI32, 0); E1(f, KI32, 1); E1(f, KI32, 2); E1(f, MFILL, 0); E1(f, BLOCK, 0x40); E1(f, BLOCK, 0x40); E1(f, LGET, 0); Ins *bt = emit(f, BR_TABLE, 0, 0); bt->nvec = 3; bt->vec = M.vecpool + M.nvecpool; for (int i = 0; i < 3; i++) M.vecpool[M.nvecpool++] = i & 1; E0(f, END); E0(f, END);
  E1(f, LGET, 0); E1(f, IF, I32); E1(f, KI32, 3); E0(f, ELSE); E1(f, KI32, 4); E0(f, END); E1(f, LGET, 1); E1(f, LGET, 0); E0(f, SELECT); E1(f, GGET, M.nglob - 1 + (imp ? 1 : 0)); E0(f, 0x6a); 
  f = mod_fn(&M, v); E1(f, KI32, 1); E1(f, CALL, fb); E0(f, DROP); E1(f, KI32, 2); E1(f, KI32, 1); E2(f, CALL_IND, t, 0); E0(f, DROP); E1(f, MSIZE, 0); E0(f, DROP); E1(f, REFFUNC, fb); E0(f, REFISNULL); E0(f, DROP);
  f = mod_fn(&M, t4); E1(f, LGET, 2); E1(f, LGET, 0); E0(f, 0xa7); if (k == 3) { E0(f, RETURN); E0(f, UNREACHABLE); }
  mod_exp(&M, "run", 0, fb); mod_exp(&M, "mem", 2, 0); mod_exp(&M, "a longer name of an export", 3, 1); mod_exp(&M, "t", 1, 0); if (k != 5) M.start = fb + 1;
  Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->noff = 1; oi(&e->off[0], KI32, 0); e->n = 2; e->fidx[0] = fb; e->fidx[1] = fb + 2; e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->flags = k == 2 ? 6 : 4; e->tab = 0; e->et = FREF; e->noff = 1; oi(&e->off[0], KI32, 1); e->n = 2; e->fidx[0] = fb; e->fidx[1] = -1;
  Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->noff = 1; oi(&d->off[0], KI32, 70); d->n = 9; memcpy(d->bytes, "some data", 9); d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->flags = 2; d->noff = 1; oi(&d->off[0], KI32, 65000); d->n = 30; memset(d->bytes, 0x80, 30);
  if (k == 3) { M.leb_pad = 5; M.pad_mask = PK_ALL & ~PK_NAME; M.custom_mask = 0xfff; } if (k == 5) { M.datacount = 1; M.locals_mode = 2; M.custom_mask = 1 << 3 | 1 << 11; g_custom_kind = 4; }
  mod_encode(&M, &g_out); g_custom_kind = 0; return imp;
}
static struct pwart_wasm_table x_tab; static struct pwart_wasm_memory x_mem; static void *x_ent[8]; static uint8_t x_bytes[65536]; static uint32_t x_g = 11; static int x_missing;
static void *more(const char *m, const char *f, int kind) { if (strcmp(m, "env")) return NULL; if (kind == 1 && x_missing != 1) { x_tab = (struct pwart_wasm_table){FREF, 8, 8, 8, x_ent}; return &x_tab; } if (kind == 2 && x_missing != 2) { x_mem = (struct pwart_wasm_memory){1, 1, 1, x_bytes, 1}; return &x_mem; } if (kind == 3 && x_missing != 3) return &x_g; return NULL; }
/* parse the section boundaries of the encoded module */
static struct { int id, at, pay, end; } sec[40]; static int nsec;
static void sections(void) { nsec = 0; int p = 8; while (p < g_out.n) { int a = p, id = g_out.p[p++], s = 0, sh = 0; for (;;) { int c = g_out.p[p++]; s |= (c & 127) << sh; sh += 7; if (!(c & 128)) break; } sec[nsec].id = id; sec[nsec].at = a; sec[nsec].pay = p; sec[nsec++].end = p + s; p += s; } }
static void start(void) { ensure(); set_cfg(1, 3); host_reset(); host_res_more = more; x_missing = 0; hft[0] = (FT){1, 1, {I32}, {I32}}; }
static void b_prefix(void) {
  int k = choose(NC), way = choose(NW); start(); int imp = corpus(k); sections(); if (imp && way != W_RAW && way != W_RAWEND) { mc_owned = 0; return; } int cut = choose(g_out.n + 1); if (!mc_mine()) return;
  static uint8_t b[8192]; if (g_out.n > 8192) mc_die("corpus"); memcpy(b, g_out.p, g_out.n); int bound = cut == 8 || cut == g_out.n; for (int i = 0; i < nsec; i++) bound |= cut == sec[i].end;
  sprintf(dbuf, "module %d, the first %d of %d bytes, loaded in way %d\n", k, cut, g_out.n, way);
  int acc = try_load(b, cut, way, imp ? &host_rs : NULL); if (acc && !bound) mc_fail("a module cut inside a section was accepted"); if (!acc && cut == g_out.n) mc_fail("the complete module was rejected"); mc_outcome(k * 9000 + cut * 2 + acc);
}
static void leb5(uint8_t *o, uint32_t v) { for (int i = 0; i < 4; i++) { o[i] = (v & 127) | 128; v >>= 7; } o[4] = v & 127; }
static void b_inner(void) {
  int k = choose(NC); start(); int imp = corpus(k); sections(); int s = choose(nsec), keep = choose(2); if (sec[s].id == 0 || sec[s].id == 12) { mc_owned = 0; return; } int cut = choose(sec[s].end - sec[s].pay); if (!mc_mine()) return;
  static uint8_t b[9000]; int n = sec[s].at; memcpy(b, g_out.p, n); b[n++] = sec[s].id; leb5(b + n, cut); n += 5; memcpy(b + n, g_out.p + sec[s].pay, cut); n += cut; if (keep) { memcpy(b + n, g_out.p + sec[s].end, g_out.n - sec[s].end); n += g_out.n - sec[s].end; }
  sprintf(dbuf, "module %d, section %d holds only the first %d of %d bytes, %s\n", k, sec[s].id, cut, sec[s].end - sec[s].pay, keep ? "the other sections follow" : "nothing follows");
  int acc = try_load(b, n, W_RAW, imp ? &host_rs : NULL); if (acc) mc_fail("a section that ends early was accepted"); mc_outcome(k * 9000 + cut * 8 + keep);
}
/* ---- unresolvable imports ---- */
static int u_missing; static void rs_u(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { q->result = NULL; if (!strcmp(q->import_module, "no")) return; if (q->kind == 0) q->result = host_w[0]; else q->result = more("env", "x", q->kind); }
static struct pwart_symbol_resolver urs = {rs_u};
static void b_unres(void) {
  int n = 1 + choose(3), bad = choose(n), kind[3], way = choose(NW), after = choose(2); for (int i = 0; i < n; i++) kind[i] = choose(4); if (!mc_mine()) return; start(); int own = way != W_RAW && way != W_RAWEND;
  mod_reset(&M); int v = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32}); dn = sprintf(dbuf, "imports of kind"); for (int i = 0; i < n; i++) { Imp *p = mod_imp(&M, own ? (i == bad ? 0 : 0) : kind[i], own && i != bad ? "pwart_builtin" : i == bad ? "no" : "yes", own && i != bad ? "version" : "x"); if (own && i == bad) p->kind = kind[i]; p->type = v; p->vt = p->kind == 1 ? FREF : I32; p->min = 1; dn += sprintf(dbuf + dn, " %d", p->kind); } sprintf(dbuf + dn, ", number %d does not resolve, way %d\n", bad, way);
  if (after) { M.tab[M.ntab++] = (Tab){FREF, 3, 3, 1}; M.mem[M.nmem++] = (Mem){1, 2, 0, 0}; Fn *f = mod_fn(&M, v); E1(f, KI32, 1); mod_exp(&M, "e", 0, mod_nimpk(&M, 0)); }
  mod_encode(&M, &g_out); static uint8_t b[4096]; int l = g_out.n; memcpy(b, g_out.p, l); if (try_load(b, l, way, &urs)) mc_fail("a module with an unresolved import was accepted"); mc_outcome(n * 1000 + bad * 100 + way);
}
/* ---- unsupported features: modules written byte by byte ---- */
static uint8_t ub[100000]; static int un;
static void ubegin(void) { memcpy(ub, "\0asm\1\0\0\0", 8); un = 8; }
static void usec(int id, const void *p, int n) { ub[un++] = id; leb5(ub + un, n); un += 5; memcpy(ub + un, p, n); un += n; }
#define US(id, s) usec(id, s, sizeof s - 1)
static int supported(int op) { return op <= 5 || (op >= 0x0b && op <= 0x13) || (op >= 0x1a && op <= 0x1c) || (op >= 0x20 && op <= 0x26) || (op >= 0x28 && op <= 0xc4) || (op >= 0xd0 && op <= 0xd2) || op == 0xfc; }
static void b_opcode(void) {
  int op = choose(256), sub = 0, imm = choose(4), where = choose(4); if (op != 0xfc && supported(op)) { mc_owned = 0; return; }
  if (op == 0xfc) { sub = choose(40); if (sub < 8 || sub == 10 || sub == 11 || (sub >= 14 && sub <= 17)) { mc_owned = 0; return; } } else if (op == 0xfd || op == 0xfe || op == 0xfb) sub = choose(256);
  int way = choose(2) ? W_NS : W_RAW; if (!mc_mine()) return; start(); ubegin(); US(1, "\2\x60\0\0\x60\1\x7f\1\x7f"); US(3, "\2\0\0"); US(4, "\1\x70\1\2\4"); US(5, "\1\1\1\2"); US(6, "\1\x7f\1\x41\5\x0b");
  uint8_t c[64]; int n = 0; c[n++] = 0; if (where == 0) { for (int i = 0; i < 3; i++) { c[n++] = 0x41; c[n++] = 1; } } else if (where == 1) c[n++] = 0; else if (where == 2) { c[n++] = 2; c[n++] = 0x40; c[n++] = 0x0c; c[n++] = 0; } else { c[n++] = 0x41; c[n++] = 0; c[n++] = 4; c[n++] = 0x40; c[n++] = 0x0f; }
  c[n++] = op; if (op >= 0xfb && op < 0xff && op != 0xff) { if (sub > 127) { c[n++] = sub | 128; c[n++] = 1; } else c[n++] = sub; } for (int i = 0; i < imm; i++) c[n++] = 0; if (where >= 2) c[n++] = 0x0b; if (where == 0) { for (int i = 0; i < 1; i++) c[n++] = 0x1a; } c[n++] = 0x0b;
  uint8_t s[100]; s[0] = 2; s[1] = n; memcpy(s + 2, c, n); memcpy(s + 2 + n, "\2\0\x0b", 3); usec(10, s, n + 5);
  sprintf(dbuf, "opcode 0x%02x %d with %d zero bytes of immediates, %s\n", op, sub, imm, where == 0 ? "in reachable code" : "in unreachable code");
  if (try_load(ub, un, way, NULL)) mc_fail("a module using an unsupported instruction was accepted"); mc_outcome(op * 4096 + sub * 16 + imm * 4 + where);
}
static int okt(int t) { return t >= 0x7c && t <= 0x7f || t == 0x70 || t == 0x6f; }
static void b_types(void) {
  int t = choose(128), at = choose(12), way = choose(2) ? W_NS : W_RAW; if (okt(t) || (at == 5 || at == 6 || at == 9) && (t == 0x40)) { mc_owned = 0; return; } if (!mc_mine()) return; start(); ubegin(); uint8_t q[64];
#define UB(id, ...) do { uint8_t z_[] = {__VA_ARGS__}; usec(id, z_, sizeof z_); } while (0)
  static const char *wn[] = {"parameter", "result", "local", "global", "imported global", "block", "if", "select", "table", "loop", "ref.null", "imported function's parameter"}; sprintf(dbuf, "value type 0x%02x as the type of a %s\n", t, wn[at]); struct pwart_symbol_resolver *rs = at == 4 || at == 11 ? &urs : NULL; if (rs) way = W_RAW;
  switch (at) {
  case 0: UB(1, 2, 0x60, 1, t, 0, 0x60, 0, 0); UB(3, 1, 0); UB(10, 1, 2, 0, 0x0b); break;
  case 1: UB(1, 1, 0x60, 0, 1, t); UB(3, 1, 0); UB(10, 1, 3, 0, 0, 0x0b); break;
  case 2: UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); UB(10, 1, 4, 1, 1, t, 0x0b); break;
  case 3: UB(6, 1, t, 0, 0x41, 0, 0x0b); break;
  case 4: UB(2, 1, 1, 'a', 1, 'b', 3, t, 0); break;
  case 5: UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); UB(10, 1, 6, 0, 2, t, 0, 0x0b, 0x0b); break;
  case 6: UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); UB(10, 1, 10, 0, 0x41, 0, 4, t, 0, 5, 0, 0x0b, 0x0b); break;
  case 7: UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); UB(10, 1, 13, 0, 0x41, 0, 0x41, 0, 0x41, 0, 0x1c, 1, t, 0x1a, 0x0b, 0x0b); ub[un - 14]--; break;
  case 8: UB(4, 1, t, 0, 1); break;
  case 9: UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); UB(10, 1, 6, 0, 3, t, 0, 0x0b, 0x0b); break;
  case 10: UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); UB(10, 1, 5, 0, 0xd0, t, 0x1a, 0x0b); break;
  case 11: UB(1, 1, 0x60, 2, 0x7f, t, 0); UB(2, 1, 1, 'a', 1, 'b', 0, 0); break;
  }
  if (try_load(ub, un, way, rs)) mc_fail("a module using an unsupported type was accepted"); (void)q; mc_outcome(t * 16 + at);
}
static void b_misc(void) {
  int w = choose(26), way = choose(NW); if (!mc_mine()) return; start(); ubegin(); static uint8_t big[70000]; int n = 0; struct pwart_symbol_resolver *rs = NULL; const char *what = "";
  switch (w) {
  case 0: what = "passive data segment"; UB(5, 1, 0, 1); UB(11, 1, 1, 2, 'a', 'b'); break;
  case 1: what = "shared memory without maximum / custom page size"; UB(5, 1, 8, 1, 0); break;
  case 2: what = "table with initialiser"; UB(4, 1, 0x40, 0, 0x70, 0, 1, 0xd0, 0x70, 0x0b); break;
  case 3: what = "table indexed by i64"; UB(4, 1, 0x70, 4, 1); break;
  case 4: what = "limits flag 0x10"; UB(5, 1, 0x10, 1); break;
  case 5: what = "recursive type group"; UB(1, 1, 0x4e, 1, 0x60, 0, 0); break;
  case 6: what = "structure type"; UB(1, 1, 0x5f, 1, 0x7f, 0); break;
  case 7: what = "array type"; UB(1, 1, 0x5e, 0x7f, 1); break;
  case 8: what = "tag import"; UB(1, 1, 0x60, 0, 0); UB(2, 1, 1, 'a', 1, 'b', 4, 0, 0); break;
  case 9: what = "tag export"; UB(1, 1, 0x60, 0, 0); UB(13, 1, 0, 0); UB(7, 1, 1, 'a', 4, 0); break;
  case 10: what = "other version"; ub[4] = 2; break;
  case 11: what = "component layer"; ub[4] = 0x0d; ub[6] = 1; break;
  case 12: what = "other magic"; ub[3] = 'n'; break;
  case 13: what = "256 parameters"; big[n++] = 1; big[n++] = 0x60; big[n++] = 0x80; big[n++] = 2; for (int i = 0; i < 256; i++) big[n++] = 0x7f; big[n++] = 0; usec(1, big, n); break;
  case 14: what = "1000 results"; big[n++] = 1; big[n++] = 0x60; big[n++] = 0; big[n++] = 0xe8; big[n++] = 7; for (int i = 0; i < 1000; i++) big[n++] = 0x7f; usec(1, big, n); break;
  case 15: what = "4294967295 locals"; UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); UB(10, 1, 8, 1, 0xff, 0xff, 0xff, 0xff, 0xf, 0x7f, 0x0b); break;
  case 16: what = "2 x 4294967295 locals"; UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); UB(10, 1, 14, 2, 0xff, 0xff, 0xff, 0xff, 0xf, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xf, 0x7e, 0x0b); break;
  case 17: what = "export name of 1000 bytes"; big[n++] = 1; big[n++] = 0xe8; big[n++] = 7; for (int i = 0; i < 1000; i++) big[n++] = 'x'; big[n++] = 2; big[n++] = 0; UB(5, 1, 0, 1); usec(7, big, n); break;
  case 18: what = "import name of 5000 bytes"; rs = &urs; big[n++] = 1; big[n++] = 0x88; big[n++] = 0x27; for (int i = 0; i < 5000; i++) big[n++] = 'x'; big[n++] = 1; big[n++] = 'f'; big[n++] = 3; big[n++] = 0x7f; big[n++] = 0; usec(2, big, n); break;
  case 19: what = "10000 values on the operand stack"; { UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); int body = 1 + 20000 + 10000 + 1; big[n++] = 1; leb5(big + n, body); n += 5; big[n++] = 0; for (int i = 0; i < 10000; i++) { big[n++] = 0x41; big[n++] = 1; } for (int i = 0; i < 10000; i++) big[n++] = 0x1a; big[n++] = 0x0b; usec(10, big, n); } break;
  case 20: what = "a constant expression that is too deep"; { big[n++] = 1; big[n++] = 0x7e; big[n++] = 0; for (int i = 0; i < 40; i++) { big[n++] = 0x42; big[n++] = 1; } for (int i = 0; i < 39; i++) big[n++] = 0x7c; big[n++] = 0x0b; usec(6, big, n); } break;
  case 21: what = "an unsupported instruction in a constant expression"; UB(6, 1, 0x7f, 0, 0xfd, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x0b); break;
  case 22: what = "a memory of 65536 pages with no memory to be had"; UB(5, 1, 0, 0x80, 0x80, 4); break;
  case 23: what = "a table of 4294967295 entries with no memory to be had"; UB(4, 1, 0x70, 0, 0xff, 0xff, 0xff, 0xff, 0xf); break;
  case 24: what = "block with a type index"; UB(1, 2, 0x60, 0, 0, 0x60, 0, 2, 0x7f, 0x7f); UB(3, 1, 0); UB(10, 1, 11, 0, 2, 1, 0x41, 1, 0x41, 2, 0x0b, 0x1a, 0x1a, 0x0b); break;
  case 25: what = "a function section without code"; UB(1, 1, 0x60, 0, 0); UB(3, 1, 0); break;
  }
  sprintf(dbuf, "%s, way %d\n", what, way); if (try_load(ub, un, rs ? W_RAW : way, rs)) mc_fail("%s: accepted", what); mc_outcome(w);
}
/* a function that cannot be compiled: the failure comes with blocks open, branches to them pending, in one of several functions */
static void b_midfn(void) {
  int d = choose(mc_thorough ? 5 : 4), kind[5], br[5], nf = 1 + choose(3), at = choose(nf), cause = choose(6), way = choose(2) ? W_NS : W_RAW; for (int i = 0; i < d; i++) { kind[i] = choose(4); br[i] = choose(4); }
  if (!mc_mine()) return; start(); ubegin(); US(1, "\1\x60\0\0"); uint8_t z[4] = {nf}; usec(3, z, nf + 1); static uint8_t s[2000]; int n = 0; s[n++] = nf;
  for (int k = 0; k < nf; k++) {
    static uint8_t c[1000]; int l = 0; c[l++] = 1; c[l++] = 3; c[l++] = 0x7f;
    for (int i = 0; i < d; i++) {
      if (kind[i] >= 2) { c[l++] = 0x20; c[l++] = 0; } c[l++] = kind[i] == 0 ? 2 : kind[i] == 1 ? 3 : 4; c[l++] = 0x40; if (kind[i] == 3) { c[l++] = 0x20; c[l++] = 1; c[l++] = 0x0d; c[l++] = 0; c[l++] = 5; }
      if (br[i] & 1) for (int t = 0; t <= i + 1; t++) { c[l++] = 0x20; c[l++] = 1; c[l++] = 0x0d; c[l++] = t; }
      if (br[i] & 2) { c[l++] = 2; c[l++] = 0x40; c[l++] = 0x20; c[l++] = 2; c[l++] = 0x0e; c[l++] = i + 1; for (int t = 0; t <= i + 1; t++) c[l++] = t; c[l++] = 0x0b; }
    }
    if (k == at) switch (cause) {
      case 0: for (int i = 0; i < 40; i++) { c[l++] = 0x41; c[l++] = 1; } for (int i = 0; i < 40; i++) c[l++] = 0x1a; break;
      case 1: for (int i = 0; i < 40; i++) { c[l++] = 0x20; c[l++] = 1; } for (int i = 0; i < 40; i++) c[l++] = 0x1a; break;
      case 2: c[l++] = 2; c[l++] = 0; c[l++] = 0x0b; break;               /* type index as block type */
      case 3: c[l++] = 0xfd; c[l++] = 12; for (int i = 0; i < 16; i++) c[l++] = 0; c[l++] = 0x1a; break;
      case 4: c[l++] = 0x27; break;
      case 5: l -= d ? 0 : 0; break; /* an end is missing */
    }
    for (int i = 0; i < d + (k == at && cause == 5 ? 0 : 1); i++) c[l++] = 0x0b;
    leb5(s + n, l); n += 5; memcpy(s + n, c, l); n += l;
  }
  usec(10, s, n);
  sprintf(dbuf, "%d functions, number %d fails (cause %d) with %d blocks open, way %d\n", nf, at, cause, d, way);
  if (try_load(ub, un, way, NULL)) { if (cause == 2) { mc_outcome(1); return; } mc_fail("accepted"); } mc_outcome(cause * 4096 + d * 16 + at);
}
/* ---- memory runs out: the storage of memories, the working memory of the code generator or executable memory ---- */
static void b_nomem(void) {
  int k = choose(NC), way = choose(NW), cls = choose(3), f = choose(mc_thorough ? 96 : 48); start(); int imp = corpus(k); if (imp && way != W_RAW && way != W_RAWEND) { mc_owned = 0; return; } if (!mc_mine()) return; static uint8_t b[8192]; int n = g_out.n; memcpy(b, g_out.p, n); if (n > 4000) mc_die("module size"); /* shorter than what fails */
  sprintf(dbuf, "module %d, way %d: %s number %d fails\n", k, way, cls == 0 ? "executable mapping" : cls == 1 ? "allocation of 4096 bytes or more" : "allocation of 65536 bytes or more", f); sljit_free_unused_memory_exec(); if (cls == 0) fill_exec();
  a_fail_min = cls == 1 ? 4096 : 65536; a_fail_at = cls ? f : -1; a_mmap_fail_at = cls ? -1 : f; oom_armed = 1; int acc = try_load(b, n, way, imp ? &host_rs : NULL); if (acc && oom_hit) mc_fail("a module was accepted although memory ran out while it was loaded"); if (!acc && !oom_hit) mc_fail("a good module was rejected"); mc_outcome(((k * 8 + way) * 4 + cls) * 128 + (acc ? 99 : f));
}
static struct mc_space sp[] = {
  {"prefixes", b_prefix, "every prefix of 6 modules that have every section x 6 ways of loading, the bytes ending or beginning at an inaccessible page"},
  {"short-sections", b_inner, "every section of the 6 modules cut after every byte, with and without the sections behind it"},
  {"unresolved", b_unres, "every list of 1..3 imports over 4 kinds x which one does not resolve x 6 ways of loading"},
  {"instructions", b_opcode, "every unsupported opcode and prefixed opcode x 0..3 bytes of immediates x reachable and unreachable positions"},
  {"types", b_types, "every unsupported type byte in 12 positions"},
  {"features", b_misc, "26 other unsupported features and exceeded limits x 6 ways of loading"},
  {"mid-function", b_midfn, "6 reasons why a function cannot be compiled x which of 1..3 functions x every nest of up to 3 (4) blocks, loops and ifs with branches to all labels"},
  {"no-memory", b_nomem, "6 modules x 6 ways of loading x each executable mapping, each allocation of at least 4096 bytes (the generator's working memory, memories) and each of at least 65536 bytes failing"}};
static const char *as[] = {"modules are prefixes of well-formed ones, unresolvable, or use features outside the supported set; ill-typed modules are not covered", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P16", "one execution = one attempt to load a bad module, with error text, bytes read, allocations returned and other modules checked; non-trivial = distinct bad modules", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
