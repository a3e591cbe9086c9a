/* P15 imports: what the resolver is asked, what the import is bound to, and who sees whose changes */
#include "num.h"
#include "host.h"
static char dbuf[4000]; static int dn;
static void describe(void) { mc_desc("%s", dbuf); describe_M(); }
/* ---- answers ---- */
#define NANS 6
static void fz(void *fp, int k) { *(int32_t *)fp = 100 + k; }
static void f0(void *fp) { fz(fp, 0); } static void f1(void *fp) { fz(fp, 1); } static void f2(void *fp) { fz(fp, 2); } static void f3(void *fp) { fz(fp, 3); } static void f4(void *fp) { fz(fp, 4); } static void f5(void *fp) { fz(fp, 5); }
static void (*afn[NANS])(void *) = {f0, f1, f2, f3, f4, f5};
static struct pwart_wasm_table atab[NANS]; static void *aent[NANS][16]; static struct pwart_wasm_memory amem[NANS]; static uint8_t abytes[NANS][65536]; static uint64_t aglob[NANS];
static void *answer(int kind, int k) {
  switch (kind) {
  case 0: return pwart_wrap_host_function_c(afn[k]);
  case 1: memset(&atab[k], 0, sizeof atab[k]); atab[k].elem_type = FREF; atab[k].size = atab[k].initial = atab[k].maximum = 3 + k; atab[k].entries = aent[k]; return &atab[k];
  case 2: memset(&amem[k], 0, sizeof amem[k]); amem[k].initial = amem[k].pages = 1; amem[k].maximum = 1; amem[k].fixed = k & 1; amem[k].bytes = abytes[k]; abytes[k][7] = 40 + k; return &amem[k];
  default: aglob[k] = 70 + k; return &aglob[k];
  }
}
static int expect_val(int kind, int k) { return kind == 0 ? 100 + k : kind == 1 ? 3 + k : kind == 2 ? 40 + k : 70 + k; }
/* ---- the request log ---- */
static struct { char mod[2100], field[2100]; int kind; } rq[8]; static int nrq; static int bad_at, same_ans; static int rkinds[4];
static void on_request(const char *mod, const char *field, struct pwart_symbol_resolve_request *q) {
  if (nrq >= 8) mc_fail("too many requests");
  if (strlen(mod) > 2000 || strlen(field) > 2000) mc_fail("a requested name is longer than any import name");
  strcpy(rq[nrq].mod, mod); strcpy(rq[nrq].field, field); rq[nrq].kind = q->kind;
  int k = same_ans ? 0 : nrq; nrq++;
  if (nrq - 1 == bad_at) { q->result = NULL; return; }
  q->result = q->kind < 4 ? answer(q->kind, k) : NULL;
}
static void rs_log(struct pwart_symbol_resolver *rs, struct pwart_symbol_resolve_request *q) { on_request(q->import_module, q->import_field, q); }
static struct pwart_symbol_resolver logger = {rs_log};
struct hm { struct pwart_host_module b; const char *name; };
static void hm_resolve(struct pwart_host_module *h, struct pwart_symbol_resolve_request *q) { if (strcmp(((struct hm *)h)->name, q->import_module)) mc_fail("host module '%.40s' was asked for a symbol of module '%.40s'", ((struct hm *)h)->name, q->import_module); on_request(q->import_module, q->import_field, q); }
static void expect_requests(int n) {
  if (nrq != n) mc_fail("the resolver was asked %d times, must be %d", nrq, n);
  for (int i = 0; i < n; i++) { Imp *p = &M.imp[i];
    if (strcmp(rq[i].mod, p->mod)) mc_fail("request %d names module '%.60s', the import names '%.60s'", i, rq[i].mod, p->mod);
    if (strcmp(rq[i].field, p->field)) mc_fail("request %d names field '%.60s', the import names '%.60s'", i, rq[i].field, p->field);
    if (rq[i].kind != p->kind) mc_fail("request %d asks for kind %d, the import is of kind %d", i, rq[i].kind, p->kind); }
}
static const char *cn[12] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"}, *xn[12] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"};
/* n imports are in M; add, for each of them, an export and a function that uses it, plus module-defined items of each kind */
static void use_imports(int v) {
  int cnt[4] = {0}, n = M.nimp, tot[4]; for (int k = 0; k < 4; k++) tot[k] = mod_nimpk(&M, k);
  M.tab[M.ntab++] = (Tab){FREF, 12, 12, 1}; M.mem[M.nmem++] = (Mem){1, 1, 1, 0}; Glob *g = &M.glob[M.nglob++]; memset(g, 0, sizeof *g); g->vt = I32; g->nins = 1; g->ins[0].op = KI32; g->ins[0].a = 999;
  for (int i = 0; i < n + 4; i++) {
    int k = i < n ? M.imp[i].kind : i - n, x = i < n ? cnt[k]++ : tot[k]; Fn *f = mod_fn(&M, v);
    if (k == 0) { if (i < n) E1(f, CALL, x); else E1(f, KI32, 998); } else if (k == 1) E1(f, TSIZE, x); else if (k == 2) { E1(f, KI32, 7); emit_mem(f, 0x2d, 0, x); } else E1(f, GGET, x);
    mod_exp(&M, cn[i], 0, tot[0] + i); if (i < n) mod_exp(&M, xn[i], k, x);
  }
}
static void *get_exp(pwart_module_state st, const char *n, int kind) { return kind == 0 ? pwart_get_export_function(st, n) : kind == 1 ? (void *)pwart_get_export_table(st, n) : kind == 2 ? (void *)pwart_get_export_memory(st, n) : pwart_get_export_global(st, n); }
static int call0(void *fn) { FT t = {0, 1, {0}, {I32}}; V r; call_real(fn, &t, NULL, &r); return (int32_t)r.b; }
static void check_bound(pwart_module_state st, int n) {
  for (int i = 0; i < n; i++) {
    int kind = M.imp[i].kind, k = same_ans ? 0 : i; void *w = answer(kind, k), *g = get_exp(st, xn[i], kind);
    if (g != w) mc_fail("re-exported import %d is %p, the resolver answered %p", i, g, w);
    void *c = pwart_get_export_function(st, cn[i]); if (!c) mc_fail("export %s missing", cn[i]);
    int r = call0(c); if (r != expect_val(kind, k)) mc_fail("using import %d gives %d, the item the resolver answered gives %d", i, r, expect_val(kind, k));
  }
  static const int own[4] = {998, 12, 0, 999};
  for (int k = 0; k < 4; k++) { int r = call0(pwart_get_export_function(st, cn[n + k])); if (r != own[k]) mc_fail("the module's own item of kind %d gives %d, must be %d", k, r, own[k]); }
}
static pwart_module_state load_ns(pwart_namespace ns, char **e) { mod_encode(&M, &g_out); uint8_t *c = malloc(g_out.n); memcpy(c, g_out.p, g_out.n); *e = NULL; pwart_module_state s = (pwart_module_state)pwart_namespace_define_wasm_module(ns, "the module", (char *)c, g_out.n, e); memset(c, 0xee, g_out.n); free(c); return s; }
/* ---- every import list ---- */
static const char *mn[] = {"m", "", "mm", "n"}, *fln[] = {"f", "", "ff"};
static void lists(int n, int nm, int nf) {
  int kind[6], a[6], b[6];
  for (int i = 0; i < n; i++) { kind[i] = choose(4); a[i] = choose(nm); b[i] = choose(nf); }
  int how = choose(4); bad_at = choose(n + 1) - 1; same_ans = how & 1;
  if (!mc_mine()) return;
  set_cfg(1, 3); mod_reset(&M); int v = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32}); dn = sprintf(dbuf, "%s; answer %s; unresolved import: %d\n", how < 2 ? "own resolver" : "namespace with one host module per module name", same_ans ? "the same item of each kind" : "a new item for each request", bad_at);
  for (int i = 0; i < n; i++) { Imp *p = mod_imp(&M, kind[i], mn[a[i]], fln[b[i]]); p->type = v; p->vt = kind[i] == 1 ? FREF : I32; p->mut = 0; p->min = kind[i] == 1 ? 2 : 1; }
  use_imports(v); mc_describe_cb = describe; mc_predesc(); nrq = 0; char *e = NULL; pwart_module_state st; pwart_namespace ns = NULL; static struct hm h[4];
  if (how < 2) st = real_load(&M, &logger, &e);
  else { ns = pwart_namespace_new(); for (int i = 0; i < nm; i++) { memset(&h[i], 0, sizeof h[i]); h[i].b.resolve = hm_resolve; h[i].name = mn[i]; pwart_namespace_define_host_module(ns, mn[i], &h[i].b); } st = load_ns(ns, &e); }
  if (bad_at >= 0) { if (st) mc_fail("a module with an unresolved import was accepted"); if (!e || !*e) mc_fail("no error text"); if (nrq < bad_at + 1) mc_fail("only %d requests", nrq); int k = nrq; nrq = bad_at + 1; expect_requests(bad_at + 1); nrq = k; if (ns) pwart_namespace_delete(ns); mc_outcome(1); return; }
  if (!st) mc_fail("rejected: %s", e); expect_requests(n); check_bound(st, n);
  if (ns) pwart_namespace_delete(ns); else pwart_free_module_state(st);
  uint64_t o = how; for (int i = 0; i < n; i++) o = o * 53 + kind[i] * 12 + a[i] * 3 + b[i]; mc_outcome(o);
}
static void b_l1(void) { lists(1, 4, 3); }
static void b_l2(void) { lists(2, 3, 2); }
static void b_l3(void) { lists(3, mc_thorough ? 3 : 2, mc_thorough ? 3 : 2); }
static void b_l4(void) { lists(4, 2, mc_thorough ? 2 : 1); }
/* ---- names ---- */
static const int nl[] = {0, 1, 2, 60, 127, 128, 129, 200, 248, 249, 250, 251, 252, 255, 256, 257, 300, 400, 490, 497, 498, 499, 500, 501, 502, 510, 511, 512, 513, 514, 600, 1000, 2000};
static void b_names(void) {
  int a = choose_from(nl), b = choose_from(nl), pat = choose(4), pos = choose(2), kind = choose(mc_thorough ? 4 : 2) * (mc_thorough ? 1 : 3); if (!mc_mine()) return;
  static char A[2100], B[2100]; for (int i = 0; i < a; i++) A[i] = pat == 0 ? 'a' : pat == 1 ? 1 + i % 255 : pat == 2 ? "\xc3\xa9"[i & 1] : 'a' + i % 26; A[a] = 0; for (int i = 0; i < b; i++) B[i] = pat == 0 ? 'b' : pat == 1 ? 255 - i % 255 : pat == 2 ? "\xf0\x9f\x98\x80"[i & 3] : 'z' - i % 26; B[b] = 0;
  set_cfg(1, 3); mod_reset(&M); int v = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32}); bad_at = -1; same_ans = 0; nrq = 0; dn = sprintf(dbuf, "module name of %d bytes, field name of %d bytes, pattern %d\n", a, b, pat);
  for (int i = 0; i < 2; i++) { Imp *p = i == pos ? mod_imp(&M, kind, A, B) : mod_imp(&M, 0, "other", "x"); p->type = v; p->vt = kind == 1 ? FREF : I32; p->min = 1; }
  use_imports(v); mc_describe_cb = describe; mc_predesc(); char *e = NULL; pwart_module_state st = real_load(&M, &logger, &e);
  if (a + b <= 490 && !st) mc_fail("rejected: %s", e);
  if (!st) { if (!e || !*e) mc_fail("no error text"); mc_outcome(1); return; }

  expect_requests(2); check_bound(st, 2); pwart_free_module_state(st); mc_outcome(a * 3001 + b);
}
/* ---- import types: limits that the answered item satisfies or not; types of globals ---- */
static void b_types(void) {
  static const uint32_t mins[] = {0, 1, 2, 3, 4, 5, 127, 128, 65535, 0x7fffffff, 0xffffffffu};
  int kind = 1 + choose(2), mi = choose(11), have = choose(5), cap = choose(4), hasmax = choose(2), grown = choose(5); if (grown > have) { mc_owned = 0; return; } if (cap < have && cap != 3) { mc_owned = 0; return; } if (!mc_mine()) return;
  uint32_t min = mins[mi], maxi = cap == 3 ? have : cap == 2 ? 4 : have + cap; set_cfg(1, 3); mod_reset(&M); int v = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32}); dn = sprintf(dbuf, "import wants at least %u, item was created with %d, has %d of at most %u\n", min, have - grown, have, maxi);
  static struct pwart_wasm_table t; static struct pwart_wasm_memory m; static void *ents[16]; static uint8_t *by; if (!by) by = calloc(16, 65536);
  t = (struct pwart_wasm_table){FREF, have - grown, maxi, have, ents}; m = (struct pwart_wasm_memory){have - grown, maxi, have, by, 1};
  Imp *p = mod_imp(&M, kind, "h2", "x"); p->vt = FREF; p->min = min; p->hasmax = hasmax; p->max = min > 100 ? min : 100; Fn *f = mod_fn(&M, v); E1(f, kind == 1 ? TSIZE : MSIZE, 0); mod_exp(&M, "c0", 0, 0); mod_exp(&M, "x0", kind, 0);
  mc_describe_cb = describe; mc_predesc(); const char *nm[] = {"x"}; void *sy[] = {kind == 1 ? (void *)&t : (void *)&m}; struct pwart_host_module *hm = pwart_namespace_new_host_module2(nm, sy, 1); pwart_namespace ns = pwart_namespace_new(); pwart_namespace_define_host_module(ns, "h2", hm); char *e; pwart_module_state st = load_ns(ns, &e);
  if (min <= (uint32_t)have && !st) mc_fail("rejected although the item is large enough: %s", e);
  if (min > maxi && st) mc_fail("accepted although the item can never be large enough");
  if (!st && (!e || !*e)) mc_fail("no error text");
  if (st) { int r = call0(pwart_get_export_function(st, "c0")); if (r != have) mc_fail("size is %d, must be %d", r, have); if (get_exp(st, "x0", kind) != sy[0]) mc_fail("re-export differs"); }
  pwart_namespace_delete(ns); pwart_namespace_delete_host_module(hm); mc_outcome(st ? min : 999);
}
static void b_globals(void) {
  int n = 1 + choose(3), ty[3], mu[3]; static const uint8_t T[] = {I32, I64, F32, F64, FREF, XREF}; for (int i = 0; i < n; i++) { ty[i] = T[choose(6)]; mu[i] = choose(2); } int base = choose(3); if (!mc_mine()) return;
  set_cfg(1, 3); mod_reset(&M); dn = sprintf(dbuf, "globals\n"); static uint8_t buf[64] __attribute__((aligned(16))); static void *gp[3]; memset(buf, 0x3c, sizeof buf); static const char *nm[] = {"a", "b", "c"};
  for (int i = 0; i < n; i++) { Imp *p = mod_imp(&M, 3, "h", nm[i]); p->vt = ty[i]; p->mut = mu[i]; gp[i] = buf + 8 + 8 * i + (tsize(ty[i]) == 4 ? 4 * (base == 2) : 0); }
  for (int i = 0; i < n; i++) { uint8_t q = ty[i]; int g = mod_ft(&M, 0, 0, 1, &q), s = mod_ft(&M, 1, &q, 0, 0); Fn *f = mod_fn(&M, g); E1(f, GGET, i); f = mod_fn(&M, s); if (mu[i]) { E1(f, LGET, 0); E1(f, GSET, i); } mod_exp(&M, cn[2 * i], 0, 2 * i); mod_exp(&M, cn[2 * i + 1], 0, 2 * i + 1); }
  mc_describe_cb = describe; mc_predesc(); struct pwart_host_module *hm = pwart_namespace_new_host_module2(nm, gp, n); pwart_namespace ns = pwart_namespace_new(); pwart_namespace_define_host_module(ns, "h", hm); char *e; pwart_module_state st = load_ns(ns, &e); if (!st) mc_fail("rejected: %s", e);
  uint8_t want[64]; memcpy(want, buf, 64);
  for (int round = 0; round < 2; round++) for (int i = 0; i < n; i++) { int sz = tsize(ty[i]); uint64_t x = 0x0123456789abcdefull * (i + 1 + 3 * round); if (base == 1) x |= 0x8000000080000000ull;
    memcpy(gp[i], &x, sz); memcpy(want + ((uint8_t *)gp[i] - buf), &x, sz); FT t = M.ft[2 * i]; V r; call_real(pwart_get_export_function(st, cn[2 * i]), &t, NULL, &r); if (memcmp(&r.b, &x, sz)) mc_fail("global %d read through the module is 0x%llx, the host stored 0x%llx", i, (unsigned long long)r.b, (unsigned long long)x);
    if (mu[i]) { x = ~x; V a = mk(ty[i], x); FT u = M.ft[2 * i + 1]; call_real(pwart_get_export_function(st, cn[2 * i + 1]), &u, &a, NULL); memcpy(want + ((uint8_t *)gp[i] - buf), &x, sz); }
    if (memcmp(buf, want, 64)) mc_fail("the host sees other bytes than the module stored to global %d", i); }
  pwart_namespace_delete(ns); pwart_namespace_delete_host_module(hm); mc_outcome(ty[0] * 1000 + n);
}
/* ---- built-in symbols ---- */
static int ans_builtin; static void rs_b(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { nrq++; q->result = ans_builtin == 2 ? answer(q->kind, 1) : NULL; }
static struct pwart_symbol_resolver brs = {rs_b};
static void b_builtin(void) {
  int n; struct pwart_named_symbol *b = pwart_get_builtin_symbols(&n); int w = choose(n + 3), kind = choose(4), modn = choose(5); ans_builtin = choose(4); if (!mc_mine()) return; /* 0 no resolver, 1 answers nothing, 2 answers, 3 namespace */
  static const char *bm[] = {"pwart_builtin", "pwart_builtins", "pwart_builti", "Pwart_builtin", ""}; const char *fn = w < n ? b[w].name : w == n ? "no_such" : w == n + 1 ? "" : "version2"; int have = w < n && modn == 0 && b[w].kind == kind;
  set_cfg(1, 3); mod_reset(&M); int v = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32}); Imp *p = mod_imp(&M, kind, bm[modn], fn); p->type = v; p->vt = kind == 1 ? FREF : I32; p->min = 0; mod_exp(&M, "x0", kind, 0); Fn *f = mod_fn(&M, v); E1(f, KI32, 1); dn = sprintf(dbuf, "import %s.%s of kind %d, mode %d\n", bm[modn], fn, kind, ans_builtin);
  mc_describe_cb = describe; mc_predesc(); nrq = 0; char *e = NULL; pwart_module_state st; pwart_namespace ns = NULL;
  if (ans_builtin == 3) { ns = pwart_namespace_new(); st = load_ns(ns, &e); } else st = real_load(&M, ans_builtin == 0 ? NULL : &brs, &e);
  if (ans_builtin == 1 || ans_builtin == 2) if (nrq != 1) mc_fail("the resolver was asked %d times", nrq);
  if (ans_builtin == 2) { if (!st) mc_fail("rejected: %s", e); if (get_exp(st, "x0", kind) != answer(kind, 1)) mc_fail("the resolver's answer was not used"); }
  else if (have) { if (!st) mc_fail("rejected: %s", e); void *want = kind == 0 ? (void *)b[w].val.fn : (void *)b[w].val.mem; if (get_exp(st, "x0", kind) != want) mc_fail("bound to another built-in symbol"); }
  else { if (st) mc_fail("an import that nothing offers was accepted"); if (!e || !*e) mc_fail("no error text"); }
  if (ns) pwart_namespace_delete(ns); else if (st) pwart_free_module_state(st); mc_outcome(w * 100 + kind * 10 + ans_builtin);
}
/* ---- sharing: owner A, importer B, C importing B's re-exports, and the host ---- */
static pwart_module_state S[3]; static const char *SN[3] = {"A", "B", "C"};
static void rs_share(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { for (int i = 0; i < 3; i++) if (!strcmp(q->import_module, SN[i]) && S[i]) { q->result = get_exp(S[i], q->import_field, q->kind); return; } q->result = NULL; }
static struct pwart_symbol_resolver srs = {rs_share};
static int fixedmem;
enum { X_LD, X_ST, X_GR, X_SZ, X_GG, X_GS, X_TC, X_TS, X_TN, X_TZ, X_FI, X_CP, X_MIX, X_MIX2, X_TF, X_G2, X_S2, NX };
static const char *XN[NX] = {"ld", "st", "gr", "sz", "gg", "gs", "tc", "ts", "tn", "tz", "fi", "cp", "mix", "mix2", "tf", "g2", "s2"};
static const uint8_t i32x4[4] = {I32, I32, I32, I32}, t64[1] = {I64};
static void gen_share(int who) {
  mod_reset(&M); const char *from = who ? SN[who - 1] : ""; int t0 = mod_ft(&M, 0, 0, 1, i32x4), t1 = mod_ft(&M, 1, i32x4, 1, i32x4), t2 = mod_ft(&M, 2, i32x4, 0, 0), t3 = mod_ft(&M, 3, i32x4, 0, 0), g0 = mod_ft(&M, 0, 0, 1, t64), g1 = mod_ft(&M, 1, t64, 0, 0), t11 = mod_ft(&M, 1, i32x4, 0, 0);
  int fb = 0, igr = -1, ist = -1, itn = -1; Imp *p;
  if (who) {
    p = mod_imp(&M, 0, from, "gr"); p->type = t1; igr = fb++; p = mod_imp(&M, 2, from, "m"); p->min = 1; p = mod_imp(&M, 0, from, "st"); p->type = t2; ist = fb++; p = mod_imp(&M, 3, from, "g"); p->vt = I64; p->mut = 1; p = mod_imp(&M, 1, from, "t"); p->vt = FREF; p->min = 2; p = mod_imp(&M, 0, from, "tn"); p->type = t11; itn = fb++; p = mod_imp(&M, 3, from, "h"); p->vt = F32; p->mut = 1;
  } else { M.tab[M.ntab++] = (Tab){FREF, 5, 5, 1}; M.mem[M.nmem++] = (Mem){1, 4, fixedmem, 0}; for (int i = 0; i < 2; i++) { Glob *g = &M.glob[M.nglob++]; memset(g, 0, sizeof *g); g->vt = i ? F32 : I64; g->mut = 1; g->nins = 1; g->ins[0].op = i ? KF32 : KI64; g->ins[0].a = i ? (int64_t)f32b(1.5) : 500; } }
  Fn *f; int fi[NX];
#define FN(x, ty) f = mod_fn(&M, ty), fi[x] = fb + M.nfn - 1, mod_exp(&M, XN[x], 0, fi[x])
  f = mod_fn(&M, t0); E1(f, KI32, 31 + who); int kf = fb; /* the function every module puts into the table */
  Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->noff = 1; e->off[0].op = KI32; e->off[0].a = who; e->n = 2; e->fidx[0] = e->fidx[1] = kf;
  Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->noff = 1; d->off[0].op = KI32; d->off[0].a = 2 * who; d->n = 3; for (int k = 0; k < 3; k++) d->bytes[k] = 10 * (who + 1) + k;
  FN(X_LD, t1); E1(f, LGET, 0); emit_mem(f, 0x2d, 0, 0);
  FN(X_ST, t2); E1(f, LGET, 0); E1(f, LGET, 1); emit_mem(f, 0x3a, 0, 0);
  FN(X_GR, t1); E1(f, LGET, 0); E1(f, MGROW, 0);
  FN(X_SZ, t0); E1(f, MSIZE, 0);
  FN(X_GG, g0); E1(f, GGET, 0);
  FN(X_GS, g1); E1(f, LGET, 0); E1(f, GSET, 0);
  FN(X_TC, t1); E1(f, LGET, 0); E2(f, CALL_IND, t0, 0);
  FN(X_TN, t11); E1(f, LGET, 0); E1(f, REFNULL, FREF); E1(f, TSET, 0);
  FN(X_FI, t3); E1(f, LGET, 0); E1(f, LGET, 1); E1(f, LGET, 2); E1(f, MFILL, 0);
  FN(X_TZ, t1); E1(f, LGET, 0); E1(f, TGET, 0); E0(f, REFISNULL);
  /* mix(a): remember a byte, let the module imported from grow and store, then store and sum through this one */
  FN(X_MIX, t1); f->nloc = 0;
  E1(f, LGET, 0); emit_mem(f, 0x2d, 0, 0); E1(f, KI32, 1); if (who) E1(f, CALL, igr); else E1(f, MGROW, 0); E0(f, DROP); E1(f, LGET, 0); E1(f, KI32, 77 + who); if (who) E1(f, CALL, ist); else emit_mem(f, 0x3a, 0, 0); E1(f, LGET, 0); emit_mem(f, 0x2d, 0, 0); E1(f, KI32, 100); E0(f, 0x6c); E0(f, 0x6a); E1(f, LGET, 0); E1(f, LGET, 0); emit_mem(f, 0x2d, 0, 0); E1(f, KI32, 3); E0(f, 0x6a); emit_mem(f, 0x3a, 0, 0);
  mod_exp(&M, "m", 2, 0); mod_exp(&M, "g", 3, 0); mod_exp(&M, "t", 1, 0); mod_exp(&M, "h", 3, 1); (void)itn;
#undef FN
}
static struct { uint8_t b[12 * 65536]; int pages; uint64_t g; int t[5]; } N; /* the model: one memory, one global, one table (owner of the entry's function, -1 null) */
static uint64_t xc(int who, int x, int np, const uint32_t *a, int nr) { FT t = {np, nr, {I32, I32, I32, I32}, {I32}}; V v[4], r; for (int i = 0; i < np; i++) v[i] = mk(I32, a[i]); void *fn = pwart_get_export_function(S[who], XN[x]); if (!fn) mc_fail("export %s of %s missing", XN[x], SN[who]); call_real(fn, &t, v, &r); return nr ? (uint32_t)r.b : 0; }
static const uint32_t pa[] = {0, 3, 65535};
static const int nobs = 4; static const uint32_t obs[] = {0, 3, 4, 65535};
static void observe(void) {
  struct pwart_wasm_memory *m0 = pwart_get_export_memory(S[0], "m"); struct pwart_wasm_table *tb = pwart_get_export_table(S[0], "t"); uint64_t *gp = pwart_get_export_global(S[0], "g");
  for (int w = 1; w < 3; w++) if (pwart_get_export_memory(S[w], "m") != m0 || pwart_get_export_table(S[w], "t") != tb || pwart_get_export_global(S[w], "g") != gp || pwart_get_export_global(S[w], "h") != pwart_get_export_global(S[0], "h")) mc_fail("module %s exports other objects than the ones it imported", SN[w]);
  if ((int)m0->pages != N.pages) mc_fail("the host sees %u pages, must be %d", m0->pages, N.pages); if (memcmp(m0->bytes, N.b, 65536)) { int i = 0; while (m0->bytes[i] == N.b[i]) i++; mc_fail("the host sees 0x%02x at %d, must be 0x%02x", m0->bytes[i], i, N.b[i]); }
  if (memcmp(m0->bytes + 65536, N.b + 65536, (N.pages - 1) * 65536)) mc_fail("grown pages differ"); if (*gp != N.g) mc_fail("the host sees global %lld, must be %lld", (long long)*gp, (long long)N.g);
  for (int w = 0; w < 3; w++) {
    for (int i = 0; i < nobs; i++) { uint32_t r = xc(w, X_LD, 1, &obs[i], 1); if (r != N.b[obs[i]]) mc_fail("module %s sees %u at %u, must be %u", SN[w], r, obs[i], N.b[obs[i]]); }
    uint32_t last = N.pages * 65536 - 1, r = xc(w, X_LD, 1, &last, 1); if (r != N.b[last]) mc_fail("module %s sees %u at %u, must be %u", SN[w], r, last, N.b[last]);
    if ((r = xc(w, X_SZ, 0, 0, 1)) != (uint32_t)N.pages) mc_fail("module %s sees %u pages, must be %d", SN[w], r, N.pages);
    FT t = {0, 1, {0}, {I64}}; V q; call_real(pwart_get_export_function(S[w], "gg"), &t, 0, &q); if (q.b != N.g) mc_fail("module %s sees global %lld, must be %lld", SN[w], (long long)q.b, (long long)N.g);
    for (uint32_t i = 0; i < 5; i++) { r = xc(w, X_TZ, 1, &i, 1); if ((int)r != (N.t[i] < 0)) mc_fail("module %s sees entry %u %s", SN[w], i, r ? "null" : "not null"); if (N.t[i] >= 0 && (r = xc(w, X_TC, 1, &i, 1)) != 31 + (uint32_t)N.t[i]) mc_fail("module %s: calling table entry %u returns %u, must return %u", SN[w], i, r, 31 + N.t[i]); }
  }
}
static int m_grow(int n) { if (N.pages + n > (fixedmem ? 4 : 12)) return -1; int o = N.pages; memset(N.b + 65536 * o, 0, 65536 * n); N.pages += n; return o; }
static void share_(int depth) {
  fixedmem = choose(2); int via = choose(2), nop = 3 * 10 + 4, ops[6], dup = choose(2); for (int i = 0; i < depth; i++) ops[i] = choose(nop);
  if (!mc_mine()) return;
  set_cfg(1, 3); dn = sprintf(dbuf, "%s memory, %s, steps:", fixedmem ? "fixed" : "growable", via ? "namespace" : "own resolver"); for (int i = 0; i < depth; i++) dn += ops[i] < 30 ? sprintf(dbuf + dn, " %s.%d", SN[ops[i] / 10], ops[i] % 10) : sprintf(dbuf + dn, " host.%d", ops[i] - 30); sprintf(dbuf + dn, "\n"); mc_describe_cb = describe; mc_predesc();
  memset(S, 0, sizeof S); pwart_namespace ns = via ? pwart_namespace_new() : NULL;
  for (int i = 0; i < 3; i++) { gen_share(i); char *e = NULL; if (via) { mod_encode(&M, &g_out); S[i] = (pwart_module_state)pwart_namespace_define_wasm_module(ns, SN[i], (char *)g_out.p, g_out.n, &e); } else S[i] = real_load(&M, &srs, &e); if (!S[i]) mc_fail("module %s rejected: %s", SN[i], e); }
  memset(N.b, 0, sizeof N.b); for (int w = 0; w < 3; w++) for (int k = 0; k < 3; k++) N.b[2 * w + k] = 10 * (w + 1) + k; N.pages = 1; N.g = 500; N.t[0] = 0; N.t[1] = 1; N.t[2] = N.t[3] = 2; N.t[4] = -1;
  observe();
  for (int s = 0; s < depth; s++) {
    if (ops[s] < 30) {
      int w = ops[s] / 10; uint32_t a[3];
      switch (ops[s] % 10) {
      case 0: case 1: case 2: a[0] = pa[ops[s] % 10]; a[1] = 60 + 7 * s + w; xc(w, X_ST, 2, a, 0); N.b[a[0]] = a[1]; break;
      case 3: case 4: { a[0] = ops[s] % 10 == 3 ? 1 : 2; int before = N.pages, want = m_grow(a[0]); uint32_t r = xc(w, X_GR, 1, a, 1); if (fixedmem && r == 0xffffffffu && want >= 0) N.pages = before; else if (r != (uint32_t)want) { if (r == 0xffffffffu && want >= 0) mc_fail("%s: memory.grow(%u) of %d pages failed although the maximum is 4", SN[w], a[0], before); if (want < 0 && !fixedmem) { mc_die("pages"); } mc_fail("%s: memory.grow(%u) returned %u, must return %d", SN[w], a[0], r, want); } break; }
      case 5: { FT t = {1, 0, {I64}, {0}}; V v = mk(I64, 7000000000ull * (s + 1) + w); call_real(pwart_get_export_function(S[w], "gs"), &t, &v, 0); N.g = v.b; break; }
      case 6: case 7: a[0] = ops[s] % 10 == 6 ? 0 : 2; xc(w, X_TN, 1, a, 0); N.t[a[0]] = -1; break;
      case 8: a[0] = 2; a[1] = 90 + w; a[2] = 5; xc(w, X_FI, 3, a, 0); memset(N.b + 2, 90 + w, 5); break;
      case 9: { a[0] = 3; int o = N.b[3], want, before = N.pages; want = m_grow(1); N.b[3] = 77 + w; uint32_t r = xc(w, X_MIX, 1, a, 1); (void)want; if (r != (uint32_t)(o + 100 * (77 + w))) mc_fail("%s: loading before and after a call that grows and stores gives %u, must be %d", SN[w], r, o + 100 * (77 + w)); N.b[3] += 3; int now = pwart_get_export_memory(S[0], "m")->pages; if (now == before && fixedmem) N.pages = before; break; }
      }
    } else {
      struct pwart_wasm_memory *m = pwart_get_export_memory(S[2], "m"); struct pwart_wasm_table *t = pwart_get_export_table(S[1], "t"); uint64_t *g = pwart_get_export_global(S[2], "g");
      switch (ops[s] - 30) {
      case 0: m->bytes[3] = N.b[3] = 200 + s; break;
      case 1: *g = N.g = 0xfedcba9876543210ull + s; break;
      case 2: t->entries[4] = t->entries[3]; N.t[4] = N.t[3]; break;
      case 3: t->entries[0] = NULL; N.t[0] = -1; break;
      }
    }
    if (s == depth - 1 || dup) observe();
  }
  g_outh = N.pages + N.g * 3; for (int i = 0; i < 5; i++) g_outh = g_outh * 7 + N.t[i] + 1; g_outh = mc_hash(g_outh, N.b, 8);
  if (ns) pwart_namespace_delete(ns); else for (int i = 0; i < 3; i++) pwart_free_module_state(S[i]); mc_outcome(g_outh);
}
static void b_sh2(void) { share_(2); }
static void b_sh3(void) { share_(3); }
static struct mc_space sp[] = {
  {"one-import", b_l1, "every import of 4 kinds x 4 module x 3 field names x own resolver/namespace, resolved or not"},
  {"two-imports", b_l2, "every list of 2 over 4 kinds x 3 x 2 names x which import is unresolved x own resolver/namespace x fresh/aliased answers"},
  {"three-imports", b_l3, "every list of 3 over 4 kinds x 2 x 2 (3 x 3) names, same options"},
  {"four-imports", b_l4, "every list of 4 over 4 kinds x 2 module names (x 2 field names), same options"},
  {"names", b_names, "module name length x field name length over 33 lengths each, 4 byte patterns, up to and beyond the documented limit"},
  {"limits", b_types, "table and memory imports: required minimum x original size x present size x maximum of the answered item"},
  {"globals", b_globals, "every list of 1..3 imported globals over 6 types x mutability, both directions"},
  {"builtins", b_builtin, "every built-in symbol and 3 unknown names x 4 kinds x 5 module names x no resolver, silent resolver, answering resolver, namespace"},
  {"sharing", b_sh2, "owner, importer, importer of the re-export and host: every history of 2 operations out of 34, fixed/growable memory, own resolver/namespace, everyone observes"},
  {"sharing-3", b_sh3, "every history of 3 operations"}};
static const char *as[] = {"names without NUL", "operations stay inside the current memory and table", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P15", "one execution = one module or three linked ones; every resolver request, binding and view of shared state compared; non-trivial = distinct bindings or states", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
