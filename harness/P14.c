/* P14 instantiation: segments, exports, start function */
#include "num.h"
#include "host.h"
static void *imps[16];
static struct pwart_wasm_table x_tab; static struct pwart_wasm_memory x_mem; static void *x_ent[4 + 8]; static uint64_t m_ent[16]; static uint64_t x_gl[4]; static V m_gl[4]; static RTab m_tab; static RMem m_mem; static uint8_t m_bytes[4 * 65536]; static uint8_t *x_bytes;
static void *res_x(const char *mod, const char *field, int kind) {
  if (strcmp(mod, "env")) return NULL;
  if (kind == PWART_KIND_TABLE && !strcmp(field, "t")) return &x_tab;
  if (kind == PWART_KIND_MEMORY && !strcmp(field, "m")) return &x_mem;
  if (kind == PWART_KIND_GLOBAL && field[0] == 'g') return &x_gl[field[1] - '0'];
  return NULL;
}
static const char *gn[4] = {"g0", "g1", "g2", "g3"};
static void imp_g(int k, int vt, uint64_t v) { Imp *p = mod_imp(&M, 3, "env", gn[k]); p->vt = vt; x_gl[k] = v; m_gl[k] = mk(vt, v); imps[M.nimp - 1] = &m_gl[k]; }
static void begin(void) { mod_reset(&M); host_reset(); host_res_more = res_x; memset(imps, 0, sizeof imps); g_outh = 7; }
static char dbuf[2000];
static void describe(void) { mc_desc("%s", dbuf); describe_M(); }
static void oi(Ins *o, int op, int64_t a) { memset(o, 0, sizeof *o); o->op = op; o->a = a; }
static int set_off(Ins *off, int form, int is64, uint64_t v, int gidx) {
  if (form == 0) { oi(&off[0], is64 ? KI64 : KI32, is64 ? (int64_t)v : (int64_t)(int32_t)v); return 1; }
  if (form == 1) { oi(&off[0], GGET, gidx); x_gl[gidx] = v; m_gl[gidx] = mk(is64 ? I64 : I32, v); return 1; }
  oi(&off[0], is64 ? KI64 : KI32, is64 ? (int64_t)(v + 77) : (int64_t)(int32_t)(v + 77)); oi(&off[1], is64 ? KI64 : KI32, 77); oi(&off[2], is64 ? 0x7d : 0x6b, 0); return 3;
}
/* ---- data segments ---- */
static const uint64_t offs32[] = {0, 1, 3, 65531, 65532, 65535, 65536, 131067, 131071, 131072, 0x7fffffff, 0x80000000u, 0xfffffffcu, 0xffffffffu};
static const uint64_t offs64[] = {0, 65531, 65536, 131072, 0xffffffffu, 0x100000000ull, 0x100000005ull, 0x8000000000000000ull, 0xfffffffffffffffcull, ~0ull};
static const int lens[] = {0, 1, 5, 40};
static void data_(int n, int noff, int nlen, int forms) {
  int kind = choose(6); /* 0 own fixed, 1 own growable, 2 own 64-bit, 3 imported, 4 own + own, 5 imported + own */
  int pages = choose(3), two = kind >= 4; if (kind == 3 || kind == 5) { if (pages == 0) { mc_owned = 0; return; } }
  int mem[3], len[3], form[3]; uint64_t off[3];
  for (int i = 0; i < n; i++) { mem[i] = two ? choose(2) : 0; int is64 = kind == 2; int o = choose(noff); if (is64) { if (o >= (int)(sizeof offs64 / 8)) { mc_owned = 0; return; } off[i] = offs64[o]; } else off[i] = offs32[o < 14 ? o : 0]; len[i] = lens[choose(nlen)]; form[i] = forms ? choose(3) : 0; }
  if (!mc_mine()) return;
  set_cfg(1, 3); begin(); int is64 = kind == 2;
  for (int i = 0; i < n; i++) imp_g(i, is64 ? I64 : I32, 0);
  int pg[2] = {pages, 1}; memset(m_bytes, 0, sizeof m_bytes);
  if (kind == 3 || kind == 5) {
    Imp *p = mod_imp(&M, 2, "env", "m"); p->min = 1; p->is64 = 0; if (!x_bytes) x_bytes = malloc(4 * 65536); memset(x_bytes, 0x5a, 4 * 65536); memset(m_bytes, 0x5a, sizeof m_bytes); x_mem = (struct pwart_wasm_memory){0}; x_mem.pages = pages; x_mem.initial = kind == 3 && pages ? pages - 1 : pages; /* the host grew it before */ x_mem.maximum = 3; x_mem.bytes = x_bytes; m_mem = (RMem){m_bytes, pages, 3, 0, 3}; imps[M.nimp - 1] = &m_mem;
    if (kind == 5) M.mem[M.nmem++] = (Mem){1, 1, 1, 0};
  } else { M.mem[M.nmem++] = (Mem){pages, 2, kind != 1, is64}; if (two) M.mem[M.nmem++] = (Mem){1, 4, 0, 0}; }
  int oob = 0;
  for (int i = 0; i < n; i++) {
    Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->flags = mem[i] || (i & 1) ? 2 : 0; d->mem = mem[i]; d->n = len[i]; for (int k = 0; k < len[i]; k++) d->bytes[k] = 16 * (i + 1) + (k & 15); d->noff = set_off(d->off, form[i], is64, off[i], i);
    if (off[i] > pg[mem[i]] * 65536ull || len[i] > pg[mem[i]] * 65536ull - off[i]) oob = 1;
  }
  mod_exp(&M, "m0", 2, 0); if (M.nmem > 1 || kind == 5) mod_exp(&M, "m1", 2, 1);
  int q = sprintf(dbuf, "memories: kind %d, %d page(s)%s; segments:", kind, pages, two ? " and 1 page" : ""); for (int i = 0; i < n; i++) q += sprintf(dbuf + q, " [mem %d offset 0x%llx form %d length %d]", mem[i], (unsigned long long)off[i], form[i], len[i]); sprintf(dbuf + q, "\n");
  mc_describe_cb = describe; mc_predesc();
  if (oob) { /* must be refused, and nothing outside the memory may be touched */
    g_st = real_load(&M, &host_rs, &g_err);
    if (g_st) mc_fail("a segment outside its memory was accepted"); if (!g_err || !*g_err) mc_fail("no error text");
    if (kind == 3 || kind == 5) for (int i = pages * 65536; i < 4 * 65536; i++) if (x_bytes[i] != 0x5a) mc_fail("byte %d outside the imported memory was written", i);
    mc_outcome(1); return;
  }
  inst_both(&host_rs, imps); cmp_memory(0, "m0"); if (two) cmp_memory(1, "m1");
  if (kind == 3 || kind == 5) { if (pwart_get_export_memory(g_st, "m0") != &x_mem) mc_fail("re-exported memory is another object"); if (memcmp(x_bytes, m_bytes, sizeof m_bytes)) mc_fail("imported memory differs"); }
  for (int i = 0; i < n; i++) g_outh = g_outh * 31 + off[i] * 5 + len[i]; free_both(); mc_outcome(g_outh);
}
static void b_data2(void) { data_(1 + choose(2), 14, 4, 1); }
static void b_data3(void) { data_(3, mc_thorough ? 10 : 7, mc_thorough ? 4 : 3, 0); }
/* ---- element segments ---- */
static uint64_t ref_bits(uint64_t model) { if (!model) return 0; RFunc *f = (RFunc *)(uintptr_t)model; if (f->host) return (uintptr_t)host_w[f->hid]; return (uintptr_t)pwart_get_export_function(g_st, f->idx == 0 ? "F0" : f->idx == 1 ? "F1" : "c"); }
static void elem_(int n) {
  static const uint64_t eo[] = {0, 1, 3, 4, 5, 0xffffffffu}; static const int en[] = {0, 1, 2, 4};
  int imp = choose(2), second = choose(3); /* none, funcref, externref */
  int fl[3], tab[3], cnt[3], form[3], pat[3]; uint64_t off[3];
  for (int i = 0; i < n; i++) {
    fl[i] = choose(8); tab[i] = (fl[i] & 3) == 2 ? choose(second ? 2 : 1) : 0; off[i] = 0; form[i] = 0;
    if (!(fl[i] & 1)) { off[i] = choose_from(eo); form[i] = n == 1 ? choose(3) : i; }
    cnt[i] = choose_from(en); pat[i] = n < 3 ? choose(2) : 0;
    if (tab[i] == 1 && second == 2 && !(fl[i] & 4)) { mc_owned = 0; return; }
  }
  if (!mc_mine()) return;
  set_cfg(1, 3); begin(); int v = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32}), ci = mod_ft(&M, 1, (uint8_t[]){I32}, 1, (uint8_t[]){I32});
  imp_host(0, v, imps); imp_host(1, v, imps); for (int i = 0; i < n; i++) imp_g(i, I32, 0);
  Imp *p; int gf = n; p = mod_imp(&M, 3, "env", "g3"); p->vt = FREF; x_gl[3] = (uintptr_t)host_w[1]; m_gl[3] = mk(FREF, (uintptr_t)&host_rf[1]); imps[M.nimp - 1] = &m_gl[3];
  memset(x_ent, 0x5b, sizeof x_ent); int size0 = 4, size1 = 3;
  if (imp) { p = mod_imp(&M, 1, "env", "t"); p->vt = FREF; p->min = 2; memset(&x_tab, 0, sizeof x_tab); x_tab.elem_type = FREF; x_tab.size = x_tab.maximum = 4; x_tab.initial = 2; x_tab.entries = x_ent; x_ent[0] = host_w[0]; x_ent[1] = host_w[1]; x_ent[2] = NULL; x_ent[3] = host_w[0]; m_ent[0] = (uintptr_t)&host_rf[0]; m_ent[1] = (uintptr_t)&host_rf[1]; m_ent[2] = 0; m_ent[3] = m_ent[0]; m_tab = (RTab){m_ent, 4, 4}; imps[M.nimp - 1] = &m_tab; }
  else M.tab[M.ntab++] = (Tab){FREF, 4, 7, 1};
  if (second) M.tab[M.ntab++] = (Tab){second == 1 ? FREF : XREF, 3, 3, 0};
  Fn *f; for (int i = 0; i < 2; i++) { f = mod_fn(&M, v); E1(f, KI32, 900 + i); mod_exp(&M, i ? "F1" : "F0", 0, 2 + i); }
  f = mod_fn(&M, ci); E1(f, LGET, 0); E2(f, CALL_IND, v, 0); mod_exp(&M, "c", 0, 4); mod_exp(&M, "t0", 1, 0); if (second) mod_exp(&M, "t1", 1, 1);
  int oob = 0, q = sprintf(dbuf, "table 0 %s of 4%s; segments:", imp ? "imported" : "own", second == 1 ? ", funcref table 1 of 3" : second == 2 ? ", externref table 1 of 3" : "");
  for (int i = 0; i < n; i++) {
    Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->flags = fl[i]; e->tab = tab[i]; int x = tab[i] == 1 && second == 2; e->et = x ? XREF : FREF; e->n = cnt[i]; e->noff = set_off(e->off, form[i], 0, off[i], i);
    for (int k = 0; k < cnt[i]; k++) { static const int P[2][4] = {{2, 3, 0, 1}, {3, 1, 2, 2}}, Q[2][4] = {{2, -1, -2, 1}, {-2, 3, -1, 0}}; int z = x ? -1 : (fl[i] & 4 ? Q : P)[pat[i]][(k + i) & 3]; e->fidx[k] = z == -2 ? -2 - gf : z; }
    int sz = tab[i] ? size1 : size0; if (!(fl[i] & 1) && (off[i] > (uint64_t)sz || cnt[i] > sz - (int)off[i])) oob = 1;
    q += sprintf(dbuf + q, " [flags %d table %d offset 0x%llx form %d:", fl[i], tab[i], (unsigned long long)off[i], form[i]); for (int k = 0; k < cnt[i]; k++) q += sprintf(dbuf + q, " %d", e->fidx[k]); q += sprintf(dbuf + q, "]");
  }
  sprintf(dbuf + q, "\n"); mc_describe_cb = describe; mc_predesc();
  if (oob) { g_st = real_load(&M, &host_rs, &g_err); if (g_st) mc_fail("a segment outside its table was accepted"); if (!g_err || !*g_err) mc_fail("no error text"); for (int i = 4; i < 12; i++) if ((uintptr_t)x_ent[i] != 0x5b5b5b5b5b5b5b5bull) mc_fail("an entry outside the imported table was written"); mc_outcome(1); return; }
  inst_both(&host_rs, imps);
  for (int t = 0; t < 1 + !!second; t++) {
    struct pwart_wasm_table *tb = pwart_get_export_table(g_st, t ? "t1" : "t0"); if (!tb) mc_fail("exported table %d not found", t); if (!t && imp && tb != &x_tab) mc_fail("re-exported table is another object");
    if (tb->size != R.tab[t]->size) mc_fail("table %d has %u entries, must have %u", t, tb->size, R.tab[t]->size); if (tb->elem_type != (t && second == 2 ? XREF : FREF)) mc_fail("table %d has element type 0x%x", t, tb->elem_type);
    for (uint32_t i = 0; i < tb->size; i++) { uint64_t w = ref_bits(R.tab[t]->e[i]); if ((uintptr_t)tb->entries[i] != w) mc_fail("table %d entry %u is %p, must be %p", t, i, tb->entries[i], (void *)w); if (w) g_outh = g_outh * 37 + t * 5 + i; }
  }
  for (int i = 0; i < 4; i++) { V a = mk(I32, i); if (R.tab[0]->e[i]) { if (diff_call("c", 2, &a)) mc_die("trap"); } }
  host_check(); if (imp) for (int i = 4; i < 12; i++) if ((uintptr_t)x_ent[i] != 0x5b5b5b5b5b5b5b5bull) mc_fail("an entry outside the imported table was written");
  free_both(); mc_outcome(g_outh);
}
static void b_elem1(void) { elem_(1); }
static void b_elem2(void) { elem_(2); }
static void b_elem3(void) { elem_(3); }
/* ---- exports ---- */
static char long255[256], long254[256], long256[300];
static void b_exports(void) {
  if (!long255[0]) { memset(long255, 'L', 255); memset(long254, 'L', 254); memset(long256, 'L', 256); }
  const char *names[11] = {"a", "", "ab", long254, long255, "\xc3\xa9", "A", "a ", "f0", "b", long256}; int nn = mc_thorough ? 8 : 6;
  static const uint8_t ik[11] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 3}, ix[11] = {0, 1, 2, 3, 0, 1, 0, 1, 0, 1, 2};
  int n = choose(4), it[4], nm[4];
  for (int i = 0; i < n; i++) { it[i] = choose(11); nm[i] = choose(nn); for (int k = 0; k < i; k++) if (nm[k] == nm[i]) { mc_owned = 0; return; } }
  if (!mc_mine()) return;
  set_cfg(1, 3); begin(); int v = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32});
  imp_host(2, v, imps); imp_host(5, v, imps); imp_g(0, I64, 5);
  Imp *p = mod_imp(&M, 1, "env", "t"); p->vt = FREF; p->min = 1; memset(&x_tab, 0, sizeof x_tab); x_tab.elem_type = FREF; x_tab.size = x_tab.initial = x_tab.maximum = 4; x_tab.entries = x_ent; m_tab = (RTab){m_ent, 4, 4}; imps[M.nimp - 1] = &m_tab;
  p = mod_imp(&M, 2, "env", "m"); p->min = 1; if (!x_bytes) x_bytes = malloc(4 * 65536); x_mem = (struct pwart_wasm_memory){0}; x_mem.initial = x_mem.pages = 2; x_mem.maximum = 2; x_mem.bytes = x_bytes; m_mem = (RMem){m_bytes, 2, 2, 0, 3}; imps[M.nimp - 1] = &m_mem;
  M.tab[M.ntab++] = (Tab){FREF, 3, 5, 1}; M.mem[M.nmem++] = (Mem){1, 1, 1, 0};
  for (int i = 0; i < 2; i++) { Glob *g = &M.glob[M.nglob++]; g->vt = i ? F64 : I32; g->mut = 1; g->nins = 1; oi(&g->ins[0], i ? KF64 : KI32, i ? (int64_t)f64b(2.5) : 4242); }
  for (int i = 0; i < 2; i++) { Fn *f = mod_fn(&M, v); E1(f, KI32, 70 + i); }
  int q = sprintf(dbuf, "exports:"); for (int i = 0; i < n; i++) { mod_exp(&M, names[nm[i]], ik[it[i]], ix[it[i]]); q += sprintf(dbuf + q, " '%.20s'=kind %d #%d", names[nm[i]], ik[it[i]], ix[it[i]]); } sprintf(dbuf + q, "\n");
  mc_describe_cb = describe; inst_both(&host_rs, imps); g_outh = n; void *seen[4];
  for (int a = 0; a < 11; a++) for (int kind = 0; kind < 4; kind++) {
    int want = -1; for (int i = 0; i < n; i++) if (nm[i] == a && ik[it[i]] == kind) want = i;
    void *g = kind == 0 ? pwart_get_export_function(g_st, names[a]) : kind == 1 ? (void *)pwart_get_export_table(g_st, names[a]) : kind == 2 ? (void *)pwart_get_export_memory(g_st, names[a]) : pwart_get_export_global(g_st, names[a]);
    if (want < 0) { if (g) mc_fail("looking up '%.20s' as kind %d finds something although nothing is exported under that name and kind", names[a], kind); continue; }
    if (!g) mc_fail("export '%.20s' of kind %d is not found", names[a], kind);
    seen[want] = g; int x = ix[it[want]]; uint64_t h = 0;
    switch (kind) {
    case 0: if (x < 2) { if (g != host_w[x ? 5 : 2]) mc_fail("export of imported function %d leads elsewhere", x); } else { FT t = {0, 1, {0}, {I32}}; V r; call_real(g, &t, NULL, &r); if (r.b != 70 + x - 2) mc_fail("exported function %d returned %d", x, (int)r.b); } break;
    case 1: { struct pwart_wasm_table *t = g; if (x == 0 ? t != &x_tab : t->size != 3 || t->maximum != 5 || t->initial != 3 || t->elem_type != FREF) mc_fail("exported table %d is wrong", x); if (x) for (int i = 0; i < 3; i++) if (t->entries[i]) mc_fail("entry without segment is not null"); break; }
    case 2: { struct pwart_wasm_memory *t = g; if (x == 0 ? t != &x_mem : t->pages != 1 || t->maximum != 1 || t->initial != 1 || !t->bytes || t->bytes[0] || t->bytes[65535]) mc_fail("exported memory %d is wrong", x); break; }
    case 3: if (x == 0 ? g != &x_gl[0] : x == 1 ? *(uint32_t *)g != 4242 : (memcpy(&h, g, 8), h != f64b(2.5))) mc_fail("exported global %d is wrong", x); break;
    }
    g_outh = g_outh * 41 + a * 4 + kind;
  }
  for (int i = 0; i < n; i++) for (int k = 0; k < i; k++) if ((it[i] == it[k]) != (seen[i] == seen[k])) mc_fail("exports '%.20s' and '%.20s' lead to %s item", names[nm[k]], names[nm[i]], it[i] == it[k] ? "different objects for the same" : "the same object for different");
  struct pwart_inspect_result1 ir; memset(&ir, 0x77, sizeof ir); char *e = pwart_inspect_module_state(g_st, &ir); if (e) mc_fail("inspect: %s", e);
  if (ir.table_entries_count != 4 || ir.table_entries != x_ent || ir.memory_size != 131072 || ir.memory != x_bytes || ir.symbol_resolver != &host_rs) mc_fail("inspecting the module state reports other objects");
  for (int i = 0; i < n; i++) if (it[i] > 8 && ((uint8_t *)seen[i] < (uint8_t *)ir.globals_buffer || (uint8_t *)seen[i] + (it[i] == 9 ? 4 : 8) > (uint8_t *)ir.globals_buffer + ir.globals_buffer_size)) mc_fail("a module-defined global lies outside the reported globals buffer");
  free_both(); mc_outcome(g_outh);
}
/* ---- many exports: every one must be found ---- */
static void b_many(void) {
  int n = 1 + choose(40), order = choose(3), ni = choose(3); if (!mc_mine()) return;
  set_cfg(1, 3); begin(); int v = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32}); for (int i = 0; i < ni; i++) imp_host(i, v, imps); static char nm[40][8]; int nf = n > 8 ? 8 : n;
  for (int i = 0; i < nf; i++) { Fn *f = mod_fn(&M, v); E1(f, KI32, i); }
  for (int i = 0; i < n; i++) { int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n; snprintf(nm[i], 8, "%c%d", 'a' + k % 3, i); mod_exp(&M, nm[i], 0, ni + k % nf); }
  inst_both(&host_rs, imps);
  for (int i = 0; i < n; i++) { void *g = pwart_get_export_function(g_st, nm[i]); if (!g) mc_fail("'%s' not found", nm[i]); FT t = {0, 1, {0}, {I32}}; V r; call_real(g, &t, NULL, &r); int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n; if ((int)r.b != k % nf) mc_fail("'%s' leads to function %d, must lead to %d", nm[i], (int)r.b, k % nf); }
  free_both(); mc_outcome(n * 10 + order);
}
/* ---- start function ---- */
static void b_start(void) {
  int ni = choose(3), st = choose(5) - 1, expo = choose(2), how = choose(4), data = choose(2); if (st >= ni + 2) { mc_owned = 0; return; } if (how >= 2 && ni) { mc_owned = 0; return; }
  if (!mc_mine()) return;
  set_cfg(1, 3); begin(); int v = mod_ft(&M, 0, 0, 0, 0); for (int i = 0; i < ni; i++) imp_host(i, v, imps);
  Glob *g = &M.glob[M.nglob++]; g->vt = I32; g->mut = 1; g->nins = 1; oi(&g->ins[0], KI32, 5); M.mem[M.nmem++] = (Mem){1, 1, 1, 0};
  for (int i = 0; i < 2; i++) { Fn *f = mod_fn(&M, v); E1(f, GGET, 0); E1(f, KI32, 10); E0(f, 0x6c); E1(f, KI32, 1 + i); E0(f, 0x6a); E1(f, GSET, 0); E1(f, KI32, 8); E1(f, KI32, 0x55); emit_mem(f, 0x3a, 0, 0); if (expo) mod_exp(&M, i ? "F1" : "F0", 0, ni + i); }
  mod_exp(&M, "g", 3, 0); mod_exp(&M, "m", 2, 0); M.start = st; if (data) { Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->noff = 1; d->off[0].op = KI32; d->off[0].a = 8; d->n = 1; d->bytes[0] = 0x33; }
  mc_describe_cb = describe_M; mc_predesc(); sprintf(dbuf, "start %d\n", st); pwart_namespace ns = NULL; char *err = NULL;
  if (how < 2) g_st = real_load(&M, &host_rs, &err); else { mod_encode(&M, &g_out); if (how == 2) g_st = (pwart_module_state)pwart_load_module((char *)g_out.p, g_out.n, &err); else { ns = pwart_namespace_new(); g_st = (pwart_module_state)pwart_namespace_define_wasm_module(ns, "m", (char *)g_out.p, g_out.n, &err); } }
  if (!g_st) mc_fail("rejected: %s", err); uint32_t *gp = pwart_get_export_global(g_st, "g"); uint8_t *mb = pwart_get_export_memory(g_st, "m")->bytes;
  if (*gp != 5 || hn_r || mb[8] != (data ? 0x33 : 0)) mc_fail("code ran while the module was loaded");
  void *s = pwart_get_start_function(g_st);
  if (st < 0) { if (s) mc_fail("a start function is reported although there is none"); }
  else {
    if (!s) mc_fail("the start function is not reported"); FT t = {0, 0, {0}, {0}}; call_real(s, &t, NULL, NULL);
    if (st < ni) { if (hn_r != 1 || *gp != 5) mc_fail("the reported start function is not import %d", st); } else { if (*gp != 50 + 1 + st - ni || hn_r || mb[8] != 0x55) mc_fail("the reported start function is not function %d", st); if (expo && s != pwart_get_export_function(g_st, st - ni ? "F1" : "F0")) mc_fail("start and export differ"); }
  }
  if (ns) pwart_namespace_delete(ns); else pwart_free_module_state(g_st); mc_outcome(ni * 100 + st * 10 + how);
}
static struct mc_space sp[] = {
  {"data-segments", b_data2, "6 memory arrangements x 0..2 pages x every list of 1..2 segments of 14 offsets (10 for 64-bit) x 4 lengths x 3 offset expressions, in and out of bounds"},
  {"data-overlaps", b_data3, "every list of 3 segments over 7 (10) offsets and 3 (4) lengths"},
  {"element-segment", b_elem1, "own/imported table x second table x 8 flag forms x 6 offsets x 3 offset expressions x counts x contents"},
  {"element-overlaps", b_elem2, "every list of 2 such segments"},
  {"exports", b_exports, "every list of up to 3 exports of 11 items under 6 (8) names, all names looked up under all kinds"},
  {"many-exports", b_many, "1..40 exports in 3 orders"},
  {"start", b_start, "no, imported or own start function x 4 ways of loading"}};
static struct mc_space sp3[] = {{"element-triples", b_elem3, "every list of 3 segments"}};
static const char *as[] = {"export names shorter than 256 bytes without NUL", 0};
int main(int c, char **v) { static struct mc_space all[16]; int n = sizeof sp / sizeof *sp; memcpy(all, sp, sizeof sp); const char *t = getenv("VERIF_TIER"); if (t && !strcmp(t, "thorough")) all[n++] = sp3[0];
  r_nan_skip = 1; static struct mc_check k = {"P14", "one execution = one module loaded, every table entry, memory byte and export compared with the model; non-trivial = distinct placements", all, 0, as}; k.nspaces = n; return mc_main(c, v, &k); }
