/* P18 a namespace as a map from names to modules */
#include "num.h"
#include "host.h"
#include "alloc.h"
#include <sljitLir.h>
static char dbuf[3000]; static int dn;
static void describe(void) { mc_desc("%s", dbuf); }
#define NID 40
#define NNAME 5
static const char *NM[NNAME] = {"a", "b", "ab", "", "pwart_namespace_metb"};
/* ---- module images: plain modules with a constant id, and modules importing v/m/g/t from a name ---- */
static struct { uint8_t b[400]; int n; } plain[NID], importer[NNAME], badmod[3];
static const uint8_t i32_1[1] = {I32};
static void gen(void) {
  for (int id = 0; id < NID; id++) { mod_reset(&M); int t = mod_ft(&M, 0, 0, 1, i32_1); M.mem[M.nmem++] = (Mem){1, 1, 1, 0}; M.tab[M.ntab++] = (Tab){FREF, 2, 2, 1}; Glob *g = &M.glob[M.nglob++]; memset(g, 0, sizeof *g); g->vt = I32; g->mut = 1; g->nins = 1; g->ins[0].op = KI32; g->ins[0].a = 1000 + id; Fn *f = mod_fn(&M, t); E1(f, KI32, 1000 + id); mod_exp(&M, "v", 0, 0); mod_exp(&M, "g", 3, 0); mod_exp(&M, "m", 2, 0); mod_exp(&M, "t", 1, 0); mod_encode(&M, &g_out); plain[id].n = g_out.n; memcpy(plain[id].b, g_out.p, g_out.n); }
  for (int k = 0; k < NNAME; k++) { mod_reset(&M); int t = mod_ft(&M, 0, 0, 1, i32_1); Imp *p = mod_imp(&M, 0, NM[k], "v"); p->type = t; p = mod_imp(&M, 3, NM[k], "g"); p->vt = I32; p->mut = 1; p = mod_imp(&M, 2, NM[k], "m"); p->min = 1; p = mod_imp(&M, 1, NM[k], "t"); p->vt = FREF; p->min = 1; Fn *f = mod_fn(&M, t); E1(f, CALL, 0); E1(f, GGET, 0); E0(f, 0x6b); E1(f, CALL, 0); E0(f, 0x6a); mod_exp(&M, "get", 0, 1); mod_exp(&M, "v", 0, 0); mod_exp(&M, "g", 3, 0); mod_exp(&M, "m", 2, 0); mod_exp(&M, "t", 1, 0); mod_encode(&M, &g_out); importer[k].n = g_out.n; memcpy(importer[k].b, g_out.p, g_out.n); }
  mod_reset(&M); int t = mod_ft(&M, 0, 0, 1, i32_1); Fn *f = mod_fn(&M, t); E1(f, KI32, 1); mod_encode(&M, &g_out); memcpy(badmod[0].b, g_out.p, badmod[0].n = g_out.n - 3); memcpy(badmod[1].b, g_out.p, badmod[1].n = 5); mod_reset(&M); Imp *p = mod_imp(&M, 3, "nobody", "x"); p->vt = I32; mod_encode(&M, &g_out); memcpy(badmod[2].b, g_out.p, badmod[2].n = g_out.n);
}
/* ---- host modules ---- */
#define NH 3
static struct hmod { struct pwart_host_module b; int id, att, det; } HM[NH]; static struct hmod HMnohook; static int want_att[NH], want_det[NH]; static pwart_namespace att_ns;
#define HF(n) static void hf##n(void *fp) { *(int32_t *)fp = 500 + n; }
HF(0) HF(1) HF(2)
static void (*hfn[NH])(void *) = {hf0, hf1, hf2}; static uint32_t hg[NH]; static struct pwart_wasm_memory hmem[NH]; static struct pwart_wasm_table htab[NH]; static uint8_t hbytes[65536]; static void *hent[4];
static void *h_sym(int id, const char *f, int kind) { switch (kind) { case 0: return !strcmp(f, "v") ? pwart_wrap_host_function_c(hfn[id]) : NULL; case 3: return !strcmp(f, "g") ? &hg[id] : NULL; case 2: return !strcmp(f, "m") ? &hmem[id] : NULL; case 1: return !strcmp(f, "t") ? &htab[id] : NULL; } return NULL; }
static void h_resolve(struct pwart_host_module *h, struct pwart_symbol_resolve_request *q) { q->result = h_sym(((struct hmod *)h)->id, q->import_field, q->kind); }
static void h_att(struct pwart_host_module *h) { if (h->namespace2 != att_ns) mc_fail("on_attached sees another namespace"); ((struct hmod *)h)->att++; }
static void h_det(struct pwart_host_module *h) { ((struct hmod *)h)->det++; }
static struct pwart_host_module *HM2; static const char *hm2n[] = {"v", "g", "m", "t"}; static void *hm2s[4]; /* made with pwart_namespace_new_host_module2 */
static void ensure(void) { static int d; if (d) return; d = 1; mallopt(M_PERTURB, 0); set_cfg(1, 3); gen(); int nb; pwart_get_builtin_symbols(&nb); char *e; pwart_module_state w = real_load_bytes(plain[0].b, plain[0].n, NULL, &e); FT t = {0, 1, {0}, {I32}}; V r; call_real(pwart_get_export_function(w, "v"), &t, 0, &r); pwart_free_module_state(w); }
static void host_init(void) { for (int i = 0; i < NH; i++) { memset(&HM[i], 0, sizeof HM[i]); HM[i].b.resolve = h_resolve; HM[i].id = i; hg[i] = 500 + i; hmem[i] = (struct pwart_wasm_memory){1, 1, 1, hbytes, 1}; htab[i] = (struct pwart_wasm_table){FREF, 4, 4, 4, hent}; want_att[i] = want_det[i] = 0; } HM[0].b.on_attached = h_att; HM[0].b.on_detached = h_det; hm2s[0] = hfn[2]; hm2s[1] = &hg[2]; hm2s[2] = &hmem[2]; hm2s[3] = &htab[2]; HM2 = pwart_namespace_new_host_module2(hm2n, hm2s, 4); }
/* ---- the model ---- */
typedef struct { int type; /* 0 none 1 host 2 wasm */ int host; pwart_module_state st; int value; int dep; /* definition number this module imports from, -1 */ int def; } Ent;
static Ent E[2][NNAME]; static int n_ns; static pwart_namespace NS_[2]; static int ndef; static char live_def[64]; static int def_value[64];
static int val(Ent *e) { return e->value; }
static void kill_def(Ent *e) { if (e->type == 2) live_def[e->def] = 0; if (e->type == 1 && e->host == 0) want_det[0]++; e->type = 0; }
static uint32_t call0(void *fn) { FT t = {0, 1, {0}, {I32}}; V r; call_real(fn, &t, 0, &r); return (uint32_t)r.b; }
static int usable(Ent *e) { /* everything it was built from is still there */ int d = e->dep; if (d < 0) return 1; return live_def[d]; }
static void observe(int full) {
  for (int s = 0; s < n_ns; s++) for (int k = 0; k < NNAME; k++) {
    Ent *e = &E[s][k]; char nm[40]; strcpy(nm, NM[k]); struct pwart_named_module *f = pwart_namespace_find_module(NS_[s], nm); memset(nm, 'Z', sizeof nm - 1);
    if (!e->type) { if (f && f->type != 0) mc_fail("'%s' is found although no module of that name is defined", NM[k]); }
    else { if (!f) mc_fail("'%s' is not found", NM[k]); if (strcmp(f->name, NM[k])) mc_fail("'%s' is found under the name '%.30s'", NM[k], f->name); if (f->type != e->type) mc_fail("'%s' is of type %d, must be %d", NM[k], f->type, e->type); void *p = e->type == 2 ? f->val.wasm : f->val.host, *w = e->type == 2 ? e->st : e->host == 2 ? (void *)HM2 : (void *)&HM[e->host]; if (p != w) mc_fail("'%s' finds another module than the one defined last", NM[k]); }
    if (full) { struct pwart_symbol_resolver *rs = pwart_namespace_resolver(NS_[s]);
      for (int kind = 0; kind < 4; kind++) { static const char *fl[4] = {"v", "t", "m", "g"}; for (int miss = 0; miss < 2; miss++) { struct pwart_symbol_resolve_request q = {NM[k], miss ? "nosuch" : fl[kind], kind, (void *)0x5}; rs->resolve(rs, &q); if (!e->type || miss) { if (q.result) mc_fail("'%s'.'%s' resolves although it does not exist", NM[k], q.import_field); continue; }
        void *w; if (e->type == 1) w = e->host == 2 ? hm2s[kind == 0 ? 0 : kind == 3 ? 1 : kind == 2 ? 2 : 3] : h_sym(e->host, fl[kind], kind); else w = kind == 0 ? pwart_get_export_function(e->st, "v") : kind == 1 ? (void *)pwart_get_export_table(e->st, "t") : kind == 2 ? (void *)pwart_get_export_memory(e->st, "m") : pwart_get_export_global(e->st, "g");
        if (q.result != w || !w) mc_fail("'%s'.'%s' of kind %d resolves to another item", NM[k], fl[kind], kind); } } }
    if (e->type == 2 && usable(e)) { uint32_t r = call0(pwart_get_export_function(e->st, "v")); if (r != (uint32_t)val(e)) mc_fail("function of module '%s' returns %u, must return %d", NM[k], r, val(e)); void *g = pwart_get_export_function(e->st, "get"); if (g && (r = call0(g)) != (uint32_t)val(e)) mc_fail("module '%s' uses imports of value %u, must be %d", NM[k], r, val(e));
      struct pwart_inspect_result1 q; memset(&q, 0, sizeof q); pwart_inspect_module_state(e->st, &q); if (q.symbol_resolver != pwart_namespace_resolver(NS_[s])) mc_fail("module '%s' has another resolver than its namespace", NM[k]); }
  }
  if (HM[0].att != want_att[0] || HM[0].det != want_det[0]) mc_fail("the host module was attached %d and detached %d times, must be %d and %d", HM[0].att, HM[0].det, want_att[0], want_det[0]);
}
/* ops: 0 host0 1 host1 2 host2 | 3 wasm 4 wasm through define_module 5.. importer of name k | then bad 0..2 | remove */
enum { O_H0, O_H1, O_H2, O_W, O_WD, O_IMP, O_BAD = O_IMP + NNAME, O_RM = O_BAD + 3, O_END };
static const char *op_name(int o) { static char b[40]; if (o < 3) sprintf(b, "host%d", o); else if (o == O_W) return "wasm"; else if (o == O_WD) return "wasm-state"; else if (o < O_BAD) sprintf(b, "import-of-'%s'", NM[o - O_IMP]); else if (o < O_RM) sprintf(b, "bad%d", o - O_BAD); else return "remove"; return b; }
static void do_op(int s, int k, int o) {
  Ent *e = &E[s][k]; pwart_namespace ns = NS_[s]; char *nm = (char *)guard_copy(NM[k], strlen(NM[k]) + 1); int gn = strlen(nm) + 1; char *er = NULL; struct pwart_named_module nmod; memset(&nmod, 0, sizeof nmod); att_ns = ns; uint8_t *wb = NULL; int wn = 0; pwart_module_state st;
  if (o == O_W) { wb = plain[ndef].b; wn = plain[ndef].n; } else if (o >= O_IMP && o < O_BAD) { wb = importer[o - O_IMP].b; wn = importer[o - O_IMP].n; } else if (o >= O_BAD && o < O_RM) { wb = badmod[o - O_BAD].b; wn = badmod[o - O_BAD].n; }
  char *wc = NULL; if (wb) { wc = malloc(wn); memcpy(wc, wb, wn); }
  a_track = 1;
  if (o <= O_H2) { Ent old = *e; if (o == O_H0 || o == O_H1) { nmod.name = nm; nmod.type = PWART_MODULE_TYPE_HOST_MODULE; nmod.val.host = &HM[o].b; pwart_namespace_define_module(ns, &nmod); } else pwart_namespace_define_host_module(ns, nm, HM2); if (old.type) kill_def(e); e->type = 1; e->host = o; e->value = 500 + o; e->dep = -1; if (o == 0) want_att[0]++; struct pwart_host_module *h = o == 2 ? HM2 : &HM[o].b; if (h->namespace2 != ns) mc_fail("the host module does not know its namespace"); e->def = ndef; live_def[ndef] = 1; def_value[ndef++] = e->value; }
  else if (o == O_WD) { pwart_module_compiler c = pwart_new_module_compiler(); pwart_compile(c, (char *)plain[ndef].b, plain[ndef].n); st = pwart_get_module_state(c); pwart_free_module_compiler(c); nmod.name = nm; nmod.type = PWART_MODULE_TYPE_WASM_MODULE; nmod.val.wasm = st; pwart_namespace_define_module(ns, &nmod); memset(&nmod, 0xee, sizeof nmod); kill_def(e); *e = (Ent){2, 0, st, 1000 + ndef, -1, ndef}; live_def[ndef] = 1; def_value[ndef] = 1000 + ndef; ndef++; }
  else if (wb) {
    st = (pwart_module_state)pwart_namespace_define_wasm_module(ns, nm, wc, wn, &er); int ok = o == O_W, v = 1000 + ndef, dep = -1;
    if (o >= O_IMP && o < O_BAD) { Ent *q = &E[s][o - O_IMP]; ok = q->type != 0 && usable(q); v = q->type ? q->value : 0; dep = q->type == 2 ? q->dep >= 0 ? q->dep : q->def : -1; }
    if (ok && !st) mc_fail("the module was rejected: %s", er); if (!ok && st) mc_fail("the module was accepted although it cannot be loaded"); if (!st && (!er || !*er)) mc_fail("no error text");
    if (st) { kill_def(e); *e = (Ent){2, 0, st, v, dep, ndef}; live_def[ndef] = 1; def_value[ndef] = v; ndef++; }
  } else { pwart_namespace_remove_module(ns, nm); if (e->type) kill_def(e); }
  a_track = 0; memset(nm, 'Q', gn - 1); free(wc);
}
static int h_s[8], h_k[8], h_o[8];
/* an importer of a definition that was removed may not be resolved through again: re-exports point into freed memory */
static int stale_import(int s, int o) { if (o < O_IMP || o >= O_BAD) return 0; Ent *q = &E[s][o - O_IMP]; return q->type == 2 && !usable(q); }
static void finish(ASnap s0, int nsn) {
  for (int s = 0; s < nsn; s++) { for (int k = 0; k < NNAME; k++) if (E[s][k].type) kill_def(&E[s][k]); char *e = pwart_namespace_delete(NS_[s]); if (e) mc_fail("delete: %s", e); if (HM[0].det != want_det[0]) mc_fail("deleting the namespace detached the host module %d times, must be %d", HM[0].det, want_det[0]); n_ns = nsn - 1 - s; for (int q = s + 1; q < nsn; q++) { memmove(E[0], E[q], sizeof E[0]); } if (s + 1 < nsn) { pwart_namespace t = NS_[0]; NS_[0] = NS_[s + 1]; n_ns = 1; observe(0); NS_[0] = t; } }
  pwart_namespace_delete_host_module(HM2); sljit_free_unused_memory_exec(); ASnap s1 = a_snap(); if (s1.blocks != s0.blocks || s1.bytes != s0.bytes || s1.exec != s0.exec) mc_fail("%ld allocations (%ld bytes), %ld bytes of code are still held after deleting everything", s1.blocks - s0.blocks, s1.bytes - s0.bytes, s1.exec - s0.exec);
}
static void hist(int depth, int nsn, int names, const int *ops, int nops) {
  ensure(); for (int d = 0; d < depth; d++) { h_s[d] = choose(nsn); h_k[d] = choose(names); h_o[d] = ops[choose(nops)]; } if (!mc_mine()) return;
  dn = sprintf(dbuf, "steps:"); for (int d = 0; d < depth; d++) { dn += sprintf(dbuf + dn, " "); if (nsn > 1) dn += sprintf(dbuf + dn, "ns%d.", h_s[d]); dn += sprintf(dbuf + dn, "'%s'=%s", NM[h_k[d]], op_name(h_o[d])); } sprintf(dbuf + dn, "\n"); mc_describe_cb = describe; mc_predesc(); set_cfg(1, 3);
  memset(E, 0, sizeof E); memset(live_def, 0, sizeof live_def); ndef = 0; n_ns = nsn; sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); a_track = 1; for (int s = 0; s < nsn; s++) NS_[s] = pwart_namespace_new(); host_init(); a_track = 0; observe(1);
  for (int d = 0; d < depth; d++) { if (stale_import(h_s[d], h_o[d])) continue; do_op(h_s[d], h_k[d], h_o[d]); observe(1); }
  uint64_t o = 7; for (int s = 0; s < nsn; s++) for (int k = 0; k < NNAME; k++) o = o * 1009 + E[s][k].type * 2000 + (E[s][k].type ? E[s][k].value : 0) + (E[s][k].type == 2 ? !usable(&E[s][k]) : 0) * 9999;
  finish(s0, nsn); mc_outcome(o);
}
static const int ops_all[] = {O_H0, O_H1, O_H2, O_W, O_WD, O_IMP, O_IMP + 1, O_IMP + 2, O_IMP + 3, O_BAD, O_BAD + 1, O_BAD + 2, O_RM}, ops_few[] = {O_H0, O_W, O_IMP, O_IMP + 1, O_RM, O_BAD + 2};
static void b_all3(void) { hist(mc_thorough ? 4 : 3, 1, 4, ops_all, 13); }
static void b_few5(void) { hist(mc_thorough ? 7 : 6, 1, 2, ops_few, 6); }
static void b_two4(void) { hist(mc_thorough ? 5 : 4, 2, 2, ops_few, 6); }
/* many modules: every name of length <= 3 over {a,b}; which are defined, removed and defined again */
static void b_many(void) {
  ensure(); static char names[600][10]; static const int big[] = {16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511}; int nn = 0; strcpy(names[nn++], ""); /* a name is a string over {a,b} */ for (int l = 1; l <= 8; l++) for (int v = 0; v < 1 << l; v++) { for (int i = 0; i < l; i++) names[nn][i] = v >> (l - 1 - i) & 1 ? 'b' : 'a'; names[nn++][l] = 0; }
  int n = 1 + choose(15 + 19), order = choose(3), rm = choose(1 << 4), re = choose(3), kind = choose(2); if (!mc_mine()) return; if (n > 15) n = big[n - 16]; dn = sprintf(dbuf, "the first %d of 511 names, order %d, remove pattern %d, redefine %d, %s modules\n", n, order, rm, re, kind ? "wasm" : "host"); mc_describe_cb = describe; mc_predesc(); set_cfg(1, 3); sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); a_track = 1; pwart_namespace ns = pwart_namespace_new(); host_init(); a_track = 0; att_ns = ns; static void *cur[600]; memset(cur, 0, sizeof cur); int id = 0;
  for (int pass = 0; pass < 3; pass++) for (int j = 0; j < n; j++) {
    int i = order == 0 ? j : order == 1 ? n - 1 - j : (j * 37) % n; if (order == 2 && n % 37 == 0) i = j; int skip = (pass == 1 && !(rm >> (i & 3) & 1)) || (pass == 2 && (re == 0 || (re == 1 && (i & 1)))); if (skip) ; else if (pass == 1) { a_track = 1; pwart_namespace_remove_module(ns, names[i]); a_track = 0; cur[i] = NULL; } else if (kind) { a_track = 1; cur[i] = pwart_namespace_define_wasm_module(ns, names[i], (char *)plain[id % NID].b, plain[id % NID].n, NULL); a_track = 0; id++; if (!cur[i]) mc_fail("rejected"); } else { a_track = 1; pwart_namespace_define_host_module(ns, names[i], &HM[i % 2 + 1].b); a_track = 0; cur[i] = &HM[i % 2 + 1]; }
    for (int q = n <= 15 ? 0 : j == n - 1 ? 0 : i; q < (n <= 15 ? 15 : j == n - 1 ? (n < 511 ? n + 1 : n) : i + 1); q++) { struct pwart_named_module *f = pwart_namespace_find_module(ns, names[q]); void *p = f && f->type ? kind ? f->val.wasm : (void *)f->val.host : NULL; if (p != cur[q]) mc_fail("after step %d.%d '%s' finds %s", pass, j, names[q], p ? "another module" : "nothing"); if (p && strcmp(f->name, names[q])) mc_fail("found under the name '%.20s'", f->name); }
    struct pwart_named_module *f = pwart_namespace_find_module(ns, "aaaaaaaaa"); if (f && f->type) mc_fail("a name that was never defined is found");
  }
  pwart_namespace_delete(ns); pwart_namespace_delete_host_module(HM2); sljit_free_unused_memory_exec(); ASnap s1 = a_snap(); if (s1.blocks != s0.blocks || s1.exec != s0.exec) mc_fail("%ld allocations, %ld bytes of code are still held", s1.blocks - s0.blocks, s1.exec - s0.exec); mc_outcome((((n * 3 + order) * 16 + rm) * 3 + re) * 2 + kind);
}
/* names of every length */
static void b_len(void) {
  ensure(); int l = choose(600), kind = choose(3), near = choose(2); if (!mc_mine()) return; static char a[700], b[700]; for (int i = 0; i < l; i++) a[i] = b[i] = kind == 0 ? 'x' : kind == 1 ? 1 + i % 255 : 'a' + i % 26; a[l] = 0; b[l] = near ? 'x' : 0; b[l + 1] = 0; if (!near && l) b[l - 1] ^= 1; else if (!near) strcpy(b, "q"); sprintf(dbuf, "a name of %d bytes, pattern %d\n", l, kind); mc_describe_cb = describe; mc_predesc(); set_cfg(1, 3); sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); a_track = 1; pwart_namespace ns = pwart_namespace_new(); host_init(); char *c = malloc(l + 1); memcpy(c, a, l + 1); pwart_namespace_define_host_module(ns, c, &HM[1].b); memset(c, 'W', l); free(c); pwart_module_state s = (pwart_module_state)pwart_namespace_define_wasm_module(ns, b, (char *)plain[3].b, plain[3].n, NULL); a_track = 0;
  struct pwart_named_module *f = pwart_namespace_find_module(ns, a), *g = pwart_namespace_find_module(ns, b); if (!f || f->type != 1 || f->val.host != &HM[1].b || strcmp(f->name, a)) mc_fail("the name is not found"); if (!g || g->type != 2 || g->val.wasm != s || strcmp(g->name, b)) mc_fail("the similar name is not found"); pwart_namespace_remove_module(ns, a); f = pwart_namespace_find_module(ns, a); if (f && f->type) mc_fail("still found after removal"); g = pwart_namespace_find_module(ns, b); if (!g || g->val.wasm != s) mc_fail("removing a name removed a similar one");
  pwart_namespace_delete(ns); pwart_namespace_delete_host_module(HM2); sljit_free_unused_memory_exec(); ASnap s1 = a_snap(); if (s1.blocks != s0.blocks) mc_fail("%ld allocations are still held", s1.blocks - s0.blocks); mc_outcome(l * 6 + kind * 2 + near);
}
/* the namespace's own meta module */
static void b_meta(void) {
  ensure(); int when = choose(3), how = choose(2), kind = choose(4), field = choose(2); if (!mc_mine()) return; sprintf(dbuf, "pwart_namespace_meta, %d modules defined before, import kind %d\n", when, kind); mc_describe_cb = describe; mc_predesc(); set_cfg(1, 3); pwart_namespace ns = pwart_namespace_new(), other = pwart_namespace_new(); host_init(); for (int i = 0; i < when; i++) pwart_namespace_define_wasm_module(ns, NM[i], (char *)plain[i].b, plain[i].n, NULL);
  if (how == 0) { struct pwart_symbol_resolver *rs = pwart_namespace_resolver(ns); struct pwart_symbol_resolve_request q = {"pwart_namespace_meta", field ? "that" : "this", kind, NULL}; rs->resolve(rs, &q); if (field && q.result) mc_fail("an unknown symbol resolves"); if (!field && kind == 3 && (!q.result || *(void **)q.result != ns)) mc_fail("pwart_namespace_meta.this is not the namespace"); }
  else if (kind == 3 && !field) { mod_reset(&M); uint8_t x = XREF; int t = mod_ft(&M, 0, 0, 1, &x); Imp *p = mod_imp(&M, 3, "pwart_namespace_meta", "this"); p->vt = XREF; Fn *f = mod_fn(&M, t); E1(f, GGET, 0); mod_exp(&M, "f", 0, 0); mod_encode(&M, &g_out); for (int w = 0; w < 2; w++) { pwart_namespace n = w ? other : ns; char *e = NULL; pwart_module_state s = (pwart_module_state)pwart_namespace_define_wasm_module(n, "user", (char *)g_out.p, g_out.n, &e); if (!s) mc_fail("rejected: %s", e); FT ft = {0, 1, {0}, {XREF}}; V r; call_real(pwart_get_export_function(s, "f"), &ft, 0, &r); if ((void *)(uintptr_t)r.b != n) mc_fail("a module reads 0x%llx as its namespace, must be %p", (unsigned long long)r.b, n); } }
  pwart_namespace_delete(ns); pwart_namespace_delete(other); pwart_namespace_delete_host_module(HM2); mc_outcome(when * 100 + how * 10 + kind);
}
/* the library's own host modules: both constructors, every length, name patterns */
static void hm_name(char *o, int pat, int i) { switch (pat) { case 0: sprintf(o, "n%d", i); break; case 1: strcpy(o, "same"); break; case 2: sprintf(o, "p%d", i / 2); break; case 3: { int k = i % 300; memset(o, 'a', k); sprintf(o + k, "%s", i >= 300 ? "z" : ""); break; } case 4: sprintf(o, "a common beginning %d", i); break; case 5: sprintf(o, "%c%c", 1 + i % 255, 1 + i / 255); break; } }
static void b_hostmod(void) {
  static const int big[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513}; static uint8_t tok[1000]; static char nmbuf[600][320];
  ensure(); int two = choose(2), n = choose(41 + 11), pat = choose(6), real = choose(2), pos = choose(3); if (!mc_mine()) return; if (n > 40) n = big[n - 41]; dn = sprintf(dbuf, "pwart_namespace_new_host_module%s: %d names, pattern %d, %s, defined %s\n", two ? "2" : "", n, pat, real ? "functions" : "tokens", pos == 0 ? "first" : pos == 1 ? "between others" : "twice under different names"); mc_describe_cb = describe; mc_predesc(); set_cfg(1, 3);
  static const char *nm0[600]; static void *sy0[600]; int first[600]; for (int i = 0; i < n; i++) { hm_name(nmbuf[i], pat, i); nm0[i] = nmbuf[i]; sy0[i] = real ? (void *)hfn[(i * 7 + i / 3) % 3] : (void *)&tok[i]; first[i] = i; for (int j = 0; j < i; j++) if (!strcmp(nmbuf[i], nmbuf[j])) { first[i] = j; break; } }
  const char **nm = (const char **)guard_copy(nm0, n * sizeof *nm); static void *sy[600]; memset(sy, 0xee, sizeof sy); memcpy(sy, sy0, n * sizeof *sy); /* what lies behind the symbols is not a symbol */
  sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); a_track = 1; pwart_namespace ns = pwart_namespace_new(); host_init(); struct pwart_host_module *h = two ? pwart_namespace_new_host_module2(nm, sy, n) : pwart_namespace_new_host_module(nm, (pwart_host_function_c *)sy, n); if (!h) mc_fail("no host module"); if (h->on_attached || h->on_detached) mc_fail("a new host module has hooks");
  if (pos == 1) pwart_namespace_define_host_module(ns, "a", &HM[1].b); pwart_namespace_define_host_module(ns, "lib", h); if (pos == 1) pwart_namespace_define_host_module(ns, "zz", &HM[2].b); if (pos == 2) pwart_namespace_define_host_module(ns, "lib2", h); a_track = 0;
  struct pwart_symbol_resolver *rs = pwart_namespace_resolver(ns); if (h->namespace2 != ns) mc_fail("the host module does not know its namespace"); uint64_t out = n * 100 + pat * 10 + two * 2 + real;
  for (int i = -4; i < n; i++) for (int kind = 0; kind < 4; kind += n > 40 ? 3 : 1) { const char *q = i == -4 ? "absent" : i == -3 ? "sam" : i == -2 ? "samee" : i == -1 ? "N0" : nm0[i]; char c[320]; strcpy(c, q); void *want = i < 0 ? NULL : sy0[first[i]];
    for (int via = 0; via < (pos == 2 ? 3 : 2); via++) { struct pwart_symbol_resolve_request r = {via == 2 ? "lib2" : "lib", c, kind, (void *)0x5}; if (via) rs->resolve(rs, &r); else h->resolve(h, &r); if (r.result != want) mc_fail("'%.40s' (entry %d of %d) %s", q, i, n, !want ? "resolves although it is not in the list" : r.result ? "resolves to another entry" : "does not resolve"); } }
  if (real && n) for (int k = 0; k < 3; k++) { int i = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; mod_reset(&M); int t = mod_ft(&M, 0, 0, 1, i32_1); Imp *p = mod_imp(&M, 0, "lib", nm0[i]); p->type = t; Fn *f = mod_fn(&M, t); E1(f, CALL, 0); mod_exp(&M, "f", 0, 1); mod_encode(&M, &g_out); char *e = NULL; pwart_module_state s = (pwart_module_state)pwart_namespace_define_wasm_module(ns, "user", (char *)g_out.p, g_out.n, &e); if (!s) mc_fail("a module importing '%.40s' is rejected: %s", nm0[i], e); uint32_t r = call0(pwart_get_export_function(s, "f")), w = 500 + (first[i] * 7 + first[i] / 3) % 3; if (r != w) mc_fail("importing '%.40s' calls the function returning %u, must be %u", nm0[i], r, w); out = out * 31 + r; pwart_namespace_remove_module(ns, "user"); }
  pwart_namespace_remove_module(ns, "lib"); { struct pwart_symbol_resolve_request r = {"lib", n ? nm0[0] : "x", 0, (void *)5}; rs->resolve(rs, &r); if (r.result) mc_fail("still resolves after the module was removed"); }
  for (int i = 0; i < n; i++) if (nm[i] != nm0[i] || sy[i] != sy0[i]) mc_fail("the caller's lists were changed");
  pwart_namespace_delete(ns); pwart_namespace_delete_host_module(h); pwart_namespace_delete_host_module(HM2); sljit_free_unused_memory_exec(); ASnap s1 = a_snap(); if (s1.blocks != s0.blocks || s1.bytes != s0.bytes) mc_fail("%ld allocations (%ld bytes) are still held", s1.blocks - s0.blocks, s1.bytes - s0.bytes); mc_outcome(out);
}
static struct mc_space sp[] = {
  {"histories", b_all3, "every history of 3 (4) steps: 4 names x 13 operations (3 host modules, wasm bytes, wasm state, importers of each name, unloadable modules, remove)"},
  {"deep", b_few5, "every history of 6 (7) steps: 2 names x 6 operations"},
  {"two-namespaces", b_two4, "every history of 4 (5) steps over 2 namespaces x 2 names x 6 operations"},
  {"many", b_many, "1..15 and 19 larger numbers of similar names up to 511 x 3 orders x 16 removal patterns x 3 redefinition patterns x host/wasm"},
  {"name-lengths", b_len, "names of every length 0..599, with a similar one, caller's memory reused"},
  {"host-modules", b_hostmod, "new_host_module and new_host_module2 x 0..40 and 11 larger numbers of names x 6 name patterns (distinct, equal, pairs, prefixes, common beginnings, every byte) x 3 positions: every name and absent ones resolved directly, through the namespace and by an importing module"},
  {"meta", b_meta, "the namespace's own module, resolved and imported"}};
static const char *as[] = {"names without NUL; a module is not called, nor imported through, after one it imports from is gone", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P18", "one execution = one namespace history; every find, every resolution and every import binding compared after every step, and the allocation balance; non-trivial = distinct maps", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
