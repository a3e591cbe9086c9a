/* P17 lifetime of modules: independence, freeing in any order, allocation balance */
#include "num.h"
#include "host.h"
#include "alloc.h"
#include <sljitLir.h>
static char dbuf[3000]; static int dn;
static void describe(void) { mc_desc("%s", dbuf); }
/* ---- module kinds ---- */
enum { K_OWN, K_OWN2, K_IMP, K_PURE, NK };
static const char *KN[] = {"own", "growing", "importing", "pure"};
static struct { uint8_t b[1500]; int n; } enc[NK];
static const uint8_t i32_1[1] = {I32};
/* exports: bump(x)->i32 changes every part of the state; get()->i32 reads every part; grow()->i32; tset() nulls a table entry */
static void gen_kind(int k) {
  mod_reset(&M); int t1 = mod_ft(&M, 1, i32_1, 1, i32_1), t0 = mod_ft(&M, 0, 0, 1, i32_1), fb = 0; Imp *p;
  if (k == K_IMP) { p = mod_imp(&M, 2, "o", "m"); p->min = 1; p = mod_imp(&M, 3, "o", "g"); p->vt = I32; p->mut = 1; p = mod_imp(&M, 1, "o", "t"); p->vt = FREF; p->min = 2; p = mod_imp(&M, 0, "o", "bump"); p->type = t1; fb = 1; }
  else if (k != K_PURE) {
    M.tab[M.ntab++] = (Tab){FREF, 3, 3, 1}; M.mem[M.nmem++] = (Mem){1, 3, k == K_OWN, 0}; Glob *g = &M.glob[M.nglob++]; memset(g, 0, sizeof *g); g->vt = I32; g->mut = 1; g->nins = 1; g->ins[0].op = KI32; g->ins[0].a = 5 + k;
    Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->noff = 1; e->off[0].op = KI32; e->n = 2; e->fidx[0] = e->fidx[1] = 4;
    Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->noff = 1; d->off[0].op = KI32; d->off[0].a = 8; d->n = 4; d->bytes[0] = 7 + k;
  }
  Fn *f = mod_fn(&M, t1); /* bump */
  if (k == K_PURE) { f->nloc = 2; f->loc[0] = f->loc[1] = I32; E1(f, LGET, 0); E1(f, LSET, 1); E1(f, BLOCK, 0x40); E1(f, LOOP, 0x40); E1(f, LGET, 1); E0(f, 0x45); E1(f, BR_IF, 1); E1(f, LGET, 2); E1(f, LGET, 1); E0(f, 0x6a); E1(f, LSET, 2); E1(f, LGET, 1); E1(f, KI32, 1); E0(f, 0x6b); E1(f, LSET, 1); E1(f, BR, 0); E0(f, END); E0(f, END); E1(f, LGET, 2); }
  else { if (k == K_IMP) { E1(f, LGET, 0); E1(f, CALL, 0); E0(f, DROP); } E1(f, GGET, 0); E1(f, LGET, 0); E0(f, 0x6a); E1(f, GSET, 0); E1(f, KI32, 8); E1(f, KI32, 8); emit_mem(f, 0x28, 0, 0); E1(f, LGET, 0); E0(f, 0x73); emit_mem(f, 0x36, 0, 0); E1(f, GGET, 0); }
  f = mod_fn(&M, t0); /* get */
  if (k == K_PURE) E1(f, KI32, 77); else { E1(f, GGET, 0); E1(f, KI32, 8); emit_mem(f, 0x28, 0, 0); E1(f, KI32, 31); E0(f, 0x6c); E0(f, 0x6a); E1(f, MSIZE, 0); E1(f, KI32, 1000); E0(f, 0x6c); E0(f, 0x6a); E1(f, KI32, 0); E1(f, TGET, 0); E0(f, REFISNULL); E1(f, KI32, 100000); E0(f, 0x6c); E0(f, 0x6a); E1(f, KI32, 1); E2(f, CALL_IND, t0, 0); E0(f, 0x6a); }
  f = mod_fn(&M, t0); /* grow */ if (k == K_PURE) E1(f, KI32, 1); else { E1(f, KI32, 1); E1(f, MGROW, 0); }
  f = mod_fn(&M, t0); /* tset */ if (k != K_PURE) { E1(f, KI32, 0); E1(f, REFNULL, FREF); E1(f, TSET, 0); } E1(f, KI32, 3);
  f = mod_fn(&M, t0); /* in the table */ E1(f, KI32, 11 + k);
  static const char *en[] = {"bump", "get", "grow", "tset"}; for (int i = 0; i < 4; i++) mod_exp(&M, en[i], 0, fb + i);
  if (k == K_OWN || k == K_OWN2) { mod_exp(&M, "m", 2, 0); mod_exp(&M, "g", 3, 0); mod_exp(&M, "t", 1, 0); }
  mod_encode(&M, &g_out); enc[k].n = g_out.n; memcpy(enc[k].b, g_out.p, g_out.n);
}
static void ensure(void) { static int done; if (done) return; done = 1; mallopt(M_PERTURB, 0); set_cfg(1, 3); for (int k = 0; k < NK; k++) gen_kind(k); int nb; pwart_get_builtin_symbols(&nb); char *e; pwart_module_state w = real_load_bytes(enc[K_PURE].b, enc[K_PURE].n, NULL, &e); FT t = {0, 1, {0}, {I32}}; V r; call_real(pwart_get_export_function(w, "get"), &t, 0, &r); pwart_free_module_state(w); }
/* ---- model ---- */
typedef struct { int kind; uint32_t g, w; int pages, tnull; } State;
typedef struct { int live, kind, owner, way; pwart_module_state st; State own; long blocks, grown; void *ud; } Slot;
#define NS 4
static Slot S[NS];
static pwart_module_state cur_owner;
static void rs_owner(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { q->result = NULL; if (!cur_owner || strcmp(q->import_module, "o")) return; switch (q->kind) { case 0: q->result = pwart_get_export_function(cur_owner, q->import_field); break; case 1: q->result = pwart_get_export_table(cur_owner, q->import_field); break; case 2: q->result = pwart_get_export_memory(cur_owner, q->import_field); break; case 3: q->result = pwart_get_export_global(cur_owner, q->import_field); break; } }
static struct pwart_symbol_resolver ors = {rs_owner};
static State *state_of(int s) { return S[s].kind == K_IMP ? &S[S[s].owner].own : &S[s].own; }
static int usable(int s) { return S[s].live && (S[s].kind != K_IMP || (S[s].owner >= 0 && S[S[s].owner].live)); }
static uint32_t m_get(int s) { if (S[s].kind == K_PURE) return 77; State *t = state_of(s); return t->g + t->w * 31 + t->pages * 1000 + t->tnull * 100000 + 11 + t->kind; }
static uint32_t m_bump(int s, uint32_t x) {
  if (S[s].kind == K_PURE) { uint32_t a = 0; for (uint32_t i = 1; i <= x; i++) a += i; return a; }
  State *t = state_of(s); for (int i = 0; i <= (S[s].kind == K_IMP); i++) { t->g += x; t->w ^= x; } return t->g;
}
static uint32_t call1(int s, const char *n, int np, uint32_t x) { FT t = {np, 1, {I32}, {I32}}; V v = mk(I32, x), r; void *f = pwart_get_export_function(S[s].st, n); if (!f) mc_fail("module %d no longer exports %s", s, n); call_real(f, &t, &v, &r); return (uint32_t)r.b; }
static void observe(int s) {
  if (!usable(s)) return; uint32_t r = call1(s, "get", 0, 0), w = m_get(s); if (r != w) mc_fail("module %d (%s) reports state %u, must be %u", s, KN[S[s].kind], r, w);
  if (pwart_module_state_get_user_data(S[s].st) != S[s].ud) mc_fail("module %d lost its user data", s);
  struct pwart_inspect_result1 q; memset(&q, 0, sizeof q); char *e = pwart_inspect_module_state(S[s].st, &q); if (e) mc_fail("inspect: %s", e);
  if (S[s].kind == K_PURE) { if (q.memory_size || q.table_entries_count) mc_fail("inspect reports a memory or table that does not exist"); }
  else { State *t = state_of(s); pwart_module_state o = S[S[s].kind == K_IMP ? S[s].owner : s].st; if (q.memory_size != t->pages * 65536 || q.memory != pwart_get_export_memory(o, "m")->bytes) mc_fail("inspect reports memory of %d bytes, must be %d", q.memory_size, t->pages * 65536); if (q.table_entries_count != 3 || q.table_entries != pwart_get_export_table(o, "t")->entries) mc_fail("inspect reports another table"); if (S[s].kind != K_IMP && (q.globals_buffer_size < 4 || *(uint32_t *)q.globals_buffer != t->g)) mc_fail("inspect reports other globals"); }
  if (S[s].way == 0 && q.symbol_resolver != &ors) mc_fail("inspect reports another resolver"); 
}
static void load(int s, int kind, int way, int owner) {
  Slot *p = &S[s]; memset(p, 0, sizeof *p); p->live = 1; p->kind = kind; p->way = way; p->owner = owner; cur_owner = owner >= 0 ? S[owner].st : NULL; long b0 = a_blocks; char *e = NULL;
  uint8_t *c = guard_copy(enc[kind].b, enc[kind].n); a_track = 1;
  if (way) p->st = (pwart_module_state)pwart_load_module((char *)c, enc[kind].n, &e);
  else { pwart_module_compiler m = pwart_new_module_compiler(); pwart_set_symbol_resolver(m, &ors); e = pwart_compile(m, (char *)c, enc[kind].n); if (!e) p->st = pwart_get_module_state(m); pwart_free_module_compiler(m); }
  a_track = 0; memset(c, 0xee, enc[kind].n); if (!p->st) mc_fail("module rejected: %s", e ? e : "(no text)"); p->blocks = a_blocks - b0;
  p->ud = (void *)(uintptr_t)(0x1000 + s); pwart_module_state_set_user_data(p->st, p->ud);
  if (kind < 2) p->own = (State){kind, 5 + kind, 7 + kind, 1, 0};
}
static void unload(int s) { long b0 = a_blocks; a_track = 1; char *e = pwart_free_module_state(S[s].st); a_track = 0; if (e) mc_fail("freeing module %d: %s", s, e); S[s].live = 0; for (int i = 0; i < NS; i++) if (S[i].live && S[i].kind == K_IMP && S[i].owner == s) S[i].owner = -1; if (b0 - a_blocks != S[s].blocks) mc_fail("loading module %d kept %ld allocations, freeing it returned %ld", s, S[s].blocks, b0 - a_blocks); }
static void all_back(ASnap s0) { sljit_free_unused_memory_exec(); ASnap s1 = a_snap(); if (s1.blocks != s0.blocks || s1.bytes != s0.bytes) mc_fail("after every module was freed %ld allocations (%ld bytes) are still held", s1.blocks - s0.blocks, s1.bytes - s0.bytes); if (s1.exec != s0.exec) mc_fail("after every module was freed %ld bytes of executable memory are still mapped", s1.exec - s0.exec); }
/* one history: the operation of every step is chosen from the enabled ones */
static struct { uint8_t op, a, b, c; } H[12];
static void hist(int depth, int slots, int kinds, int ways) {
  ensure(); int live[NS] = {0}, kind[NS] = {0}, own[NS]; int nsteps = 0; for (int i = 0; i < NS; i++) own[i] = -1;
  for (int d = 0; d < depth; d++) {
    struct { uint8_t op, a, b, c; } en[64]; int n = 0, fr = -1; for (int i = 0; i < slots; i++) if (!live[i]) { fr = i; break; }
    if (fr >= 0) for (int w = 0; w < ways; w++) for (int k = 0; k < kinds; k++) if (k == K_IMP) { if (!w) for (int o = 0; o < slots; o++) if (live[o] && kind[o] < 2) en[n].op = 0, en[n].a = k, en[n].b = w, en[n++].c = o; } else en[n].op = 0, en[n].a = k, en[n].b = w, en[n++].c = 255;
    for (int i = 0; i < slots; i++) if (live[i]) { en[n].op = 1, en[n++].a = i; if (kind[i] != K_IMP || own[i] >= 0) { en[n].op = 2, en[n++].a = i; if (kind[i] != K_PURE) { en[n].op = 3, en[n++].a = i; en[n].op = 4, en[n++].a = i; } } }
    int c = choose(n); H[d].op = en[c].op; H[d].a = en[c].a; H[d].b = en[c].b; H[d].c = en[c].c; nsteps++;
    if (H[d].op == 0) { live[fr] = 1; kind[fr] = H[d].a; own[fr] = H[d].c == 255 ? -1 : H[d].c; } else if (H[d].op == 1) { live[H[d].a] = 0; for (int i = 0; i < slots; i++) if (own[i] == H[d].a) own[i] = -1; }
  }
  if (!mc_mine()) return;
  dn = sprintf(dbuf, "steps:"); for (int d = 0; d < nsteps; d++) dn += H[d].op == 0 ? sprintf(dbuf + dn, " load(%s%s%s)", KN[H[d].a], H[d].b ? ",pwart_load_module" : "", H[d].a == K_IMP ? H[d].c == 0 ? " from 0" : H[d].c == 1 ? " from 1" : " from 2" : "") : sprintf(dbuf + dn, " %s(%d)", H[d].op == 1 ? "free" : H[d].op == 2 ? "bump" : H[d].op == 3 ? "grow" : "tset", H[d].a); sprintf(dbuf + dn, "\n");
  mc_describe_cb = describe; mc_predesc(); set_cfg(1, 3); memset(S, 0, sizeof S); sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); uint64_t o = 0;
  for (int d = 0; d < nsteps; d++) {
    int s = H[d].a;
    switch (H[d].op) {
    case 0: { int fr = 0; while (S[fr].live) fr++; load(fr, H[d].a, H[d].b, H[d].c == 255 ? -1 : H[d].c); break; }
    case 1: unload(s); break;
    case 2: { uint32_t x = 10 + d; a_track = 1; long b0 = a_blocks; uint32_t r = call1(s, "bump", 1, x); a_track = 0; if (a_blocks != b0) mc_fail("a call kept %ld allocations", a_blocks - b0); uint32_t w = m_bump(s, x); if (r != w) mc_fail("bump of module %d returned %u, must return %u", s, r, w); break; }
    case 3: { State *t = state_of(s); a_track = 1; long b0 = a_blocks; uint32_t r = call1(s, "grow", 0, 0); a_track = 0; if (a_blocks != b0) mc_fail("growing changed the number of allocations by %ld", a_blocks - b0); if (r != 0xffffffffu || (t->kind == K_OWN2 && t->pages < 40)) { if (r != (uint32_t)t->pages) mc_fail("grow of module %d returned %u, must return %d", s, r, t->pages); t->pages++; } break; }
    case 4: call1(s, "tset", 0, 0); state_of(s)->tnull = 1; break;
    }
    for (int i = 0; i < slots; i++) { observe(i); if (usable(i)) o = o * 31 + m_get(i) + i; else o = o * 31 + S[i].live; }
  }
  for (int k = 0; k < slots; k++) { int i = nsteps & 1 ? slots - 1 - k : k; if (S[i].live) { unload(i); for (int j = 0; j < slots; j++) observe(j); } }
  all_back(s0); mc_outcome(o);
}
static void b_h4(void) { hist(mc_thorough ? 6 : 5, 3, NK, 2); }
static void b_h5(void) { hist(mc_thorough ? 8 : 6, 3, 3, 1); }
static void b_h6(void) { hist(mc_thorough ? 9 : 7, 2, 2, 1); }
/* many modules, freed in every order */
static void b_orders(void) {
  ensure(); int n = 4, ord[4], used = 0, ki[4]; for (int i = 0; i < n; i++) { int c = choose(n - i); for (int j = 0;; j++) if (!(used >> j & 1) && c-- == 0) { ord[i] = j; used |= 1 << j; break; } } for (int i = 0; i < n; i++) ki[i] = choose(i ? 4 : 2); if (!mc_mine()) return;
  dn = sprintf(dbuf, "modules"); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " %s", KN[ki[i]]); dn += sprintf(dbuf + dn, " freed in order"); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " %d", ord[i]); sprintf(dbuf + dn, "\n"); mc_describe_cb = describe; mc_predesc(); set_cfg(1, 3); memset(S, 0, sizeof S); sljit_free_unused_memory_exec(); ASnap s0 = a_snap();
  for (int i = 0; i < n; i++) { int ow = -1; if (ki[i] == K_IMP) for (ow = i - 1; ki[ow] >= 2; ow--); load(i, ki[i], 0, ow); }
  uint64_t o = 0; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) if (usable(j)) { uint32_t x = 3 + i, w = m_bump(j, x), r = call1(j, "bump", 1, x); if (r != w) mc_fail("bump of module %d returned %u, must return %u", j, r, w); o = o * 7 + w; } for (int j = 0; j < n; j++) observe(j); unload(ord[i]); }
  all_back(s0); mc_outcome(o);
}
/* ---- compilers: their life is independent of the states they produced ---- */
static void b_compilers(void) {
  ensure(); int steps = mc_thorough ? 9 : 8, st[2] = {0}, ms[2] = {0}, h[10], n = 0; /* compiler: 0 none 1 new 2 compiled 3 state taken; module: 0 none 1 live 2 freed */
  for (int d = 0; d < steps; d++) { int en[12], k = 0; for (int i = 0; i < 2; i++) { if (st[i] == 0 && ms[i] == 0) en[k++] = i; if (st[i] == 1) en[k++] = 2 + i; if (st[i] == 2) en[k++] = 4 + i; if (st[i] == 1 || st[i] == 3) en[k++] = 6 + i; if (ms[i] == 1) en[k++] = 8 + i, en[k++] = 10 + i; } if (!k) break; int c = en[choose(k)], i = c & 1; h[n++] = c; switch (c >> 1) { case 0: st[i] = 1; break; case 1: st[i] = 2; break; case 2: st[i] = 3; ms[i] = 1; break; case 3: st[i] = 0; if (ms[i] == 0) ms[i] = 2; break; case 4: ms[i] = 2; break; } }
  int k0 = choose(2), k1 = choose(2); if (!mc_mine()) return; static const char *on[] = {"new", "compile", "state", "free-compiler", "free-module", "bump"}; dn = sprintf(dbuf, "steps:"); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " %s(%d)", on[h[i] >> 1], h[i] & 1); sprintf(dbuf + dn, " kinds %d %d\n", k0, k1); mc_describe_cb = describe; mc_predesc(); set_cfg(1, 3); memset(S, 0, sizeof S); sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); pwart_module_compiler C[2] = {0}; int kk[2] = {k0 ? K_OWN2 : K_OWN, k1 ? K_PURE : K_OWN}; int taken[2] = {0}, comp[2] = {0}; uint64_t o = 0;
  for (int d = 0; d < n; d++) { int i = h[d] & 1; a_track = 1;
    switch (h[d] >> 1) {
    case 0: C[i] = pwart_new_module_compiler(); pwart_set_symbol_resolver(C[i], &ors); break;
    case 1: { uint8_t *c = guard_copy(enc[kk[i]].b, enc[kk[i]].n); char *e = pwart_compile(C[i], (char *)c, enc[kk[i]].n); memset(c, 0xee, enc[kk[i]].n); if (e) mc_fail("rejected: %s", e); comp[i] = 1; break; }
    case 2: S[i].st = pwart_get_module_state(C[i]); if (!S[i].st) mc_fail("no module state"); S[i].live = 1; S[i].kind = kk[i]; S[i].own = (State){kk[i], 5 + kk[i], 7 + kk[i], 1, 0}; taken[i] = 1; break;
    case 3: pwart_free_module_compiler(C[i]); C[i] = NULL; break;
    case 4: pwart_free_module_state(S[i].st); S[i].live = 0; break;
    case 5: { uint32_t x = 4 + d, w = m_bump(i, x); uint32_t r = call1(i, "bump", 1, x); if (r != w) mc_fail("bump of module %d returned %u, must return %u", i, r, w); o = o * 31 + w; break; }
    }
    a_track = 0; for (int j = 0; j < 2; j++) observe(j);
  }
  for (int i = 0; i < 2; i++) { pwart_module_state extra = NULL; if (comp[i] && !taken[i]) extra = pwart_get_module_state(C[i]); if (C[i]) pwart_free_module_compiler(C[i]); if (extra) pwart_free_module_state(extra); if (S[i].live) { observe(i); pwart_free_module_state(S[i].st); S[i].live = 0; } }
  all_back(s0); mc_outcome(o * 64 + n);
}
/* ---- every shape of module gives back what it took ---- */
static void b_shapes(void) {
  ensure(); int nf = choose(4), nm = choose(3), nt = choose(3), ng = choose(3), ne = choose(3), nd = choose(2), ex = choose(3), st = choose(2), imp = choose(4), way = choose(4);
  if ((st && !nf) || (ne && (!nt || !nf)) || (nd && !nm) || (way == 1 && imp)) { mc_owned = 0; return; } if (!mc_mine()) return; set_cfg(1, 3); mod_reset(&M); int v = mod_ft(&M, 0, 0, 0, 0), fb = 0; dn = sprintf(dbuf, "%d functions, %d memories, %d tables, %d globals, %d element segments, %d data segments, exports %d, start %d, imports %d, way %d\n", nf, nm, nt, ng, ne, nd, ex, st, imp, way); mc_describe_cb = describe; mc_predesc();
  for (int i = 0; i < imp; i++) { Imp *p = mod_imp(&M, 0, "h", "0"); p->type = v; fb++; } for (int i = 0; i < nt; i++) M.tab[M.ntab++] = (Tab){i ? XREF : FREF, 2 + i * 70, 100, 1}; for (int i = 0; i < nm; i++) M.mem[M.nmem++] = (Mem){i, 2, i, 0};
  for (int i = 0; i < ng; i++) { Glob *g = &M.glob[M.nglob++]; memset(g, 0, sizeof *g); g->vt = i ? F64 : I32; g->nins = 1; g->ins[0].op = i ? KF64 : KI32; }
  for (int i = 0; i < nf; i++) { Fn *f = mod_fn(&M, v); f->nloc = i * 40; memset(f->loc, I64, f->nloc); if (i) E1(f, CALL, fb + i - 1); for (int j = 0; j < i * 30; j++) { E1(f, KI64, j * 0x123456789ll); E1(f, LSET, j); } if (i == 2) for (int j = 0; j < 5; j++) { E1(f, BLOCK, 0x40); E1(f, KI32, 1); E1(f, BR_TABLE, 0); Ins *b = &f->ins[f->nins - 1]; b->nvec = 2; b->vec = M.vecpool + M.nvecpool; M.vecpool[M.nvecpool++] = 0; M.vecpool[M.nvecpool++] = 0; E0(f, END); } }
  for (int i = 0; i < ne; i++) { Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->flags = i ? 4 : 0; e->et = FREF; e->noff = 1; e->off[0].op = KI32; e->n = 1; e->fidx[0] = fb; } if (nd) { Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->noff = 1; d->off[0].op = KI32; if (nm == 1) d->n = 0; else { d->flags = 2; d->mem = 1; d->n = 3; } }
  static const char *en[] = {"a", "bb", "ccc", "dddd", "an export name that is rather long so that it does not fit anywhere small", "f", "g", "h"}; int q = 0; for (int r = 0; r < ex; r++) { if (nf) mod_exp(&M, en[q++], 0, fb); if (nm) mod_exp(&M, en[q++], 2, 0); if (nt) mod_exp(&M, en[q++], 1, 0); if (ng) mod_exp(&M, en[q++], 3, 0); } if (st) M.start = fb;
  mod_encode(&M, &g_out); host_reset(); hft[0] = M.ft[v]; sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); char *e = NULL; pwart_module_state s = NULL; pwart_namespace ns = NULL; struct pwart_host_module *hm = NULL; static const char *hn[] = {"0"}; static void *hs[1]; hs[0] = host_w[0];
  uint8_t *c = guard_copy(g_out.p, g_out.n); int n = g_out.n; a_track = 1;
  if (way == 0) { pwart_module_compiler m = pwart_new_module_compiler(); pwart_set_symbol_resolver(m, &host_rs); e = pwart_compile(m, (char *)c, n); if (!e) s = pwart_get_module_state(m); pwart_free_module_compiler(m); }
  else if (way == 1) s = (pwart_module_state)pwart_load_module((char *)c, n, &e);
  else { ns = pwart_namespace_new(); hm = pwart_namespace_new_host_module2(hn, hs, 1); pwart_namespace_define_host_module(ns, "h", hm); s = (pwart_module_state)pwart_namespace_define_wasm_module(ns, "m", (char *)c, n, &e); }
  a_track = 0; memset(c, 0xee, n); if (!s) mc_fail("rejected: %s", e ? e : "(no text)"); a_track = 1; long b1 = a_blocks;
  void *sf = pwart_get_start_function(s); if ((sf != NULL) != st) mc_fail("start function %s", sf ? "reported but not defined" : "missing"); if (sf) for (int i = 0; i < 5; i++) { FT t = {0}; call_real(sf, &t, 0, 0); } if (nf && ex) for (int i = 0; i < 5; i++) { FT t = {0}; call_real(pwart_get_export_function(s, en[0]), &t, 0, 0); }
  a_track = 0; if (a_blocks != b1) mc_fail("calls kept %ld allocations", a_blocks - b1); a_track = 1;
  if (way < 2) pwart_free_module_state(s); else { if (way == 3) { char *x = pwart_namespace_remove_module(ns, "m"); if (x) mc_fail("remove: %s", x); } pwart_namespace_delete(ns); pwart_namespace_delete_host_module(hm); }
  a_track = 0; all_back(s0); mc_outcome((((((nf * 3 + nm) * 3 + nt) * 3 + ng) * 3 + ne) * 3 + ex) * 4 + way);
}
/* ---- repeated calls of every instruction allocate nothing ---- */
static void b_repeat(void) {
  ensure(); int op = choose(256), rep = 200; int isnum = op >= 0x45 && op <= 0xc4, isld = op >= 0x28 && op <= 0x35, isst = op >= 0x36 && op <= 0x3e, misc = op < 14; if (!isnum && !isld && !isst && !misc) { mc_owned = 0; return; } if (!mc_mine()) return; set_cfg(1, 3); mod_reset(&M); sprintf(dbuf, "opcode 0x%02x, %d calls\n", op, rep); mc_describe_cb = describe; mc_predesc();
  int v = mod_ft(&M, 0, 0, 0, 0), t0 = mod_ft(&M, 0, 0, 1, i32_1); M.tab[M.ntab++] = (Tab){FREF, 4, 4, 1}; M.mem[M.nmem++] = (Mem){2, 0, 0, 0}; Fn *f = mod_fn(&M, v); mod_exp(&M, "f", 0, 0); void *fn; Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->noff = 1; e->off[0].op = KI32; e->n = 4; for (int i = 0; i < 4; i++) e->fidx[i] = 1;
  if (isld) { E1(f, KI32, 16); emit_mem(f, op, 0, 0); E0(f, DROP); } else if (isst) { int ty = op == 0x37 || op >= 0x3c ? I64 : op == 0x38 ? F32 : op == 0x39 ? F64 : I32; E1(f, KI32, 16); emit_k(f, ty, 1); emit_mem(f, op, 0, 0); }
  else if (isnum) { int ty, rt, n = num_sig(op, &ty, &rt); for (int i = 0; i < n; i++) emit_k(f, ty, ty == I32 || ty == I64 ? 3 : ty == F32 ? f32b(3.5f) : f64b(3.5)); E0(f, op); E0(f, DROP); }
  else switch (op) { case 0: E1(f, KI32, 0); E1(f, MGROW, 0); E0(f, DROP); break; case 1: E1(f, MSIZE, 0); E0(f, DROP); break; case 2: E1(f, KI32, 0); E1(f, KI32, 1); E1(f, KI32, 100); E1(f, MFILL, 0); break; case 3: E1(f, KI32, 0); E1(f, KI32, 9); E1(f, KI32, 100); E2(f, MCOPY, 0, 0); break; case 4: E1(f, KI32, 0); E2(f, CALL_IND, t0, 0); E0(f, DROP); break; case 5: E1(f, CALL, 1); E0(f, DROP); break; case 6: E1(f, KI32, 0); E1(f, REFFUNC, 1); E1(f, TSET, 0); break; case 7: E1(f, KI32, 0); E1(f, KI32, 1); E1(f, KI32, 2); E2(f, TCOPY, 0, 0); break; case 8: E1(f, KI32, 0); E1(f, REFNULL, FREF); E1(f, KI32, 2); E1(f, TFILL, 0); break; case 9: E1(f, TSIZE, 0); E0(f, DROP); break; case 10: E1(f, KI32, 70000); E1(f, MGROW, 0); E0(f, DROP); break; default: E1(f, KI32, 2); E1(f, LOOP, 0x40); E0(f, END); E0(f, DROP); }
  f = mod_fn(&M, t0); E1(f, KI32, 4); sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); a_track = 1; char *er; pwart_module_state s = real_load(&M, NULL, &er); if (!s) mc_fail("rejected: %s", er); fn = pwart_get_export_function(s, "f"); FT t = {0}; long b = a_blocks, by = a_bytes; for (int i = 0; i < rep; i++) call_real(fn, &t, 0, 0); if (a_blocks != b || a_bytes != by) mc_fail("%d calls kept %ld allocations, %ld bytes", rep, a_blocks - b, a_bytes - by); pwart_free_module_state(s); a_track = 0; all_back(s0); mc_outcome(op);
}
static struct mc_space sp[] = {
  {"histories", b_h4, "every history of 5 (6) steps (load of 4 kinds of module in 2 ways incl. importing from any live one, free, state-changing calls) on 3 slots"},
  {"histories-3-kinds", b_h5, "every history of 6 (8) steps, 3 kinds of module, 3 slots"},
  {"histories-2-kinds", b_h6, "every history of 7 (9) steps, 2 kinds, 2 slots"},
  {"orders", b_orders, "4 modules of 4 kinds, freed in every order, all remaining ones called after each"},
  {"compilers", b_compilers, "every history of 8 (9) steps of two compilers and their modules"},
  {"shapes", b_shapes, "every combination of 0..3 functions, 0..2 memories, tables, globals, segments, exports, start, 0..3 imported functions x 4 ways of loading and freeing"},
  {"repeat", b_repeat, "every instruction called 200 times"}};
static const char *as[] = {"a module is not called after the module it imports from was freed (it is still freed)", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P17", "one execution = one history of loads, calls and frees; state of every live module after every step and the allocation balance compared; non-trivial = distinct state sequences", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
