/* P34 callbacks may do everything: loads, calls, frees and namespace changes nested inside each other */
#include "num.h"
#include "host.h"
#include "alloc.h"
#include <sljitLir.h>
static char dbuf[3000]; static int dn;
static void describe(void) { mc_desc("%s", dbuf); }
#define NS 3   /* slots of modules */
#define NHO 3  /* host modules with callbacks, and the names they go by */
static int nns = 1, nho = 2; /* as many of them are used */
#define MAXOP 11
/* ---- the modules ---- */
enum { K_GROW, K_FIX, K_IMP, NK };
static struct { uint8_t b[900]; int n; } enc[NK][NS][2], bad; /* by kind, owner (importing kind) and the position of the import that calls back */
static const uint8_t l1[2] = {I64, I64}, li[2] = {I64, I32};
static const char *sname[NS] = {"n0", "n1", "n2"};
static void gen_kind(int k, int owner, int pos, int broken) {
  mod_reset(&M); int tr = mod_ft(&M, 2, li, 1, l1), t0 = mod_ft(&M, 0, 0, 1, l1), hf = 0, of = -1; Imp *p;
  if (k == K_IMP) { if (pos) { p = mod_imp(&M, 0, sname[owner], "run"); p->type = tr; of = 0; hf = 1; } else { p = mod_imp(&M, 0, "h", "f"); p->type = tr; } p = mod_imp(&M, 2, sname[owner], "m"); p->min = 1; p = mod_imp(&M, 3, sname[owner], "g"); p->vt = I64; p->mut = 1; p = mod_imp(&M, 1, sname[owner], "t"); p->vt = FREF; p->min = 2; if (pos) { p = mod_imp(&M, 0, "h", "f"); p->type = tr; } else { p = mod_imp(&M, 0, sname[owner], "run"); p->type = tr; of = 1; } }
  else { p = mod_imp(&M, 0, "h", "f"); p->type = tr; M.tab[M.ntab++] = (Tab){FREF, 2, 2, 1}; M.mem[M.nmem++] = (Mem){1, 5, k == K_FIX, 0}; Glob *g = &M.glob[M.nglob++]; memset(g, 0, sizeof *g); g->vt = I64; g->mut = 1; g->nins = 1; g->ins[0].op = KI64; g->ins[0].a = 50 + k; Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->noff = 1; d->off[0].op = KI32; d->off[0].a = 8; d->n = 4; d->bytes[0] = 7 + k; Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->noff = 1; e->off[0].op = KI32; e->n = 2; e->fidx[0] = 2; e->fidx[1] = 2; }
  int fb = k == K_IMP ? 2 : 1;
  /* run(x, id) */
  Fn *f = mod_fn(&M, tr); f->nloc = 2; f->loc[0] = f->loc[1] = I64; enum { X, ID, R, A };
  if (k == K_IMP) { E1(f, LGET, X); E1(f, KI64, 1); E0(f, 0x7c); E1(f, KI32, owner); E1(f, CALL, of); E1(f, LSET, A); }
  E1(f, KI32, 8); emit_mem(f, 0x29, 0, 0); E1(f, GGET, 0); E1(f, KF64, f64b(3.25)); E1(f, LGET, X); E0(f, 0xa7); E1(f, KI32, 0x55); E0(f, 0x73);
  E1(f, KI32, 8); E1(f, KI32, 8); emit_mem(f, 0x29, 0, 0); E1(f, LGET, X); E0(f, 0x85); emit_mem(f, 0x37, 0, 0); E1(f, GGET, 0); E1(f, LGET, X); E0(f, 0x7c); E1(f, GSET, 0);
  E1(f, LGET, X); E1(f, KI64, 3); E0(f, 0x7e); E1(f, LGET, ID); E1(f, CALL, hf); E1(f, LSET, R);
  E0(f, 0xad); E1(f, KI64, 5); E0(f, 0x7e); E1(f, LGET, R); E0(f, 0x7c); E1(f, LGET, A); E0(f, 0x7c); E1(f, LSET, R); E1(f, KF64, f64b(3.25)); E0(f, 0x62); E1(f, IF, 0x40); E0(f, UNREACHABLE); E0(f, END); E1(f, KI64, 3); E0(f, 0x7e); E1(f, LGET, R); E0(f, 0x7c); E1(f, LSET, R); E1(f, KI64, 31); E0(f, 0x7e); E1(f, LGET, R); E0(f, 0x7c);
  E1(f, KI32, 8); emit_mem(f, 0x29, 0, 0); E1(f, KI64, 7); E0(f, 0x7e); E0(f, 0x7c); E1(f, GGET, 0); E1(f, KI64, 11); E0(f, 0x7e); E0(f, 0x7c); E1(f, MSIZE, 0); E0(f, 0xad); E1(f, KI64, 13); E0(f, 0x7e); E0(f, 0x7c); E1(f, KI32, 1); E2(f, CALL_IND, t0, 0); E0(f, 0x7c);
  f = mod_fn(&M, t0); E1(f, KI64, 500 + k); /* in the table */
  f = mod_fn(&M, t0); E1(f, KI32, 1); E1(f, MGROW, 0); E0(f, 0xac);
  if (broken) { f = mod_fn(&M, t0); E0(f, 0xff); }
  mod_exp(&M, "run", 0, fb); mod_exp(&M, "grow", 0, fb + 2); mod_exp(&M, "m", 2, 0); mod_exp(&M, "g", 3, 0); mod_exp(&M, "t", 1, 0); mod_encode(&M, &g_out); if (g_out.n > 900) mc_die("module size");
}
/* ---- programs ---- */
enum { O_LOAD, O_BAD, O_FREE, O_RUN, O_GROW, O_DEFH, O_REMH }; /* load kind a owner b pos c; free, run, grow slot a (run: called back in call b); host module object a under name b, callbacks run in (c ? on_attached : on_detached); remove name a */
typedef struct { int op, a, b, c, d; } Op; static Op P[MAXOP]; static int np, via, samestk;
static const char *on[] = {"load", "fail to load", "free", "run", "grow", "define host module", "remove host module"};
static void show(void) { dn = sprintf(dbuf, "%s, inner calls on %s:\n", via ? nns == 2 ? "two namespaces (x1 in the second)" : "namespace" : "own resolver", samestk ? "the same stack" : "stacks of their own"); for (int i = 0; i < np; i++) { Op *o = &P[i]; dn += sprintf(dbuf + dn, "  %*s%s %d", 2 * o->d, "", on[o->op], o->a); if (o->op == O_LOAD && o->a == K_IMP) dn += sprintf(dbuf + dn, " from %d, called back at the %s import", o->b, o->c ? "last" : "first"); if (o->op == O_RUN && o->b) dn += sprintf(dbuf + dn, " called back at the second call"); if (o->op == O_DEFH) dn += sprintf(dbuf + dn, " as x%d, called back %s", o->b, o->c ? "when attached" : "when detached"); dn += sprintf(dbuf + dn, "\n"); } }
/* the choice of a program: an abstract state says what is possible at every point */
typedef struct { int live, kind, owner, busy, pin; } AS; static AS as_[NS]; static int anm[NHO], abusy[NHO], apin[NHO]; /* the object a name stands for (-1 none), names and objects in the middle of a change */
static int hookable(Op *o) { return o->op == O_LOAD || o->op == O_BAD || o->op == O_RUN || (o->op == O_DEFH) || o->op == O_REMH; }
static int freeslot(void) { for (int i = 0; i < NS; i++) if (!as_[i].live) return i; return -1; }
static int a_usable(int s) { return as_[s].live == 2 && (as_[s].kind != K_IMP || as_[s].owner >= 0); }
static int pslot[MAXOP];
static void a_pre(int i) { Op *o = &P[i]; switch (o->op) { case O_LOAD: { int s = freeslot(); pslot[i] = s; as_[s] = (AS){1, o->a, o->a == K_IMP ? o->b : -1, 0, 0}; if (o->a == K_IMP) as_[o->b].pin++; break; } case O_RUN: as_[o->a].busy++; if (as_[o->a].kind == K_IMP) as_[as_[o->a].owner].busy++; break; case O_FREE: as_[o->a].live = 0; for (int s = 0; s < NS; s++) if (as_[s].live && as_[s].owner == o->a) as_[s].owner = -1; break; case O_DEFH: abusy[o->b]++; apin[o->a]++; break; case O_REMH: abusy[o->a]++; break; } }
static void a_post(int i) { Op *o = &P[i]; switch (o->op) { case O_LOAD: as_[pslot[i]].live = 2; if (o->a == K_IMP) as_[o->b].pin--; break; case O_RUN: as_[o->a].busy--; if (as_[o->a].kind == K_IMP) as_[as_[o->a].owner].busy--; break; case O_DEFH: abusy[o->b]--; apin[o->a]--; anm[o->b] = o->a; break; case O_REMH: abusy[o->a]--; anm[o->a] = -1; break; } }
static void gen(int n, int hosts, int wasm) {
  memset(as_, 0, sizeof as_); for (int i = 0; i < NHO; i++) { anm[i] = -1; abusy[i] = apin[i] = 0; } np = 0; int open[MAXOP], no = 0;
  for (int i = 0; i < n; i++) {
    if (no) { int pop = choose(no + 1); while (pop--) a_post(open[--no]); } /* leave some of the callbacks we are in */
    Op en[48]; int c = 0;
    if (wasm) { int fs = freeslot(); if (fs >= 0) { en[c++] = (Op){O_LOAD, K_GROW, 0, 0}; en[c++] = (Op){O_LOAD, K_FIX, 0, 0}; for (int o = 0; o < NS; o++) if (as_[o].live == 2 && as_[o].kind != K_IMP) for (int q = 0; q < 2; q++) en[c++] = (Op){O_LOAD, K_IMP, o, q}; }
      if (!hosts) en[c++] = (Op){O_BAD, 0, 0, 0};
      for (int s = 0; s < NS; s++) { if (as_[s].live == 2 && !as_[s].busy && !as_[s].pin) { int ok = 1; for (int q = 0; q < NS; q++) if (as_[q].live && as_[q].owner == s && as_[q].busy) ok = 0; if (ok) en[c++] = (Op){O_FREE, s, 0, 0}; } if (a_usable(s)) { en[c++] = (Op){O_RUN, s, 0, 0}; if (as_[s].kind == K_IMP) en[c++] = (Op){O_RUN, s, 1, 0}; else if (as_[s].kind == K_GROW) en[c++] = (Op){O_GROW, s, 0, 0}; } } }
    if (hosts) for (int k = 0; k < nho; k++) { if (!abusy[k]) { for (int h = 0; h < nho; h++) { int at = apin[h]; for (int q = 0; q < nho; q++) if (anm[q] == h) at = 1; if (!at) { en[c++] = (Op){O_DEFH, h, k, 1}; if (anm[k] >= 0) en[c++] = (Op){O_DEFH, h, k, 0}; } } if (anm[k] >= 0) en[c++] = (Op){O_REMH, k, 0, 0}; } }
    if (!c) { mc_owned = 0; return; }
    P[np] = en[choose(c)]; P[np].d = no; a_pre(np); if (hookable(&P[np])) open[no++] = np; else a_post(np); np++;
  }
}
/* ---- running one, with the model beside it ---- */
typedef struct { int live, kind, owner; pwart_module_state st; uint64_t w, g; int pages; } Slot; static Slot S[NS];
typedef struct { struct pwart_host_module b; int id; } HM; static HM hm[NHO]; static int mnm[NHO]; static const char *xname[NHO] = {"x0", "x1", "x2"}; static int adding[NHO], removing[NHO], natt[NHO], ndet[NHO]; /* removing: the object a name lost in the change under way */
static int cur = -1; /* the operation whose callback is due, -1 none */
static int depth_; static pwart_namespace nsp, nsq; static pwart_namespace NSP(int k) { return nns == 2 && (k & 1) ? nsq : nsp; } /* the names are spread over one or two namespaces */ static void *hostf; static uint64_t outh;
static void exec_children(int i);
static int due(int op) { return cur >= 0 && P[cur].op == op; }
static void call_back(void) { int i = cur; cur = -1; exec_children(i); }
/* calls of the host function by modules: what the next one must be given */
typedef struct { int s; uint64_t x, v, g, got; int stage, op; } Fr; static Fr fr[64]; static int nfr; static uint64_t ncall_;
static Slot *own(int s) { return S[s].kind == K_IMP ? &S[S[s].owner] : &S[s]; }
static void f_pre(Fr *f, int s, uint64_t x) { Slot *o = own(s); f->v = o->w; f->g = o->g; o->w ^= x; o->g += x; }
static uint64_t f_post(Fr *f, int s, uint64_t x, uint64_t r, uint64_t add) { Slot *o = own(s); return (uint64_t)((uint32_t)x ^ 0x55) * 5 + r + add + f->g * 3 + f->v * 31 + o->w * 7 + o->g * 11 + (uint64_t)o->pages * 13 + 500 + o->kind; }
static void host_f(void *fp) {
  void *sp = fp; uint64_t a = pwart_rstack_get_i64(&sp); uint32_t id = pwart_rstack_get_i32(&sp); if (!nfr) mc_fail("the host function was called by nobody"); Fr *f = &fr[nfr - 1]; int imp = S[f->s].kind == K_IMP, me = nfr - 1, t = a_track; a_track = 0;
  int s = imp && f->stage == 0 ? S[f->s].owner : f->s; uint64_t x = imp && f->stage == 0 ? f->x + 1 : f->x; if (a != x * 3 || id != (uint32_t)s) mc_fail("the host function receives 0x%llx and %u, must be 0x%llx and %d", (unsigned long long)a, id, (unsigned long long)x * 3, s);
  uint8_t keep[48]; for (int i = 0; i < 48; i++) ((uint8_t *)fp)[i] = keep[i] = i * 7 + me; /* the frame is the host's */
  int hit = P[f->op].b == f->stage; a_track = t; if (hit) { int o = f->op; exec_children(o); } a_track = 0;
  f = &fr[me]; if (nfr != me + 1) mc_fail("calls end in another order"); if (memcmp(fp, keep, 48)) mc_fail("an inner operation changed the frame of the host function it was started from");
  uint64_t r = a * 31 + id + ++ncall_; if (imp && f->stage == 0) { f->got = f_post(f, s, x, r, 0); f_pre(f, f->s, f->x); f->stage = 1; } else f->got = f_post(f, f->s, f->x, r, imp ? f->got : 0), f->stage++;
  sp = fp; a_track = t; pwart_rstack_put_i64(&sp, r);
}
static void *export_(pwart_module_state st, const char *n, int kind) { return kind == 0 ? pwart_get_export_function(st, n) : kind == 1 ? (void *)pwart_get_export_table(st, n) : kind == 2 ? (void *)pwart_get_export_memory(st, n) : pwart_get_export_global(st, n); }
static int rq_n; /* requests of the load under way */
static void on_h(struct pwart_symbol_resolve_request *q) { q->result = NULL; int k = q->kind; char nm[20]; snprintf(nm, 20, "%s", q->import_field); if ((due(O_LOAD) || due(O_BAD))) call_back(); if (q->kind != k || strcmp(q->import_field, nm)) mc_fail("the request changed while an inner operation ran"); if (!strcmp(nm, "f") && k == 0) q->result = hostf; }
static void rs_plain(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { q->result = NULL; if (!strcmp(q->import_module, "h")) on_h(q); else if (q->import_module[0] == 'n') { int s = q->import_module[1] - '0'; if (s < 0 || s >= NS || !S[s].live) mc_fail("a module is asked for that is not there"); q->result = export_(S[s].st, q->import_field, q->kind); } }
static struct pwart_symbol_resolver prs = {rs_plain};
static struct pwart_host_module hh; static void hh_resolve(struct pwart_host_module *m, struct pwart_symbol_resolve_request *q) { if (m != &hh) mc_fail("another host module is asked"); on_h(q); }
/* every name looked up, also in the middle of changes: a host module is found when on_attached runs and no longer when on_detached runs */
static void lookup(void) { if (!via) return; int t = a_track; a_track = 0; for (int s = 0; s < NS; s++) { struct pwart_named_module *m = pwart_namespace_find_module(nsp, sname[s]); if (S[s].live ? !m || m->type != PWART_MODULE_TYPE_WASM_MODULE || m->val.wasm != S[s].st : m != NULL) mc_fail("name %s: %s", sname[s], m ? "another module or one that was removed" : "not found"); }
  for (int k = 0; k < NHO; k++) { struct pwart_named_module *m = pwart_namespace_find_module(NSP(k), xname[k]); if (nns == 2 && pwart_namespace_find_module((k & 1) ? nsp : nsq, xname[k])) mc_fail("name %s: found in another namespace", xname[k]); if (mnm[k] >= 0 ? !m || m->type != PWART_MODULE_TYPE_HOST_MODULE || m->val.host != &hm[mnm[k]].b : m != NULL) mc_fail("name %s: %s", xname[k], m ? mnm[k] < 0 ? "found although it was removed" : "another module" : "not found"); }
  struct pwart_named_module *m = pwart_namespace_find_module(nsp, "h"); if (!m || m->val.host != &hh) mc_fail("name h: lost"); a_track = t; }
static void att(struct pwart_host_module *b) { HM *h = (HM *)b; natt[h->id]++; if (adding[h->id] < 0) mc_fail("on_attached is called although the module is not being defined"); if (b->namespace2 != NSP(adding[h->id])) mc_fail("on_attached runs before the module knows its namespace"); mnm[adding[h->id]] = h->id; adding[h->id] = -1; lookup(); if (due(O_DEFH) && P[cur].c == 1 && P[cur].a == h->id) call_back(); }
static void det(struct pwart_host_module *b) { HM *h = (HM *)b; ndet[h->id]++; int k = -1; for (int i = 0; i < NHO; i++) if (mnm[i] == h->id) k = i; if (k < 0) mc_fail("on_detached is called although the module is in no namespace"); if (!removing[k]) mc_fail("on_detached is called although the module is not being removed"); mnm[k] = -1; if (nsp) lookup(); if ((due(O_REMH) && P[cur].a == k) || (due(O_DEFH) && P[cur].c == 0 && P[cur].b == k)) call_back(); }
static void hmres(struct pwart_host_module *b, struct pwart_symbol_resolve_request *q) { q->result = NULL; }
static void observe(void) { for (int s = 0; s < NS; s++) if (S[s].live && S[s].kind != K_IMP) { struct pwart_wasm_memory *m = pwart_get_export_memory(S[s].st, "m"); uint64_t *g = pwart_get_export_global(S[s].st, "g"), w; if (!m || !g) mc_fail("exports of module %d are gone", s); memcpy(&w, m->bytes + 8, 8); if ((int)m->pages != S[s].pages || w != S[s].w || *g != S[s].g) mc_fail("module %d: %u pages, word 0x%llx, global %lld, must be %d, 0x%llx, %lld", s, m->pages, (unsigned long long)w, (long long)*g, S[s].pages, (unsigned long long)S[s].w, (long long)S[s].g); } lookup(); }
#define STKN 24
static uint64_t stks[STKN][512] __attribute__((aligned(16))); static uint8_t *stk_top;
static void exec(int i) {
  Op *o = &P[i]; mc_steps(1); int d = ++depth_; 
  switch (o->op) {
  case O_LOAD: case O_BAD: { int s = 0; while (s < NS && S[s].live) s++; if (o->op == O_LOAD) { s = pslot[i]; } int isb = o->op == O_BAD; uint8_t *b = isb ? bad.b : enc[o->a][o->a == K_IMP ? o->b : 0][o->c].b; int n = isb ? bad.n : enc[o->a][o->a == K_IMP ? o->b : 0][o->c].n; uint8_t *cp = malloc(n); memcpy(cp, b, n); char *e = NULL; pwart_module_state st = NULL; cur = i;
    if (via) st = (pwart_module_state)pwart_namespace_define_wasm_module(nsp, isb ? "bad" : sname[s], (char *)cp, n, &e); else { pwart_module_compiler c = pwart_new_module_compiler(); pwart_set_symbol_resolver(c, &prs); e = pwart_compile(c, (char *)cp, n); if (!e) st = pwart_get_module_state(c); pwart_free_module_compiler(c); }
    memset(cp, 0xee, n); free(cp); if (cur == i) mc_fail("the resolver was not asked"); if (isb ? st != NULL : st == NULL) mc_fail("%s", isb ? "a broken module was accepted" : e ? e : "module rejected without a text"); if (isb && (!e || !strstr(e, "opcode"))) mc_fail("the error of the broken module is \"%s\"", e ? e : "(none)"); if (isb) break;
    S[s].live = 1; S[s].kind = o->a; S[s].owner = o->a == K_IMP ? o->b : -1; S[s].st = st; if (o->a != K_IMP) { S[s].w = 7 + o->a; S[s].g = 50 + o->a; S[s].pages = 1; } break; }
  case O_FREE: { S[o->a].live = 0; char *e = via ? pwart_namespace_remove_module(nsp, sname[o->a]) : pwart_free_module_state(S[o->a].st); if (e) mc_fail("freeing: %s", e); for (int s = 0; s < NS; s++) if (S[s].live && S[s].owner == o->a && S[s].kind == K_IMP) S[s].owner = -1; break; }
  case O_RUN: { uint64_t x = 1000 + i * 77 + d; Fr *f = &fr[nfr++]; *f = (Fr){o->a, x, 0, 0, 0, 0, i}; if (S[o->a].kind == K_IMP) f_pre(f, S[o->a].owner, x + 1); else f_pre(f, o->a, x); void *fn = pwart_get_export_function(S[o->a].st, "run"); if (!fn) mc_fail("no export"); int me = nfr - 1;
    uint8_t *b = samestk && stk_top ? (uint8_t *)(((uintptr_t)stk_top + 15) & ~15ul) + 64 : (uint8_t *)stks[d < STKN ? d : STKN - 1], *old = stk_top; void *sp = b; pwart_rstack_put_i64(&sp, x); pwart_rstack_put_i32(&sp, o->a); stk_top = b + 512; pwart_call_wasm_function(fn, b); stk_top = old; sp = b; uint64_t r = pwart_rstack_get_i64(&sp); if (nfr != me + 1) mc_fail("calls end in another order"); f = &fr[me]; int want = S[o->a].kind == K_IMP ? 2 : 1; if (f->stage != want) mc_fail("the host function was called %d times, must be %d", f->stage, want); nfr--; if (r != f->got) mc_fail("run of module %d returns 0x%llx, must return 0x%llx", o->a, (unsigned long long)r, (unsigned long long)f->got); outh = mc_hash(outh, &r, 8); break; }
  case O_GROW: { void *fn = pwart_get_export_function(S[o->a].st, "grow"); uint8_t *b = samestk && stk_top ? (uint8_t *)(((uintptr_t)stk_top + 15) & ~15ul) + 64 : (uint8_t *)stks[d < STKN ? d : STKN - 1]; pwart_call_wasm_function(fn, b); void *sp = b; int64_t r = pwart_rstack_get_i64(&sp); if (r != S[o->a].pages) mc_fail("memory.grow returns %lld, must return %d", (long long)r, S[o->a].pages); S[o->a].pages++; break; }
  case O_DEFH: { adding[o->a] = o->b; removing[o->b] = mnm[o->b] >= 0; int a0 = natt[o->a]; struct pwart_named_module nm; char name[8]; strcpy(name, xname[o->b]); nm.name = name; nm.type = PWART_MODULE_TYPE_HOST_MODULE; nm.val.host = &hm[o->a].b; cur = i; char *e = pwart_namespace_define_module(NSP(o->b), &nm); memset(name, '?', 7); if (e) mc_fail("define: %s", e); if (cur == i) mc_fail("the callback did not run"); if (natt[o->a] != a0 + 1) mc_fail("on_attached ran %d times", natt[o->a] - a0); if (mnm[o->b] != o->a) mc_fail("defined as another name"); removing[o->b] = 0; break; }
  case O_REMH: { removing[o->a] = 1; int h = mnm[o->a], d0 = ndet[h]; cur = i; char *e = pwart_namespace_remove_module(NSP(o->a), xname[o->a]); if (e) mc_fail("remove: %s", e); if (cur == i) mc_fail("the callback did not run"); if (ndet[h] != d0 + 1) mc_fail("on_detached ran %d times", ndet[h] - d0); removing[o->a] = 0; break; }
  }
  cur = -1; depth_--; int t = a_track; a_track = 0; observe(); a_track = t;
}
static void exec_children(int i) { for (int j = i + 1; j < np && P[j].d > P[i].d; j++) if (P[j].d == P[i].d + 1) exec(j); }
static void ensure(void) { static int d; if (d) return; d = 1; mallopt(M_PERTURB, 0); set_cfg(1, 3); for (int k = 0; k < NK; k++) for (int o = 0; o < (k == K_IMP ? NS : 1); o++) for (int q = 0; q < (k == K_IMP ? 2 : 1); q++) { gen_kind(k, o, q, 0); enc[k][o][q].n = g_out.n; memcpy(enc[k][o][q].b, g_out.p, g_out.n); } gen_kind(K_GROW, 0, 0, 1); bad.n = g_out.n; memcpy(bad.b, g_out.p, g_out.n); hostf = pwart_wrap_host_function_c(host_f); int nb; pwart_get_builtin_symbols(&nb); char *e; pwart_module_state w = real_load_bytes(enc[0][0][0].b, enc[0][0][0].n, &prs, &e); (void)w; if (w) pwart_free_module_state(w); }
static void run_prog(int cfg) {
  if (!mc_mine()) return; ensure(); show(); mc_describe_cb = describe; mc_predesc(); set_cfg(cfg, 3); memset(S, 0, sizeof S); nfr = 0; depth_ = 0; cur = -1; outh = via * 2 + samestk; ncall_ = 0; stk_top = NULL; hh = (struct pwart_host_module){hh_resolve}; for (int i = 0; i < NHO; i++) { hm[i] = (HM){{hmres, NULL, att, det}, i}; mnm[i] = -1; adding[i] = -1; removing[i] = natt[i] = ndet[i] = 0; }
  sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); a_track = 1; nsp = NULL; if (via) { nsp = pwart_namespace_new(); pwart_namespace_define_host_module(nsp, "h", &hh); if (nns == 2) nsq = pwart_namespace_new(); }
  for (int i = 0; i < np; i++) if (P[i].d == 0) exec(i);
  for (int k = 0; k < NHO; k++) removing[k] = 1; if (via) { pwart_namespace n = nsp; nsp = NULL; char *e = pwart_namespace_delete(n); if (!e && nns == 2) e = pwart_namespace_delete(nsq); if (e) mc_fail("delete: %s", e); for (int k = 0; k < NHO; k++) if (mnm[k] >= 0) mc_fail("host module %d was not told that it is detached", k); } else for (int s = NS - 1; s >= 0; s--) if (S[s].live) pwart_free_module_state(S[s].st);
  a_track = 0; sljit_free_unused_memory_exec(); ASnap s1 = a_snap(); if (s1.blocks != s0.blocks) mc_fail("%ld allocations are left", s1.blocks - s0.blocks); if (s1.exec != s0.exec) mc_fail("%ld bytes of executable memory are left", s1.exec - s0.exec); mc_outcome(mc_hash(outh, P, sizeof(Op) * np));
}
static void b_plain(void) { via = 0; nns = 1; samestk = choose(2); int cfg = choose(2); gen(mc_thorough ? 6 : 5, 0, 1); run_prog(cfg); }
static void b_ns(void) { via = 1; nns = 1; samestk = choose(2); int cfg = 1; gen(mc_thorough ? 6 : 5, 0, 1); run_prog(cfg); }
static void b_hosts(void) { via = 1; samestk = 0; nns = 1 + choose(2); nho = 2 + choose(2); gen(nho == 2 ? mc_thorough ? 10 : 8 : mc_thorough ? 7 : 6, 1, 0); run_prog(1); }
static void b_both(void) { via = 1; nns = 1; samestk = 1; nho = 2; gen(mc_thorough ? 6 : 5, 1, 1); run_prog(1); }
static struct mc_space sp[] = {
  {"nested", b_plain, "every tree of 5 (6) operations (load three kinds of module, fail to load, free, call, grow), each possibly inside the callback of another (resolver, host function), own resolver, 2 stack layouts, inner calls on the same or another stack"},
  {"nested-namespace", b_ns, "the same through one namespace"},
  {"host-modules", b_hosts, "every tree of 8 (10) definitions, replacements and removals of two host modules under two names, or of 6 (7) of three under three, the names in one namespace or spread over two, each possibly inside on_attached or on_detached of another"},
  {"all", b_both, "every tree of 5 (6) operations on modules and host modules of one namespace"}};
static const char *as[] = {"a module that is running, or that a running or loading module uses, is not freed; a module is not called after the one it imports from was freed", "a name whose definition is under way is not defined again by its own callbacks", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P34", "one execution = one tree of operations, inner ones run inside the callbacks of outer ones: every result, every module's state after every operation, lookups, callbacks and the allocation balance compared; non-trivial = distinct trees and results", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
