/* P07 calls: every small signature through every kind of call in both layouts, with every small pattern of values
 * pending in the caller; chains of multi-result calls; recursion, mutual recursion and deep tail calls. */
#include "host.h"
#include "num.h"
static const uint8_t t6[6] = {I32, F64, F32, I64, XREF, FREF};
static void *imps[12];
static uint64_t val(int t, int k) { return t == I32 ? 0x80000001u + 0x111 * k : t == I64 ? 0x8123456700000001ull + k * 0x1000100 : t == F32 ? f32b(1.25f + k) : t == F64 ? f64b(-1e300 * (k + 1)) : t == XREF ? 0x7000000000123450ull + k : 0; }
static void pushv(Fn *f, int t, int k, int form, int pidx) { /* a value of type t: constant, parameter, or computed */
  if (t == XREF || t == FREF) { E1(f, LGET, pidx); return; }
  if (form == 0) { emit_k(f, t, val(t, k)); return; }
  E1(f, LGET, pidx);
  if (form == 2) { if (t == I32) { E1(f, KI32, k + 1); E0(f, 0x6a); } else if (t == I64) { E1(f, KI64, k + 1); E0(f, 0x7c); } else { E0(f, neg_op(t)); } }
}
enum { K_OWN, K_HOST, K_IND, K_HOSTIND, K_TAIL, K_TAILHOST, K_TAILIND, NKIND };
static const char *kn[] = {"call", "call host", "call_indirect", "call_indirect host", "return_call", "return_call host", "return_call_indirect"};
/* caller params: one of each of the 6 types, in an order that depends on nothing; callee: np params, nr results */
static void sig_case(int np, const uint8_t *pt, int nr, const uint8_t *rt, int kind, int npend, const uint8_t *pend, int argform, int cfg, int nloc) {
  mod_reset(&M); host_reset(); set_cfg(cfg & 1, 3);
  int tc = mod_ft(&M, np, pt, nr, rt);
  int host = kind == K_HOST || kind == K_HOSTIND || kind == K_TAILHOST, tail = kind >= K_TAIL, ind = kind == K_IND || kind == K_HOSTIND || kind == K_TAILIND;
  uint8_t cr[64]; int ncr = 0; for (int i = 0; i < npend && !tail; i++) cr[ncr++] = pend[i]; for (int i = 0; i < nr; i++) cr[ncr++] = rt[i];
  int tm = mod_ft(&M, 6, t6, ncr, cr);
  imp_host(0, tc, imps);
  M.nmem = 1; M.mem[0] = (Mem){1, 1, 1, 0}; mod_exp(&M, "m", 2, 0);
  if (ind) { M.ntab = 1; M.tab[0] = (Tab){FREF, 4, 4, 1}; M.nelem = 1; M.elem[0] = (Elem){0}; M.elem[0].noff = 1; M.elem[0].off[0].op = KI32; M.elem[0].off[0].a = 1; M.elem[0].n = 2; M.elem[0].fidx[0] = 1; M.elem[0].fidx[1] = 0; }
  /* callee: store all params to memory, then return values picked from the params (last of the type) or constants */
  Fn *c = mod_fn(&M, tc);
  for (int i = 0; i < np; i++) { E1(c, KI32, 8 * i); E1(c, LGET, i); if (pt[i] == XREF || pt[i] == FREF) { E0(c, REFISNULL); emit_mem(c, 0x36, 0, 0); } else emit_mem(c, st_op(pt[i]), 0, 0); }
  for (int i = 0; i < nr; i++) { int s = -1; for (int k = 0; k < np; k++) if (pt[k] == rt[i]) { s = k; if ((i & 1) == 0) break; } if (s >= 0) E1(c, LGET, s); else emit_k(c, rt[i], rt[i] == FREF || rt[i] == XREF ? 0 : val(rt[i], 9 + i)); }
  Fn *f = mod_fn(&M, tm); mod_exp(&M, "f", 0, 2);
  for (int i = 0; i < nloc; i++) { f->loc[f->nloc++] = t6[i & 3]; pushv(f, t6[i & 3], 30 + i, 0, 0); E1(f, LSET, 6 + i); }
  int pid[128]; for (int i = 0; i < 6; i++) pid[t6[i]] = i;
  for (int i = 0; i < npend; i++) pushv(f, pend[i], 20 + i, 1 + (i & 1), pid[pend[i]]);
  for (int i = 0; i < np; i++) pushv(f, pt[i], i, argform == 3 ? i % 3 : argform, pid[pt[i]]);
  if (ind) E1(f, KI32, host ? 2 : 1);
  switch (kind) { case K_OWN: E1(f, CALL, 1); break; case K_HOST: E1(f, CALL, 0); break; case K_IND: case K_HOSTIND: E2(f, CALL_IND, tc, 0); break;
    case K_TAIL: E1(f, RCALL, 1); break; case K_TAILHOST: E1(f, RCALL, 0); break; case K_TAILIND: E2(f, RCALL_IND, tc, 0); break; }
  if (!tail) for (int i = 0; i < nloc; i++) { E1(f, KI32, 256 + 8 * i); E1(f, LGET, 6 + i); emit_mem(f, st_op(t6[i & 3]), 0, 0); }
  V a[6]; for (int i = 0; i < 6; i++) a[i] = mk(t6[i], val(t6[i], 40 + i));
  inst_both(&host_rs, imps); g_outh = 1;
  if (diff_call("f", 1, a)) mc_die("trap"); cmp_memory(0, "m"); host_check();
  free_both(); mc_outcome(g_outh ^ hlog_m);
}
static void vec(int n, int base, uint8_t *o) { for (int i = 0; i < n; i++) o[i] = t6[choose(base)]; }
static void b_sig(void) {
  uint8_t pt[8], rt[8], pd[8]; int big = mc_thorough;
  int cfg = choose(2), kind = choose(NKIND), np = choose(big ? 5 : 4); vec(np, 5 + (np < 4), pt);
  int nr = choose(4); if (nr == 3 && !big) { int c = choose(3); for (int i = 0; i < 3; i++) rt[i] = t6[(c + i * (c + 1)) % 6]; } else if (nr == 3) vec(nr, 4, rt); else vec(nr, np > 2 && !big ? 4 : 6, rt);
  int npend = choose(3); int pp = npend ? choose(2) : 0; for (int i = 0; i < npend; i++) pd[i] = t6[pp ? 3 - i : i];
  if (!mc_mine()) return;
  sig_case(np, pt, nr, rt, kind, npend, pd, 3, cfg, 0);
}
static void b_forms(void) { /* every pending pattern and argument form for a few signatures */
  static const uint8_t sg[6][2][5] = {{{I32}, {I32}}, {{F64, I32}, {I32, F64}}, {{I32, I64, F32, F64}, {F64, F32}}, {{F32, F32, F32}, {F32}}, {{I64}, {I32, I32, I32}}, {{0}, {F64, I32}}};
  uint8_t pd[8]; int cfg = choose(2), kind = choose(NKIND), s = choose(6), af = choose(4), nl = choose(4) * 3, npend = choose(mc_thorough ? 6 : 5); vec(npend, 4, pd);
  if (!mc_mine()) return;
  sig_case(strlen((char *)sg[s][0]), sg[s][0], strlen((char *)sg[s][1]), sg[s][1], kind, npend, pd, af, cfg, nl);
}
static void b_wide(void) { /* up to 24 parameters and 24 results in periodic patterns */
  int cfg = choose(2), kind = choose(NKIND), np = choose(25), pp = choose(8), nr = choose(25), rp = choose(8);
  if (!mc_mine()) return;
  uint8_t p[64], r[64], pd[1] = {I32};
  for (int i = 0; i < np; i++) p[i] = pp < 4 ? t6[pp] : pp == 4 ? t6[i & 1] : pp == 5 ? t6[i % 6] : pp == 6 ? t6[(i * 5) % 6] : t6[(i / 2) % 4];
  for (int i = 0; i < nr; i++) r[i] = rp < 4 ? t6[rp] : rp == 4 ? t6[i & 1] : rp == 5 ? t6[i % 6] : rp == 6 ? t6[(i * 5) % 6] : t6[(i / 2) % 4];
  sig_case(np, p, nr, r, kind, 1, pd, 3, cfg, 0);
}
/* chains: results of calls are, together with pending values, the arguments of further calls; every sequence of L calls among 8 functions */
static int ts[128], tn; 
static int ok_call(FT *t) { if (tn < t->np) return 0; for (int i = 0; i < t->np; i++) if (ts[tn - t->np + i] != t->p[i]) return 0; return 1; }
static void b_chain(void) {
  static const uint8_t ps[8][5] = {{0}, {I32}, {I32, F64}, {F64, I32}, {I64}, {F32, I64}, {0}, {I32, I32}}, rs[8][5] = {{I32, F64}, {I64}, {F64, I32}, {F32, I64}, {I32, I32}, {I32}, {F32}, {F64, I64, I32}};
  int cfg = choose(2), hostmask = choose(3), L = mc_thorough ? 6 : 5; mod_reset(&M); host_reset(); set_cfg(cfg, 3);
  for (int i = 0; i < 8; i++) mod_ft(&M, strlen((char *)ps[i]), ps[i], strlen((char *)rs[i]), rs[i]);
  int tm = mod_ft(&M, 4, all_t, 0, 0);
  for (int i = 0; i < 8; i++) if (hostmask == 1 || (hostmask == 2 && (i & 1))) imp_host(i, i, imps);
  int fidx[8], ni = M.nimp, k = 0; for (int i = 0; i < 8; i++) fidx[i] = (hostmask == 1 || (hostmask == 2 && (i & 1))) ? k++ : -1;
  if (hostmask != 1) for (int i = 0; i < 8; i++) if (fidx[i] < 0 && M.nfn < 7) { Fn *c = mod_fn(&M, i); fidx[i] = ni + M.nfn - 1; FT *t = &M.ft[i]; if (M.nfn & 1) add_local(c, F64);
    for (int q = 0; q < t->nr; q++) { int s = -1; for (int z = 0; z < t->np; z++) if (t->p[z] == t->r[q]) s = z; if (s >= 0) { E1(c, LGET, s); if (t->r[q] == I32) { E1(c, KI32, q + 3); E0(c, 0x6a); } else if (t->r[q] == F64) { emit_k(c, F64, f64b(0.5)); E0(c, 0xa0); } } else emit_k(c, t->r[q], val(t->r[q], i * 4 + q)); } }
  Fn *f = mod_fn(&M, tm); mod_exp(&M, "f", 0, ni + M.nfn - 1);
  tn = 0;
  for (int s = 0; s < L; s++) {
    int x = choose(14);
    if (x < 8) { if (fidx[x] < 0 || !ok_call(&M.ft[x])) { mc_owned = 0; return; } E1(f, CALL, fidx[x]); FT *t = &M.ft[x]; tn -= t->np; for (int i = 0; i < t->nr; i++) ts[tn++] = t->r[i]; }
    else if (x < 12) { E1(f, LGET, x - 8); ts[tn++] = all_t[x - 8]; }
    else if (x == 12) { if (!tn) { mc_owned = 0; return; } E0(f, DROP); tn--; }
    else { E1(f, KI32, 100 + s); ts[tn++] = I32; }
    if (s == 2 && !mc_mine()) return;
  }
  FT *ft = &M.ft[tm]; ft->nr = tn; for (int i = 0; i < tn; i++) ft->r[i] = ts[i];
  V a[4]; for (int i = 0; i < 4; i++) a[i] = mk(all_t[i], val(all_t[i], i));
  inst_both(&host_rs, imps); g_outh = tn; if (diff_call("f", M.nfn - 1, a)) mc_die("trap"); host_check(); free_both(); mc_outcome(g_outh ^ hlog_m);
}
/* recursion with rotated parameters: f(n, a, b, c) -> results depend on every activation's own values */
static void b_rec(void) {
  int cfg = choose(2), rot = choose(6), np = 1 + choose(4), depth = choose_from(((int[]){0, 1, 2, 3, 7, 30})), mode = choose(5), nl = choose(3) * 4;
  uint8_t t0 = t6[choose(4)];
  if (!mc_mine()) return;
  mod_reset(&M); host_reset(); set_cfg(cfg, 3);
  uint8_t p[8]; p[0] = I32; for (int i = 1; i <= np; i++) p[i] = i & 1 ? t0 : I64;
  if (rot & 1) for (int i = 1; i <= np; i++) p[i] = t0;
  int ty = mod_ft(&M, np + 1, p, 2, (uint8_t[]){t0, I64}); imp_host(0, ty, imps);
  M.ntab = 1; M.tab[0] = (Tab){FREF, 4, 4, 1}; M.nelem = 1; M.elem[0] = (Elem){0}; M.elem[0].noff = 1; M.elem[0].off[0].op = KI32; M.elem[0].n = 2; M.elem[0].fidx[0] = 1; M.elem[0].fidx[1] = 2;
  for (int g = 0; g < 2; g++) { /* two mutually recursive functions */
    Fn *f = mod_fn(&M, ty); for (int i = 0; i < nl; i++) { int l = add_local(f, t6[i & 3]); if (t6[i & 3] == p[1]) { E1(f, LGET, 1); E1(f, LSET, l); } }
    E1(f, LGET, 0); E0(f, 0x45); E1(f, IF, 0x40); E1(f, LGET, 1); E1(f, KI64, g); E0(f, RETURN); E0(f, END);
    if (mode != 2 && mode != 4) { E1(f, LGET, 1); }          /* pending across the call */
    E1(f, LGET, 0); E1(f, KI32, 1); E0(f, 0x6b);
    for (int i = 1; i <= np; i++) { /* rotated: find next param of the same type */ int s = i; if (rot & 2) { for (int q = 1; q <= np; q++) { int z = 1 + (i - 1 + q) % np; if (p[z] == p[i]) { s = z; break; } } } E1(f, LGET, s); if (p[i] == I64) { E1(f, KI64, i); E0(f, 0x7c); } else if (p[i] == I32) { E1(f, KI32, 3); E0(f, 0x6c); } else if (p[i] == F32) { emit_k(f, F32, f32b(0.5f)); E0(f, 0x92); } else { emit_k(f, F64, f64b(0.5)); E0(f, 0xa0); } }
    int other_f = rot & 4 ? 2 - g : 1 + g;
    if (mode == 0) E1(f, CALL, other_f); else if (mode == 1) { E1(f, KI32, other_f - 1); E2(f, CALL_IND, ty, 0); } else if (mode == 2) E1(f, RCALL, other_f); else if (mode == 3) { E1(f, CALL, depth % 3 ? other_f : 0); } else { E1(f, KI32, other_f - 1); E2(f, RCALL_IND, ty, 0); }
    if (mode != 2 && mode != 4) { /* (pending t0, t0, i64) -> combine */
      int lr = add_local(f, I64); E1(f, LSET, lr); E0(f, t0 == I32 ? 0x6b : t0 == I64 ? 0x7d : t0 == F32 ? 0x93 : 0xa1); E1(f, LGET, lr); E1(f, KI64, 7); E0(f, 0x7c);
      for (int i = 0; i < nl; i++) if (t6[i & 3] == p[1] && i >= nl - 4) { E1(f, LGET, 1 + np + i); E1(f, LGET, 1 + np + i); E0(f, t0 == I32 ? 0x47 : t0 == I64 ? 0x52 : t0 == F32 ? 0x5c : 0x62); E0(f, 0xad); E0(f, 0x7c); }
    }
  }
  mod_exp(&M, "f", 0, 1);
  V a[8]; a[0] = mk(I32, depth); for (int i = 1; i <= np; i++) a[i] = mk(p[i], p[i] == I32 ? 5 + i : p[i] == I64 ? 0x500000000ull + i : p[i] == F32 ? f32b(i) : f64b(i));
  inst_both(&host_rs, imps); g_outh = depth; if (diff_call("f", 0, a)) mc_die("trap"); host_check(); free_both(); mc_outcome(g_outh ^ hlog_m);
}
/* tail calls do not consume the native stack: one million of them, between functions with different frames */
static void b_deep(void) {
  int cfg = choose(2), ind = choose(2), npa = choose(4), npb = choose(4), nl = choose(3) * 6, n = choose_from(((int[]){10, 1000, 300000}));
  if (!mc_mine()) return;
  mod_reset(&M); host_reset(); set_cfg(cfg, 3);
  uint8_t pa[6] = {I32, I32, F64, I64, F32}, pb[6] = {F64, I32, I32, I64, I32};
  /* A(n,acc,..) -> if n==0 acc else B(f64, n-1, acc+3,...) ; B(x, n, acc, ...) -> if n==0 acc else A(n-1, acc+1,..) */
  int ta = mod_ft(&M, 2 + npa % 4 - (npa == 3 ? 0 : 0), pa, 1, (uint8_t[]){I32}), tb = mod_ft(&M, 3 + (npb % 3), pb, 1, (uint8_t[]){I32});
  int na = M.ft[ta].np, nb = M.ft[tb].np;
  M.ntab = 1; M.tab[0] = (Tab){FREF, 4, 4, 1}; M.nelem = 1; M.elem[0] = (Elem){0}; M.elem[0].noff = 1; M.elem[0].off[0].op = KI32; M.elem[0].n = 2; M.elem[0].fidx[0] = 0; M.elem[0].fidx[1] = 1;
  Fn *f = mod_fn(&M, ta); for (int i = 0; i < nl; i++) add_local(f, all_t[i & 3]);
  E1(f, LGET, 0); E0(f, 0x45); E1(f, IF, I32); E1(f, LGET, 1); E0(f, ELSE);
  emit_k(f, F64, f64b(2)); E1(f, LGET, 0); E1(f, KI32, 1); E0(f, 0x6b); E1(f, LGET, 1); E1(f, KI32, 3); E0(f, 0x6a); for (int i = 3; i < nb; i++) emit_k(f, pb[i], i);
  if (ind) { E1(f, KI32, 1); E2(f, RCALL_IND, tb, 0); } else E1(f, RCALL, 1); E0(f, END);
  f = mod_fn(&M, tb); for (int i = 0; i < 18 - nl; i++) add_local(f, all_t[i & 3]);
  E1(f, LGET, 1); E0(f, 0x45); E1(f, IF, I32); E1(f, LGET, 2); E0(f, ELSE);
  E1(f, LGET, 1); E1(f, KI32, 1); E0(f, 0x6b); E1(f, LGET, 2); E1(f, KI32, 5); E0(f, 0x6b); for (int i = 2; i < na; i++) emit_k(f, pa[i], i);
  if (ind) { E1(f, KI32, 0); E2(f, RCALL_IND, ta, 0); } else E1(f, RCALL, 0); E0(f, END);
  mod_exp(&M, "f", 0, 0);
  mc_describe_cb = describe_M; mc_predesc(); g_st = real_load(&M, &host_rs, &g_err); if (!g_st) mc_fail("a valid module was rejected: %s", g_err);
  V a[6] = {{0}}; a[0] = mk(I32, n); a[1] = mk(I32, 1000); for (int i = 2; i < na; i++) a[i] = mk(pa[i], 0);
  V got[1]; call_real(pwart_get_export_function(g_st, "f"), &M.ft[ta], a, got);
  uint32_t want = 1000; for (int i = 0; i < n; i++) want += i & 1 ? -5 : 3;
  if ((uint32_t)got[0].b != want) mc_fail("%d alternating tail calls yield %u, must be %u", n, (uint32_t)got[0].b, want);
  pwart_free_module_state(g_st); mc_steps(n); mc_outcome(want + nl);
}
static struct mc_space sp[] = {
  {"signatures", b_sig, "every parameter vector of up to 3 (4) of 6 types x result vectors of up to 2 (3) x 7 call kinds x 2 layouts x pending patterns"},
  {"pending-values", b_forms, "every vector of up to 4 (5) values of 4 types pending across a call x argument origin x caller locals x call kinds x 6 signatures"},
  {"wide", b_wide, "0..24 parameters x 0..24 results in 8 x 8 type patterns x call kinds"},
  {"chains", b_chain, "every well-typed sequence of 5 (6) operations among 8 multi-result functions (own, host or both), values and drops"},
  {"recursion", b_rec, "self/mutual recursion, parameter rotations, five call kinds, depths 0..30"},
  {"deep-tail", b_deep, "alternating tail calls up to 300000 deep between functions of every frame shape"}};
static const char *as[] = {"operand stack depth up to the compiler's limit of 31 values", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P07", "one execution = one module with a caller, a callee and a host function, called once; results, callee memory, host arguments and the native ABI compared; non-trivial = distinct results", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
