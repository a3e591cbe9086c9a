/* P12 globals and constant expressions */
#include "num.h"
#include "host.h"
static const uint8_t t6[6] = {I32, I64, F32, F64, FREF, XREF};
static uint64_t g_slot[8]; static V g_slotm[8]; /* host-owned globals offered as imports "g"."<k>" */
static void *res_g(const char *mod, const char *field, int kind) { return !strcmp(mod, "g") && kind == PWART_KIND_GLOBAL ? (void *)&g_slot[atoi(field)] : NULL; }
static const char *dg[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13"};
static void *g_imps[16];
static void imp_glob(int k, int vt, int mut, uint64_t val) { Imp *p = mod_imp(&M, 3, "g", dg[k]); p->vt = vt; p->mut = mut; g_slot[k] = val; g_slotm[k] = mk(vt, val); g_imps[M.nimp - 1] = &g_slotm[k]; }
static Glob *own_glob(int vt, int mut) { Glob *g = &M.glob[M.nglob++]; g->vt = vt; g->mut = mut; g->nins = 0; return g; }
static void gi(Glob *g, int op, int64_t a) { Ins *i = &g->ins[g->nins++]; memset(i, 0, sizeof *i); i->op = op; i->a = a; }
static int is32(int t) { return t == I32 || t == F32; }
static uint64_t rd(void *p, int t) { uint64_t v = 0; memcpy(&v, p, is32(t) ? 4 : 8); return v; }
/* the real pointer value that stands for the model's reference */
static uint64_t want_bits(V v) {
  if (v.t != FREF || !v.b) return is32(v.t) ? (uint32_t)v.b : v.b;
  RFunc *f = (RFunc *)(uintptr_t)v.b; if (f->host) return (uint64_t)(uintptr_t)pwart_wrap_host_function_c(host_w[f->hid]);
  char nm[8]; snprintf(nm, 8, "F%d", f->idx); uint64_t r = (uint64_t)(uintptr_t)pwart_get_export_function(g_st, nm); if (!r) mc_die("no export"); return r;
}
/* compare every global as seen through the export pointers "0".."9" (all globals, imported first) */
static void cmp_globals(const char *when) {
  int ni = mod_nimpk(&M, 3);
  for (int i = 0; i < ni + M.nglob; i++) {
    int t = i < ni ? R.glob[i]->t : M.glob[i - ni].vt; void *p = pwart_get_export_global(g_st, dg[i]);
    if (!p) mc_fail("exported global %d not found", i);
    if (i < ni && p != (void *)&g_slot[i]) mc_fail("export of imported global %d is not the host's variable", i);
    V w = *R.glob[i]; w.t = t; uint64_t got = rd(p, t), want = want_bits(w);
    if (got != want) mc_fail("%s: global %d (%s) holds 0x%llx, must hold 0x%llx", when, i, tname(t), (unsigned long long)got, (unsigned long long)want);
    g_outh = mc_hash(g_outh, &want, t == FREF ? 0 : 8);
  }
}
static void exp_globals(void) { int n = mod_nimpk(&M, 3) + M.nglob; for (int i = 0; i < n; i++) mod_exp(&M, dg[i], 3, i); }
static void begin(void) { mod_reset(&M); host_reset(); host_res_more = res_g; memset(g_imps, 0, sizeof g_imps); }
/* ---- (a) every postfix expression ---- */
static int ex_ops(int t, Glob *g, int len, const uint64_t *k) { /* choose a postfix expression of exactly len instructions */
  int d = 0;
  for (int i = 0; i < len; i++) {
    int left = len - i - 1; /* after this instruction depth must be reachable to 1 */
    int leaf = d + 1 - left <= 1, op = d >= 2 && left >= 0;
    if (leaf && op) { int c = choose(7); if (c < 4) op = 0; else { leaf = 0; c -= 4; gi(g, (t == I32 ? 0x6a : 0x7c) + c, 0); d--; continue; } if (c < 2) gi(g, kop(t), t == I32 ? (int64_t)(int32_t)k[c] : (int64_t)k[c]); else gi(g, GGET, c == 2 ? (t == I32 ? 0 : 1) : (t == I32 ? 2 : 3)); d++; }
    else if (leaf) { int c = choose(4); if (c < 2) gi(g, kop(t), t == I32 ? (int64_t)(int32_t)k[c] : (int64_t)k[c]); else gi(g, GGET, c == 2 ? (t == I32 ? 0 : 1) : (t == I32 ? 2 : 3)); d++; }
    else if (op) { gi(g, (t == I32 ? 0x6a : 0x7c) + choose(3), 0); d--; }
    else return 0;
  }
  return d == 1;
}
static void getters(int from, int to) { /* exported function "G" returning globals [from,to) */
  uint8_t rt[16]; int n = 0, ni = mod_nimpk(&M, 3); for (int i = from; i < to; i++) rt[n++] = i < ni ? M.imp[i].vt : M.glob[i - ni].vt;
  int ty = mod_ft(&M, 0, 0, n, rt); Fn *f = mod_fn(&M, ty); for (int i = from; i < to; i++) E1(f, GGET, i); mod_exp(&M, "f", 0, mod_nimpk(&M, 0) + M.nfn - 1);
}
static void b_expr(void) {
  set_cfg(choose(2), 3); int t = choose(2) ? I64 : I32, len = 1 + 2 * choose(5), kset = choose(len > 5 ? 1 : 3), pad = len > 5 ? 0 : choose(2);
  if (len > 5 && g_cfg.stack_flags == 0) { mc_owned = 0; return; }
  static const uint64_t K[3][2] = {{3, 0xfffffffffffffffeull}, {0x7fffffff, 0xffffffff80000001ull}, {0x123456789abcdef1ull, 0x8000000000000000ull}};
  begin(); M.leb_pad = pad ? 10 : 0; M.pad_mask = pad ? PK_CONST | PK_IDX : 0;
  imp_glob(0, I32, 0, 0x80000005u); imp_glob(1, I64, 0, 0xfedcba9876543217ull);
  gi(own_glob(I32, 1), KI32, -7); gi(own_glob(I64, 1), KI64, -0x7654321012345678ll);
  Glob *g = own_glob(t, 0); if (!ex_ops(t, g, len, K[kset])) { mc_owned = 0; return; }
  if (!mc_mine()) return;
  gi(own_glob(I32, 0), KI32, 0x0badf00d);
  exp_globals(); getters(2, 6);
  inst_both(&host_rs, g_imps); g_outh = t; cmp_globals("after loading"); if (diff_call("f", 0, NULL)) mc_die("trap"); cmp_globals("after reading"); free_both(); mc_outcome(g_outh);
}
static void b_consts(void) { /* one global of each type around one boundary constant */
  int t = choose(4), pad = choose(3), neg = choose(2);
  uint64_t v;
  if (t < 2) { int w = t ? 64 : 32, k = choose(w), d = choose(3); v = (1ull << k) + d - 1; if (neg) v = -v; }
  else { static const uint64_t mant[8] = {0, 1, 2, ~0ull >> 1, 3ull << 62, 1ull << 63, ~0ull, 0x5555555555555555ull}; int e = choose(6), m = choose(8), eb = t == 2 ? 8 : 11, mb = t == 2 ? 23 : 52; static const int es[6] = {0, 1, 127, -127, -2, -1}; uint64_t ex = es[e] & ((1u << eb) - 1); v = ((uint64_t)neg << (eb + mb)) | (ex << mb) | (mant[m] >> (64 - mb)); }
  if (!mc_mine()) return;
  set_cfg(1, 3); begin(); M.leb_pad = pad == 0 ? 0 : pad == 1 ? 5 : 10; M.pad_mask = PK_CONST;
  gi(own_glob(I32, 0), KI32, 1); int ty = all_t[t];
  for (int k = 0; k < 2; k++) gi(own_glob(ty, k), kop(ty), ty == I32 ? (int64_t)(int32_t)v : ty == F32 ? (int64_t)(uint32_t)v : (int64_t)v);
  gi(own_glob(F64, 0), KF64, f64b(2)); exp_globals(); getters(0, 4);
  inst_both(&host_rs, g_imps); g_outh = t; cmp_globals("after loading"); if (diff_call("f", 0, NULL)) mc_die("trap"); free_both(); mc_outcome(g_outh);
}
static void b_deep(void) { /* left- and right-leaning chains */
  int t = choose(2) ? I64 : I32, n = 1 + choose(14), right = choose(2), o = choose(3); if (!mc_mine()) return;
  set_cfg(1, 3); begin(); Glob *g = own_glob(t, 0); int ad = (t == I32 ? 0x6a : 0x7c) + o;
  if (right) { for (int i = 0; i <= n; i++) gi(g, kop(t), 3 * i - 5); for (int i = 0; i < n; i++) gi(g, ad, 0); }
  else { gi(g, kop(t), 9); for (int i = 0; i < n; i++) { gi(g, kop(t), 5 * i + 3); gi(g, ad, 0); } }
  exp_globals(); getters(0, 1); inst_both(&host_rs, g_imps); g_outh = 1; cmp_globals("after loading"); if (diff_call("f", 0, NULL)) mc_die("trap"); free_both(); mc_outcome(g_outh);
}
/* ---- (b) lists of globals of any type ---- */
static void b_lists(void) {
  int n = 1 + choose(5), ty[5], ini[5], nimp = choose(2), st = choose(2);
  for (int i = 0; i < n; i++) { ty[i] = choose(6); ini[i] = choose(2); }
  if (!mc_mine()) return;
  set_cfg(st, 3); begin();
  if (nimp) for (int i = 0; i < 4; i++) imp_glob(i, t6[i], 0, i == 0 ? 0x11111111 : i == 1 ? 0x2222222233333333ull : i == 2 ? f32b(1.5f) : f64b(-2.5));
  if (nimp) { imp_glob(4, FREF, 0, 0); g_slot[4] = (uint64_t)(uintptr_t)pwart_wrap_host_function_c(host_w[1]); g_slotm[4] = mk(FREF, (uintptr_t)&host_rf[1]); imp_glob(5, XREF, 0, 0xe1e2e3e4e5e6e7e8ull); }
  int ni = M.nimp, nf = 2, nif = nimp ? 2 : 0, v0 = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32});
  if (nimp) { imp_host(0, v0, g_imps); imp_host(1, v0, g_imps); }
  for (int i = 0; i < n; i++) {
    int t = t6[ty[i]]; Glob *g = own_glob(t, 1); int j; for (j = i - 1; j >= 0 && ty[j] != ty[i]; j--); /* latest earlier global of the type */
    int src = j >= 0 ? ni + j : nimp ? ty[i] : -1;
    if (ini[i] && src >= 0) gi(g, GGET, src);
    else if (t == FREF) { if (ini[i]) gi(g, REFFUNC, (i + st) % (nif + 2)); else gi(g, REFNULL, t); }
    else if (t == XREF) gi(g, REFNULL, t);
    else gi(g, kop(t), t == I32 ? 0x01010101 * (i + 1) : t == I64 ? 0x0101010101010101ll * (i + 1) : t == F32 ? (int64_t)f32b(i + 1) : (int64_t)f64b(i + 10));
  }
  for (int i = 0; i < nf; i++) { Fn *f = mod_fn(&M, v0); E1(f, KI32, 40 + i); mod_exp(&M, i ? "F1" : "F0", 0, nif + i); }
  /* S_i(v): set global i; for references also usable afterwards */
  static const char *sn[5] = {"s0", "s1", "s2", "s3", "s4"};
  for (int i = 0; i < n; i++) { uint8_t t = t6[ty[i]]; int st = mod_ft(&M, 1, &t, 0, 0); Fn *f = mod_fn(&M, st); E1(f, LGET, 0); E1(f, GSET, ni + i); mod_exp(&M, sn[i], 0, nif + nf + i); }
  M.tab[0] = (Tab){FREF, 2, 2, 1}; M.ntab = 1;
  { int ct = mod_ft(&M, 1, (uint8_t[]){I32}, 1, (uint8_t[]){I32}); Fn *f = mod_fn(&M, ct); /* call the function a global refers to through the table */
    E1(f, KI32, 0); int k = 0; E1(f, LGET, 0); E1(f, BR_IF, 0); f->nins -= 2;
    for (int i = 0; i < n; i++) if (t6[ty[i]] == FREF) { k = ni + i; }
    if (k) E1(f, GGET, k); else E1(f, REFNULL, FREF);
    E1(f, TSET, 0); E1(f, KI32, 0); E1(f, TGET, 0); E0(f, REFISNULL); E1(f, IF, I32); E1(f, KI32, -1); E0(f, ELSE); E1(f, KI32, 0); E2(f, CALL_IND, v0, 0); E0(f, END); mod_exp(&M, "c", 0, nif + nf + n); }
  exp_globals(); getters(0, ni + n);
  inst_both(&host_rs, g_imps); g_outh = n; cmp_globals("after loading");
  V z = mk(I32, 0);
  if (diff_call("f", M.nfn - 1, NULL)) mc_die("trap");
  if (diff_call("c", nf + n, &z)) mc_die("trap");
  for (int i = 0; i < n; i++) {
    int t = t6[ty[i]]; V a = mk(t, t == FREF ? 0 : 0xc0c1c2c3c4c5c6c7ull + i); V am = a;
    if (t == FREF) { am.b = (uintptr_t)R.f[nif]; a.b = (uintptr_t)pwart_get_export_function(g_st, "F0"); }
    if (r_run(&R.own[nf + i], &am, NULL)) mc_die("trap");
    call_real(pwart_get_export_function(g_st, sn[i]), &M.ft[M.fn[nf + i].type], &a, NULL); cmp_globals("after global.set");
  }
  if (diff_call("c", nf + n, &z)) mc_die("trap");
  free_both(); mc_outcome(g_outh);
}
/* ---- (c) histories inside one function, with values pending and with callees and the host writing ---- */
static int h_t;
static uint64_t hv(int t, int k) { return t == I32 ? 0x500u + k : t == I64 ? 0x50000000500ull + k : t == F32 ? f32b(k + 0.5f) : t == F64 ? f64b(k + 0.25) : 0; }
static void hm(int hid, V *a, V *r) { host_model(hid, a, r); V v = mk(h_t, hv(h_t, 100)); if (h_t != FREF) g_slotm[0] = v; else g_slotm[0] = mk(FREF, 0); }
static void hx(int hid, void *fp) { (void)fp; (void)hid; uint64_t b = hv(h_t, 100); memcpy(&g_slot[0], &b, is32(h_t) ? 4 : 8); }
static void b_hist(void) {
  int L = mc_thorough ? 6 : 5, cfg = choose(1 + mc_thorough), t = t6[choose(6)], sp = 0, kk = 0, np = 0, fill = choose(2); uint8_t pt[4];
  set_cfg(cfg ? 0 : 1, 3); begin(); h_t = t;
  if (t == XREF) pt[np++] = XREF;
  pt[np++] = I32;
  int hv0 = mod_ft(&M, 0, 0, 0, 0), ft = mod_ft(&M, np, pt, 0, 0);
  imp_host(0, hv0, g_imps);
  imp_glob(0, t, 1, hv(t, 1)); imp_glob(1, I32, 1, 0x77777777);
  Glob *g = own_glob(I32, 0); gi(g, KI32, 5); g = own_glob(t, 1); if (t >= FREF && t <= FREF) gi(g, REFFUNC, 1); else if (t == XREF) gi(g, REFNULL, t); else gi(g, kop(t), hv(t, 2)); gi(own_glob(I32, 1), KI32, 6);
  g = own_glob(t, 1); if (t == XREF || t == FREF) gi(g, REFNULL, t); else gi(g, kop(t), hv(t, 3));
  const int gx[3] = {0, 3, 5};
  Fn *cal = mod_fn(&M, hv0); E1(cal, GGET, 5); E1(cal, GSET, 3); mod_exp(&M, "F0", 0, 1);
  Fn *f = mod_fn(&M, ft); mod_exp(&M, "f", 0, 2); if (fill) for (int i = 0; i < 9; i++) add_local(f, t);
  for (int s = 0; s < L; s++) {
    int x = choose(13);
    if (x < 3) { E1(f, GGET, gx[x]); sp++; }
    else if (x < 6) { if (!sp) { mc_owned = 0; return; } E1(f, GSET, gx[x - 3]); sp--; }
    else if (x < 9) { kk++; if (t == FREF) E1(f, REFFUNC, 1 + (kk & 1)); else if (t == XREF) E1(f, LGET, 0); else emit_k(f, t, hv(t, 10 + kk)); E1(f, GSET, gx[x - 6]); }
    else switch (x) {
      case 9: E1(f, CALL, 1); break;
      case 10: E1(f, CALL, 0); break;
      case 11: if (sp < 1) { mc_owned = 0; return; } E0(f, DROP); sp--; break;
      case 12: E1(f, LGET, np - 1); E1(f, IF, 0x40); E1(f, GGET, 0); E1(f, GSET, 5); E0(f, END); break;
    }
    if (s == 1 && !mc_mine()) return;
  }
  FT *F = &M.ft[ft]; F->nr = sp; for (int i = 0; i < sp; i++) F->r[i] = t;
  mod_exp(&M, "F1", 0, 2); exp_globals();
  r_hostmodel = hm; inst_both(&host_rs, g_imps); g_outh = t; host_extra = hx; cmp_globals("after loading");
  for (int c = 0; c < 2; c++) {
    V a[2]; int n = 0; if (t == XREF) a[n++] = mk(XREF, 0x7fff12345678ull + c); a[n++] = mk(I32, c);
    V want[16], got[16]; memset(want, 0, sizeof want); if (r_run(&R.own[1], a, want)) mc_die("trap");
    call_real(pwart_get_export_function(g_st, "f"), F, a, got);
    for (int i = 0; i < sp; i++) { want[i].t = t; if (want_bits(want[i]) != got[i].b) mc_fail("result %d is 0x%llx, must be 0x%llx", i, (unsigned long long)got[i].b, (unsigned long long)want_bits(want[i])); if (t != FREF) g_outh = mc_hash(g_outh, &want[i].b, 8); }
    cmp_globals("after the call");
  }
  host_check(); free_both(); mc_outcome(g_outh);
}
/* ---- (d) one global shared by its owner, an importer, an importer of the importer's re-export, and the host ---- */
static pwart_module_state S[3];
static void *res_s(const char *mod, const char *field, int kind) { (void)kind; return pwart_get_export_global(S[mod[0] - 'A'], field); }
static void b_share(void) {
  int L = mc_thorough ? 6 : 5, t = t6[choose(6)], cfg = choose(2), op[6], pos = choose(3); for (int i = 0; i < L; i++) op[i] = choose(4);
  if (!mc_mine()) return;
  set_cfg(cfg, 3); host_reset(); host_res_more = res_s; char *err;
  for (int m = 0; m < 3; m++) {
    mod_reset(&M); int gidx;
    if (m == 0) { for (int k = 0; k < pos; k++) gi(own_glob(I32, 1), KI32, 0x40404040); gidx = M.nglob; Glob *g = own_glob(t, 1); if (t == FREF || t == XREF) gi(g, REFNULL, t); else gi(g, kop(t), (int64_t)(t == I32 ? 9 : hv(t, 9))); gi(own_glob(I32, 1), KI32, 0x41414141); }
    else { Imp *p = mod_imp(&M, 3, m == 1 ? "A" : "B", "g"); p->vt = t; p->mut = 1; gidx = 0; gi(own_glob(I64, 1), KI64, 0x4242424242424242ll); }
    mod_exp(&M, "g", 3, gidx); uint8_t u = t; int ts = mod_ft(&M, 1, &u, 0, 0), tg = mod_ft(&M, 0, 0, 1, &u);
    Fn *f = mod_fn(&M, ts); E1(f, LGET, 0); E1(f, GSET, gidx); mod_exp(&M, "s", 0, 0); f = mod_fn(&M, tg); E1(f, GGET, gidx); mod_exp(&M, "r", 0, 1);
    int nb = M.nglob; if (m == 0) { mod_exp(&M, "n0", 3, gidx + 1); if (pos) mod_exp(&M, "n1", 3, gidx - 1); } else mod_exp(&M, "n0", 3, nb);
    mc_describe_cb = describe_M; mc_predesc(); S[m] = real_load(&M, &host_rs, &err); if (!S[m]) mc_fail("module %c rejected: %s", 'A' + m, err);
  }
  void *p = pwart_get_export_global(S[0], "g"); for (int m = 1; m < 3; m++) if (pwart_get_export_global(S[m], "g") != p) mc_fail("re-exported global of module %c is another variable", 'A' + m);
  uint64_t cur = t == I32 ? 9 : hv(t, 9); FT fs = {1, 0, {t}, {0}}, fg = {0, 1, {0}, {t}}; if (t == FREF || t == XREF) cur = 0;
  for (int i = 0; i <= L; i++) {
    if (rd(p, t) != cur) mc_fail("host reads 0x%llx, must read 0x%llx", (unsigned long long)rd(p, t), (unsigned long long)cur);
    for (int m = 0; m < 3; m++) { V r; call_real(pwart_get_export_function(S[m], "r"), &fg, NULL, &r); if (r.b != cur) mc_fail("module %c reads 0x%llx after %d writes, must read 0x%llx", 'A' + m, (unsigned long long)r.b, i, (unsigned long long)cur); }
    if (*(uint32_t *)pwart_get_export_global(S[0], "n0") != 0x41414141 || (pos && *(uint32_t *)pwart_get_export_global(S[0], "n1") != 0x40404040)) mc_fail("a neighbouring global changed");
    for (int m = 1; m < 3; m++) if (*(uint64_t *)pwart_get_export_global(S[m], "n0") != 0x4242424242424242ull) mc_fail("a neighbouring global changed");
    if (i == L) break;
    V a = mk(t, 0x9192939495969798ull + i * 0x0101010101010101ull + op[i]); cur = a.b;
    if (op[i] == 3) memcpy(p, &a.b, is32(t) ? 4 : 8); else call_real(pwart_get_export_function(S[op[i]], "s"), &fs, &a, NULL);
    g_outh = mc_hash(g_outh, &cur, 8);
  }
  for (int m = 2; m >= 0; m--) pwart_free_module_state(S[m]);
  mc_outcome(g_outh);
}
static struct mc_space sp[] = {
  {"expressions", b_expr, "every postfix constant expression of 1, 3, 5, 7, 9 instructions over two constants, an imported and an own global, add, sub and mul, in i32 and i64, 3 constant pairs, padded and minimal, both layouts"},
  {"constants", b_consts, "every power of two +-1 with either sign in both integer types, float bit patterns at every exponent and mantissa edge, 3 paddings"},
  {"deep-expressions", b_deep, "left- and right-leaning chains of up to 15 operands"},
  {"lists", b_lists, "every list of up to 5 own globals of 6 types x constant or copied/reference initialiser x with/without imports x 2 layouts; then every one written in turn, references called through a table"},
  {"histories", b_hist, "every history of 5 (6) get/set/copy/drop/conditional-copy/call/host-write operations over an imported and two own globals of each of 6 types, values pending"},
  {"sharing", b_share, "every sequence of 5 (6) writes by the owner, an importer, an importer of a re-export and the host, for 6 types and 3 positions, everyone reads after each"}};
static const char *as[] = {"at most 16 pending operands in a constant expression", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P12", "one execution = one module (or three sharing modules), loaded, its globals read and written; non-trivial = distinct global vectors", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
