/* P05 structured control flow: every tree of blocks, loops, ifs and branches up to a size, with values carried
 * out past pending operands and dead code, run on several inputs; the path is observed through a trace global. */
#include "num.h"
static Fn *F;
typedef struct { int op, np0, nrt; uint8_t rt[3]; } Lb;
static Lb lb[12]; static int nlb;
static int pend[64], np, budget, ids, items, owned, alive, small_;
static const uint8_t btypes[] = {0x40, I32, F64, I64, F32};
enum { X = 0, Y = 1, C = 2, RL_ = 3 /* i32 local */, RF = 4 };
static void mark(void) { E1(F, GGET, 0); E1(F, KI32, 31); E0(F, 0x6c); E1(F, KI32, ++ids); E0(F, 0x6a); E1(F, GSET, 0); }
static void fold(int t) { /* pop a t into the trace */
  if (t == I64) E0(F, 0xa7); else if (t == F32) E0(F, 0xbc); else if (t == F64) { E0(F, 0xbd); E1(F, KI64, 40); E0(F, 0x88); E0(F, 0xa7); }
  E1(F, GGET, 0); E1(F, KI32, 17); E0(F, 0x6c); E0(F, 0x73); E1(F, GSET, 0);
}
static void val(int t, int org) {
  ids++;
  uint64_t b = t == I32 ? 1000 + ids : t == I64 ? 0x100000000ull * ids + 77 : t == F32 ? f32b(ids + 0.5f) : f64b(ids * 3.25);
  if (org == 0) { emit_k(F, t, b); return; }
  if (org == 1) { /* register temporary depending on the input */
    E1(F, LGET, X); if (t != I32) E0(F, t == I64 ? 0xac : t == F32 ? 0xb2 : 0xb7); emit_k(F, t, b); E0(F, t == I32 ? 0x6a : t == I64 ? 0x7c : t == F32 ? 0x92 : 0xa0); return;
  }
  if (t == I32) { E1(F, LGET, Y); E1(F, LGET, X); E0(F, 0x48); } /* pending comparison */
  else { emit_k(F, t, b); E1(F, CALL, t == I64 ? 1 : t == F32 ? 2 : 3); }
}
static void cond(int k) {
  switch (k) {
  case 0: E1(F, LGET, X); break;
  case 1: E1(F, LGET, X); E1(F, LGET, Y); E0(F, 0x48); break;
  case 2: E1(F, LGET, C); E1(F, KI32, 1); E0(F, 0x6b); E1(F, LTEE, C); break;
  case 3: E1(F, LGET, X); E1(F, KI32, 1); E0(F, 0x71); break;
  case 4: E1(F, LGET, Y); E0(F, 0x45); break;
  case 5: E1(F, LGET, RL_); break;
  case 6: E1(F, LGET, X); E0(F, 0xb7); E1(F, LGET, RF); E0(F, 0x63); break;
  }
}
static int lab_arity(Lb *l) { return l->op == LOOP ? 0 : l->nrt; }
static int same_lab(Lb *a, Lb *b) { int n = lab_arity(a); if (n != lab_arity(b)) return 0; for (int i = 0; i < n; i++) if (a->rt[i] != b->rt[i]) return 0; return 1; }
static int step(void) { items++; if (items == 3) owned = mc_mine(), alive = owned; return alive; }
static int g_conds, g_bt, g_orgs, g_dead;
static void kill_stack(void) { np = lb[nlb - 1].np0; }
static void gen(void);
/* one construct: returns when fully emitted */
static void construct(int kind, int bt, int keep, int ck) {
  if (kind == 2 || kind == 3) cond(ck);
  E1(F, kind == 0 ? BLOCK : kind == 1 ? LOOP : IF, bt);
  Lb *l = &lb[nlb++]; l->op = kind == 1 ? LOOP : BLOCK; l->np0 = np; l->nrt = bt != 0x40; l->rt[0] = bt;
  gen(); if (!alive) return;
  if (kind == 3) { np = lb[nlb - 1].np0; E0(F, ELSE); gen(); if (!alive) return; }
  np = lb[nlb - 1].np0; nlb--;
  E0(F, END);
  if (bt != 0x40) { if (keep) pend[np++] = bt; else fold(bt); }
}
static void finish_seq(int dead) {
  Lb *l = &lb[nlb - 1];
  while (dead && np > l->np0) { pend[--np]; E0(F, DROP); }
  if (dead) return;
  while (np > l->np0) fold(pend[--np]);
  for (int i = 0; i < l->nrt; i++) val(l->rt[i], (ids + i) % 3 == 2 ? 2 : (ids + i) % 3);
}
static void push_lab(Lb *l, int org) { int n = lab_arity(l); for (int i = 0; i < n; i++) val(l->rt[i], org); }
static void gen(void) {
  int dead = 0;
  for (;;) {
    if (!budget) break;
    /* 0 end, 1 mark, 2 pending push, 3 br_if, 4 br, 5 br_table, 6 construct, 7 return, 8 unreachable, 9 select pending */
    int c = choose(dead && !g_dead ? 1 : 10);
    if (!c) break;
    budget--;
    switch (c) {
    case 1: mark(); if (!step()) return; break;
    case 2: { int t = btypes[1 + choose(g_bt - 1)]; int o = choose(g_orgs); if (!step()) return; val(t, o); pend[np++] = t; break; }
    case 3: case 4: {
      int d = choose(nlb), n = lab_arity(&lb[nlb - 1 - d]), o = n ? choose(g_orgs) : 0, ck = c == 3 ? choose(g_conds) : 0; if (!step()) return;
      Lb *l = &lb[nlb - 1 - d]; push_lab(l, o);
      if (c == 4) { E1(F, BR, d); kill_stack(); dead = 1; }
      else { cond(ck); E1(F, BR_IF, d); for (int i = n - 1; i >= 0; i--) fold(l->rt[i]); mark(); }
      break;
    }
    case 5: {
      int a = choose(nlb), b = choose(nlb), e = choose(nlb); if (!same_lab(&lb[nlb - 1 - a], &lb[nlb - 1 - b]) || !same_lab(&lb[nlb - 1 - a], &lb[nlb - 1 - e])) { alive = 0; owned = 0; return; }
      int o = lab_arity(&lb[nlb - 1 - a]) ? choose(g_orgs) : 0, ck = choose(2); if (!step()) return;
      push_lab(&lb[nlb - 1 - a], o);
      if (ck) { E1(F, LGET, X); } else cond(2);
      Ins *i = E0(F, BR_TABLE); i->vec = &M.vecpool[M.nvecpool]; i->nvec = 3; i->vec[0] = a; i->vec[1] = b; i->vec[2] = e; M.nvecpool += 3;
      kill_stack(); dead = 1; break;
    }
    case 6: { int k = choose(4), bt = btypes[k == 2 ? 0 : choose(g_bt)], keep = bt != 0x40 ? choose(2) : 0, ck = k >= 2 ? choose(g_conds) : 0; if (nlb > 8) { alive = owned = 0; return; } if (!step()) return; construct(k, bt, keep, ck); if (!alive) return; break; }
    case 7: { int o = lb[0].nrt ? choose(g_orgs) : 0; if (!step()) return; push_lab(&lb[0], o); E0(F, RETURN); kill_stack(); dead = 1; break; }
    case 8: if (!step()) return; E0(F, UNREACHABLE); kill_stack(); dead = 1; break;
    case 9: { int t = btypes[1 + choose(g_bt - 1)], ck = choose(g_conds); if (!step()) return; val(t, 0); val(t, 1); cond(ck); if (ids & 1) E0(F, SELECT); else E1(F, SELECT_T, t); pend[np++] = t; break; }
    }
  }
  finish_seq(dead);
}
static int has_loop_only_const;
static void run(int n, int nres, int npend0) {
  uint8_t pt[2] = {I32, I32};
  static const uint8_t rts[4][3] = {{0}, {I32}, {F64}, {I64, F32, I32}}; static const int nrts[4] = {0, 1, 1, 3};
  int fr = choose(nres);
  F = skeleton(2, pt, nrts[fr], rts[fr]); add_local(F, I32); add_local(F, I32); add_local(F, F64);
  mod_exp(&M, "t", 3, 0);
  M.nglob = 1;
  budget = n; ids = 0; items = 0; owned = 0; alive = 1; np = 0; nlb = 0;
  E1(F, KI32, 3); E1(F, LSET, C); E1(F, LGET, X); E1(F, KI32, 6); E0(F, 0x71); E1(F, LSET, RL_); emit_k(F, F64, f64b(1.5)); E1(F, LSET, RF);
  Lb *l = &lb[nlb++]; l->op = BLOCK; l->np0 = 0; l->nrt = nrts[fr]; memcpy(l->rt, rts[fr], 3);
  for (int i = 0; i < npend0; i++) { int t = btypes[1 + i % 4]; val(t, 1); pend[np++] = t; }
  gen();
  if (!alive) { if (items < 3) owned = 0; mc_owned = owned && 0; return; }
  if (items < 3) { if (!mc_mine()) return; }
  inst_both(NULL, NULL);
  int32_t *tr = pwart_get_export_global(g_st, "t"); if (!tr) mc_fail("global t not exported");
  static const uint32_t in[][2] = {{0, 0}, {1, 0}, {2, 5}, {3, (uint32_t)-1}};
  int nt = 0; g_outh = fr;
  for (int k = 0; k < 4; k++) {
    V a[2] = {mk(I32, in[k][0]), mk(I32, in[k][1])};
    R.oglob[0].b = 7; *tr = 7;
    if (diff_call("f", M.nfn - 1, a)) { nt++; continue; }
    if ((uint32_t)*tr != (uint32_t)R.oglob[0].b) mc_fail("f(%d,%d): path or values differ: trace 0x%x, must be 0x%x", (int)in[k][0], (int)in[k][1], *tr, (uint32_t)R.oglob[0].b);
    g_outh = mc_hash(g_outh, tr, 4);
  }
  free_both(); mc_outcome(g_outh);
  if (nt == 4) mc_skip();
}
static void b_all(void) { set_cfg(choose(2), 3); g_conds = mc_thorough ? 3 : 2; g_bt = 3; g_orgs = 2; g_dead = 1; run(mc_thorough ? 4 : 3, 2, 0); }
static void b_pend(void) { set_cfg(1, 3); g_conds = mc_thorough ? 3 : 2; g_bt = 2 + mc_thorough; g_orgs = 1; g_dead = 1; run(mc_thorough ? 4 : 3, 4, 1 + choose(mc_thorough ? 4 : 3)); }
static void b_rich(void) { set_cfg(choose(2), mc_thorough && choose(2) ? 2 : 3); g_conds = 7; g_bt = 5; g_orgs = 3; g_dead = 1; run(2, 4, choose(3)); }
static void b_deep(void) { set_cfg(1, 3); g_conds = 1; g_bt = 2; g_orgs = 1; g_dead = 0; run(mc_thorough ? 5 : 4, mc_thorough ? 2 : 1, 0); }
/* nests: a chain of d constructs of every kind, at the innermost point every branch; tests distance of every label */
static void b_nest(void) {
  set_cfg(choose(2), 3);
  int d = 1 + choose(mc_thorough ? 5 : 3), kinds[6], bts[6]; uint8_t pt[2] = {I32, I32}, rt[1] = {I32};
  for (int i = 0; i < d; i++) { kinds[i] = choose(4); bts[i] = kinds[i] == 2 ? 0x40 : btypes[choose(3)]; }
  int pnd = choose(3), what = choose(4), tgt = choose(d + 1); 
  if (!mc_mine()) return;
  F = skeleton(2, pt, 1, rt); add_local(F, I32); add_local(F, I32); add_local(F, F64); M.nglob = 1; mod_exp(&M, "t", 3, 0);
  ids = 0; nlb = 1; np = 0; lb[0].op = BLOCK; lb[0].np0 = 0; lb[0].nrt = 1; lb[0].rt[0] = I32;
  E1(F, KI32, 3); E1(F, LSET, C);
  int pc[7];
  for (int i = 0; i < d; i++) {
    pc[i] = pnd; for (int q = 0; q < pnd; q++) val(btypes[1 + (i + q) % 4], 1);
    if (kinds[i] >= 2) cond(i & 1 ? 3 : 0);
    E1(F, kinds[i] == 0 ? BLOCK : kinds[i] == 1 ? LOOP : IF, bts[i]); Lb *l = &lb[nlb++]; l->op = kinds[i] == 1 ? LOOP : BLOCK; l->nrt = bts[i] != 0x40; l->rt[0] = bts[i]; mark();
  }
  Lb *l = &lb[nlb - 1 - tgt]; int n = lab_arity(l);
  int dead = 0;
  push_lab(l, 0);
  if (what == 0) { E1(F, BR, tgt); dead = 1; } else if (what == 1) { cond(2); E1(F, BR_IF, tgt); if (n) fold(l->rt[0]); }
  else if (what == 2) { cond(1); E1(F, BR_IF, tgt); if (n) fold(l->rt[0]); }
  else { Ins *i; E1(F, LGET, X); i = E0(F, BR_TABLE); i->vec = &M.vecpool[M.nvecpool]; i->nvec = 4; int m = 0; for (int q = 0; q <= d && m < 3; q++) if (same_lab(l, &lb[nlb - 1 - q])) i->vec[m++] = q; while (m < 4) i->vec[m++] = tgt; M.nvecpool += 4; dead = 1; }
  for (int i = d - 1; i >= 0; i--) {
    if (!dead) { mark(); if (bts[i] != 0x40) val(bts[i], 0); } dead = 0;
    if (kinds[i] == 3) { E0(F, ELSE); mark(); if (bts[i] != 0x40) val(bts[i], 2); }
    E0(F, END); nlb--; if (bts[i] != 0x40) fold(bts[i]);
    for (int q = pnd - 1; q >= 0; q--) fold(btypes[1 + (i + q) % 4]);
    mark();
  }
  E1(F, GGET, 0);
  inst_both(NULL, NULL);
  int32_t *tr = pwart_get_export_global(g_st, "t"); int nt = 0; g_outh = what;
  for (int k = 0; k < 5; k++) { V a[2] = {mk(I32, k), mk(I32, k == 2 ? 9 : 0)}; R.oglob[0].b = 7; *tr = 7; if (diff_call("f", M.nfn - 1, a)) nt++; else if ((uint32_t)*tr != (uint32_t)R.oglob[0].b) mc_fail("trace 0x%x, must be 0x%x", *tr, (uint32_t)R.oglob[0].b); }
  free_both(); mc_outcome(g_outh); if (nt == 5) mc_skip();
}
/* br_table of every size 1..n, target sets cycling over nested blocks, index from each origin, all index values */
static void b_table(void) {
  set_cfg(choose(2), 3);
  int n = 1 + choose(mc_thorough ? 12 : 8), d = 1 + choose(3), rot = choose(3), org = choose(5), rtb = btypes[choose(3)], below = choose(2);
  if (!mc_mine()) return;
  uint8_t pt[2] = {I32, I32}, rt[1] = {I32}; F = skeleton(2, pt, 1, rt); add_local(F, I32); add_local(F, I32); add_local(F, F64); M.nglob = 1; mod_exp(&M, "t", 3, 0); ids = 0;
  if (org == 2) { E1(F, LGET, X); E1(F, LSET, RL_); } if (org == 4) { E1(F, KI32, 32); E1(F, LGET, X); emit_mem(F, 0x36, 0, 0); }
  for (int i = 0; i < d; i++) { if (below) val(I64, 1); E1(F, BLOCK, rtb); }
  if (below) val(F32, 1);
  if (rtb != 0x40) val(rtb, 0);
  switch (org) { case 0: E1(F, LGET, X); break; case 1: E1(F, LGET, X); E1(F, KI32, 0); E0(F, 0x72); break; case 2: E1(F, LGET, RL_); break; case 3: E1(F, LGET, X); E1(F, CALL, 0); break; case 4: E1(F, KI32, 32); emit_mem(F, 0x28, 0, 0); break; }
  Ins *ii = E0(F, BR_TABLE); ii->vec = M.vecpool; ii->nvec = n; for (int i = 0; i < n; i++) ii->vec[i] = (i * (rot + 1) + rot) % d;
  for (int i = 0; i < d; i++) { E0(F, END); if (rtb != 0x40) { fold(rtb); } if (below) fold(I64); mark(); E1(F, LGET, RL_); fold(I32); E1(F, LGET, X); fold(I32); if (i < d - 1 && rtb != 0x40) val(rtb, 0); }
  E1(F, LGET, X); E1(F, GGET, 0); E0(F, 0x6a);
  inst_both(NULL, NULL); int32_t *tr = pwart_get_export_global(g_st, "t"); g_outh = 1;
  for (int k = 0; k < n + 4; k++) { uint32_t x = k < n + 1 ? k : k == n + 1 ? 0x80000000u : k == n + 2 ? 0xffffffffu : 0x7fffffff; V a[2] = {mk(I32, x), mk(I32, 0)}; R.oglob[0].b = 7; *tr = 7; if (diff_call("f", M.nfn - 1, a)) mc_die("trap"); if ((uint32_t)*tr != (uint32_t)R.oglob[0].b) mc_fail("index 0x%x: trace 0x%x, must be 0x%x", x, *tr, (uint32_t)R.oglob[0].b); }
  free_both(); mc_outcome(g_outh);
}
/* operators in unreachable code: their operands need not exist there, and none of them may leave a trace.  One operator, its results dropped */
static void dead_op(int k, int lt) {
  switch (k) {
  case 0: E0(F, DROP); break;
  case 1: E0(F, 0x6a); E0(F, DROP); break;
  case 2: E0(F, 0xa2); E0(F, DROP); break;
  case 3: E0(F, SELECT); E0(F, DROP); break;
  case 4: E1(F, LSET, C); break;
  case 5: E1(F, LTEE, RL_); E0(F, DROP); break;
  case 6: E1(F, GSET, 0); break;
  case 7: emit_mem(F, 0x36, 0, 0); break;
  case 8: emit_mem(F, 0x2b, 0, 0); E0(F, DROP); break;
  case 9: E1(F, CALL, 0); E0(F, DROP); break;
  case 10: E2(F, CALL_IND, 3, 0); E0(F, DROP); break;
  case 11: E1(F, BR, 0); break;
  case 12: E1(F, BR_IF, 0); if (lt != 0x40) E0(F, DROP); break;
  case 13: { Ins *i = E0(F, BR_TABLE); i->vec = &M.vecpool[M.nvecpool]; i->nvec = 3; i->vec[0] = i->vec[1] = i->vec[2] = 0; M.nvecpool += 3; break; }
  case 14: E0(F, RETURN); break;
  case 15: E0(F, UNREACHABLE); break;
  case 16: E1(F, BLOCK, 0x40); E0(F, 0x7c); E0(F, DROP); E0(F, END); break;
  case 17: E1(F, LOOP, I64); E1(F, BR, 0); E0(F, END); E0(F, DROP); break;
  case 18: E1(F, IF, F32); E1(F, KF32, 0x0b050b05); E0(F, ELSE); E1(F, KF32, 0x050b050b); E0(F, END); E0(F, DROP); break;
  case 19: E1(F, MGROW, 0); E0(F, DROP); break;
  case 20: E0(F, 0xac); E0(F, DROP); break;
  case 21: E1(F, KI32, 11); E0(F, DROP); break;
  case 22: E0(F, REFISNULL); E0(F, DROP); break;
  case 23: E1(F, MFILL, 0); break;
  case 24: E1(F, KI64, 0x0b0b050b0b05ll); E0(F, DROP); break;
  case 25: emit_k(F, F64, 0x0b0b0b0b05050505ull); E0(F, DROP); break;
  case 26: E1(F, SELECT_T, F64); E0(F, DROP); break;
  case 27: mark(); break;
  case 28: E1(F, RCALL, 0); break;
  case 29: E1(F, TGET, 0); E0(F, DROP); break;
  case 30: E1(F, IF, 0x40); mark(); E0(F, END); break;
  case 31: E1(F, BLOCK, 0x40); E1(F, LOOP, 0x40); E1(F, BR, 1); E0(F, END); E0(F, END); break;
  case 32: E0(F, 0x45); E1(F, BR_IF, 0); if (lt != 0x40) E0(F, DROP); break;
  case 33: E1(F, LGET, X); E1(F, IF, 0x40); E0(F, RETURN); E0(F, ELSE); E0(F, UNREACHABLE); E0(F, END); break;
  }
}
static void b_dead(void) {
  set_cfg(choose(2), 3);
  int ctx = choose(8), term = choose(5), pnd = choose(mc_thorough ? 4 : 2), len = 1 + choose(mc_thorough ? 3 : 2), rtb = btypes[choose(2)], op[3];
  for (int i = 0; i < len; i++) op[i] = choose(34);
  if (!mc_mine()) return;
  uint8_t pt[2] = {I32, I32}, rt[1] = {I32}; F = skeleton(2, pt, 1, rt); add_local(F, I32); add_local(F, I32); add_local(F, F64); M.nglob = 1; mod_exp(&M, "t", 3, 0); M.tab[M.ntab++] = (Tab){FREF, 2, 2, 1};
  ids = 0; nlb = 1; lb[0].op = BLOCK; lb[0].nrt = 1; lb[0].rt[0] = I32;
  E1(F, KI32, 3); E1(F, LSET, C); E1(F, LGET, X); E1(F, LSET, RL_); 
  for (int q = 0; q < pnd; q++) val(btypes[1 + q % 4], 1);
  int lt = ctx == 0 ? I32 : ctx == 2 ? 0x40 : rtb, bt = rtb;
  switch (ctx) { /* the innermost label the dead code sees has type lt */
  case 0: break;                                                                                  /* function level */
  case 1: E1(F, BLOCK, bt); break;
  case 2: E1(F, LOOP, bt); break;
  case 3: cond(3); E1(F, IF, bt); break;                                                          /* then arm, else follows */
  case 4: cond(3); E1(F, IF, bt); mark(); if (bt != 0x40) val(bt, 1); E0(F, ELSE); break;         /* else arm */
  case 5: E1(F, BLOCK, bt); E1(F, BLOCK, bt); break;
  case 6: bt = lt = 0x40; cond(3); E1(F, IF, bt); break;                                          /* then arm without else */
  case 7: E1(F, BLOCK, bt); if (bt != 0x40) val(bt, 1); cond(3); E0(F, 0x45); E1(F, BR_IF, 0); if (bt != 0x40) E0(F, DROP); break; /* a live way round it */
  }
  mark();
  if (pnd) val(I64, 1); /* left behind by the terminator */
  switch (term) {
  case 0: if (lt != 0x40 && ctx != 2) val(lt, 1); if (ctx == 2) { val(I32, 1); E0(F, RETURN); } else E1(F, BR, 0); break;
  case 1: val(I32, 1); E0(F, RETURN); break;
  case 2: E0(F, UNREACHABLE); break;
  case 3: { if (ctx == 2) { E0(F, UNREACHABLE); break; } if (lt != 0x40) val(lt, 1); E1(F, LGET, X); Ins *i = E0(F, BR_TABLE); i->vec = &M.vecpool[M.nvecpool]; i->nvec = 3; i->vec[0] = i->vec[1] = i->vec[2] = 0; M.nvecpool += 3; break; }
  case 4: E1(F, LGET, X); E1(F, RCALL, 0); break;
  }
  for (int i = 0; i < len; i++) dead_op(op[i], lt);
  if (ctx) {
    if (ctx == 3) { E0(F, ELSE); mark(); if (bt != 0x40) val(bt, 1); }
    E0(F, END); if (ctx == 5) { E0(F, END); }
    if (bt != 0x40) fold(bt);
    for (int q = pnd - 1; q >= 0; q--) fold(btypes[1 + q % 4]);
    E1(F, LGET, C); fold(I32); E1(F, LGET, RL_); fold(I32); mark(); E1(F, GGET, 0);
  }
  inst_both(NULL, NULL);
  int32_t *tr = pwart_get_export_global(g_st, "t"); int nt = 0; g_outh = term * 8 + ctx;
  for (int k = 0; k < 3; k++) { V a[2] = {mk(I32, k), mk(I32, 5)}; R.oglob[0].b = 7; *tr = 7; if (diff_call("f", M.nfn - 1, a)) nt++; else if ((uint32_t)*tr != (uint32_t)R.oglob[0].b) mc_fail("trace 0x%x, must be 0x%x", *tr, (uint32_t)R.oglob[0].b); }
  free_both(); mc_outcome(g_outh); if (nt == 3) mc_skip();
}
/* every operator once in unreachable code, with immediates whose bytes look like other operators */
static void b_deadimm(void) {
  static const int vs[4] = {11, 5, 2, 4}; static const uint16_t two[] = {CALL_IND, RCALL_IND, MCOPY, TCOPY};
  set_cfg(choose(2), 3);
  int ctx = choose(3), grp = choose(6), op = 0, a = 0, b = 0, drop = 1;
  static const uint16_t one[] = {BR, BR_IF, BR_TABLE, CALL, RCALL, LGET, LSET, LTEE, GGET, GSET, TGET, TSET, REFFUNC, MSIZE, MGROW, MFILL, TGROW, TSIZE, TFILL};
  static const uint8_t one_r[] = {0, 2, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 1, 0, 1, 1, 0};
  switch (grp) {
  case 0: op = choose(19); a = vs[choose(4)]; drop = one_r[op]; op = one[op]; if (op == RCALL && a < 5) mc_skip(); break;
  case 1: op = two[choose(4)]; a = vs[choose(4)]; b = vs[choose(4)]; drop = op == CALL_IND; if (op == RCALL_IND && a < 5) mc_skip(); break;
  case 2: op = 0x28 + choose(23); a = vs[choose(4)]; b = choose(2) ? vs[choose(4)] : 0; drop = op < 0x36; break;
  case 3: op = 0x45 + choose(0xc5 - 0x45); break;
  case 4: op = OPFC(choose(8)); break;
  case 5: op = choose(6); a = vs[choose(4)]; break;
  }
  if (!mc_mine()) return;
  uint8_t pt[2] = {I32, I32}, rt[1] = {I32}; F = skeleton(2, pt, 1, rt); while (M.nglob < 12) { M.glob[M.nglob] = M.glob[0]; M.nglob++; } mod_exp(&M, "t", 3, 0);
  while (M.nft < 12) mod_ft(&M, 1, rt, 1, rt); while (M.nfn < 12) { Fn *g = mod_fn(&M, 5); E1(g, LGET, 0); } mod_exp(&M, "g", 0, 11);
  while (M.ntab < 12) M.tab[M.ntab++] = (Tab){FREF, 2, 2, 1}; while (M.nmem < 12) M.mem[M.nmem++] = (Mem){1, 1, 1, 0};
  for (int i = 0; i < 12; i++) add_local(F, I32); ids = 0;
  for (int i = 0; i < 11; i++) E1(F, BLOCK, 0x40);
  mark();
  if (ctx == 0) E1(F, BR, 10); else if (ctx == 1) { E1(F, LGET, X); E1(F, BR_IF, 3); E1(F, BR, 0); } else { E1(F, LGET, X); E0(F, RETURN); }
  switch (grp) {
  case 0: if (op == BR_TABLE) { Ins *i = E0(F, BR_TABLE); i->vec = &M.vecpool[M.nvecpool]; i->nvec = 4; for (int q = 0; q < 4; q++) i->vec[q] = a; M.nvecpool += 4; } else { E1(F, op, a); if (op == BR_IF) drop = a == 11; } if (drop) E0(F, DROP); break;
  case 1: E2(F, op, a, b); if (drop) E0(F, DROP); break;
  case 2: emit_mem(F, op, a, b); if (drop) E0(F, DROP); break;
  case 3: case 4: E0(F, op); E0(F, DROP); break;
  case 5: { uint64_t v = 0x0101010101010101ull * a; if (op == 0) E1(F, KI32, a); else if (op == 1) E1(F, KI64, a); else if (op == 2) E1(F, KF32, (uint32_t)v); else if (op == 3) E1(F, KF64, v); else if (op == 4) E1(F, REFNULL, a & 1 ? FREF : XREF); else E1(F, SELECT_T, a & 1 ? I64 : FREF); E0(F, DROP); break; }
  }
  for (int i = 0; i < 11; i++) { E0(F, END); mark(); }
  E1(F, GGET, 0);
  inst_both(NULL, NULL);
  int32_t *tr = pwart_get_export_global(g_st, "t"); g_outh = ctx;
  for (int k = 0; k < 2; k++) { V w[2] = {mk(I32, k), mk(I32, 5)}; R.oglob[0].b = 7; *tr = 7; if (diff_call("f", 4, w)) mc_die("trap"); if ((uint32_t)*tr != (uint32_t)R.oglob[0].b) mc_fail("trace 0x%x, must be 0x%x", *tr, (uint32_t)R.oglob[0].b); }
  free_both(); mc_outcome(g_outh);
}
static struct mc_space sp[] = {
  {"trees", b_all, "every tree of 1..3 (thorough 4) constructs/branches/marks/pending values, 2 layouts, 4 inputs each"},
  {"trees-pending", b_pend, "the same below 1..4 pending operands and with 0, 1 or 3 function results"},
  {"pairs-rich", b_rich, "every pair of constructs with 7 condition origins, 4 result types, 3 value origins, 4 configurations"},
  {"deep-trees", b_deep, "every tree of up to 4 (thorough 5) constructs with one condition kind"},
  {"nests", b_nest, "every chain of 1..4 (5) nested constructs with results and pending operands, every branch kind to every label"},
  {"br-tables", b_table, "every br_table of 1..8 (12) entries over 1..3 labels, index from 5 origins, with carried values, every index"},
  {"dead-code", b_dead, "every sequence of 1..2 (thorough 3) of 34 operators in unreachable code after 5 terminators in 8 contexts, with pending values"},
  {"dead-operators", b_deadimm, "every operator once in unreachable code below 11 blocks, with indices, offsets and constants whose bytes are those of block, if, else and end"}};
static const char *as[] = {"block types with a type index are not supported by the library and are rejected with a message", "paths reaching unreachable or not terminating are outside the claim", 0};
int main(int c, char **v) { r_nan_skip = 1; r_fuel_max = 3000; static struct mc_check k = {"P05", "one execution = one program run on all its inputs, results and visited path compared with the interpreter; non-trivial = distinct results and traces", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
