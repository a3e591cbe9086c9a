/* P23 low-level JIT operations */
#include "lir.h"
#include <limits.h>
static char dbuf[4000]; static int dn; static const St *g_init;
static Ins P[8]; static int np, cpu_; static int FR_;
static void describe(void) { oi_ = 0; if (cpu_) dn += sprintf(dbuf + dn, "(%s)\n", cpu_ == 1 ? "without lzcnt and tzcnt" : "without lzcnt, tzcnt and cmov"); for (int i = 0; i < np; i++) dn += show_ins(dbuf + dn, &P[i]); if (g_init) { dn += sprintf(dbuf + dn, "with"); for (int r = 1; r <= NR; r++) dn += sprintf(dbuf + dn, " %s=0x%lx", rname(r), g_init->r[r]); for (int i = 0; FR_ && i < 4; i++) dn += sprintf(dbuf + dn, " fr%d=0x%lx", i, g_init->f[i + 1][0]); sprintf(dbuf + dn, "\n"); } mc_desc("%s", dbuf); dn = 0; }
/* ---- operand lists ---- */
static Opd IL[400], ML[400], RL[NR], XL[64]; static int nI, nM, nR, nX; /* immediates, memory forms, registers, reduced mixture */
#define R(i) SLJIT_R(i)
#define S(i) SLJIT_S(i)
#define ADD_(l, n, ...) l[n++] = (Opd){__VA_ARGS__}
static const int KR[] = {SLJIT_R0, SLJIT_R1, SLJIT_R2, SLJIT_R3, SLJIT_R6, SLJIT_S0, SLJIT_S4, SLJIT_S1}; /* rax rsi rdi rcx r10/r12 rbx ... */
static int BR[8], nBR; /* registers whose machine numbers are special as a base or index, plus ordinary ones */
static void lists(void) {
  if (nR) return; lir_init();
  for (int r = 1; r <= NR; r++) ADD_(RL, nR, r, 0);
  static const long iv[] = {0, 1, -1, 2, 127, 128, -128, -129, 255, 0x7fffffff, 0x80000000l, -0x80000000l, -0x80000001l, 0xffffffffl, 0x123456789abcdefl, LONG_MIN, 31, 63, 0x8000, 0xff00};
  for (int i = 0; i < 20; i++) ADD_(IL, nI, SLJIT_IMM, iv[i]);
  for (int r = 1; r <= NR; r++) { int m = sljit_get_register_index(SLJIT_GP_REGISTER, r); if (m == 0 || m == 1 || m == 5 || m == 12 || m == 13 || m == 8) BR[nBR++] = r; }
  ADD_(ML, nM, SLJIT_MEM0(), (long)LO + 720); ADD_(ML, nM, SLJIT_MEM0(), (long)HI + 720);
  static const long dv[] = {0, 8, 127, 128, -128, -129, 0x7ffffff0, -0x7ffffff0, 0x80000000l, 0x123456789ab0l};
  for (int b = 0; b < nBR; b++) for (int d = 0; d < 10; d++) ADD_(ML, nM, SLJIT_MEM1(BR[b]), dv[d]);
  for (int b = 0; b < nBR; b++) for (int x = 0; x < nBR; x++) for (int s = 0; s < 4; s++) ADD_(ML, nM, SLJIT_MEM2(BR[b], BR[x]), s);
  ADD_(ML, nM, SLJIT_MEM1(SLJIT_SP), 0); ADD_(ML, nM, SLJIT_MEM1(SLJIT_SP), 24); ADD_(ML, nM, SLJIT_MEM1(SLJIT_SP), STK - 8);
  /* reduced mixture for triples */
  ADD_(XL, nX, SLJIT_R0, 0); ADD_(XL, nX, SLJIT_R3, 0); ADD_(XL, nX, SLJIT_S0, 0); ADD_(XL, nX, SLJIT_R1, 0);
  ADD_(XL, nX, SLJIT_MEM0(), (long)HI + 720); ADD_(XL, nX, SLJIT_MEM1(SLJIT_R0), 0); ADD_(XL, nX, SLJIT_MEM1(SLJIT_R3), 0x123456789ab0l); ADD_(XL, nX, SLJIT_MEM1(SLJIT_S0), 8); ADD_(XL, nX, SLJIT_MEM2(SLJIT_R0, SLJIT_R3), 2); ADD_(XL, nX, SLJIT_MEM2(SLJIT_S0, SLJIT_S0), 1); ADD_(XL, nX, SLJIT_MEM1(SLJIT_SP), 24);
}
/* ---- state set-up ---- */
static St init0; static uint32_t fixed_; static int slot_;
static u64 slot(void) { static const int o[] = {720, 360, 1080, 1440 - 360 - 90}; int k = slot_++; u64 a = (k == 1 ? (u64)HI : (u64)LO) + o[k & 3]; return a - a % 360 + (a % 360 > 180 ? 360 : 0); }
static void addr_regs(Opd o) {
  if (!SLJIT_IS_MEM(o.a) || o.a == SLJIT_MEM0()) return;
  int b = o.a & 0x7f, x = o.a >> 8 & 0x7f; St *s = &init0;
#define FX(r) (fixed_ >> (r) & 1)
  if (b == SLJIT_SP) { if (x && !FX(x)) { s->r[x] = 2; fixed_ |= 1u << x; } return; }
  if (!x) { if (!FX(b)) { s->r[b] = slot() - o.w; fixed_ |= 1u << b; } return; }
  if (b == x) { if (!FX(b)) { s->r[b] = slot() / (1 + (1 << o.w)); fixed_ |= 1u << b; } return; }
  if (!FX(b) && !FX(x)) { s->r[x] = slot_ & 1 ? -5 : 3; s->r[b] = slot() - (s->r[x] << o.w); } else if (!FX(b)) s->r[b] = slot() - (s->r[x] << o.w); else if (!FX(x)) s->r[x] = 1;
  fixed_ |= 1u << b | 1u << x;
}
static void val_to(Opd o, u64 v, int is32) { if (SLJIT_IS_REG(o.a) && !(fixed_ >> o.a & 1)) init0.r[o.a] = is32 ? (u32)v : v; }
static void mem_val(Opd o, u64 v) { if (SLJIT_IS_MEM(o.a)) { u64 ea; uint8_t *p; if (rd_base(&init0, o, &ea) && (p = mp(&init0, ea, 8))) memcpy(p, &v, 8); } }
static void fval_to(Opd o, u64 v) { if (SLJIT_IS_REG(o.a)) init0.f[o.a][0] = v; }
static void begin_state(void) { init0 = M0; fixed_ = 0; slot_ = 0; }
/* ---- compile and run ---- */
static void *code;
static void build(int fregs) { FR_ = fregs; g_init = NULL; mc_describe_cb = describe; mc_predesc(); cpu_pick(cpu_); lir_begin(); lir_enter(fregs); for (int i = 0; i < np; i++) emit_ins(&P[i]); lir_leave(fregs); code = lir_finish(); sljit_free_compiler(lc); lc = NULL; cx->sp = 0; }
/* one execution from init0; returns 0 when the documentation leaves the result open */
static u64 hh; static int runs_;
static int try_model(void) { want = init0; memset(want.mark, 0, sizeof want.mark); nanp = NULL; for (int i = 0; i < np && !want.undef; i++) model_ins(&want, &P[i]); return !want.undef; }
static u64 sp_;
static int run1(void) {
  if (!cx->sp) { if (!sp_) sp_ = 0x7ff000000000; cx->sp = sp_; }
  if (!try_model()) return 0;
  to_real(&init0, FR_); g_init = &init0; ((void (*)(void))code)();
  if (cx->sp != sp_) { sp_ = cx->sp; /* the local area's address was not known */ return -1; }
  cmp_state(&init0, FR_); runs_++; hh = mc_hash(hh, cx->r, sizeof cx->r); return 1;
}
static int run(void) { int r = run1(); if (r == -1) r = run1(); if (r == -1) mc_die("the stack address keeps changing"); return r; }
static void finish(void) { cpu_ = 0; cpu_pick(0); sljit_free_code(code, NULL); code = NULL; mc_steps(runs_); if (runs_) mc_outcome(hh); runs_ = 0; }
/* ---- values ---- */
static const u64 BV[] = {0, 1, ~0ull, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1ull << 63, ~0ull >> 1, 0x8040201008040201ull, 0x7f80ff01fe8081feull, 0xffffffff80000000ull, 5, 31, 32, 63, 0xfffffffffffffff9ull, 0x123456789abcdef0ull, 0x55555555aaaaaaaaull, 0x8000, 0xff, 0x80};
#define NBV 22
static const u64 FV64[] = {0, 1ull << 63, 0x3ff0000000000000ull, 0xbff8000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff8000000001234ull, 1, 0x7fefffffffffffffull, 0x41dfffffffc00000ull, 0xc1e0000000000000ull, 0x43dfffffffffffffull, 0xc3e0000000000000ull, 0x3fdfffffffffffffull, 0x380fffffe0000000ull, 0x4340000000000001ull, 0xbfefffffffffffffull, 0x47efffffe0000000ull};
static const u64 FV32[] = {0, 0x80000000, 0x3f800000, 0xbfc00000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc01234, 1, 0x7f7fffff, 0x4effffff, 0xcf000000, 0x5effffff, 0xdf000000, 0x3effffff, 0x00800000, 0x4b800001, 0xbf7fffff, 0x33800000};
#define NFV 19
/* ---- op1 ---- */
static int reg_only(int base) { return base >= SLJIT_CLZ && base <= SLJIT_REV_S32; }
static int op1_list[40], n1_; static void mk1(void) { if (n1_) return; for (int b = SLJIT_MOV; b <= SLJIT_REV_S32; b++) { op1_list[n1_++] = b == (SLJIT_MOV32 & 0xff) ? SLJIT_MOV32 : b; if ((b >= SLJIT_MOV_U8 && b <= SLJIT_MOV_S16) || (b >= SLJIT_CLZ && b <= SLJIT_REV_S16)) op1_list[n1_++] = b | SLJIT_32; } }
static Opd any_opd(int kind) { return kind == 0 ? RL[choose(nR)] : kind == 1 ? IL[choose(nI)] : ML[choose(nM)]; }
static void one_int(const Ins *i, const u64 *va, int nva, const u64 *vb, int nvb) {
  int is32 = !!(i->op & SLJIT_32);
  for (int x = 0; x < nva; x++) for (int y = 0; y < nvb; y++) { begin_state(); addr_regs(i->d); addr_regs(i->a); addr_regs(i->b); val_to(i->d, 0x1111111122222222ull, is32); val_to(i->a, va[x], is32); val_to(i->b, vb[y], is32); if (cx->sp == 0) cx->sp = sp_ ? sp_ : 0x7ff000000000; mem_val(i->d, 0xd1d2d3d4d5d6d7d8ull); mem_val(i->a, va[x]); mem_val(i->b, vb[y]); run(); }
}
static void b_op1(void) {
  mk1(); lists(); cpu_ = 0; int op = op1_list[choose(n1_)]; if ((op & 0xff) == SLJIT_CLZ || (op & 0xff) == SLJIT_CTZ) cpu_ = choose(cpu_variants()); int dk = choose(2) * 2, sk = choose(3); if (sk == 1 && reg_only(op & 0xff)) return; Opd d = any_opd(dk), a = any_opd(sk);
  if (dk == 2 && sk == 2 && !mc_thorough && d.a != SLJIT_MEM0() && a.a != SLJIT_MEM0() && (d.a >> 8 && a.a >> 8) && (d.w != a.w)) { return; }
  if (!mc_mine()) return;
  np = 1; P[0] = (Ins){K_OP1, op, d, a}; build(0); static const u64 v[] = {0x8182838485868788ull, 0x0102030405060708ull, 0x8000, 0}; one_int(&P[0], v, sk == 1 ? 1 : reg_only(op & 0xff) ? 4 : 2, v, 1); finish();
}
static void b_op1v(void) { mk1(); lists(); int op = op1_list[choose(n1_)]; int f = choose(4); cpu_ = choose(cpu_variants()); if (!mc_mine()) return; np = 1; Opd d = {f & 1 ? SLJIT_R0 : SLJIT_R2, 0}, a = {f & 2 ? SLJIT_S1 : SLJIT_R0, 0}; P[0] = (Ins){K_OP1, op, d, a}; build(0); u64 v[NBV + 200]; int n = 0; for (; n < NBV; n++) v[n] = BV[n]; for (int b = 0; b < 64; b++) { v[n++] = 1ull << b; v[n++] = ~0ull << b; v[n++] = (1ull << b) - 1; } one_int(&P[0], v, n, v, 1); finish(); }
/* ---- op2 ---- */
static int shift_(int b) { return b >= SLJIT_SHL && b <= SLJIT_ROTR; }
static int sflags(int base, int k) { /* k-th combination of flags, -1 at the end */
  static const int V_SUB[] = {0, SLJIT_SET_LESS, SLJIT_SET_GREATER, SLJIT_SET_SIG_LESS, SLJIT_SET_SIG_GREATER, SLJIT_SET_OVERFLOW, SLJIT_SET_CARRY}, V_ADD[] = {0, SLJIT_SET_OVERFLOW, SLJIT_SET_CARRY};
  switch (base) { case SLJIT_ADD: return k < 6 ? V_ADD[k >> 1] | (k & 1 ? SLJIT_SET_Z : 0) : -1; case SLJIT_SUB: return k < 14 ? V_SUB[k >> 1] | (k & 1 ? SLJIT_SET_Z : 0) : -1; case SLJIT_MUL: return k == 0 ? 0 : k == 1 ? SLJIT_SET_OVERFLOW : -1; case SLJIT_ADDC: case SLJIT_SUBC: case SLJIT_ROTL: case SLJIT_ROTR: return k ? -1 : 0; default: return k == 0 ? 0 : k == 1 ? SLJIT_SET_Z : -1; }
}
static const u64 pa[] = {0x8000000180000001ull, 7}, pb[] = {0x7fffffff80000000ull, 9};
static void op2_case(int op, Opd d, Opd a, Opd b, int u, const u64 *va, int nva, const u64 *vb, int nvb) {
  int base = op & 0xff; np = 0;
  int carry = base == SLJIT_ADDC || base == SLJIT_SUBC; if (carry) P[np++] = (Ins){K_OP2U, (base == SLJIT_ADDC ? SLJIT_ADD : SLJIT_SUB) | SLJIT_SET_CARRY | (op & SLJIT_32), .a = {SLJIT_R5}, .b = {SLJIT_R5}};
  if (carry) P[0].b = (Opd){SLJIT_IMM, 1}; /* carry-in: R5 + 1 or R5 - 1 */
  int m = np; P[np++] = (Ins){u ? K_OP2U : K_OP2, op, d, a, b};
  int fl = (op >> 10) & 0x3f; if (op & SLJIT_SET_Z) P[np++] = (Ins){K_OPFLAGS, SLJIT_MOV, .d = {SLJIT_R4}, .r1 = SLJIT_EQUAL}; if (fl) { P[np++] = (Ins){K_OPFLAGS, SLJIT_MOV32, .d = {SLJIT_S5}, .r1 = fl}; if (!(op & SLJIT_SET_Z)) P[np++] = (Ins){K_OPFLAGS, SLJIT_MOV, .d = {SLJIT_R4}, .r1 = fl ^ 1}; }
  build(0); M0.r[SLJIT_R5] = 0;
  for (int c = 0; c < (carry ? 2 : 1); c++) { M0.r[SLJIT_R5] = carry ? (c ? (op & SLJIT_32 ? (base == SLJIT_ADDC ? 0xffffffff : 0) : base == SLJIT_ADDC ? ~0ull : 0) : 5) : 0x77; one_int(&P[m], va, nva, vb, nvb); }
  finish();
}
static int op2_pick(void) { int b = SLJIT_ADD + choose(16), w = choose(2); return b | (w ? SLJIT_32 : 0); }
static int shval(int base) { return base >= SLJIT_SHL && base <= SLJIT_ROTR; }
static const u64 sv[] = {1, 13}, svm[] = {77, 31};
static void b_op2x(void) { /* mixture: every triple */
  lists(); int op = op2_pick(), base = op & 0xff, n = nX + nI; int k = choose(2); int f = sflags(base, k ? (base == SLJIT_SUB ? 3 : base == SLJIT_ADD ? 3 : 1) : 0); if (f < 0) return; int u = k && choose(2); Opd d = u ? (Opd){SLJIT_R0} : XL[choose(nX)]; int ia = choose(nX + (mc_thorough ? nI : 7)), ib = choose(nX + (mc_thorough ? nI : 7)); static const int im[] = {0, 1, 2, 5, 9, 14, 16}; Opd a = ia < nX ? XL[ia] : IL[mc_thorough ? ia - nX : im[ia - nX]], b = ib < nX ? XL[ib] : IL[mc_thorough ? ib - nX : im[ib - nX]]; (void)n;
  if (!mc_mine()) return;
  op2_case(op | f, d, a, b, u, pa, 2, shval(base) ? (base == SLJIT_SHL || base == SLJIT_LSHR || base == SLJIT_ASHR ? sv : svm) : pb, 2);
}
static void b_op2r3(void) { /* all register triples */
  lists(); int op = op2_pick(), base = op & 0xff; int f = mc_thorough ? choose(2) : 0; f = sflags(base, f ? base == SLJIT_SUB ? 6 : 1 : 0); if (f < 0) return; Opd d = RL[choose(nR)], a = RL[choose(nR)], b = RL[choose(nR)]; if (!mc_mine()) return;
  op2_case(op | f, d, a, b, 0, pa, 1, shval(base) ? sv : pb, 1);
}
static void b_op2m(void) { /* one memory operand of every form, in each position */
  lists(); int op = op2_pick(), base = op & 0xff; int pos = choose(4); Opd m = ML[choose(nM)]; int o1 = choose(3), o2 = choose(3); Opd q[3] = {{SLJIT_R0}, {SLJIT_R3}, {SLJIT_S0}}; int f = sflags(base, 1); if (base == SLJIT_SUB) f = SLJIT_SET_SIG_LESS; if (f < 0) f = 0; if (!mc_mine()) return;
  Opd d = pos == 0 || pos == 3 ? m : q[o1], a = pos == 1 || pos == 3 ? m : pos == 0 ? q[o1] : q[o2], b = pos == 2 ? m : q[o2]; op2_case(op | f, d, a, b, 0, pa, 2, shval(base) ? sv : pb, 1);
}
static void b_op2i(void) { /* register and immediate, every register and every immediate */
  lists(); int op = op2_pick(), base = op & 0xff; int pos = choose(2); Opd d = RL[choose(nR)], r = RL[choose(nR)], i = IL[choose(nI)]; int k = choose(2), f = sflags(base, k ? base == SLJIT_SUB ? 6 : 1 : 0); if (f < 0) return; if (!mc_mine()) return;
  op2_case(op | f, d, pos ? i : r, pos ? r : i, 0, pa, 1, pos && shval(base) ? sv : pb, 1);
}
static void b_op2v(void) { /* every flag combination and condition over value pairs */
  lists(); int op = op2_pick(), base = op & 0xff; int k = choose(14), f = sflags(base, k); if (f < 0) return; int form = choose(9), u = f ? choose(2) : 0; if (!mc_mine()) return;
  Opd d, a = {SLJIT_R1}, b = {SLJIT_R2}; d = form == 0 ? a : form == 1 ? b : (Opd){SLJIT_R0}; if (form == 3) a = d; if (form == 4) b = (Opd){SLJIT_R3}; if (form == 5) d = (Opd){SLJIT_R3}, b = (Opd){SLJIT_S2}; if (form == 6) d = a = (Opd){SLJIT_MEM1(SLJIT_R6), 0}; if (form == 7) b = (Opd){SLJIT_MEM1(SLJIT_R6), 8}; if (form == 8) a = (Opd){SLJIT_R3}, d = (Opd){SLJIT_R3};
  u64 vb[NBV + 64]; int n = 0; if (shval(base)) for (; n < 64; n++) vb[n] = n; else for (; n < NBV; n++) vb[n] = BV[n]; op2_case(op | f, d, a, b, u, BV, NBV, vb, n);
}
static void b_op2iv(void) { /* immediates on one side, all values on the other */
  lists(); int op = op2_pick(), base = op & 0xff; int k = choose(14), f = sflags(base, k); if (f < 0) return; int pos = choose(2), u = f ? choose(2) : 0; Opd i = IL[choose(nI)]; int dr = choose(3); if (!mc_mine()) return; Opd d = {dr == 0 ? SLJIT_R0 : dr == 1 ? SLJIT_R1 : SLJIT_R3}, r = {SLJIT_R1};
  u64 vb[64]; for (int n = 0; n < 64; n++) vb[n] = n; if (pos) op2_case(op | f, d, i, r, u, BV, 1, shval(base) ? vb : BV, shval(base) ? 64 : NBV); else op2_case(op | f, d, r, i, u, BV, NBV, BV, 1);
}
/* ---- consumers of flags ---- */
static Ins inter(int k) { /* instructions that leave the flags alone */
  switch (k) { case 1: return (Ins){K_OP1, SLJIT_MOV, {SLJIT_R6}, {SLJIT_IMM, 0}}; case 2: return (Ins){K_OP1, SLJIT_MOV, {SLJIT_R6}, {SLJIT_IMM, 0x123456789abcdefl}}; case 3: return (Ins){K_OP1, SLJIT_MOV, {SLJIT_MEM1(SLJIT_SP), 8}, {SLJIT_IMM, 0x123456789abcdefl}}; case 4: return (Ins){K_OP1, SLJIT_MOV, {SLJIT_MEM1(SLJIT_SP), 16}, {SLJIT_MEM0(), (long)HI + 16}};
  case 5: return (Ins){K_OP1, SLJIT_MOV32, {SLJIT_R6}, {SLJIT_IMM, 0}}; case 6: return (Ins){K_OP1, SLJIT_MOV_U8, {SLJIT_R6}, {SLJIT_IMM, 0}}; case 7: return (Ins){K_CONST, SLJIT_MOV, {SLJIT_R6}, .imm = 0}; case 8: return (Ins){K_FOP1, SLJIT_MOV_F64, {SLJIT_FR3}, {SLJIT_MEM0(), (long)HI + 16}}; case 9: return (Ins){K_MEM, SLJIT_MOV | SLJIT_MEM_UNALIGNED, .a = {SLJIT_MEM0(), (long)HI + 17}, .r1 = SLJIT_R6}; case 10: return (Ins){K_OP1, SLJIT_MOV_S16, {SLJIT_MEM1(SLJIT_SP), 8}, {SLJIT_IMM, 0}};
  case 11: return (Ins){K_OP1, SLJIT_MOV32_U8, {SLJIT_R6}, {SLJIT_MEM0(), (long)LO + 3}}; case 12: return (Ins){K_OP0, SLJIT_NOP}; case 13: return (Ins){K_CONST, SLJIT_MOV_U8, {SLJIT_R6}, .imm = 0}; case 14: return (Ins){K_OP1, SLJIT_MOV, {SLJIT_R6}, {SLJIT_R5}}; }
  return (Ins){K_OP0, SLJIT_NOP};
}
#define NINTER 15
typedef struct { int op, t, f; } Set; /* setter and the pair of conditions it allows */
static Set SET[64]; static int nSET;
static void sets(void) {
  if (nSET) return; int v[] = {SLJIT_LESS, SLJIT_GREATER, SLJIT_SIG_LESS, SLJIT_SIG_GREATER, SLJIT_OVERFLOW, SLJIT_CARRY};
  for (int w = 0; w < 2; w++) { int x = w ? SLJIT_32 : 0; SET[nSET++] = (Set){SLJIT_SUB | SLJIT_SET_Z | x, SLJIT_EQUAL}; for (int i = 0; i < 6; i++) SET[nSET++] = (Set){SLJIT_SUB | SLJIT_SET(v[i]) | x, v[i]}; SET[nSET++] = (Set){SLJIT_ADD | SLJIT_SET_CARRY | x, SLJIT_CARRY}; SET[nSET++] = (Set){SLJIT_ADD | SLJIT_SET_OVERFLOW | x, SLJIT_OVERFLOW}; SET[nSET++] = (Set){SLJIT_ADD | SLJIT_SET_Z | x, SLJIT_EQUAL}; SET[nSET++] = (Set){SLJIT_MUL | SLJIT_SET_OVERFLOW | x, SLJIT_OVERFLOW}; SET[nSET++] = (Set){SLJIT_AND | SLJIT_SET_Z | x, SLJIT_EQUAL}; SET[nSET++] = (Set){SLJIT_SHL | SLJIT_SET_Z | x, SLJIT_EQUAL}; SET[nSET++] = (Set){SLJIT_MASHR | SLJIT_SET_Z | x, SLJIT_EQUAL}; }
  for (int w = 0; w < 2; w++) for (int t = SLJIT_F_EQUAL; t <= SLJIT_ORDERED_LESS_EQUAL; t += 2) SET[nSET++] = (Set){SLJIT_CMP_F64 | SLJIT_SET(t) | (w ? SLJIT_32 : 0), t, 1};
}
static void run_flag(const Set *s, int m, const Ins *c) {
  int is32 = !!(s->op & SLJIT_32);
  static const u64 qa[] = {5, 9, ~0ull, 1ull << 63, 0x80000000, 0}, qb[] = {9, 5, 1, ~0ull >> 1, 0x7fffffff, 31};
  const u64 *fv = is32 ? FV32 : FV64; static const int fx[] = {2, 3, 6, 0, 4, 9}, fy[] = {3, 2, 2, 1, 4, 7};
  for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) { begin_state(); addr_regs(c->d); addr_regs(c->a); if (s->f) { fval_to(P[m].d, fv[fx[x]]); fval_to(P[m].a, fv[fy[y]]); } else { init0.r[SLJIT_R4] = is32 ? (u32)qa[x] : qa[x]; init0.r[SLJIT_R5] = is32 ? (u32)qb[y] : qb[y]; if (is32) init0.r[SLJIT_R4] = (u32)qa[x]; }
    if (c->op & SLJIT_32) for (int r = 1; r <= NR; r++) if (!(fixed_ >> r & 1)) init0.r[r] = (u32)init0.r[r]; if (c->k == K_FSELECT && c->op & SLJIT_32) ; run(); }
}
static Ins setter(const Set *s) { return s->f ? (Ins){K_FOP1, s->op, {SLJIT_FR1}, {SLJIT_FR2}} : (Ins){K_OP2U, s->op, .a = {SLJIT_R4}, .b = {SLJIT_R5}}; }
static void b_opflags(void) {
  sets(); lists(); const Set *s = &SET[choose(nSET)]; int neg = choose(2), kind = choose(9), dk = choose(2); static const int ops[] = {SLJIT_MOV, SLJIT_MOV32, SLJIT_AND, SLJIT_AND32, SLJIT_OR, SLJIT_OR32, SLJIT_XOR, SLJIT_XOR32, SLJIT_OR}; Opd d = dk ? ML[choose(nM)] : RL[choose(nR)]; int z = kind == 8 ? SLJIT_SET_Z : 0; if (!mc_mine()) return;
  if (dk && !mc_thorough && (s->f ? s->t != SLJIT_ORDERED_EQUAL && s->t != SLJIT_F_EQUAL && s->t != SLJIT_F_LESS : (s->op & 0xff) != SLJIT_SUB)) { mc_owned = 0; return; }
  np = 0; P[np++] = setter(s); P[np++] = (Ins){K_OPFLAGS, ops[kind] | z, .d = d, .r1 = s->t ^ neg}; if (z) P[np++] = (Ins){K_OPFLAGS, SLJIT_MOV, .d = {SLJIT_S3}, .r1 = SLJIT_NOT_EQUAL}; build(s->f); run_flag(s, 0, &P[1]); finish();
}
static void b_select(void) {
  sets(); lists(); cpu_ = choose(2) ? cpu_variants() - 1 : 0; const Set *s = &SET[choose(nSET)]; int neg = choose(2), w = choose(2), sk = choose(3); Opd d, a; int r2; if (sk == 0) { static const int rr[] = {SLJIT_R0, SLJIT_R3, SLJIT_S0, SLJIT_S4, SLJIT_R4}; d = (Opd){rr[choose(5)]}; a = (Opd){rr[choose(5)]}; r2 = rr[choose(5)]; } else { static const int rr[] = {SLJIT_R0, SLJIT_R3, SLJIT_S4}; d = (Opd){rr[choose(3)]}; r2 = rr[choose(3)]; a = sk == 1 ? IL[choose(nI)] : ML[choose(nM)]; } if (!mc_mine()) return;
  if (sk == 2 && !mc_thorough && (s->f ? s->t != SLJIT_ORDERED_EQUAL : (s->op & 0xff) != SLJIT_SUB || s->t != SLJIT_SIG_LESS)) { mc_owned = 0; return; }
  np = 0; P[np++] = setter(s); P[np++] = (Ins){K_SELECT, s->t ^ neg | (w ? SLJIT_32 : 0), d, a, .r1 = r2}; build(s->f); run_flag(s, 0, &P[1]); finish();
}
static void b_fselect(void) {
  sets(); lists(); cpu_ = choose(2) ? cpu_variants() - 1 : 0; const Set *s = &SET[choose(nSET)]; int neg = choose(2), w = choose(2), sk = choose(2); static const int rr[] = {SLJIT_FR0, SLJIT_FR(5), SLJIT_FR(14)}; Opd d = {rr[choose(3)]}; int r2 = rr[choose(3)]; Opd a = sk ? ML[choose(nM)] : (Opd){rr[choose(3)]}; if (!mc_mine()) return; if (sk && !mc_thorough && (s->f ? s->t != SLJIT_ORDERED_EQUAL : s->t != SLJIT_SIG_LESS)) { mc_owned = 0; return; }
  np = 0; P[np++] = setter(s); P[np++] = (Ins){K_FSELECT, s->t ^ neg | (w ? SLJIT_32 : 0), d, a, .r1 = r2}; build(1); run_flag(s, 0, &P[1]); finish();
}
static void b_jcc(void) { /* conditional jump, and flags surviving other instructions and several uses */
  sets(); lists(); const Set *s = &SET[choose(nSET)]; int neg = choose(2), k = choose(NINTER), c = choose(3), k2 = mc_thorough ? choose(NINTER) : 0; if (!mc_mine()) return; np = 0; P[np++] = setter(s); if (k) P[np++] = inter(k); if (k2) P[np++] = inter(k2); P[np++] = c == 0 ? (Ins){K_JCC, s->t ^ neg, .mark = 0} : c == 1 ? (Ins){K_OPFLAGS, SLJIT_MOV, .d = {SLJIT_R0}, .r1 = s->t ^ neg} : (Ins){K_SELECT, s->t ^ neg, {SLJIT_R0}, {SLJIT_IMM, 77}, .r1 = SLJIT_S0}; if (c == 1) P[np++] = (Ins){K_JCC, s->t ^ neg ^ 1, .mark = 1}; build(1); run_flag(s, 0, &P[np - 1]); finish();
}
static void b_carry(void) { /* multi-word chains */
  lists(); int sub = choose(2), w = choose(2) ? SLJIT_32 : 0, n = 2 + choose(2), k = choose(NINTER), form = choose(6); if (!mc_mine()) return; np = 0; Opd d[3] = {{SLJIT_R0}, {SLJIT_R1}, {SLJIT_R2}}, a[3] = {{SLJIT_R0}, {SLJIT_R1}, {SLJIT_R2}}, b[3] = {{SLJIT_S0}, {SLJIT_S1}, {SLJIT_S2}};
  for (int i = 0; i < 3; i++) { if (form == 1) d[i] = b[i]; if (form == 2) d[i] = (Opd){SLJIT_R4 + 0}; if (form == 3) a[i] = d[i] = (Opd){SLJIT_MEM1(SLJIT_S4), i * 8}; if (form == 4) b[i] = (Opd){SLJIT_IMM, i == 1 ? -1 : 0x123456789abcdl}; if (form == 5) b[i] = (Opd){SLJIT_MEM1(SLJIT_S4), i * 8}; }
  for (int i = 0; i < n; i++) { P[np++] = (Ins){K_OP2, (i ? sub ? SLJIT_SUBC : SLJIT_ADDC : sub ? SLJIT_SUB : SLJIT_ADD) | (i + 1 < n + 1 ? SLJIT_SET_CARRY : 0) | w, d[i], a[i], b[i]}; if (i == 0 && k) P[np++] = inter(k); } P[np++] = (Ins){K_OPFLAGS, SLJIT_MOV, .d = {SLJIT_R3}, .r1 = SLJIT_CARRY}; build(1);
  static const u64 q[] = {0, 1, ~0ull, 1ull << 63, 0xffffffff, 0x80000000}; for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) for (int z = 0; z < 6; z++) { begin_state(); addr_regs((Opd){SLJIT_MEM1(SLJIT_S4), 0}); u64 m = w ? 0xffffffff : ~0ull; init0.r[SLJIT_R0] = q[x] & m; init0.r[SLJIT_S0] = q[y] & m; init0.r[SLJIT_R1] = q[z] & m; init0.r[SLJIT_S1] = q[(x + y) % 6] & m; init0.r[SLJIT_R2] = q[y] & m; init0.r[SLJIT_S2] = q[(z + 3 * y) % 6] & m; for (int i = 0; i < 3; i++) mem_val((Opd){SLJIT_MEM1(SLJIT_S4), i * 8}, q[(x * i + y + z) % 6] & m); run(); } finish();
}
/* ---- compare-and-jump ---- */
static void b_cmp(void) { lists(); int t = choose(10), w = choose(2); int fa = choose(3), fb = choose(3); Opd a = fa == 0 ? XL[choose(4)] : any_opd(fa), b = fb == 0 ? XL[choose(4)] : any_opd(fb); if (fa == 2 && fb == 2 && !mc_thorough) return; if (!mc_mine()) return; np = 1; P[0] = (Ins){K_CMP, t | (w ? SLJIT_32 : 0), .a = a, .b = b}; build(0); int is32 = w; static const u64 qa[] = {5, 9, ~0ull, 1ull << 63, 0x80000000, 0, 0xffffffff}; for (int x = 0; x < 7; x++) for (int y = 0; y < 7; y++) { begin_state(); addr_regs(a); addr_regs(b); val_to(a, qa[x], is32); val_to(b, qa[y], is32); if (!cx->sp) cx->sp = sp_ ? sp_ : 0x7ff000000000; mem_val(a, qa[x]); mem_val(b, qa[y]); run(); if (fa == 1 && y) break; } finish(); }
static void b_cmpz(void) { lists(); int op = op2_pick(), base = op & 0xff; if (base == SLJIT_ADDC || base == SLJIT_SUBC || base == SLJIT_MUL || base == SLJIT_ROTL || base == SLJIT_ROTR) return; int z = choose(2), r = choose(2); Opd d = XL[choose(nX)]; int ia = choose(nX + 7), ib = choose(nX + 7); static const int im[] = {0, 1, 2, 5, 9, 14, 16}; Opd a = ia < nX ? XL[ia] : IL[im[ia - nX]], b = ib < nX ? XL[ib] : IL[im[ib - nX]]; if (!mc_mine()) return; if (!mc_thorough && r && (ia + ib) % 3) { mc_owned = 0; return; } np = 1; P[0] = (Ins){K_OP2CMPZ, op | (z ? SLJIT_JUMP_IF_ZERO : 0) | (r ? SLJIT_REWRITABLE_JUMP : 0), d, a, b}; build(0); static const u64 qa[] = {5, 1ull << 63, 0x80000000, 0, ~0ull}, qb[] = {5, 1, 0, 31, 1ull << 63}; one_int(&P[0], qa, 5, qb, 5); finish(); }
/* ---- op0, op2r, shift_into ---- */
static void b_op0(void) { lists(); static const int ops[] = {SLJIT_NOP, SLJIT_LMUL_UW, SLJIT_LMUL_SW, SLJIT_DIVMOD_UW, SLJIT_DIVMOD_U32, SLJIT_DIVMOD_SW, SLJIT_DIVMOD_S32, SLJIT_DIV_UW, SLJIT_DIV_U32, SLJIT_DIV_SW, SLJIT_DIV_S32, SLJIT_MEMORY_BARRIER, SLJIT_ENDBR}; int op = choose_from(ops), rep = choose(2); if (!mc_mine()) return; np = 1 + rep; P[0] = P[1] = (Ins){K_OP0, op}; build(0); for (int x = 0; x < NBV; x++) for (int y = 0; y < NBV; y++) { begin_state(); u64 m = op & SLJIT_32 ? 0xffffffff : ~0ull; init0.r[SLJIT_R0] = BV[x] & m; init0.r[SLJIT_R1] = BV[y] & m; run(); } finish(); }
static void b_muladd(void) { lists(); int w = choose(2); Opd d = RL[choose(nR)]; int fa = choose(3), fb = choose(3); Opd a = fa == 0 ? RL[choose(nR)] : fa == 1 ? IL[choose(nI)] : XL[4 + choose(nX - 4)], b = fb == 0 ? RL[choose(nR)] : fb == 1 ? IL[choose(nI)] : XL[4 + choose(nX - 4)]; if (!mc_mine()) return; np = 1; P[0] = (Ins){K_OP2R, SLJIT_MULADD | (w ? SLJIT_32 : 0), d, a, b}; build(0); one_int(&P[0], pa, 2, pb, 2); finish(); }
static void b_shinto(void) { lists(); static const int ops[] = {SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR}; int op = choose_from(ops) | (choose(2) ? SLJIT_32 : 0) | (choose(2) ? SLJIT_SHIFT_INTO_NON_ZERO : 0); static const int rr[] = {SLJIT_R0, SLJIT_R1, SLJIT_R3, SLJIT_S0, SLJIT_S4}; int d = choose_from(rr), r1 = choose_from(rr), r2 = choose_from(rr); if (d == r2) return; int f = choose(3); Opd a = f == 0 ? (Opd){rr[choose(5)]} : f == 1 ? (Opd){SLJIT_IMM, (long[]){0, 1, 7, 31, 32, 63}[choose(6)]} : XL[4 + choose(nX - 4)]; if (!mc_mine()) return; int is32 = !!(op & SLJIT_32); np = 1; P[0] = (Ins){K_SHINTO, op, {d}, a, .r1 = r1, .r2 = r2}; build(0);
  for (int x = 0; x < 70; x++) { begin_state(); addr_regs(a); u64 v1 = 0x8123456789abcdefull, v2 = 0xfedcba9877654321ull; val_to((Opd){r1}, v1, is32); val_to((Opd){r2}, v2, is32); val_to(a, x, is32); if (!cx->sp) cx->sp = sp_ ? sp_ : 0x7ff000000000; mem_val(a, x); if (x >= (is32 ? 32 : 64) && !((op & 0xff) == SLJIT_MSHL || (op & 0xff) == SLJIT_MLSHR)) break; run(); if (f == 1) break; } finish(); }
/* ---- floats ---- */
static Opd FRL(int k) { static const int r[] = {SLJIT_FR0, SLJIT_FR(3), SLJIT_FR(4), SLJIT_FR(7), SLJIT_FR(9), SLJIT_FR(14)}; return (Opd){r[k]}; }
static Opd f_opd(int full) { int k = choose(full ? 2 : 2); return k ? full ? ML[choose(nM)] : XL[4 + choose(nX - 4)] : FRL(choose(6)); }
static void float_runs(const Ins *i, int dint, int sint, int two, int many) {
  int sw = i->k == K_FOP1 && (i->op & 0xff) == SLJIT_CONV_F64_FROM_F32 ? !(i->op & SLJIT_32) : !!(i->op & SLJIT_32); const u64 *fv = sw ? FV32 : FV64; int n = many ? sint ? NBV : NFV : 4; static const int few[] = {2, 3, 9, 14};
  for (int x = 0; x < n; x++) for (int y = 0; y < (two ? n : 1); y++) { begin_state(); addr_regs(i->d); addr_regs(i->a); addr_regs(i->b); u64 va = sint ? BV[many ? x : x * 4 + 3] : fv[many ? x : few[x]], vb = fv[many ? y : few[y]]; int s32_ = sint && ((i->op & 0xff) == SLJIT_CONV_F64_FROM_S32 || (i->op & 0xff) == SLJIT_CONV_F64_FROM_U32);
    if (!dint) fval_to(i->d, 0x4008000000000000ull); if (sint) val_to(i->a, va, s32_); else fval_to(i->a, va); if (two) fval_to(i->b, vb); if (i->k == K_FOP1 && (i->op & 0xff) == SLJIT_CMP_F64) ; if (!cx->sp) cx->sp = sp_ ? sp_ : 0x7ff000000000; if (!dint) mem_val(i->d, 0xd1d2d3d4d5d6d7d8ull); mem_val(i->a, va); if (two) mem_val(i->b, vb); run(); }
}
static void b_fop1(void) {
  lists(); int base = SLJIT_MOV_F64 + choose(11); if (base == SLJIT_CMP_F64) return; int op = base | (choose(2) ? SLJIT_32 : 0); int sint = base >= SLJIT_CONV_F64_FROM_SW && base <= SLJIT_CONV_F64_FROM_U32, dint = base == SLJIT_CONV_SW_FROM_F64 || base == SLJIT_CONV_S32_FROM_F64; int dk = choose(2), sk = choose(sint ? 3 : 2); Opd d = dk ? ML[choose(nM)] : dint ? RL[choose(nR)] : FRL(choose(6)), a = sk == 2 ? IL[choose(nI)] : sk ? ML[choose(nM)] : sint ? RL[choose(nR)] : FRL(choose(6)); if (dk && sk == 1 && !mc_thorough) { if (!mc_mine()) return; int h = (d.a * 7 + d.w + a.a * 3 + a.w) % 9; if (h) { mc_owned = 0; return; } } else if (!mc_mine()) return;
  np = 1; P[0] = (Ins){K_FOP1, op, d, a}; build(1); float_runs(&P[0], dint, sint, 0, !dk && !sk); finish();
}
static void b_fop2(void) { lists(); int k = choose(5), w = choose(2); Opd d, a, b; int full = choose(4); if (k == 4 && full == 1) return; d = full == 1 ? ML[choose(nM)] : k == 4 ? FRL(choose(6)) : f_opd(0); a = full == 2 ? ML[choose(nM)] : f_opd(0); b = full == 3 ? ML[choose(nM)] : f_opd(0); if (full && !mc_thorough) { if (full != 1 && SLJIT_IS_MEM(d.a)) return; if (full != 2 && (SLJIT_IS_MEM(a.a) || a.a == SLJIT_FR(4))) return; if (full != 3 && (SLJIT_IS_MEM(b.a) || b.a == SLJIT_FR(9))) return; } if (!mc_mine()) return; np = 1; P[0] = k == 4 ? (Ins){K_FOP2R, SLJIT_COPYSIGN_F64 | (w ? SLJIT_32 : 0), d, a, b} : (Ins){K_FOP2, SLJIT_ADD_F64 + k | (w ? SLJIT_32 : 0), d, a, b}; build(1); float_runs(&P[0], 0, 0, 1, 0); finish(); }
static void b_fop2v(void) { lists(); int k = choose(5), w = choose(2), f = choose(5); if (!mc_mine()) return; Opd d = FRL(f == 1 ? 1 : f == 2 ? 2 : 0), a = FRL(1), b = f == 3 ? FRL(1) : FRL(2); np = 1; P[0] = k == 4 ? (Ins){K_FOP2R, SLJIT_COPYSIGN_F64 | (w ? SLJIT_32 : 0), d, a, b} : (Ins){K_FOP2, SLJIT_ADD_F64 + k | (w ? SLJIT_32 : 0), d, a, b}; if (f == 4) P[0].b = (Opd){SLJIT_MEM1(SLJIT_R3), 0}; build(1); float_runs(&P[0], 0, 0, 1, 1); finish(); }
static void b_fcmp(void) { lists(); int t = SLJIT_F_EQUAL + choose(20), w = choose(2), full = choose(3); Opd a = full == 1 ? ML[choose(nM)] : f_opd(0), b = full == 2 ? ML[choose(nM)] : f_opd(0); if (full && !mc_thorough && (SLJIT_IS_MEM(full == 1 ? b.a : a.a))) return; if (!mc_mine()) return; np = 1; P[0] = (Ins){K_FCMP, t | (w ? SLJIT_32 : 0), .a = a, .b = b}; build(1); const u64 *fv = w ? FV32 : FV64; static const int ix[] = {0, 1, 2, 3, 4, 6, 8}; for (int x = 0; x < 7; x++) for (int y = 0; y < 7; y++) { begin_state(); addr_regs(a); addr_regs(b); fval_to(a, fv[ix[x]]); fval_to(b, fv[ix[y]]); if (!cx->sp) cx->sp = sp_ ? sp_ : 0x7ff000000000; mem_val(a, fv[ix[x]]); mem_val(b, fv[ix[y]]); run(); } finish(); }
static void b_fset(void) { lists(); int w = choose(2), r = choose(6), v = choose(NFV + 12), k = choose(2); if (!mc_mine()) return; u64 b = v < NFV ? (w ? FV64 : FV32)[v] : w ? (u64)(v - NFV) << 20 | 0x123400000000ull * (v & 1) : 0x1000u * (v - NFV); np = 0; if (k) P[np++] = (Ins){K_FSET64, .d = FRL(r), .imm = 0x123456789abcdefull}; P[np++] = (Ins){w ? K_FSET64 : K_FSET32, .d = FRL(r), .imm = b}; build(1); begin_state(); run(); finish(); }
static void b_fcopy(void) { lists(); static const int ops[] = {SLJIT_COPY_TO_F64, SLJIT_COPY32_TO_F32, SLJIT_COPY_FROM_F64, SLJIT_COPY32_FROM_F32}; int op = choose_from(ops), f = 1 + choose(NF), r = 1 + choose(NR); if (!mc_mine()) return; np = 1; P[0] = (Ins){K_FCOPY, op, .r1 = f, .r2 = r}; build(1); for (int v = 0; v < NFV; v++) { begin_state(); u64 x = op & SLJIT_32 ? FV32[v] : FV64[v]; init0.r[r] = x; init0.f[f][0] = x; run(); } finish(); }
/* ---- memory with alignment hints and pairs ---- */
static void b_mem(void) { lists(); int st = choose(2) ? SLJIT_MEM_STORE : 0, pair = choose(2); static const int ty[] = {SLJIT_MOV, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV32_U16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV32_S8}; static const int prs[] = {SLJIT_R0, SLJIT_R3, SLJIT_S0, SLJIT_S4, SLJIT_R1}; int op, r1; if (pair) { int a = choose_from(prs), b = choose_from(prs); if (a == b) return; r1 = SLJIT_REG_PAIR(a, b); op = SLJIT_MOV | (int[]){0, SLJIT_MEM_UNALIGNED, SLJIT_MEM_ALIGNED_16, SLJIT_MEM_ALIGNED_32}[choose(4)]; } else { op = choose_from(ty); r1 = RL[choose(nR)].a; int al = choose(3); int sz = op == SLJIT_MOV || op == SLJIT_MOV_P ? 8 : op == SLJIT_MOV_U32 || op == SLJIT_MOV_S32 || op == SLJIT_MOV32 ? 4 : (op & 0xff) == SLJIT_MOV_U8 || (op & 0xff) == SLJIT_MOV_S8 ? 1 : 2; if (al == 1 && sz < 4) return; if (al == 2 && sz < 8) return; op |= al == 0 ? SLJIT_MEM_UNALIGNED : al == 1 ? SLJIT_MEM_ALIGNED_16 : SLJIT_MEM_ALIGNED_32; }
  Opd a = ML[choose(nM)]; if (!mc_mine()) return; if (pair && SLJIT_IS_MEM(a.a) && a.a == SLJIT_MEM1(SLJIT_SP) && a.w == STK - 8) { mc_owned = 0; return; } np = 1; P[0] = (Ins){K_MEM, op | st, .a = a, .r1 = r1}; build(0); begin_state(); addr_regs(a); if (!(pair)) { val_to((Opd){r1}, 0x8182838485868788ull, !!(op & SLJIT_32)); } run(); finish(); }
static void b_fmem(void) { lists(); int st = choose(2) ? SLJIT_MEM_STORE : 0, w = choose(2), al = choose(3), r1 = 1 + choose(NF); Opd a = ML[choose(nM)]; if (al == 2 && w) return; if (!mc_mine()) return; np = 1; P[0] = (Ins){K_FMEM, SLJIT_MOV_F64 | (w ? SLJIT_32 : 0) | st | (al == 0 ? SLJIT_MEM_UNALIGNED : al == 1 ? SLJIT_MEM_ALIGNED_16 : SLJIT_MEM_ALIGNED_32), .a = a, .r1 = r1}; build(1); begin_state(); addr_regs(a); run(); finish(); }
static void b_lbase(void) { lists(); int k = choose(2); Opd d = k ? ML[choose(nM)] : RL[choose(nR)]; static const long o[] = {0, 8, -8, 127, 128, 0x7fffffffl, -0x80000000l, 0x80000000l, 0x123456789al, -0x123456789al}; long off = choose_from(o); if (!mc_mine()) return; np = 1; P[0] = (Ins){K_LBASE, 0, .d = d, .imm = off}; build(0); begin_state(); addr_regs(d); run(); finish(); }
static void b_cas(void) { lists(); static const int ty[] = {SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV32_U8, SLJIT_MOV_U16, SLJIT_MOV32_U16, SLJIT_MOV_U32, SLJIT_MOV32, SLJIT_MOV_P}; int op = choose_from(ty), fl = choose(2); static const int rr[] = {SLJIT_R0, SLJIT_R1, SLJIT_R3, SLJIT_S0, SLJIT_S4}; int d = choose_from(rr), m = choose_from(rr), v = choose_from(rr); if (d == m || m == v || d == v) return; if (!mc_mine()) return; np = 1; P[0] = (Ins){K_CAS, op, {d}, {v}, .r1 = m, .imm = fl ? SLJIT_SET_ATOMIC_STORED : 0}; if (fl) { P[0].op |= 0; P[np++] = (Ins){K_OPFLAGS, SLJIT_MOV, .d = {SLJIT_S2}, .r1 = SLJIT_ATOMIC_STORED}; } build(0); for (int x = 0; x < NBV; x++) { begin_state(); addr_regs((Opd){SLJIT_MEM1(m)}); int i3 = (op & SLJIT_32) != 0; val_to((Opd){v}, BV[x], i3); mem_val((Opd){SLJIT_MEM1(m)}, BV[(x + 7) % NBV]); run(); } finish(); }
/* ---- sequences ---- */
static Ins AL[200]; static int nAL;
static void alpha(void) {
  if (nAL) return; lists(); sets();
#define A(...) AL[nAL++] = (Ins){__VA_ARGS__}
  Opd r0 = {SLJIT_R0}, r3 = {SLJIT_R3}, s0 = {SLJIT_S0}, m = {SLJIT_MEM1(SLJIT_S4), 8}, mi = {SLJIT_MEM2(SLJIT_S4, SLJIT_R6), 3}, sp = {SLJIT_MEM1(SLJIT_SP), 8}, i5 = {SLJIT_IMM, 5}, i0 = {SLJIT_IMM, 0}, im1 = {SLJIT_IMM, -1}, big = {SLJIT_IMM, 0x123456789abcdefl}, far_ = {SLJIT_MEM0(), (long)HI + 720};
  A(K_OP1, SLJIT_MOV, r0, i0); A(K_OP1, SLJIT_MOV, r3, r0); A(K_OP1, SLJIT_MOV, s0, m); A(K_OP1, SLJIT_MOV, mi, r3); A(K_OP1, SLJIT_MOV, sp, big); A(K_OP1, SLJIT_MOV, far_, m); A(K_OP1, SLJIT_MOV_S8, r0, r3); A(K_OP1, SLJIT_MOV_U16, m, s0); A(K_OP1, SLJIT_MOV_S32, r3, s0); A(K_OP1, SLJIT_MOV_U32, s0, r0); A(K_OP1, SLJIT_CLZ, r0, s0); A(K_OP1, SLJIT_CTZ, r3, m); A(K_OP1, SLJIT_REV, s0, r0); A(K_OP1, SLJIT_REV_S16, r0, r3);
  A(K_OP2, SLJIT_ADD, r0, r0, r3); A(K_OP2, SLJIT_ADD, r3, r0, i5); A(K_OP2, SLJIT_ADD | SLJIT_SET_CARRY, s0, s0, r3); A(K_OP2, SLJIT_ADDC, r0, r0, r3); A(K_OP2, SLJIT_ADDC | SLJIT_SET_CARRY, m, m, r0); A(K_OP2, SLJIT_SUB | SLJIT_SET_Z, r0, r0, i5); A(K_OP2, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_SIG_LESS, s0, r3, s0); A(K_OP2U, SLJIT_SUB | SLJIT_SET_LESS, .a = r0, .b = r3); A(K_OP2U, SLJIT_SUB | SLJIT_SET_Z, .a = m, .b = i0); A(K_OP2, SLJIT_SUB | SLJIT_SET_CARRY, r0, r0, s0); A(K_OP2, SLJIT_SUBC, r3, r3, m); A(K_OP2, SLJIT_MUL, r0, r0, s0); A(K_OP2, SLJIT_MUL | SLJIT_SET_OVERFLOW, r3, s0, i5); A(K_OP2, SLJIT_AND | SLJIT_SET_Z, r0, r3, im1); A(K_OP2, SLJIT_XOR, s0, s0, im1); A(K_OP2, SLJIT_OR, m, m, r0); A(K_OP2, SLJIT_SUB, r3, i0, r3); A(K_OP2, SLJIT_XOR | SLJIT_SET_Z, r0, r0, r0);
  A(K_OP2, SLJIT_MSHL, r0, r0, r3); A(K_OP2, SLJIT_MLSHR | SLJIT_SET_Z, r3, s0, r3); A(K_OP2, SLJIT_MASHR, s0, s0, i5); A(K_OP2, SLJIT_ROTL, r3, r3, r0); A(K_OP2, SLJIT_ROTR, m, s0, i5); A(K_OP2R, SLJIT_MULADD, r0, r3, s0); A(K_SHINTO, SLJIT_MSHL, r0, r3, .r1 = SLJIT_R0, .r2 = SLJIT_S0); A(K_OP0, SLJIT_LMUL_UW); A(K_OP0, SLJIT_LMUL_SW);
  A(K_OPFLAGS, SLJIT_MOV, r0, .r1 = SLJIT_EQUAL); A(K_OPFLAGS, SLJIT_MOV, r3, .r1 = SLJIT_LESS); A(K_OPFLAGS, SLJIT_MOV, m, .r1 = SLJIT_NOT_CARRY); A(K_OPFLAGS, SLJIT_OR | SLJIT_SET_Z, s0, .r1 = SLJIT_NOT_EQUAL); A(K_OPFLAGS, SLJIT_XOR, r0, .r1 = SLJIT_SIG_LESS); A(K_OPFLAGS, SLJIT_MOV, s0, .r1 = SLJIT_OVERFLOW); A(K_OPFLAGS, SLJIT_AND, r3, .r1 = SLJIT_ORDERED_EQUAL);
  A(K_SELECT, SLJIT_EQUAL, r0, r3, .r1 = SLJIT_S0); A(K_SELECT, SLJIT_SIG_GREATER_EQUAL, r3, m, .r1 = SLJIT_R3); A(K_SELECT, SLJIT_CARRY, s0, i5, .r1 = SLJIT_R0); A(K_JCC, SLJIT_EQUAL, .mark = 1); A(K_JCC, SLJIT_CARRY, .mark = 2); A(K_JCC, SLJIT_LESS, .mark = 3); A(K_CMP, SLJIT_SIG_GREATER, .a = r0, .b = i5, .mark = 4); A(K_OP2CMPZ, SLJIT_SUB, r0, r0, r3, .mark = 5);
  A(K_FOP1, SLJIT_MOV_F64, {SLJIT_FR0}, m); A(K_FOP1, SLJIT_MOV_F64, sp, {SLJIT_FR0}); A(K_FOP1, SLJIT_CONV_F64_FROM_SW, {SLJIT_FR1}, r0); A(K_FOP1, SLJIT_CONV_F64_FROM_UW, {SLJIT_FR0}, s0); A(K_FOP1, SLJIT_CMP_F64 | SLJIT_SET_ORDERED_EQUAL, {SLJIT_FR0}, {SLJIT_FR1}); A(K_FOP2, SLJIT_SUB_F64, {SLJIT_FR1}, {SLJIT_FR0}, {SLJIT_FR1}); A(K_FOP2, SLJIT_DIV_F64, {SLJIT_FR0}, {SLJIT_FR0}, {SLJIT_FR0}); A(K_FOP1, SLJIT_NEG_F64, {SLJIT_FR0}, {SLJIT_FR1}); A(K_FSELECT, SLJIT_EQUAL, {SLJIT_FR0}, {SLJIT_FR1}, .r1 = SLJIT_FR2); A(K_FSET64, .d = {SLJIT_FR1}, .imm = 0x4008000000000000ull); A(K_FSET64, .d = {SLJIT_FR0}, .imm = 0); A(K_FCOPY, SLJIT_COPY_FROM_F64, .r1 = SLJIT_FR0, .r2 = SLJIT_R3); A(K_FCOPY, SLJIT_COPY_TO_F64, .r1 = SLJIT_FR1, .r2 = SLJIT_S0); A(K_FCMP, SLJIT_UNORDERED_OR_LESS, .a = {SLJIT_FR0}, .b = {SLJIT_FR1}, .mark = 6);
  A(K_LBASE, .d = r0, .imm = 16); A(K_CONST, SLJIT_MOV, r0, .imm = 0); A(K_CONST, SLJIT_MOV, m, .imm = 0x77777777777l); A(K_MEM, SLJIT_MOV | SLJIT_MEM_UNALIGNED, .a = m, .r1 = SLJIT_REG_PAIR(SLJIT_R0, SLJIT_S0)); A(K_MEM, SLJIT_MOV | SLJIT_MEM_UNALIGNED | SLJIT_MEM_STORE, .a = sp, .r1 = SLJIT_REG_PAIR(SLJIT_R3, SLJIT_R0));
  /* 32-bit */
  A(K_OP1, SLJIT_MOV32, r0, s0); A(K_OP1, SLJIT_MOV32, m, r0); A(K_OP1, SLJIT_MOV_S32, r0, r0); A(K_OP1, SLJIT_MOV_U32, r0, r0); A(K_OP1, SLJIT_MOV32_S8, r0, m); A(K_OP2, SLJIT_ADD32 | SLJIT_SET_OVERFLOW, r0, r0, r0); A(K_OP2, SLJIT_SUB32 | SLJIT_SET_Z, r0, r0, {SLJIT_IMM, 5}); A(K_OP2U, SLJIT_SUB32 | SLJIT_SET_LESS, .a = r0, .b = m); A(K_OP2, SLJIT_MASHR32, r0, r0, {SLJIT_IMM, 3}); A(K_OP2, SLJIT_XOR32, m, m, r0);
}
static int seq_legal(int n) { /* statically: conditions only where they are defined */
  St t = M0; begin_state(); (void)t; int z = 0, v = -1; uint32_t und = 0;
  for (int i = 0; i < n; i++) { const Ins *p = &P[i]; int c = -1; switch (p->k) { case K_OPFLAGS: c = p->r1; break; case K_SELECT: case K_FSELECT: case K_JCC: c = p->op & 0xff; break; } int b = p->op & 0xff; if (p->k == K_OP2 && (b == SLJIT_ADDC || b == SLJIT_SUBC)) { if (v != (b == SLJIT_ADDC ? 100 : 101)) return 0; } if (c >= 0) { if (c <= 1) { if (!z) return 0; } else { int vv = v == 100 || v == 101 ? SLJIT_CARRY : v; if (vv != (c & ~1)) return 0; } }
    int keep = p->k == K_OP1 && b <= SLJIT_MOV_P || p->k == K_FOP1 && b == SLJIT_MOV_F64 || p->k == K_CONST || p->k == K_MEM || p->k == K_OPFLAGS && b == SLJIT_MOV || (p->k == K_SELECT || p->k == K_FSELECT) && !((v == 100 || v == 101) && c > 1) || p->k == K_OP0 && b == SLJIT_NOP; if (!keep) { z = 0; v = -1; }
    if (p->k == K_OP2 || p->k == K_OP2U) { z = !!(p->op & SLJIT_SET_Z); int f = (p->op >> 10) & 0x3f; v = f ? f == SLJIT_CARRY ? (b == SLJIT_ADD || b == SLJIT_ADDC ? 100 : 101) : f : -1; } else if (p->k == K_FOP1 && b == SLJIT_CMP_F64) v = (p->op >> 10) & 0x3f; else if (p->k == K_OPFLAGS && b >= 64) z = !!(p->op & SLJIT_SET_Z); }
  return 1;
}
static void seq(int n) {
  alpha(); cpu_ = n == 2 ? choose(cpu_variants()) : 0; np = n; for (int i = 0; i < n; i++) P[i] = AL[choose(nAL)]; if (!seq_legal(n)) return; if (!mc_mine()) return; build(1);
  static const u64 q[] = {0, 5, ~0ull, 0x8000000080000000ull, 0x100000005ull}; for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y += 1) { begin_state(); addr_regs((Opd){SLJIT_MEM1(SLJIT_S4)}); init0.r[SLJIT_R6] = 2; init0.r[SLJIT_R0] = q[x]; init0.r[SLJIT_R3] = q[y]; init0.r[SLJIT_S0] = q[(x + 2 * y) % 5]; init0.f[SLJIT_FR0][0] = FV64[x]; init0.f[SLJIT_FR1][0] = FV64[y + 1]; mem_val((Opd){SLJIT_MEM1(SLJIT_S4), 8}, q[(y + 3) % 5]); run(); } finish();
}
static void b_seq2(void) { seq(2); } static void b_seq3(void) { seq(3); } static void b_seq4(void) { seq(4); }
#ifndef LIR_LIB
static struct mc_space sp[] = {
  {"moves", b_op1, "every op1 operation x every destination form x every source form (13 registers, 20 immediates, 220 memory forms)"}, {"unary-values", b_op1v, "every op1 operation x 214 values x 4 register choices"},
  {"op2-mixture", b_op2x, "every op2 operation x triples over 11 operand forms (destination) and 18 (31) forms (sources), with flags, result kept or discarded"}, {"op2-registers", b_op2r3, "every op2 operation x all triples of the 13 registers"}, {"op2-memory", b_op2m, "every op2 operation x every memory form in each operand position"}, {"op2-immediates", b_op2i, "every op2 operation x every register pair x 20 immediates on either side"}, {"op2-values", b_op2v, "every op2 operation x every flag combination x 9 aliasing forms x 22 x 22 values (every shift count)"}, {"op2-immediate-values", b_op2iv, "every op2 operation x every flag combination x 20 immediates on either side x 22 values"},
  {"op-flags", b_opflags, "every flag setter x condition and its negation x 9 operations x every destination form x 36 operand pairs"}, {"select", b_select, "every flag setter x condition x width x operand forms"}, {"fselect", b_fselect, "likewise for floats"}, {"jumps", b_jcc, "every flag setter x condition x 14 instructions that must keep flags x jump, op_flags then jump, select"}, {"carry", b_carry, "add/sub with carry chains of 2 and 3 words x 14 instructions between x 6 forms x 216 value triples"},
  {"cmp", b_cmp, "every comparison x operand forms x 49 value pairs"}, {"op2cmpz", b_cmpz, "every operation with a zero test x both senses x rewritable or not x operand triples"}, {"op0", b_op0, "multiplications and divisions x 22 x 22 values"}, {"muladd", b_muladd, "every register destination x operand forms"}, {"shift-into", b_shinto, "all register choices x shift counts"},
  {"fop1", b_fop1, "float moves, conversions, negation, absolute value x operand forms x boundary values"}, {"fop2", b_fop2, "float arithmetic and copysign x operand forms"}, {"fop2-values", b_fop2v, "float arithmetic x 19 x 19 values x 5 forms"}, {"fcmp", b_fcmp, "20 float comparisons x operand forms x 49 value pairs"}, {"fset", b_fset, "float immediates"}, {"fcopy", b_fcopy, "copies between all integer and float registers"},
  {"mem", b_mem, "loads and stores with alignment hints and register pairs x every memory form"}, {"fmem", b_fmem, "float loads and stores likewise"}, {"local-base", b_lbase, "address of locals"}, {"atomic", b_cas, "atomic load and store pairs"}, {"sequences-2", b_seq2, "every sequence of 2 out of about 100 instructions"}, {"sequences-3", b_seq3, "every sequence of 3"}, {"sequences-4", b_seq4, "every sequence of 4 (thorough)"}};
static const char *as[] = {"x86-64; the CPU the check runs on, with and without its lzcnt, tzcnt and cmov instructions", "sources of 32-bit operations are zero-extended 32-bit values", "results the interface leaves unspecified (upper half after 32-bit operations, NaN payloads, out-of-range conversions and shifts, division overflow, flags not requested) are not compared", 0};
int main(int c, char **v) { static struct mc_check k = {"P23", "one execution = one instruction (sequence) assembled and run on a set of machine states; every register, both memory areas, the local area and jumps compared with the model; non-trivial = distinct register results", sp, sizeof sp / sizeof *sp, as}; const char *t = getenv("VERIF_TIER"); if (!t || strcmp(t, "thorough")) k.nspaces--; return mc_main(c, v, &k); }
#endif
