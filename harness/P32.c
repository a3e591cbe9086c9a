/* P32 vector operations of the code generator, exhaustively over operation, element type, lane, registers, operand forms,
 * alignment and CPU features: every one does exactly what is documented to the vector, the register or the memory it
 * names, and nothing else.  The machine state is loaded and recorded by hand-assembled code called before and after. */
#ifndef P32_LIB
#define P28_LIB
#include "P28.c"
#define P31_LIB
#define b_frames b_frames31
#include "P31.c"
#undef b_frames
#endif
typedef struct { u64 fl_in, fl_out, before, after; uint8_t in[16][32], out[16][32]; } Vec;
static Vec *X; static uint8_t *PG; static int wide; static u64 spv; /* address of the local area */
#define LOC 128
static uint8_t eLO[AR], eHI[AR], eSP[LOC], ePG[4096];
static void e_y(int m, void *at, int store) { if (!wide) { e_x(m, at, store); return; } uint8_t b[5] = {0xc5, (m < 8 ? 0x80 : 0) | 0x7c, store ? 0x11 : 0x10, (m & 7) << 3 | 4, 0x25}; e_(b, 5); e_abs(at); }
static void simd_init(void) {
  abi_init(); if (X) return; X = (Vec *)(0x30000000 + 0xc000); if (sizeof *A > 0x4000 || sizeof *X > 0x4000) mc_die("Vec");
  wide = __builtin_cpu_supports("avx2"); q_ = (uint8_t *)0x33003000;
  X->before = (u64)q_; for (int i = 0; i < 16; i++) e_y(i, X->in[i], 0); E(0xff, 0x34, 0x25); e_abs(&X->fl_in); E(0x9d, 0xc3);
  X->after = (u64)q_; E(0x9c, 0x8f, 0x04, 0x25); e_abs(&X->fl_out); for (int i = 0; i < 16; i++) e_y(i, X->out[i], 1); if (wide) E(0xc5, 0xf8, 0x77); E(0xc3);
  PG = mmap((void *)0x35000000, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (PG != (void *)0x35000000) mc_die("no low memory for a guarded page"); PG += 4096; if (mprotect(PG, 4096, PROT_READ | PROT_WRITE)) mc_die("mprotect");
  lir_begin(); fr = (Fr){0, 7, 6, NF, LOC}; Args a = {0}; start(&fr, &a); DUMP(0); OK(sljit_emit_return_void(lc)); runf(fin()); spv = A->d[0].gp[4] + 8; fin_free();
}
static int XI(int vr) { int m = sljit_get_register_index(SLJIT_SIMD_REG_128, vr); if (m < 0 || m > 15) mc_fail("vector register %d has no machine register", vr); return m; }
/* CPU and options: 0 everything, plain encoding; 1 everything, VEX; 2 no AVX2, VEX; 3 no AVX, VEX asked for */
static int mode_; static const char *moden[] = {"", ", VEX encoding", ", VEX encoding, no AVX2", ", VEX encoding, no AVX"};
static void cpu_mode(int m) { cpu_pick(0); if (&cpu_feature_list) cpu_feature_list = cpu_all & ~(m == 2 ? 0x80u : m == 3 ? 0xc0u : 0u); }
/* ---- memory forms: address of n bytes, with exactly the alignment al (log2), or any when al < 0 ---- */
#define NVF 34
static u64 vea; static uint8_t *vmodel; /* where the model keeps the bytes */
static int vform(int k, int n, int al, Opd *o) {
  int skew = al < 0 ? 3 : al > 5 ? 0 : 1 << al; u64 lo = (u64)LO + 256 + skew, hi = (u64)HI + 256 + skew; vmodel = eLO + 256 + skew; vea = lo;
  if (k == 0) { *o = (Opd){SLJIT_MEM0(), lo}; return 1; }
  if (k == 1) { vea = hi; vmodel = eHI + 256 + skew; *o = (Opd){SLJIT_MEM0(), hi}; return 1; }
  if (k == 2) { int off = (int)((skew - spv) & 63); vea = spv + off; vmodel = eSP + off; *o = (Opd){SLJIT_MEM1(SLJIT_SP), off}; return 1; }
  if (k <= 15) { int r = k - 2; rv[r] = hi - 16; vea = hi; vmodel = eHI + 256 + skew; *o = (Opd){SLJIT_MEM1(r), 16}; return 1; }
  if (k <= 28) { int r = k - 15, x = r % NR + 1, s = k & 3; rv[x] = 5; rv[r] = lo - (5u << s); *o = (Opd){SLJIT_MEM2(r, x), s}; return 1; }
  if (k == 29) { rv[SLJIT_S0] = lo - 0x123456789a0ull; *o = (Opd){SLJIT_MEM1(SLJIT_S0), 0x123456789a0ll}; return 1; }
  if (k == 30) { rv[SLJIT_R1] = lo + 200; *o = (Opd){SLJIT_MEM1(SLJIT_R1), -200}; return 1; }
  if (k == 31) { vea = (u64)PG; vmodel = ePG; *o = (Opd){SLJIT_MEM0(), (sljit_sw)PG}; return 1; }
  if (k == 32) { vea = (u64)PG + 4096 - n; vmodel = ePG + 4096 - n; *o = (Opd){SLJIT_MEM0(), (sljit_sw)vea}; return 1; }
  vea = (u64)PG + 4096 - n; vmodel = ePG + 4096 - n; rv[SLJIT_S1] = vea; *o = (Opd){SLJIT_MEM1(SLJIT_S1), 0}; return 1;
}
/* ---- the operations ---- */
enum { MOVE, REPL, LANE, LREP, EXTEND, SIGN, OP2 };
typedef struct { int k, reg, el, el2, fl, st, zero, sgn, w32, lane, v, v2, op; Opd o; } Vop;
static Vop VP;
static s32 vtype(void) { return VP.reg << 12 | VP.el << 18 | VP.el2 << 24 | (VP.fl ? SLJIT_SIMD_FLOAT : 0) | (VP.st ? SLJIT_SIMD_STORE : 0) | (VP.zero ? SLJIT_SIMD_LANE_ZERO : 0) | (VP.sgn ? VP.k == EXTEND ? SLJIT_SIMD_EXTEND_SIGNED : SLJIT_SIMD_LANE_SIGNED : 0) | (VP.w32 ? SLJIT_32 : 0) | VP.op; }
static s32 vemit(s32 t) { switch (VP.k) {
  case MOVE: return sljit_emit_simd_mov(lc, t, VP.v, VP.o.a, VP.o.w); case REPL: return sljit_emit_simd_replicate(lc, t, VP.v, VP.o.a, VP.o.w); case LANE: return sljit_emit_simd_lane_mov(lc, t, VP.v, VP.lane, VP.o.a, VP.o.w);
  case LREP: return sljit_emit_simd_lane_replicate(lc, t, VP.v, VP.v2, VP.lane); case EXTEND: return sljit_emit_simd_extend(lc, t, VP.v, VP.o.a, VP.o.w); case SIGN: return sljit_emit_simd_sign(lc, t, VP.v, VP.o.a, VP.o.w); default: return sljit_emit_simd_op2(lc, t, VP.v, VP.v2, VP.o.a, VP.o.w); } }
static void vdesc(char *s) {
  static const char *kn[] = {"simd_mov", "simd_replicate", "simd_lane_mov", "simd_lane_replicate", "simd_extend", "simd_sign", "simd_op2"}, *on[] = {"", " and", " or", " xor", " shuffle"}; int vo = (VP.k == MOVE || VP.k == EXTEND || VP.k == OP2 || VP.fl && VP.k != SIGN);
  s += sprintf(s, "%s%s%s%s%s reg %d elem %s%d", kn[VP.k], on[VP.op], VP.st ? " store" : "", VP.zero ? " zero" : "", VP.sgn ? " signed" : "", 8 << VP.reg, VP.fl ? "f" : "", 8 << VP.el); if (VP.k == EXTEND) s += sprintf(s, " to %d", 8 << VP.el2); else if (VP.k == MOVE || VP.k == OP2) s += sprintf(s, " aligned %d", 8 << VP.el2); if (VP.w32) s += sprintf(s, " 32"); s += sprintf(s, ", vr%d", VP.v - 1); if (VP.k == LREP || VP.k == OP2) s += sprintf(s, ", vr%d", VP.v2 - 1); if (VP.k == LANE || VP.k == LREP) s += sprintf(s, ", lane %d", VP.lane); if (VP.k != LREP) s += sprintf(s, ", %s", opd(VP.o, vo && VP.o.a != SLJIT_IMM)); sprintf(s, "%s\n", moden[mode_]);
}
static u64 h64(u64 x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ x >> 32; }
static u64 datum(int i, int f) { /* 8 bytes of data */
  u64 h = h64(i * 2 + 17 + f * 1000); if (f == 0) return h; if (f == 1) return h & 0x7f7f7f7f7f7f7f7full & h64(h) | (h >> 3 & 0x8080808080808080ull); if (f == 4 || f == 5) return h & (f == 4 ? 0x0f0f0f0f0f0f0f0full : 0x0303030303030303ull) ^ (f == 5 ? 0x0c0c0c0c0c0c0c0cull : 0);
  static const u32 sp[] = {0, 0x80000000, 0x7f800000, 0xff800000, 1, 0x807fffff, 0x00800000, 0x7f7fffff}; u32 a = f == 2 ? (u32)h & 0xbfffffff : sp[h & 7], b = f == 2 ? (u32)(h >> 32) & 0xbfffffff : sp[h >> 8 & 7]; return a | (u64)b << 32; }
static void put8(uint8_t *p, int n, int f, int seed) { for (int i = 0; i < n; i += 8) { u64 d = datum(seed + i, f); memcpy(p + i, &d, 8); } }
static uint8_t E_[16][32], M_[16][32]; /* expected vectors; mask of the bytes that are defined */
static void vmodel_run(uint8_t *mem, u64 *gp, u64 *gpm) { /* gp: expected value of a general register written, mask */
  int R = 1 << VP.reg, el = 1 << VP.el, v = XI(VP.v), v2 = VP.v2 ? XI(VP.v2) : 0, isv = VP.o.a && !SLJIT_IS_MEM(VP.o.a) && VP.o.a != SLJIT_IMM, ov = isv && (VP.k == MOVE || VP.k == EXTEND || VP.k == OP2 || VP.fl && VP.k != SIGN) ? XI(VP.o.a) : 0; uint8_t src[32], d[32]; *gpm = 0;
#define DST(r, n) do { memcpy(E_[r], d, n); memset(M_[r], 0, 32); memset(M_[r], 0xff, n); } while (0)
  switch (VP.k) {
  case MOVE: if (VP.st) { memcpy(d, X->in[v], R); if (isv) DST(ov, R); else memcpy(mem, d, R); } else { memcpy(d, isv ? X->in[ov] : mem, R); DST(v, R); } break;
  case REPL: { u64 s = VP.o.w; if (isv && !VP.fl) s = rv[VP.o.a]; memcpy(src, &s, 8); if (isv && VP.fl) memcpy(src, X->in[ov], 8); else if (SLJIT_IS_MEM(VP.o.a)) memcpy(src, mem, el); for (int i = 0; i < R; i++) d[i] = src[i & (el - 1)]; DST(v, R); break; }
  case LANE: if (VP.st) { memcpy(src, X->in[v] + VP.lane * el, el); if (!isv) memcpy(mem, src, el); else if (VP.fl) { memcpy(E_[ov], src, el); memset(M_[ov], 0, 32); memset(M_[ov], 0xff, el); } else { u64 s = 0; memcpy(&s, src, el); if (VP.sgn) s = sx(s, el); *gp = s; *gpm = VP.w32 ? 0xffffffff : ~0ull; } } else { u64 s = VP.o.w; if (isv && !VP.fl) s = rv[VP.o.a]; memcpy(src, &s, 8); if (isv && VP.fl) memcpy(src, X->in[ov], 8); else if (SLJIT_IS_MEM(VP.o.a)) memcpy(src, mem, el); if (VP.zero) memset(d, 0, 32); else memcpy(d, X->in[v], 32); memcpy(d + VP.lane * el, src, el); DST(v, R); } break;
  case LREP: for (int i = 0; i < R; i++) d[i] = X->in[v2][VP.lane * el + (i & (el - 1))]; DST(v, R); break;
  case EXTEND: { int e2 = 1 << VP.el2, n = R / e2; memcpy(src, isv ? X->in[ov] : mem, n * el); for (int i = 0; i < n; i++) { u64 s = 0; memcpy(&s, src + i * el, el); if (VP.fl) s = b64(f32v(s)); else if (VP.sgn) s = sx(s, el); memcpy(d + i * e2, &s, e2); } DST(v, R); break; }
  case SIGN: { u64 s = 0; for (int i = 0; i < R / el; i++) s |= (u64)(X->in[v][i * el + el - 1] >> 7) << i; if (isv) { *gp = s; *gpm = VP.w32 ? 0xffffffff : ~0ull; } else memcpy(mem, &s, VP.w32 ? 4 : 8); break; }
  case OP2: memcpy(src, isv ? X->in[ov] : mem, R); for (int i = 0; i < R; i++) { uint8_t a = X->in[v2][i]; d[i] = VP.op == SLJIT_SIMD_OP2_AND ? a & src[i] : VP.op == SLJIT_SIMD_OP2_OR ? a | src[i] : VP.op == SLJIT_SIMD_OP2_XOR ? a ^ src[i] : X->in[v2][src[i] & 15]; } DST(v, R); break;
  }
}
static int msize(void) { int R = 1 << VP.reg; return VP.k == MOVE || VP.k == OP2 ? R : VP.k == REPL || VP.k == LANE ? 1 << VP.el : VP.k == EXTEND ? R >> (VP.el2 - VP.el) : VP.w32 ? 4 : 8; }
/* prepare: rv holds what the general registers hold (form k of the operand already applied) */
static void vbegin(void) { cpu_mode(mode_); simd_init(); for (int i = 0; i < 16; i++) rv[i] = 0x0102030405060708ull * (i + 3) + 0x7777777700000000ull + (i & 1 ? 0x8000000000000000ull : 0) + (i & 2 ? 0x80808080 : 0) + i; locoff = -1; part1 = 0; vmodel = NULL; }
static void vrun(void) {
  char t[300]; vdesc(t); DESC("%s", t); Args a = {0}; fr = (Fr){mode_ ? SLJIT_ENTER_USE_VEX : 0, 7, 6, NF, LOC}; lir_begin(); OK(sljit_emit_enter(lc, fr.opt, al_bits(&a), 7 | SLJIT_ENTER_FLOAT(NF) | SLJIT_ENTER_VECTOR(NF), 6, LOC));
  for (int i = 1; i <= NR; i++) OK(sljit_emit_op1(lc, SLJIT_MOV, i, 0, SLJIT_IMM, rv[i])); raw_stub(&X->before);
  s32 ty = vtype(); sljit_uw s0 = lc->size; s32 rt = vemit(ty | SLJIT_SIMD_TEST); if (lc->size != s0) mc_fail("a test whether the operation is available emitted %ld bytes", (long)(lc->size - s0)); s32 r = vemit(ty);
  if (r != rt) mc_fail("the test whether the operation is available gave %d, the operation %d", rt, r); if (r && r != SLJIT_ERR_UNSUPPORTED) mc_fail("the operation was refused with error %d", r); if (r && lc->size != s0) mc_fail("the operation was refused, but emitted %ld bytes", (long)(lc->size - s0)); if (sljit_get_compiler_error(lc)) mc_fail("the compiler is in error %d after the operation", sljit_get_compiler_error(lc));
  raw_stub(&X->after); DUMP(1); OK(sljit_emit_return_void(lc)); u64 fn = fin(); int isgp = !SLJIT_IS_MEM(VP.o.a) && VP.o.a != SLJIT_IMM && !VP.fl && VP.k == LANE || VP.k == SIGN && !SLJIT_IS_MEM(VP.o.a), own = 0; for (int i = 1; i <= NF; i++) own |= 1 << XI(i);
  for (int run = 0; run < 2; run++) {
    int f = VP.k == EXTEND && VP.fl ? 2 + run : VP.op == SLJIT_SIMD_OP2_SHUFFLE ? 4 + run : run; for (int i = 0; i < 16; i++) put8(X->in[i], 32, f, 5000 + i * 64);
    if (VP.op == SLJIT_SIMD_OP2_SHUFFLE) for (int i = 0; i < 16; i++) for (int b = 0; b < 32; b++) X->in[i][b] = (X->in[i][b] + i) & 15;
    put8(eLO, AR, f, 0); put8(eHI, AR, f, 2000); put8(eSP, LOC, f, 4000); put8(ePG, 64, f, 4200); put8(ePG + 4032, 64, f, 4300); if (VP.op == SLJIT_SIMD_OP2_SHUFFLE) { uint8_t *m = vmodel; if (m) for (int i = 0; i < 32 && m + i < ePG + 4096; i++) m[i] = (m[i] + 3) & 15; }
    memcpy(LO, eLO, AR); memcpy(HI, eHI, AR); memcpy((void *)spv, eSP, LOC); memcpy(PG, ePG, 64); memcpy(PG + 4032, ePG + 4032, 64); X->fl_in = 0x202 | (run ? 0x8d5 : 0); memcpy(E_, X->in, sizeof E_); memset(M_, 0xff, sizeof M_); for (int i = 0; i < 16; i++) if (!(own >> i & 1)) memset(M_[i], 0, 32);
    u64 g = 0, gm = 0; if (!r) vmodel_run(vmodel, &g, &gm); memset(X->out, 0, sizeof X->out); runf(fn);
    for (int i = 0; i < 16; i++) for (int b = 0; b < (wide ? 32 : 16); b++) if ((X->out[i][b] ^ E_[i][b]) & M_[i][b]) { int vr = 0; for (int j = 1; j <= NF; j++) if (XI(j) == i) vr = j - 1; mc_fail("byte %d of vr%d is 0x%02x, must be 0x%02x (before: 0x%02x)", b, vr, X->out[i][b], E_[i][b], X->in[i][b]); }
    for (int i = 1; i <= NR; i++) { u64 e = rv[i], m = ~0ull, v = A->d[1].gp[GI(i)]; if (isgp && i == VP.o.a && !r) e = g, m = gm; if ((v ^ e) & m) mc_fail("%s is 0x%lx, must be 0x%lx", rname(i), v & m, e & m); }
    if (memcmp(LO, eLO, AR) || memcmp(HI, eHI, AR)) for (int i = 0; i < AR; i++) { if (LO[i] != eLO[i]) mc_fail("memory byte %+ld from the operand is 0x%02x, must be 0x%02x", (long)((u64)LO + i - vea), LO[i], eLO[i]); if (HI[i] != eHI[i]) mc_fail("memory byte %+ld from the operand is 0x%02x, must be 0x%02x", (long)((u64)HI + i - vea), HI[i], eHI[i]); }
    for (int i = 0; i < LOC; i++) if (((uint8_t *)spv)[i] != eSP[i]) mc_fail("byte %d of the local area is 0x%02x, must be 0x%02x", i, ((uint8_t *)spv)[i], eSP[i]); for (int i = 0; i < 4096; i++) { if (i == 64) i = 4032; if (PG[i] != ePG[i]) mc_fail("memory byte %+ld from the operand is 0x%02x, must be 0x%02x", (long)((u64)PG + i - vea), PG[i], ePG[i]); }
    if ((X->fl_out ^ X->fl_in) & 0x8d5 & ~0x10) mc_fail("the operation changed the flags from 0x%lx to 0x%lx", X->fl_in & 0x8c5, X->fl_out & 0x8c5); csaved_same(&A->out, "after the return"); hv = mc_hash(hv, X->out, sizeof X->out); hv = mc_hash(hv, A->d[1].gp, 8 * 16);
  }
  hv ^= r; done();
}
/* ---- enumeration ---- */
static int vsel(int all) { static const int few[] = {1, 8, 9, 15}; return all ? 1 + choose(NF) : few[choose(4)]; }
static int pick_elem(int max, int fl) { VP.fl = fl && choose(2); VP.el = choose(max + 1); return VP.el; }
/* memory operand: every form with a few registers, or a few forms with every register */
static int pick_mem(int *allv) { static const int few[] = {0, 1, 2, 4, 10, 33}; *allv = mc_thorough || choose(2); return mc_thorough || !*allv ? choose(NVF) : few[choose(6)]; }
static void b_mov(void) {
  memset(&VP, 0, sizeof VP); VP.k = MOVE; mode_ = choose(4); VP.reg = 3 + choose(4); VP.st = choose(2); pick_elem(VP.reg, 1); int mem = choose(2), av = 1, k = 0; if (mem) { VP.el2 = choose(VP.reg + 1); k = pick_mem(&av); } VP.v = vsel(av); if (!mem) VP.o.a = 1 + choose(NF); if (!mc_mine()) return; vbegin(); if (mem) vform(k, msize(), VP.el2, &VP.o); vrun();
}
static const u64 imms[] = {0, ~0ull, 1, 0x80, 0xff, 0xffff, 0x8000, 0x1234, 0x80000000, 0xffffffff, 0xffffffff80000000ull, 0x7f, 0x0101010101010101ull, 0xffffffff00000000ull, 0x8877665544332211ull, 0x00ff00ff, 0x12345678};
/* scalar operand: general register, float register, memory or value */
static int scalar(int st, int *av) { int t = choose(3); *av = 1; if (t == 0) { VP.o.a = 1 + choose(VP.fl ? NF : NR); return -1; } if (t == 1) return pick_mem(av); if (st) return -2; VP.o = (Opd){SLJIT_IMM, VP.fl ? 0 : imms[choose(sizeof imms / 8)]}; return -1; }
static void scalar_done(int k) { vbegin(); if (k >= 0) vform(k, msize(), -1, &VP.o); vrun(); }
static void b_repl(void) { memset(&VP, 0, sizeof VP); VP.k = REPL; mode_ = choose(4); VP.reg = 3 + choose(4); pick_elem(VP.reg - 1, 1); int av, k = scalar(0, &av); VP.v = vsel(av); if (!mc_mine()) return; scalar_done(k); }
static void b_lane(void) {
  memset(&VP, 0, sizeof VP); VP.k = LANE; mode_ = choose(4); VP.reg = 4 + choose(2); pick_elem(VP.reg - 1, 1); VP.lane = choose(1 << (VP.reg - VP.el)); VP.st = choose(2); if (VP.st) VP.sgn = VP.fl ? 0 : choose(2); else VP.zero = choose(2); if (!VP.fl && VP.el <= 2) VP.w32 = choose(2); int av, k = scalar(VP.st, &av); if (k == -2 || VP.o.a == SLJIT_IMM && VP.fl) return; VP.v = vsel(av && (mc_thorough || VP.fl || VP.o.a == 1 || VP.o.a == 8 || k >= 0 || VP.o.a == SLJIT_IMM)); if (!mc_mine()) return; scalar_done(k); }
static void b_lrep(void) { memset(&VP, 0, sizeof VP); VP.k = LREP; mode_ = choose(4); VP.reg = 3 + choose(4); pick_elem(VP.reg - 1, 1); VP.lane = choose(1 << (VP.reg - VP.el)); int a = VP.reg == 4 || VP.reg == 5; VP.v = vsel(a); VP.v2 = vsel(a); if (!mc_mine()) return; vbegin(); vrun(); }
static void b_extend(void) { memset(&VP, 0, sizeof VP); VP.k = EXTEND; mode_ = choose(4); VP.reg = 3 + choose(4); VP.el2 = 1 + choose(VP.reg - 1); VP.fl = choose(2); VP.el = choose(VP.el2); VP.sgn = VP.fl ? 0 : choose(2); int mem = choose(2), av = 1, k = -1; if (mem) k = pick_mem(&av); else VP.o.a = 1 + choose(NF); VP.v = vsel(av); if (!mc_mine()) return; scalar_done(k); }
static void b_sign(void) { memset(&VP, 0, sizeof VP); VP.k = SIGN; VP.st = 1; mode_ = choose(4); VP.reg = 3 + choose(4); pick_elem(VP.reg - 1, 1); VP.w32 = choose(2); int mem = choose(2), av = 1, k = -1; if (mem) k = pick_mem(&av); else VP.o.a = 1 + choose(NR); VP.v = vsel(av); if (!mc_mine()) return; scalar_done(k); }
static void b_op2(void) {
  memset(&VP, 0, sizeof VP); VP.k = OP2; mode_ = choose(4); VP.reg = 3 + choose(4); VP.op = 1 + choose(4); if (VP.op < 4) pick_elem(VP.reg, 1); int mem = choose(2), av = 1, k = -1; if (mem) { VP.el2 = choose(VP.reg + 1); k = pick_mem(&av); } int big = VP.reg == 4 || VP.reg == 5; if (!mc_thorough && (VP.el != 0 && VP.el != 3 && !VP.fl || VP.fl && (VP.el < 2 || VP.el > 3))) big = 0; VP.v = vsel(av && big); VP.v2 = vsel(av && big && (mc_thorough || !mem)); if (!mem) VP.o.a = vsel(big); if (!mc_mine()) return; vbegin(); if (mem) vform(k, msize(), VP.el2, &VP.o); vrun();
}
#ifndef P32_LIB
static struct mc_space sp32[] = {{"mov", b_mov, "loads and stores: 4 register sizes x every element type x every alignment x 34 operand forms or 15 registers x 15 registers x 4 CPU/option variants"}, {"replicate", b_repl, "4 register sizes x every element type x 13 or 15 registers, 34 memory forms, 17 values x 15 registers x 4 variants"}, {"lane", b_lane, "2 register sizes x every element type x every lane x load, load and clear, store, store sign-extended x 32-bit or not x source/destination operands x 15 registers x 4 variants"}, {"lane-replicate", b_lrep, "4 register sizes x every element type x every lane x 15 x 15 registers x 4 variants"}, {"extend", b_extend, "4 register sizes x every pair of element types, signed or not, x 15 registers or 34 memory forms x 15 registers x 4 variants"}, {"sign", b_sign, "4 register sizes x every element type x 32-bit or not x 13 registers or 34 memory forms x 15 registers x 4 variants"}, {"op2", b_op2, "and, or, xor, shuffle x 4 register sizes x every element type x 15 x 15 x (15 registers, or 34 memory forms x every alignment) x 4 variants"}};
static const char *as32[] = {"x86-64; the CPU has AVX2 (without it 256-bit operations are refused and upper halves not compared)", "machine registers are identified through sljit_get_register_index", "after a 128-bit operation the upper half of the destination is unspecified", "an operation may be refused with SLJIT_ERR_UNSUPPORTED if it does nothing else and SLJIT_SIMD_TEST says so", 0};
int main(int c, char **v) { static struct mc_check k = {"P32", "one execution = one vector operation in a generated function, run twice on a machine state in which all vectors, registers, flags, memory and locals hold known values, and compared with the documented effect; non-trivial = distinct operations", sp32, sizeof sp32 / sizeof *sp32, as32}; return mc_main(c, v, &k); }
#endif
