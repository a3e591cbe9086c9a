/* Low-level JIT instructions: a description (Ins), its emission through the public sljit interface, and a reference
 * model of its documented effect on registers, memory, local area and flags.  Machine state is loaded before and
 * stored after the instructions under test by hand-assembled moves (sljit_emit_op_custom), so that everything
 * the instruction may have changed is seen. */
#pragma once
#include "mc.h"
#include <sljitLir.h>
#include <sys/mman.h>
#include "execguard.h"
#include <math.h>
#include <fenv.h>
#define NR 13
#define NF 15
#define AR 1536
#define STK 96
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef int32_t s32;
typedef struct { s32 a; sljit_sw w; } Opd;
typedef struct { u64 r[NR + 1]; u64 f[NF + 1][2]; uint8_t lo[AR], hi[AR], stk[STK]; u32 mark[8]; u64 ret;
  /* model only */ uint32_t rund, fund; uint8_t fnan[NF + 1]; int zdef, z, vtype, v; int undef; } St;
/* real side: context in low memory, addressable by 32-bit absolute addresses */
typedef struct { u64 r[NR + 1]; u64 f[NF + 1][2]; u64 sp; u32 mark[8]; uint8_t stk[STK]; u64 exit, tab[16]; s32 budget; } Ctx;
static Ctx *cx; static uint8_t *LO, *HI; /* the two arenas */
static St M0; /* junk state */
static void lir_init(void) {
  if (cx) return;
  uint8_t *p = mmap((void *)0x30000000, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)0x30000000) mc_die("no low memory");
  cx = (Ctx *)p; LO = p + 0x4000;
  p = mmap((void *)0x512345600000, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) mc_die("no high memory");
  HI = p + 0x4000;
  u64 x = 0x9e3779b97f4a7c15ull;
#define RND (x ^= x << 13, x ^= x >> 7, x ^= x << 17)
  for (int i = 0; i <= NR; i++) M0.r[i] = RND; for (int i = 0; i <= NF; i++) { double d = 1.0 + i * 0.3711; memcpy(&M0.f[i][0], &d, 8); M0.f[i][1] = RND; }
  for (int i = 0; i < AR; i++) { M0.lo[i] = RND >> 20; M0.hi[i] = RND >> 20; } for (int i = 0; i < STK; i++) M0.stk[i] = RND >> 20;
  M0.vtype = -1;
}
/* ---- emission ---- */
/* CPU features the code generator may use: 0 = all of this CPU's, 1 = no bit counting instructions, 2 = no conditional moves either */
extern sljit_u32 cpu_feature_list __attribute__((weak)); static sljit_u32 cpu_all;
static int cpu_variants(void) { return &cpu_feature_list ? 3 : 1; }
static void cpu_pick(int k) { if (!&cpu_feature_list) return; if (!cpu_all) { sljit_has_cpu_feature(SLJIT_HAS_FPU); cpu_all = cpu_feature_list; } cpu_feature_list = cpu_all & ~(k == 1 ? 0x18u : k == 2 ? 0x38u : 0u); }
static struct sljit_compiler *lc;
static void raw(const uint8_t *b, int n) { uint8_t t[16] __attribute__((aligned(16))); memcpy(t, b, n); if (sljit_emit_op_custom(lc, t, n)) mc_fail("custom instruction refused: error %d", sljit_get_compiler_error(lc)); }
static void raw_gp(int reg, void *at, int store) { int m = sljit_get_register_index(SLJIT_GP_REGISTER, reg); if (m < 0) mc_fail("register %d has no machine register", reg); u32 d = (u32)(u64)at; uint8_t b[8] = {0x48 | (m >> 3 << 2), store ? 0x89 : 0x8b, (m & 7) << 3 | 4, 0x25, d, d >> 8, d >> 16, d >> 24}; raw(b, 8); }
static void raw_fp(int reg, void *at, int store) { int m = sljit_get_register_index(SLJIT_FLOAT_REGISTER, reg); if (m < 0) mc_fail("float register %d has no machine register", reg); u32 d = (u32)(u64)at; uint8_t b[9] = {0x40 | (m >> 3 << 2), 0x0f, store ? 0x11 : 0x10, (m & 7) << 3 | 4, 0x25, d, d >> 8, d >> 16, d >> 24}; raw(b, 9); }
static void raw_mark(int k) { u32 d = (u32)(u64)&cx->mark[k]; uint8_t b[11] = {0xc7, 0x04, 0x25, d, d >> 8, d >> 16, d >> 24, 1, 0, 0, 0}; raw(b, 11); }
static void raw_stack(int out) { u32 d = (u32)(u64)cx->stk; if (!out) { uint8_t b[5] = {0xbe, d, d >> 8, d >> 16, d >> 24}; raw(b, 5); raw((uint8_t[]){0x48, 0x89, 0xe7}, 3); } else { raw((uint8_t[]){0x48, 0x89, 0xe6}, 3); uint8_t b[5] = {0xbf, d, d >> 8, d >> 16, d >> 24}; raw(b, 5); } uint8_t c[5] = {0xb9, STK}; raw(c, 5); raw((uint8_t[]){0xf3, 0xa4}, 2); }
static void raw_sp(void) { u32 d = (u32)(u64)&cx->sp; uint8_t b[8] = {0x48, 0x89, 0x24, 0x25, d, d >> 8, d >> 16, d >> 24}; raw(b, 8); }
#define SCR 7
static void lir_begin(void) { lir_init(); lc = sljit_create_compiler(NULL); if (!lc) mc_die("no compiler"); }
static void lir_enter(int fregs) {
  if (sljit_emit_enter(lc, 0, SLJIT_ARGS0V(), SCR | SLJIT_ENTER_FLOAT(fregs ? NF : 0), NR - SCR, STK)) mc_fail("emit_enter failed");
  raw_sp(); raw_stack(0); for (int i = 1; i <= NR; i++) raw_gp(i, &cx->r[i], 0); if (fregs == 1) for (int i = 1; i <= NF; i++) raw_fp(i, cx->f[i], 0);
}
static void lir_leave(int fregs) {
  for (int i = 1; i <= NR; i++) raw_gp(i, &cx->r[i], 1); if (fregs == 1) for (int i = 1; i <= NF; i++) raw_fp(i, cx->f[i], 1); raw_stack(1);
  if (sljit_emit_return_void(lc)) mc_fail("emit_return_void failed");
}
static void *lir_finish(void) { void *c = sljit_generate_code(lc, 0, NULL); if (!c) mc_fail("generate_code failed: error %d", sljit_get_compiler_error(lc)); return c; }
/* ---- instructions ---- */
enum { K_OP0, K_OP1, K_OP2, K_OP2U, K_OP2R, K_SHINTO, K_FOP1, K_FOP2, K_FOP2R, K_FSET32, K_FSET64, K_FCOPY, K_OPFLAGS, K_SELECT, K_FSELECT, K_MEM, K_FMEM, K_LBASE, K_JCC, K_CMP, K_FCMP, K_OP2CMPZ, K_CONST, K_CAS, K_OPADDR };
typedef struct { int k; s32 op; Opd d, a, b; s32 r1, r2; /* extra registers */ int mark; u64 imm; } Ins;
#define OK(e) do { sljit_s32 e_ = (e); if (e_) mc_fail("the code generator refused the instruction: error %d", e_); } while (0)
static struct sljit_jump *lir_jump; static struct sljit_const *lir_const_;
static void end_jump(struct sljit_jump *j, int mark) { if (!j) mc_fail("no jump was emitted: error %d", sljit_get_compiler_error(lc)); raw_mark(mark); struct sljit_label *l = sljit_emit_label(lc); if (!l) mc_fail("no label"); sljit_set_label(j, l); }
static void emit_ins(const Ins *i) {
  switch (i->k) {
  case K_OP0: OK(sljit_emit_op0(lc, i->op)); break;
  case K_OP1: OK(sljit_emit_op1(lc, i->op, i->d.a, i->d.w, i->a.a, i->a.w)); break;
  case K_OP2: OK(sljit_emit_op2(lc, i->op, i->d.a, i->d.w, i->a.a, i->a.w, i->b.a, i->b.w)); break;
  case K_OP2U: OK(sljit_emit_op2u(lc, i->op, i->a.a, i->a.w, i->b.a, i->b.w)); break;
  case K_OP2R: OK(sljit_emit_op2r(lc, i->op, i->d.a, i->a.a, i->a.w, i->b.a, i->b.w)); break;
  case K_SHINTO: OK(sljit_emit_shift_into(lc, i->op, i->d.a, i->r1, i->r2, i->a.a, i->a.w)); break;
  case K_FOP1: OK(sljit_emit_fop1(lc, i->op, i->d.a, i->d.w, i->a.a, i->a.w)); break;
  case K_FOP2: OK(sljit_emit_fop2(lc, i->op, i->d.a, i->d.w, i->a.a, i->a.w, i->b.a, i->b.w)); break;
  case K_FOP2R: OK(sljit_emit_fop2r(lc, i->op, i->d.a, i->a.a, i->a.w, i->b.a, i->b.w)); break;
  case K_FSET32: { float f; u32 u = i->imm; memcpy(&f, &u, 4); OK(sljit_emit_fset32(lc, i->d.a, f)); break; }
  case K_FSET64: { double f; memcpy(&f, &i->imm, 8); OK(sljit_emit_fset64(lc, i->d.a, f)); break; }
  case K_FCOPY: OK(sljit_emit_fcopy(lc, i->op, i->r1, i->r2)); break;
  case K_OPFLAGS: OK(sljit_emit_op_flags(lc, i->op, i->d.a, i->d.w, i->r1)); break;
  case K_SELECT: OK(sljit_emit_select(lc, i->op, i->d.a, i->a.a, i->a.w, i->r1)); break;
  case K_FSELECT: OK(sljit_emit_fselect(lc, i->op, i->d.a, i->a.a, i->a.w, i->r1)); break;
  case K_MEM: OK(sljit_emit_mem(lc, i->op, i->r1, i->a.a, i->a.w)); break;
  case K_FMEM: OK(sljit_emit_fmem(lc, i->op, i->r1, i->a.a, i->a.w)); break;
  case K_LBASE: OK(sljit_get_local_base(lc, i->d.a, i->d.w, i->imm)); break;
  case K_JCC: end_jump(sljit_emit_jump(lc, i->op), i->mark); break;
  case K_CMP: end_jump(sljit_emit_cmp(lc, i->op, i->a.a, i->a.w, i->b.a, i->b.w), i->mark); break;
  case K_FCMP: end_jump(sljit_emit_fcmp(lc, i->op, i->a.a, i->a.w, i->b.a, i->b.w), i->mark); break;
  case K_OP2CMPZ: end_jump(sljit_emit_op2cmpz(lc, i->op, i->d.a, i->d.w, i->a.a, i->a.w, i->b.a, i->b.w), i->mark); break;
  case K_CONST: lir_const_ = sljit_emit_const(lc, i->op, i->d.a, i->d.w, i->imm); if (!lir_const_) mc_fail("no constant was emitted"); break;
  case K_OPADDR: lir_jump = sljit_emit_op_addr(lc, i->op, i->d.a, i->d.w); if (!lir_jump) mc_fail("no address was emitted: error %d", sljit_get_compiler_error(lc)); if (i->r1) sljit_set_target(lir_jump, i->imm); break;
  case K_CAS: OK(sljit_emit_atomic_load(lc, i->op, i->d.a, i->r1)); OK(sljit_emit_atomic_store(lc, i->op | i->imm, i->a.a, i->r1, i->d.a)); break;
  }
}
/* ---- model ---- */
static int rd_base(const St *s, Opd o, u64 *ea) {
  if (o.a == SLJIT_MEM0()) { *ea = o.w; return 1; }
  int b = o.a & 0x7f, x = (o.a >> 8) & 0x7f; u64 bv = b == SLJIT_SP ? cx->sp : s->r[b];
  if (b != SLJIT_SP && (s->rund >> b & 1)) return 0;
  if (x) { if (s->rund >> x & 1) return 0; *ea = bv + (s->r[x] << o.w); } else *ea = bv + o.w;
  return 1;
}
static uint8_t *mp(St *s, u64 ea, int n) {
  if (ea - (u64)LO <= AR - n) return s->lo + (ea - (u64)LO); if (ea - (u64)HI <= AR - n) return s->hi + (ea - (u64)HI); if (ea - cx->sp <= STK - n) return s->stk + (ea - cx->sp);
  return NULL;
}
/* n = access size in bytes; is32: the operand must be a 32-bit value */
static u64 get(St *s, Opd o, int n, int is32) {
  if (o.a == SLJIT_IMM) return n == 8 ? (u64)o.w : (u64)o.w & ((1ull << 8 * n) - 1);
  if (SLJIT_IS_MEM(o.a)) { u64 ea; uint8_t *p; if (!rd_base(s, o, &ea) || !(p = mp(s, ea, n))) { s->undef = 1; return 0; } u64 v = 0; memcpy(&v, p, n); return v; }
  u64 v = s->r[o.a]; if (n == 8 && (s->rund >> o.a & 1)) s->undef = 1; if (is32 && (v >> 32) && !(s->rund >> o.a & 1)) s->undef = 1;
  return n == 8 ? v : v & ((1ull << 8 * n) - 1);
}
static void put(St *s, Opd o, int n, u64 v, int is32) {
  if (SLJIT_IS_MEM(o.a)) { u64 ea; uint8_t *p; if (!rd_base(s, o, &ea) || !(p = mp(s, ea, n))) { s->undef = 1; return; } memcpy(p, &v, n); return; }
  if (is32) { s->r[o.a] = (u32)v; s->rund |= 1u << o.a; } else { s->r[o.a] = v; s->rund &= ~(1u << o.a); }
}
static u64 fget(St *s, Opd o, int n) {
  if (SLJIT_IS_MEM(o.a)) { u64 ea; uint8_t *p; if (!rd_base(s, o, &ea) || !(p = mp(s, ea, n))) { s->undef = 1; return 0; } u64 v = 0; memcpy(&v, p, n); return v; }
  if (n == 8 && (s->fund >> o.a & 1)) s->undef = 1; if (s->fnan[o.a]) s->undef = 1; return n == 8 ? s->f[o.a][0] : (u32)s->f[o.a][0];
}
/* nan: any NaN may be the result */
static uint8_t *nanp; static int nann; /* memory holding an unspecified NaN */
static void fput(St *s, Opd o, int n, u64 v, int arith) {
  int nan = arith && (n == 8 ? (v & ~(1ull << 63)) > 0x7ff0000000000000ull : (v & 0x7fffffff) > 0x7f800000);
  if (SLJIT_IS_MEM(o.a)) { u64 ea; uint8_t *p; if (!rd_base(s, o, &ea) || !(p = mp(s, ea, n))) { s->undef = 1; return; } memcpy(p, &v, n); if (nan) { nanp = p; nann = n; } return; }
  s->f[o.a][0] = v; s->fnan[o.a] = nan ? n : 0; if (n == 4) s->fund |= 1u << o.a; else s->fund &= ~(1u << o.a); s->f[o.a][1] = 0; /* upper half of a written register: see cmp_state */
}
static void noflags(St *s) { s->zdef = 0; s->vtype = -1; }
static int icond(int t, int w, u64 a, u64 b) {
  s64 x = w == 8 ? (s64)a : (s32)a, y = w == 8 ? (s64)b : (s32)b; if (w == 4) a = (u32)a, b = (u32)b;
  switch (t) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a >= b; case 4: return a > b; case 5: return a <= b; case 6: return x < y; case 7: return x >= y; case 8: return x > y; case 9: return x <= y; }
  mc_die("icond"); return 0;
}
static int fcond(int t, double a, double b, int *undef) {
  int un = a != a || b != b;
  switch (t) {
  case 16: if (un) *undef = 1; return a == b; case 17: if (un) *undef = 1; return a != b; case 18: if (un) *undef = 1; return a < b; case 19: if (un) *undef = 1; return a >= b; case 20: if (un) *undef = 1; return a > b; case 21: if (un) *undef = 1; return a <= b;
  case 22: return un; case 23: return !un; case 24: return a == b; case 25: return un || a != b; case 26: return a < b; case 27: return un || a >= b; case 28: return a > b; case 29: return un || a <= b;
  case 30: return un || a == b; case 31: return !un && a != b; case 32: return un || a < b; case 33: return a >= b; case 34: return un || a > b; case 35: return a <= b; }
  mc_die("fcond"); return 0;
}
/* value of condition type t from the flags; undefined sets s->undef */
static int cond(St *s, int t) {
  if (t <= 1) { if (!s->zdef) { s->undef = 1; return 0; } return s->z ^ t; }
  if (s->vtype != (t & ~1)) { s->undef = 1; return 0; }
  if (s->v == 2) { s->undef = 1; return 0; } return s->v ^ (t & 1);
}
static u64 sx(u64 v, int n) { return n == 8 ? v : n == 4 ? (u64)(s64)(s32)v : n == 2 ? (u64)(s64)(int16_t)v : (u64)(s64)(int8_t)v; }
static double f64v(u64 b) { double d; memcpy(&d, &b, 8); return d; } static float f32v(u64 b) { float f; u32 u = b; memcpy(&f, &u, 4); return f; }
static u64 b64(double d) { u64 u; memcpy(&u, &d, 8); return u; } static u64 b32(float f) { u32 u; memcpy(&u, &f, 4); return u; }
/* two-operand arithmetic; sets the flags requested in op */
static u64 arith(St *s, int op, u64 a, u64 b, int bimm) {
  int w = op & SLJIT_32 ? 4 : 8, bits = w * 8; u64 m = w == 8 ? ~0ull : 0xffffffffull; a &= m; b &= m; u64 r = 0; int base = op & 0xff; int vt = (op >> 10) & 0x3f, v = 0; int cin = 0;
  if (base == SLJIT_ADDC || base == SLJIT_SUBC) { if (s->vtype != SLJIT_CARRY) s->undef = 1; cin = s->v; }
  u64 sh = b;
  if (base == SLJIT_SHL || base == SLJIT_LSHR || base == SLJIT_ASHR) { if (bimm) sh = b & (bits - 1); else if (b >= (u64)bits) { s->undef = 1; sh = 0; } }
  if (base == SLJIT_MSHL || base == SLJIT_MLSHR || base == SLJIT_MASHR || base == SLJIT_ROTL || base == SLJIT_ROTR) sh = b & (bits - 1);
  switch (base) {
  case SLJIT_ADD: case SLJIT_ADDC: r = (a + b + cin) & m;
    if (vt == SLJIT_CARRY) v = w == 8 ? (u64)(((unsigned __int128)a + b + cin) >> 64) : (a + b + cin) >> 32;
    if (vt == SLJIT_OVERFLOW) v = (~(a ^ b) & (a ^ r)) >> (bits - 1) & 1; break;
  case SLJIT_SUB: case SLJIT_SUBC: r = (a - b - cin) & m;
    if (vt == SLJIT_CARRY) v = (unsigned __int128)a < (unsigned __int128)b + cin;
    else if (vt == SLJIT_OVERFLOW) v = ((a ^ b) & (a ^ r)) >> (bits - 1) & 1;
    else if (vt) v = icond(vt, w, a, b); break;
  case SLJIT_MUL: r = a * b & m; if (vt == SLJIT_OVERFLOW) { if (w == 8) { __int128 p = (__int128)(s64)a * (s64)b; v = p != (s64)p; } else { s64 p = (s64)(s32)a * (s32)b; v = p != (s32)p; } } break;
  case SLJIT_AND: r = a & b; break; case SLJIT_OR: r = a | b; break; case SLJIT_XOR: r = a ^ b; break;
  case SLJIT_SHL: case SLJIT_MSHL: r = a << sh & m; break; case SLJIT_LSHR: case SLJIT_MLSHR: r = a >> sh; break;
  case SLJIT_ASHR: case SLJIT_MASHR: r = (w == 8 ? (u64)((s64)a >> sh) : (u64)((s32)a >> sh)) & m; break;
  case SLJIT_ROTL: r = sh ? (a << sh | a >> (bits - sh)) & m : a; break; case SLJIT_ROTR: r = sh ? (a >> sh | a << (bits - sh)) & m : a; break;
  default: mc_die("arith");
  }
  s->zdef = !!(op & SLJIT_SET_Z); s->z = r == 0; s->vtype = vt ? vt & ~1 : -1; s->v = v; if (vt & 1) mc_die("odd flag");
  return r;
}
static int f2i_ok(double d, int bits) { return d == d && (bits == 32 ? d > -2147483649.0 && d < 2147483648.0 : d >= -9223372036854775808.0 && d < 9223372036854775808.0); }
static void model_ins(St *s, const Ins *i) {
  int is32 = !!(i->op & SLJIT_32), w = is32 ? 4 : 8, base = i->op & 0xff;
  switch (i->k) {
  case K_OP0: {
    u64 a = s->r[SLJIT_R0], b = s->r[SLJIT_R1]; if ((s->rund >> SLJIT_R0 & 1) || (s->rund >> SLJIT_R1 & 1)) if (!is32 && base != SLJIT_NOP) s->undef = 1;
    Opd R0 = {SLJIT_R0, 0}, R1 = {SLJIT_R1, 0};
    switch (base) {
    case SLJIT_NOP: case SLJIT_MEMORY_BARRIER: case SLJIT_ENDBR: return;
    case SLJIT_LMUL_UW: { unsigned __int128 p = (unsigned __int128)a * b; put(s, R0, 8, p, 0); put(s, R1, 8, p >> 64, 0); break; }
    case SLJIT_LMUL_SW: { __int128 p = (__int128)(s64)a * (s64)b; put(s, R0, 8, p, 0); put(s, R1, 8, p >> 64, 0); break; }
    default: {
      u64 q, r; if (is32) { if ((a >> 32 && !(s->rund >> SLJIT_R0 & 1)) || (b >> 32 && !(s->rund >> SLJIT_R1 & 1))) s->undef = 1; a = (u32)a; b = (u32)b; } if (b == 0) { s->undef = 1; return; }
      if (base == SLJIT_DIVMOD_UW || base == SLJIT_DIV_UW) { q = a / b; r = a % b; } else if (is32) { if ((s32)a == INT32_MIN && (s32)b == -1) { s->undef = 1; return; } q = (s32)a / (s32)b; r = (s32)a % (s32)b; } else { if ((s64)a == INT64_MIN && (s64)b == -1) { s->undef = 1; return; } q = (s64)a / (s64)b; r = (s64)a % (s64)b; }
      put(s, R0, w, q, is32); if (base == SLJIT_DIVMOD_UW || base == SLJIT_DIVMOD_SW) put(s, R1, w, r, is32); }
    }
    noflags(s); break; }
  case K_OP1: {
    u64 v; int n;
    switch (base) {
    case SLJIT_MOV: case SLJIT_MOV_P: put(s, i->d, 8, get(s, i->a, 8, 0), 0); return;
    case SLJIT_MOV_U8: put(s, i->d, 1, get(s, i->a, 1, is32), is32); return;
    case SLJIT_MOV_S8: put(s, i->d, 1, sx(get(s, i->a, 1, is32), 1), is32); return;
    case SLJIT_MOV_U16: put(s, i->d, 2, get(s, i->a, 2, is32), is32); return;
    case SLJIT_MOV_S16: put(s, i->d, 2, sx(get(s, i->a, 2, is32), 2), is32); return;
    case SLJIT_MOV_U32: put(s, i->d, 4, get(s, i->a, 4, 0), 0); return;
    case SLJIT_MOV_S32: put(s, i->d, 4, sx(get(s, i->a, 4, 0), 4), 0); return;
    case SLJIT_MOV32 & 0xff: put(s, i->d, 4, get(s, i->a, 4, 0), 1); return;
    case SLJIT_CLZ: v = get(s, i->a, w, is32); put(s, i->d, w, v ? __builtin_clzll(v) - (64 - 8 * w) : 8 * w, is32); break;
    case SLJIT_CTZ: v = get(s, i->a, w, is32); put(s, i->d, w, v ? __builtin_ctzll(v) : 8 * w, is32); break;
    case SLJIT_REV: v = get(s, i->a, w, is32); put(s, i->d, w, w == 8 ? __builtin_bswap64(v) : __builtin_bswap32(v), is32); break;
    case SLJIT_REV_U16: v = get(s, i->a, 2, is32); put(s, i->d, 2, __builtin_bswap16(v), is32); break;
    case SLJIT_REV_S16: v = get(s, i->a, 2, is32); put(s, i->d, 2, sx(__builtin_bswap16(v), 2), is32); break;
    case SLJIT_REV_U32: v = get(s, i->a, 4, 0); put(s, i->d, 4, __builtin_bswap32(v), 0); break;
    case SLJIT_REV_S32: v = get(s, i->a, 4, 0); put(s, i->d, 4, sx(__builtin_bswap32(v), 4), 0); break;
    default: mc_die("op1");
    }
    (void)n; noflags(s); break; }
  case K_OP2: case K_OP2U: { u64 a = get(s, i->a, w, is32), b = get(s, i->b, w, is32); u64 r = arith(s, i->op, a, b, i->b.a == SLJIT_IMM); if (i->k == K_OP2) put(s, i->d, w, r, is32); break; }
  case K_OP2CMPZ: { u64 a = get(s, i->a, w, is32), b = get(s, i->b, w, is32); u64 r = arith(s, i->op & ~(SLJIT_SET_Z | SLJIT_REWRITABLE_JUMP), a, b, i->b.a == SLJIT_IMM); put(s, i->d, w, r, is32); int taken = (r == 0) == !!(i->op & SLJIT_JUMP_IF_ZERO); if (!taken) s->mark[i->mark] = 1; s->zdef = 0; break; }
  case K_OP2R: { u64 a = get(s, i->a, w, is32), b = get(s, i->b, w, is32), d = get(s, i->d, w, is32); put(s, i->d, w, d + a * b, is32); noflags(s); break; }
  case K_SHINTO: {
    u64 a = get(s, (Opd){i->r1, 0}, w, is32), b = get(s, (Opd){i->r2, 0}, w, is32), c = get(s, i->a, w, is32); int bits = w * 8; u64 m = w == 8 ? ~0ull : 0xffffffffull;
    if (base == SLJIT_MSHL || base == SLJIT_MLSHR || i->a.a == SLJIT_IMM) c &= bits - 1; else if (c >= (u64)bits) { s->undef = 1; return; } if ((i->op & SLJIT_SHIFT_INTO_NON_ZERO) && c == 0) { s->undef = 1; return; }
    u64 r = base == SLJIT_SHL || base == SLJIT_MSHL ? (a << c & m) | ((b >> 1) >> (c ^ (bits - 1))) : (a >> c) | (((b << 1) & m) << (c ^ (bits - 1)) & m);
    put(s, i->d, w, r, is32); noflags(s); break; }
  case K_FOP1: {
    u64 v; double d; int fw = is32 ? 4 : 8;
    switch (base) {
    case SLJIT_MOV_F64: fput(s, i->d, fw, fget(s, i->a, fw), 0); return;
    case SLJIT_CONV_F64_FROM_F32: if (!SLJIT_IS_MEM(i->a.a)) { s->f[i->a.a][1] = 0; if (!is32 && i->a.a != i->d.a) s->fund |= 1u << i->a.a; } if (is32) fput(s, i->d, 4, b32((float)f64v(fget(s, i->a, 8))), 1); else fput(s, i->d, 8, b64(f32v(fget(s, i->a, 4))), 1); break;
    case SLJIT_CONV_SW_FROM_F64: case SLJIT_CONV_S32_FROM_F64: { v = fget(s, i->a, fw); d = is32 ? f32v(v) : f64v(v); int bits = base == SLJIT_CONV_SW_FROM_F64 ? 64 : 32; if (!f2i_ok(d, bits)) { s->undef = 1; return; } put(s, i->d, bits / 8, bits == 64 ? (u64)(s64)d : (u64)(u32)(s32)d, bits == 32); break; }
    case SLJIT_CONV_F64_FROM_SW: v = get(s, i->a, 8, 0); fput(s, i->d, fw, is32 ? b32((float)(s64)v) : b64((double)(s64)v), 0); break;
    case SLJIT_CONV_F64_FROM_UW: v = get(s, i->a, 8, 0); fput(s, i->d, fw, is32 ? b32((float)v) : b64((double)v), 0); break;
    case SLJIT_CONV_F64_FROM_S32: v = get(s, i->a, 4, 1); fput(s, i->d, fw, is32 ? b32((float)(s32)v) : b64((double)(s32)v), 0); break;
    case SLJIT_CONV_F64_FROM_U32: v = get(s, i->a, 4, 1); fput(s, i->d, fw, is32 ? b32((float)(u32)v) : b64((double)(u32)v), 0); break;
    case SLJIT_CMP_F64: { u64 x = fget(s, i->d, fw), y = fget(s, i->a, fw); double p = is32 ? f32v(x) : f64v(x), q = is32 ? f32v(y) : f64v(y); int vt = (i->op >> 10) & 0x3f; int un = 0; s->zdef = 0; s->vtype = vt; s->v = fcond(vt, p, q, &un); if (un) s->v = 2; return; }
    case SLJIT_NEG_F64: v = fget(s, i->a, fw); fput(s, i->d, fw, v ^ (is32 ? 0x80000000ull : 1ull << 63), 1); break;
    case SLJIT_ABS_F64: v = fget(s, i->a, fw); fput(s, i->d, fw, v & (is32 ? 0x7fffffffull : ~(1ull << 63)), 1); break;
    default: mc_die("fop1");
    }
    noflags(s); break; }
  case K_FOP2: {
    int fw = is32 ? 4 : 8; u64 x = fget(s, i->a, fw), y = fget(s, i->b, fw), r; volatile float fa = f32v(x), fb = f32v(y); volatile double da = f64v(x), db = f64v(y);
    switch (base) { case SLJIT_ADD_F64: r = is32 ? b32(fa + fb) : b64(da + db); break; case SLJIT_SUB_F64: r = is32 ? b32(fa - fb) : b64(da - db); break; case SLJIT_MUL_F64: r = is32 ? b32(fa * fb) : b64(da * db); break; case SLJIT_DIV_F64: r = is32 ? b32(fa / fb) : b64(da / db); break; default: mc_die("fop2"); r = 0; }
    fput(s, i->d, fw, r, 1); noflags(s); break; }
  case K_FOP2R: { int fw = is32 ? 4 : 8; u64 x = fget(s, i->a, fw), y = fget(s, i->b, fw), m = is32 ? 0x80000000ull : 1ull << 63; fput(s, i->d, fw, (x & ~m) | (y & m), 1); noflags(s); break; }
  case K_FSET32: fput(s, i->d, 4, (u32)i->imm, 0); noflags(s); break;
  case K_FSET64: fput(s, i->d, 8, i->imm, 0); noflags(s); break;
  case K_FCOPY: if (base == SLJIT_COPY_TO_F64) { u64 v = get(s, (Opd){i->r2, 0}, w, is32); fput(s, (Opd){i->r1, 0}, w, v, 0); } else { u64 v = fget(s, (Opd){i->r1, 0}, w); put(s, (Opd){i->r2, 0}, w, v, is32); } noflags(s); break;
  case K_OPFLAGS: {
    int c = cond(s, i->r1); if (base == SLJIT_MOV || base == (SLJIT_MOV32 & 0xff)) { put(s, i->d, base == SLJIT_MOV ? 8 : 4, c, base != SLJIT_MOV); return; }
    u64 d = get(s, i->d, w, is32), r = base == SLJIT_AND ? d & c : base == SLJIT_OR ? d | c : d ^ c; put(s, i->d, w, r, is32); s->vtype = -1; s->zdef = !!(i->op & SLJIT_SET_Z); s->z = (w == 8 ? r : (u32)r) == 0; break; }
  case K_SELECT: { int carry = s->vtype == SLJIT_CARRY && (i->op & 0xff) > 1; int c = cond(s, i->op & 0xff); u64 a = get(s, i->a, w, is32), b = get(s, (Opd){i->r1, 0}, w, is32); put(s, i->d, w, c ? a : b, is32); if (carry) noflags(s); break; }
  case K_FSELECT: { int carry = s->vtype == SLJIT_CARRY && (i->op & 0xff) > 1; int c = cond(s, i->op & 0xff); u64 a = fget(s, i->a, w), b = fget(s, (Opd){i->r1, 0}, w); fput(s, i->d, w, c ? a : b, 0); if (carry) noflags(s); break; }
  case K_MEM: {
    int st = !!(i->op & SLJIT_MEM_STORE); if (SLJIT_IS_REG_PAIR(i->r1)) { int r1 = i->r1 & 0x7f, r2 = i->r1 >> 8; u64 ea; uint8_t *p; if (!rd_base(s, i->a, &ea) || !(p = mp(s, ea, 16))) { s->undef = 1; return; } if (st) { u64 x[2] = {get(s, (Opd){r1, 0}, 8, 0), get(s, (Opd){r2, 0}, 8, 0)}; memcpy(p, x, 16); } else { u64 x[2]; memcpy(x, p, 16); put(s, (Opd){r1, 0}, 8, x[0], 0); put(s, (Opd){r2, 0}, 8, x[1], 0); } return; }
    Ins m = {K_OP1, i->op & (0xff | SLJIT_32)}; if (st) { m.d = i->a; m.a = (Opd){i->r1, 0}; } else { m.a = i->a; m.d = (Opd){i->r1, 0}; } model_ins(s, &m); return; }
  case K_FMEM: { if (i->op & SLJIT_MEM_STORE) fput(s, i->a, w, fget(s, (Opd){i->r1, 0}, w), 0); else fput(s, (Opd){i->r1, 0}, w, fget(s, i->a, w), 0); return; }
  case K_LBASE: put(s, i->d, 8, cx->sp + i->imm, 0); noflags(s); break;
  case K_JCC: { int c = cond(s, i->op & 0xff); if (!c) s->mark[i->mark] = 1; noflags(s); break; }
  case K_CMP: { u64 a = get(s, i->a, w, is32), b = get(s, i->b, w, is32); if (!icond(i->op & 0xff, w, a, b)) s->mark[i->mark] = 1; noflags(s); break; }
  case K_FCMP: { u64 x = fget(s, i->a, w), y = fget(s, i->b, w); double p = is32 ? f32v(x) : f64v(x), q = is32 ? f32v(y) : f64v(y); int un = 0; int c = fcond(i->op & 0xff, p, q, &un); if (un) s->undef = 1; if (!c) s->mark[i->mark] = 1; noflags(s); break; }
  case K_CONST: { int b = i->op & 0xff; if (SLJIT_IS_MEM(i->d.a)) put(s, i->d, b == SLJIT_MOV || b == SLJIT_MOV_S32 ? 8 : b == (SLJIT_MOV32 & 0xff) ? 4 : 1, b == SLJIT_MOV_S32 ? sx(i->imm, 4) : i->imm, 0); else if (b == SLJIT_MOV) put(s, i->d, 8, i->imm, 0); else if (b == SLJIT_MOV_S32) put(s, i->d, 8, sx(i->imm, 4), 0); else if (b == SLJIT_MOV_U8 && !is32) put(s, i->d, 8, i->imm, 0); else put(s, i->d, 4, i->imm, 1); return; }
  case K_CAS: { /* d.a: register loaded; r1: address register; a.a: new value */
    int b = i->op & 0xff, n = b == SLJIT_MOV_U8 ? 1 : b == SLJIT_MOV_U16 ? 2 : b == SLJIT_MOV_U32 || b == (SLJIT_MOV32 & 0xff) ? 4 : 8; int i3 = is32 || b == (SLJIT_MOV32 & 0xff); Opd m = {SLJIT_MEM1(i->r1), 0}; u64 nv; u64 old = get(s, m, n, 0);
    put(s, i->d, n, old, i3 && 1); nv = get(s, i->a, n, 0); put(s, m, n, nv, 0); noflags(s); s->vtype = SLJIT_ATOMIC_STORED; s->v = 1; if (!(i->op & SLJIT_SET_ATOMIC_STORED)) s->vtype = -1; break; }
  case K_OPADDR: put(s, i->d, 8, i->imm + (i->op == SLJIT_ADD_ABS_ADDR ? get(s, i->d, 8, 0) : 0), 0); if (i->op == SLJIT_ADD_ABS_ADDR) noflags(s); return;
  default: mc_die("model_ins");
  }
}
/* ---- printing ---- */
static char ob_[8][64]; static int oi_;
static const char *opd(Opd o, int f) {
  char *b = ob_[oi_++ & 7];
#define RN(r) ((r) == SLJIT_SP ? "sp" : NULL)
  if (o.a == SLJIT_IMM) sprintf(b, "#0x%lx", (long)o.w); else if (o.a == SLJIT_MEM0()) sprintf(b, "[0x%lx]", (long)o.w);
  else if (SLJIT_IS_MEM(o.a)) { int r = o.a & 0x7f, x = o.a >> 8; char rb[8]; if (r == SLJIT_SP) strcpy(rb, "sp"); else sprintf(rb, r > SCR ? "s%d" : "r%d", r > SCR ? NR - r : r - 1); if (x) sprintf(b, "[%s + %s%d<<%ld]", rb, x > SCR ? "s" : "r", x > SCR ? NR - x : x - 1, (long)o.w); else sprintf(b, "[%s%+ld]", rb, (long)o.w); }
  else if (f) sprintf(b, "fr%d", o.a - 1); else sprintf(b, o.a > SCR ? "s%d" : "r%d", o.a > SCR ? NR - o.a : o.a - 1);
  return b;
}
static const char *cn[] = {"equal", "not_equal", "less", "greater_equal", "greater", "less_equal", "sig_less", "sig_greater_equal", "sig_greater", "sig_less_equal", "overflow", "not_overflow", "carry", "not_carry", "atomic_stored", "atomic_not_stored", "f_equal", "f_not_equal", "f_less", "f_greater_equal", "f_greater", "f_less_equal", "unordered", "ordered", "ordered_equal", "unordered_or_not_equal", "ordered_less", "unordered_or_greater_equal", "ordered_greater", "unordered_or_less_equal", "unordered_or_equal", "ordered_not_equal", "unordered_or_less", "ordered_greater_equal", "unordered_or_greater", "ordered_less_equal", "jump", "fast_call"};
static int show_ins(char *o, const Ins *i) {
  static const char *n0[] = {"breakpoint", "nop", "lmul_uw", "lmul_sw", "divmod_uw", "divmod_sw", "div_uw", "div_sw", "memory_barrier", "endbr", "skip_frames"}, *n1[] = {"mov", "mov_u8", "mov_s8", "mov_u16", "mov_s16", "mov_u32", "mov_s32", "mov32", "mov_p", "clz", "ctz", "rev", "rev_u16", "rev_s16", "rev_u32", "rev_s32"}, *n2[] = {"add", "addc", "sub", "subc", "mul", "and", "or", "xor", "shl", "mshl", "lshr", "mlshr", "ashr", "mashr", "rotl", "rotr"}, *nf1[] = {"mov_f64", "conv_f64_from_f32", "conv_sw_from_f64", "conv_s32_from_f64", "conv_f64_from_sw", "conv_f64_from_s32", "conv_f64_from_uw", "conv_f64_from_u32", "cmp_f64", "neg_f64", "abs_f64"}, *nf2[] = {"add_f64", "sub_f64", "mul_f64", "div_f64"};
  char fl[64] = ""; int b = i->op & 0xff; const char *w = i->op & SLJIT_32 ? "|32" : ""; if (i->k == K_OP2 || i->k == K_OP2U || i->k == K_OPFLAGS) { if (i->op & SLJIT_SET_Z) strcat(fl, "|set_z"); } if (i->k == K_OP2 || i->k == K_OP2U || i->k == K_FOP1) if ((i->op >> 10) & 0x3f) { strcat(fl, "|set_"); strcat(fl, cn[(i->op >> 10) & 0x3f]); }
  switch (i->k) {
  case K_OP0: return sprintf(o, "op0 %s%s\n", n0[b], w);
  case K_OP1: return sprintf(o, "op1 %s%s %s <- %s\n", n1[b - SLJIT_OP1_BASE], w, opd(i->d, 0), opd(i->a, 0));
  case K_OP2: return sprintf(o, "op2 %s%s%s %s <- %s, %s\n", n2[b - SLJIT_OP2_BASE], w, fl, opd(i->d, 0), opd(i->a, 0), opd(i->b, 0));
  case K_OP2U: return sprintf(o, "op2u %s%s%s %s, %s\n", n2[b - SLJIT_OP2_BASE], w, fl, opd(i->a, 0), opd(i->b, 0));
  case K_OP2CMPZ: return sprintf(o, "op2cmpz %s%s%s %s <- %s, %s\n", n2[b - SLJIT_OP2_BASE], w, i->op & SLJIT_JUMP_IF_ZERO ? " jump_if_zero" : " jump_if_non_zero", opd(i->d, 0), opd(i->a, 0), opd(i->b, 0));
  case K_OP2R: return sprintf(o, "op2r muladd%s %s, %s, %s\n", w, opd(i->d, 0), opd(i->a, 0), opd(i->b, 0));
  case K_SHINTO: return sprintf(o, "shift_into %s%s%s %s <- %s, %s, %s\n", n2[b - SLJIT_OP2_BASE], w, i->op & SLJIT_SHIFT_INTO_NON_ZERO ? "|nonzero" : "", opd(i->d, 0), opd((Opd){i->r1}, 0), opd((Opd){i->r2}, 0), opd(i->a, 0));
  case K_FOP1: { int ic = b >= SLJIT_CONV_F64_FROM_SW && b <= SLJIT_CONV_F64_FROM_U32, oc = b == SLJIT_CONV_SW_FROM_F64 || b == SLJIT_CONV_S32_FROM_F64; return sprintf(o, "fop1 %s%s%s %s <- %s\n", nf1[b - SLJIT_FOP1_BASE], w, fl, opd(i->d, !oc), opd(i->a, !ic)); }
  case K_FOP2: return sprintf(o, "fop2 %s%s %s <- %s, %s\n", nf2[b - SLJIT_FOP2_BASE], w, opd(i->d, 1), opd(i->a, 1), opd(i->b, 1));
  case K_FOP2R: return sprintf(o, "fop2r copysign%s %s <- %s, %s\n", w, opd(i->d, 1), opd(i->a, 1), opd(i->b, 1));
  case K_FSET32: case K_FSET64: return sprintf(o, "%s %s <- bits 0x%lx\n", i->k == K_FSET32 ? "fset32" : "fset64", opd(i->d, 1), i->imm);
  case K_FCOPY: return sprintf(o, "fcopy %s%s %s, %s\n", b == SLJIT_COPY_TO_F64 ? "to" : "from", w, opd((Opd){i->r1}, 1), opd((Opd){i->r2}, 0));
  case K_OPFLAGS: return sprintf(o, "op_flags %s%s%s %s, %s\n", b < 64 ? n1[b - 32] : n2[b - 64], w, fl, opd(i->d, 0), cn[i->r1]);
  case K_SELECT: return sprintf(o, "select%s %s %s <- %s, %s\n", w, cn[b], opd(i->d, 0), opd(i->a, 0), opd((Opd){i->r1}, 0));
  case K_FSELECT: return sprintf(o, "fselect%s %s %s <- %s, %s\n", w, cn[b], opd(i->d, 1), opd(i->a, 1), opd((Opd){i->r1}, 1));
  case K_MEM: return sprintf(o, "mem %s %s%s reg 0x%x, %s (flags 0x%x)\n", i->op & SLJIT_MEM_STORE ? "store" : "load", n1[b - 32], w, i->r1, opd(i->a, 0), i->op & 0x1c00);
  case K_FMEM: return sprintf(o, "fmem %s%s %s, %s (flags 0x%x)\n", i->op & SLJIT_MEM_STORE ? "store" : "load", w, opd((Opd){i->r1}, 1), opd(i->a, 0), i->op & 0x1c00);
  case K_LBASE: return sprintf(o, "get_local_base %s, %ld\n", opd(i->d, 0), (long)i->imm);
  case K_JCC: return sprintf(o, "jump if %s over mark %d\n", cn[b], i->mark);
  case K_CMP: return sprintf(o, "cmp%s %s: %s, %s over mark %d\n", w, cn[b], opd(i->a, 0), opd(i->b, 0), i->mark);
  case K_FCMP: return sprintf(o, "fcmp%s %s: %s, %s over mark %d\n", w, cn[b], opd(i->a, 1), opd(i->b, 1), i->mark);
  case K_CONST: return sprintf(o, "const %s%s %s <- 0x%lx\n", n1[b - 32], w, opd(i->d, 0), i->imm);
  case K_OPADDR: return sprintf(o, "%s %s <- %s 0x%lx\n", i->op == SLJIT_MOV_ADDR ? "mov_addr" : i->op == SLJIT_MOV_ABS_ADDR ? "mov_abs_addr" : "add_abs_addr", opd(i->d, 0), i->r1 ? "target" : "label", i->imm);
  case K_CAS: return sprintf(o, "atomic load/store %s%s loads %s, [%s], stores %s\n", n1[b - 32], w, opd(i->d, 0), opd((Opd){i->r1}, 0), opd(i->a, 0));
  }
  return 0;
}
/* ---- running and comparing ---- */
static St want;
static void to_real(const St *s, int fregs) { memcpy(cx->r, s->r, sizeof s->r); if (fregs) memcpy(cx->f, s->f, sizeof s->f); memcpy(LO, s->lo, AR); memcpy(HI, s->hi, AR); memcpy(cx->stk, s->stk, STK); memset(cx->mark, 0, sizeof cx->mark); }
static const char *rname(int r) { return opd((Opd){r, 0}, 0); }
static void cmp_state(const St *init, int fregs) {
  for (int r = 1; r <= NR; r++) { u64 m = want.rund >> r & 1 ? 0xffffffffull : ~0ull; if ((cx->r[r] ^ want.r[r]) & m) mc_fail("%s is 0x%lx, must be 0x%lx (was 0x%lx)", rname(r), cx->r[r] & m, want.r[r] & m, init->r[r]); }
  if (fregs) for (int r = 1; r <= NF; r++) {
    u64 m = want.fund >> r & 1 ? 0xffffffffull : ~0ull, g = cx->f[r][0]; if (want.fnan[r]) { if (want.fnan[r] == 8 ? (g & ~(1ull << 63)) > 0x7ff0000000000000ull : ((u32)g & 0x7fffffff) > 0x7f800000) continue; mc_fail("fr%d is 0x%lx, must be a NaN", r - 1, g & m); }
    if ((g ^ want.f[r][0]) & m) mc_fail("fr%d is 0x%lx, must be 0x%lx (was 0x%lx)", r - 1, g & m, want.f[r][0] & m, init->f[r][0]);
    if (want.f[r][1] == init->f[r][1] && want.f[r][1] && cx->f[r][1] != init->f[r][1]) mc_fail("the upper half of fr%d changed", r - 1); }
  if (nanp) { u64 g = 0; long o; uint8_t *p = nanp; if (p >= want.lo && p < want.lo + AR) p = LO + (p - want.lo); else if (p >= want.hi && p < want.hi + AR) p = HI + (p - want.hi); else p = cx->stk + (p - want.stk); memcpy(&g, p, nann); if (!(nann == 8 ? (g & ~(1ull << 63)) > 0x7ff0000000000000ull : ((u32)g & 0x7fffffff) > 0x7f800000)) mc_fail("stored 0x%lx, must be a NaN", g); memcpy(nanp, p, nann); (void)o; }
  if (memcmp(LO, want.lo, AR)) for (int i = 0; i < AR; i++) if (LO[i] != want.lo[i]) mc_fail("byte %d of the low memory is 0x%02x, must be 0x%02x (was 0x%02x)", i, LO[i], want.lo[i], init->lo[i]);
  if (memcmp(HI, want.hi, AR)) for (int i = 0; i < AR; i++) if (HI[i] != want.hi[i]) mc_fail("byte %d of the high memory is 0x%02x, must be 0x%02x (was 0x%02x)", i, HI[i], want.hi[i], init->hi[i]);
  if (memcmp(cx->stk, want.stk, STK)) for (int i = 0; i < STK; i++) if (cx->stk[i] != want.stk[i]) mc_fail("byte %d of the local area is 0x%02x, must be 0x%02x (was 0x%02x)", i, cx->stk[i], want.stk[i], init->stk[i]);
  for (int k = 0; k < 8; k++) if (cx->mark[k] != want.mark[k]) mc_fail(want.mark[k] ? "jump %d was taken, must fall through" : "jump %d fell through, must be taken", k);
}
