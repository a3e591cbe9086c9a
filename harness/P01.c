/* P01 integer operators; P02 float operators; P03 conversions (argv[0] decides) */
#include "num.h"
static const uint64_t iv[] = {0, 1, 2, 5, 31, 32, 33, 63, 64, 0x7f, 0x80, 0x8000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x123456789abcdef0ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 6};
static const uint64_t iv32[] = {0, 1, 2, 5, 31, 32, 33, 0x7f, 0x80, 0x8000, 0xffff, 0x12345678, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff9u};
static const uint32_t fv32[] = {0, 0x80000000, 0x3f800000, 0xbf800000, 0x3fc00000, 0x3f000000, 0xbf000000, 0x40200000, 0xc0200000, 0x3effffff, 0x7f7fffff, 0x00000001, 0x807fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 0x7fa00000, 0x4b000001, 0x4f000000, 0x40490fdb};
static const uint64_t fv64[] = {0, 1ull << 63, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x3ff8000000000000ull, 0x3fe0000000000000ull, 0xbfe0000000000000ull, 0x4004000000000000ull, 0xc004000000000000ull, 0x3fdfffffffffffffull, 0x7fefffffffffffffull, 1, 0x800fffffffffffffull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff8000000000001ull, 0x7ff4000000000000ull, 0x4330000000000001ull, 0x41e0000000000000ull, 0x400921fb54442d18ull};
static int g_wide; static uint64_t *wide[4]; static int nwide[4];
static void wadd(int k, uint64_t v) { if (k == 0) v = (uint32_t)v; for (int i = 0; i < nwide[k]; i++) if (wide[k][i] == v) return; wide[k] = realloc(wide[k], 8 * (nwide[k] + 1)); wide[k][nwide[k]++] = v; }
static void wfl(double d) { double c[] = {d, -d, nextafter(d, 1e300), nextafter(d, -1e300), d + 0.5, d - 0.5}; for (int i = 0; i < 6; i++) { wadd(3, f64b(c[i])); wadd(2, f32b((float)c[i])); wadd(2, f32b(nextafterf((float)c[i], 1e30f))); wadd(2, f32b(nextafterf((float)c[i], -1e30f))); } }
static void winit(void) {
  for (int b = 0; b < 64; b++) for (int d = -1; d <= 1; d++) for (int s = 0; s < 2; s++) { uint64_t v = (1ull << b) + d; if (s) v = -v; wadd(1, v); wadd(0, v); }
  for (int b = 20; b < 64; b++) for (int lsb = 0; lsb < b; lsb++) if (b - lsb >= 22 && (b - lsb <= 26 || (b - lsb >= 51 && b - lsb <= 55))) for (int d = 1; d < 4; d++) for (int e = -1; e <= 1; e++) { wadd(1, (1ull << b) + ((uint64_t)d << lsb) + e); wadd(0, (1ull << b) + ((uint64_t)d << lsb) + e); }
  for (int i = 0; i < (int)(sizeof fv32 / 4); i++) wadd(2, fv32[i]);
  for (int i = 0; i < (int)(sizeof fv64 / 8); i++) wadd(3, fv64[i]);
  for (int b = -2; b <= 64; b++) wfl(ldexp(1, b));
  wfl(0); wfl(3); wfl(1e-40); wfl(3.4e38); wfl(1.0000001); wfl(1e-300); wfl(16777217.0); wfl(33554435.0); wfl(9007199254740993.0);
}
static uint64_t pick(int t) {
  if (g_wide) { int k = t == I32 ? 0 : t == I64 ? 1 : t == F32 ? 2 : 3; if (!nwide[k]) winit(); return wide[k][choose(nwide[k])]; }
  switch (t) { case I32: return choose_from(iv32); case I64: return choose_from(iv); case F32: return choose_from(fv32); default: return choose_from(fv64); }
}
static void pick_cfg(void) { int c = choose(mc_thorough ? 4 : 2); set_cfg(c == 0 ? 1 : c == 1 ? 0 : c == 2 ? 1 : 0, c < 2 ? 3 : 2); }
static int o_op, o_a, o_r, o_n;
static int is_cmp(int op) { return op >= 0x45 && op <= 0x66; }
enum { CO_RET, CO_LOCAL, CO_MEM, CO_PENDING, CO_IF, CO_BRIF, CO_SELECT, CO_EQZ, CO_EQZEQZ_IF, NCO };
/* place the operator, then consume its result in one of the ways consumers differ */
static void consume(Fn *f, int co, int rt, int resloc) {
  switch (co) {
  case CO_RET: break;
  case CO_LOCAL: E1(f, LSET, resloc); E1(f, LGET, resloc); break;
  case CO_MEM: E1(f, LSET, resloc); E1(f, KI32, 64); E1(f, LGET, resloc); emit_mem(f, st_op(rt), 0, 0); E1(f, KI32, 64); emit_mem(f, ld_op(rt), 0, 0); break;
  case CO_PENDING: /* another operand is computed while this one is pending, then both are used */
    E1(f, KI32, 72); emit_mem(f, ld_op(I32), 0, 0); E0(f, DROP); break;
  case CO_IF: E1(f, IF, I32); E1(f, KI32, 1); E0(f, ELSE); E1(f, KI32, 0); E0(f, END); break;
  case CO_BRIF: E1(f, LSET, resloc); E1(f, BLOCK, 0x40); E1(f, LGET, resloc); E1(f, BR_IF, 0); E1(f, KI32, 0); E1(f, LSET, resloc); E0(f, END); E1(f, LGET, resloc); E1(f, KI32, 0); E0(f, 0x47); break;
  case CO_SELECT: E1(f, LSET, resloc); E1(f, KI32, 1); E1(f, KI32, 0); E1(f, LGET, resloc); E0(f, SELECT); break;
  case CO_EQZ: E0(f, 0x45); E0(f, 0x45); break;
  case CO_EQZEQZ_IF: E0(f, 0x45); E1(f, IF, I32); E1(f, KI32, 0); E0(f, ELSE); E1(f, KI32, 1); E0(f, END); break;
  }
}
/* direct flag consumers: comparison immediately followed by if / br_if / select */
static void flag_consume(Fn *f, int co, int op, int fa, int fb, int t, uint64_t a, uint64_t b, int ax, int bx, int n) {
  if (co == CO_BRIF) { E1(f, BLOCK, 0x40); }
  if (co == CO_SELECT) { E1(f, KI32, 1); E1(f, KI32, 0); }
  form_push(f, fa, t, 0, a, ax); if (n == 2) form_push(f, fb, t, 1, b, bx);
  E0(f, op);
  if (co == CO_BRIF) { E1(f, BR_IF, 0); E1(f, KI32, 0); E0(f, RETURN); E0(f, END); E1(f, KI32, 1); }
  else if (co == CO_SELECT) E0(f, SELECT);
  else if (co == CO_IF) { E1(f, IF, I32); E1(f, KI32, 1); E0(f, ELSE); E1(f, KI32, 0); E0(f, END); }
}
static int g_lo, g_hi, g_lo2, g_hi2; /* opcode range of this space */
static int forms_quick[] = {FO_CONST, FO_PARAM, FO_LOCAL, FO_TEMP, FO_MEM, FO_GLOBAL, FO_CALL, FO_TEE, FO_SELECT, FO_BLOCK, FO_XCLASS, FO_MANY, FO_WRAP};
static int nontrapping_conv(int op, V x) { (void)op; (void)x; return 1; }
static void op_body_(int which) {
  /* which: 0 all forms x small consumer, 1 all consumers x small forms */
  r_nan_skip = 0; pick_cfg();
  int op = g_lo + choose(g_hi - g_lo + 1 + g_hi2); if (op > g_hi) op = OPFC(op - g_hi - 1);
  int a, r, n = num_sig(op, &a, &r);
  if (!n) mc_die("sig");
  int fa, fb = FO_CONST, co = CO_RET;
  static const int small[] = {FO_CONST, FO_PARAM, FO_TEMP};
  static const int flagco[] = {CO_RET, CO_IF, CO_BRIF, CO_SELECT};
  int ncmp = which == 0 ? 1 : is_cmp(op) ? NCO : CO_IF;
  if (which == 0) { fa = forms_quick[choose(NFORM)]; if (n == 2) fb = forms_quick[choose(NFORM)]; }
  else { fa = choose_from(small); if (n == 2) fb = choose_from(small); co = choose(ncmp); }
  int direct = 0; if (which && (co == CO_IF || co == CO_BRIF || co == CO_SELECT)) direct = choose(2);
  (void)flagco;
  int same = n == 2 && fa == FO_PARAM && fb == FO_PARAM ? choose(2) : 0; /* x op x on one local */
  uint64_t va = pick(a), vb = n == 2 ? (same ? va : pick(a)) : 0;
  if (!mc_mine()) return;
  uint8_t pt[2] = {a, a}, rt[1] = {r};
  Fn *f = skeleton(2, pt, 1, rt);
  int ax = 0, bx = 0, rl = 0;
  if (co == CO_LOCAL || co == CO_MEM || (!direct && (co == CO_BRIF || co == CO_SELECT))) rl = add_local(f, r);
  form_prologue(f, fa, a, 0, &ax); if (n == 2) form_prologue(f, fb, a, 1, &bx);
  if (direct) flag_consume(f, co, op, fa, fb, a, va, vb, ax, bx, n);
  else {
    form_push(f, fa, a, 0, va, ax); if (n == 2) form_push(f, fb, a, same ? 0 : 1, vb, bx);
    E0(f, op); consume(f, co, r, rl);
  }
  V args[2] = {mk(a, va), mk(a, vb)};
  g_outh = op;
  if (diff_once(args)) mc_skip();
}
static void b_i32a(void) { g_lo = 0x45; g_hi = 0x4f; op_body_(0); }
static void b_i32b(void) { g_lo = 0x67; g_hi = 0x78; op_body_(0); }
static void b_i64a(void) { g_lo = 0x50; g_hi = 0x5a; op_body_(0); }
static void b_i64b(void) { g_lo = 0x79; g_hi = 0x8a; op_body_(0); }
static void b_iext(void) { g_lo = 0xc0; g_hi = 0xc4; op_body_(0); }
static void c_i32a(void) { g_lo = 0x45; g_hi = 0x4f; op_body_(1); }
static void c_i32b(void) { g_lo = 0x67; g_hi = 0x78; op_body_(1); }
static void c_i64a(void) { g_lo = 0x50; g_hi = 0x5a; op_body_(1); }
static void c_i64b(void) { g_lo = 0x79; g_hi = 0x8a; op_body_(1); }
static void b_fcmp(void) { g_lo = 0x5b; g_hi = 0x66; op_body_(0); }
static void c_fcmp(void) { g_lo = 0x5b; g_hi = 0x66; op_body_(1); }
static void b_f32(void) { g_lo = 0x8b; g_hi = 0x98; op_body_(0); }
static void c_f32(void) { g_lo = 0x8b; g_hi = 0x98; op_body_(1); }
static void b_f64(void) { g_lo = 0x99; g_hi = 0xa6; op_body_(0); }
static void c_f64(void) { g_lo = 0x99; g_hi = 0xa6; op_body_(1); }
static void b_conv(void) { g_lo = 0xa7; g_hi = 0xbf; g_hi2 = 8; g_wide = 1; op_body_(0); }
static void c_conv(void) { g_lo = 0xa7; g_hi = 0xbf; g_hi2 = 8; op_body_(1); }
/* every operator fed by every operator, load or call: what a register holds beyond the value must never matter */
static uint64_t few(int t, int i) {
  static const uint64_t a[] = {0, 1, 0xfffffffffffffff9ull, 0x8000000080000000ull, 0x123456789abcdef0ull}; static const uint32_t f[] = {0x80000000, 0x3fc00000, 0xc0a00000, 0x4effffff, 0x7fc00000}; static const uint64_t d[] = {1ull << 63, 0x3ff8000000000000ull, 0xc014000000000000ull, 0x41dfffffff800000ull, 0x7ff8000000000000ull};
  return t == I32 ? (uint32_t)a[i] : t == I64 ? a[i] : t == F32 ? f[i] : d[i];
}
static int g_prop_;
static int kind_of(int op) { return (op >= 0xa7 && op <= 0xbf) || op >= OPFC(0) ? 3 : (op >= 0x5b && op <= 0x66) || (op >= 0x8b && op <= 0xa6) ? 2 : 1; }
static void b_chain(void) {
  static uint16_t cons[4][64]; static int nc[4], rdy; if (!rdy++) for (int op = 0x45; op <= 0xc4 + 8; op++) { int o = op > 0xc4 ? OPFC(op - 0xc5) : op, a, r; if (num_sig(o, &a, &r) && kind_of(o) == g_prop_) { int k = a == I32 ? 0 : a == I64 ? 1 : a == F32 ? 2 : 3; cons[k][nc[k]++] = o; } }
  static const uint8_t lt[] = {I32, I64, F32, F64, I32, I32, I32, I32, I64, I64, I64, I64, I64, I64};
  pick_cfg(); int p1 = choose(14 + 128 + 8), ld = p1 < 14, o1 = ld ? 0x28 + p1 : p1 < 142 ? 0x45 + p1 - 14 : OPFC(p1 - 142), a1, r1, n1; if (ld) { a1 = I64; r1 = lt[p1]; n1 = 0; } else n1 = num_sig(o1, &a1, &r1);
  int k = r1 == I32 ? 0 : r1 == I64 ? 1 : r1 == F32 ? 2 : 3, o2, a2, r2; if (!nc[k]) { mc_owned = 0; return; } o2 = cons[k][choose(nc[k])]; int n2 = num_sig(o2, &a2, &r2);
  int pos = n2 == 2 ? choose(2) : 0, other = n2 == 2 ? choose(3) : 0, via = choose(3); uint64_t v0 = few(a1, choose(5)), v1 = n1 == 2 ? few(a1, 1 + choose(3)) : 0, v2 = n2 == 2 ? few(a2, 1 + choose(2)) : 0; if (!mc_mine()) return; r_nan_skip = 1;
  uint8_t pt[4] = {a1, a1, a2, I32}, rt[1] = {r2}; Fn *f = skeleton(4, pt, 1, rt); int l = 0; if (via == 1) l = add_local(f, r1);
  if (ld) { E1(f, KI32, 16); E1(f, LGET, 0); emit_mem(f, 0x37, 0, 0); }
  for (int x = 0; x < n2; x++) if (x != pos) { if (x == 0) { if (other == 0) emit_k(f, a2, v2); else { E1(f, LGET, 2); if (other == 2) { if (a2 == I32) { E1(f, LGET, 3); E0(f, 0x73); E1(f, LGET, 3); E0(f, 0x73); } else if (a2 == I64) { E1(f, LGET, 3); E0(f, 0xac); E0(f, 0x85); E1(f, LGET, 3); E0(f, 0xac); E0(f, 0x85); } else { E0(f, neg_op(a2)); E0(f, neg_op(a2)); } } } } }
    else { if (ld) { E1(f, LGET, 3); emit_mem(f, o1, 0, 0); } else { E1(f, LGET, 0); if (n1 == 2) E1(f, LGET, 1); E0(f, o1); } if (via == 1) { E1(f, LSET, l); E1(f, LGET, l); } else if (via == 2) E1(f, CALL, k); }
  if (n2 == 2 && pos == 0) { if (other == 0) emit_k(f, a2, v2); else { E1(f, LGET, 2); if (other == 2) { if (a2 == I32) { E1(f, KI32, 0); E0(f, 0x72); } else if (a2 == I64) { E1(f, KI64, 0); E0(f, 0x84); } else { E0(f, neg_op(a2)); E0(f, neg_op(a2)); } } } }
  E0(f, o2); V args[4] = {mk(a1, v0), mk(a1, v1), mk(a2, v2), mk(I32, 16)}; g_outh = o2 * 977 + o1; if (diff_once(args)) mc_skip();
}
static const char *as[] = {"host FPU in the default IEEE rounding mode", "values drawn from the listed boundary alphabet", 0};
static struct mc_space sp1[] = {
  {"i32-compare-forms", b_i32a, "every i32 comparison x every pair of operand origins x value pairs x stack layouts"}, {"i32-arith-forms", b_i32b, "every i32 arithmetic/bit operator likewise"},
  {"i64-compare-forms", b_i64a, "every i64 comparison likewise"}, {"i64-arith-forms", b_i64b, "every i64 arithmetic/bit operator likewise"}, {"sign-extension-forms", b_iext, "extend8/16/32"},
  {"i32-compare-consumers", c_i32a, "every i32 comparison x every consumer of its result (return, local, memory, if, br_if, select, eqz, eqz+if), flags used directly or through a local"}, {"i32-arith-consumers", c_i32b, "i32 arithmetic x consumers"},
  {"i64-compare-consumers", c_i64a, "i64 comparisons x consumers"}, {"i64-arith-consumers", c_i64b, "i64 arithmetic x consumers"},
  {"chains", b_chain, "every load, comparison, arithmetic operator and conversion feeding every operator of this property x operand position x origin of the other operand x directly, through a local or through a call x values"}};
static struct mc_space sp2[] = {{"float-compare-forms", b_fcmp, "f32/f64 comparisons x operand origins x IEEE boundary values"}, {"float-compare-consumers", c_fcmp, "f32/f64 comparisons x consumers"}, {"f32-forms", b_f32, "f32 operators x origins"}, {"f32-consumers", c_f32, "f32 operators x consumers"}, {"f64-forms", b_f64, "f64 operators x origins"}, {"f64-consumers", c_f64, "f64 operators x consumers"}, {"chains", b_chain, "every load, comparison, arithmetic operator and conversion feeding every operator of this property x operand position x origin of the other operand x directly, through a local or through a call x values"}};
static struct mc_space sp3[] = {{"conversion-forms", b_conv, "every conversion/reinterpretation x operand origins x boundary values inside the target range"}, {"conversion-consumers", c_conv, "conversions x consumers"}, {"chains", b_chain, "every load, comparison, arithmetic operator and conversion feeding every operator of this property x operand position x origin of the other operand x directly, through a local or through a call x values"}};
int main(int c, char **v) {
  const char *p = getenv("MC_PROP"); g_prop_ = p && !strcmp(p, "P02") ? 2 : p && !strcmp(p, "P03") ? 3 : 1;
  struct mc_check k1 = {"P01", "one execution = one (operator, operand origins, consumer, values, layout) compiled by the library and run; non-trivial = distinct (operator, result)", sp1, sizeof sp1 / sizeof *sp1, as};
  struct mc_check k2 = k1, k3 = k1;
  k2.prop = "P02"; k2.spaces = sp2; k2.nspaces = sizeof sp2 / sizeof *sp2;
  k3.prop = "P03"; k3.spaces = sp3; k3.nspaces = sizeof sp3 / sizeof *sp3;
  return mc_main(c, v, p && !strcmp(p, "P02") ? &k2 : p && !strcmp(p, "P03") ? &k3 : &k1);
}
