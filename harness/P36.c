/* P36 running out of memory in the code generator: every allocation of every generation fails once, memory errors are declared
 * by the user between any two calls, and a finished compiler is used again.  What each call must return follows from one
 * flag, "has an error happened yet", kept beside the calls. */
#include "mc.h"
#include <sljitLir.h>
#include "alloc.h"
#include "execguard.h"
static char dbuf[400]; static void describe(void) { mc_desc("%s", dbuf); }
static struct sljit_compiler *C; static int err; /* the error every call must report, 0: none so far */
static struct sljit_label *lab_[4]; static struct sljit_jump *jmp_[8]; static int nj; static long hits; static int armed, done_;
static uint64_t mem_[16]; static long calls_;
static void SLJIT_FUNC callee(sljit_sw x) { calls_ += x; }
/* a call of the generator has returned r (an error code), or a pointer */
static void hit(void) { if (armed && !err && (a_fail_at < 0 && a_mmap_fail_at < 0)) err = SLJIT_ERR_ALLOC_FAILED; }
static const char *at_ = "";
static void I(int r) { hit(); if (r != err) mc_fail("%s returned %d, must be %d", at_, r, err); if (sljit_get_compiler_error(C) != err) mc_fail("after %s the compiler's error is %d, must be %d", at_, sljit_get_compiler_error(C), err); }
static void *P(void *p) { hit(); if (!p != !!err) mc_fail("%s returned %p with error %d", at_, p, err); if (sljit_get_compiler_error(C) != err) mc_fail("after %s the compiler's error is %d, must be %d", at_, sljit_get_compiler_error(C), err); return p; }
static void J(void *p) { struct sljit_jump *j = P(p); if (j && nj < 8) jmp_[nj++] = j; }
#define R0 SLJIT_R0, 0
#define R1 SLJIT_R1, 0
#define R2 SLJIT_R2, 0
#define IMM(x) SLJIT_IMM, (sljit_sw)(x)
#define BIG 0x123456789abcdefll
#define M0 SLJIT_MEM0(), (sljit_sw)mem_
/* S0 counts fillers and is touched by nothing else; R0..R5, FR0..FR2 and the vectors are free; S1 holds 3 */
enum { NI = 46 };
static const char *in_[NI] = {"mov imm64", "mov mem<-imm", "mov mem0<-mem0", "mov.u8 mem index", "clz", "bswap", "add r,r,imm64", "sub flags", "sub mem,mem,imm", "op2u", "op2r muladd", "shl", "shift_into", "div_mod", "nop", "endbr", "rev mem", "fop1 conv", "fop1 mem", "fcmp store", "fadd", "fadd mem", "fop2r", "fset32", "fset64", "fcopy", "op_flags", "op_flags or", "select", "fselect", "label", "aligned label", "jump", "cmp", "fcmp", "op2cmpz", "icall", "const", "op_addr", "local_base", "mem unaligned", "atomic", "simd mov", "simd replicate", "alloc_memory", "call"};
static void item(int k) {
  at_ = in_[k]; sljit_s32 op;
  switch (k) {
  case 0: I(sljit_emit_op1(C, SLJIT_MOV, R0, IMM(BIG))); break;
  case 1: I(sljit_emit_op1(C, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 8, IMM(BIG))); break;
  case 2: I(sljit_emit_op1(C, SLJIT_MOV32, M0, SLJIT_MEM0(), (sljit_sw)(mem_ + 1))); break;
  case 3: I(sljit_emit_op1(C, SLJIT_MOV, R0, IMM(mem_))); I(sljit_emit_op1(C, SLJIT_MOV_U8, R0, SLJIT_MEM2(SLJIT_R0, SLJIT_S1), 2)); break;
  case 4: I(sljit_emit_op1(C, SLJIT_CLZ, R1, SLJIT_S1, 0)); break;
  case 5: I(sljit_emit_op1(C, SLJIT_REV32, R1, SLJIT_S1, 0)); break;
  case 6: I(sljit_emit_op2(C, SLJIT_ADD, R0, SLJIT_S1, 0, IMM(BIG))); break;
  case 7: I(sljit_emit_op2(C, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, R0, SLJIT_S1, 0, IMM(7))); break;
  case 8: I(sljit_emit_op2(C, SLJIT_SUB, SLJIT_MEM1(SLJIT_SP), 0, M0, IMM(BIG))); break;
  case 9: I(sljit_emit_op2u(C, SLJIT_AND | SLJIT_SET_Z, SLJIT_MEM1(SLJIT_SP), 8, IMM(BIG))); break;
  case 10: I(sljit_emit_op2r(C, SLJIT_MULADD, SLJIT_R0, SLJIT_S1, 0, SLJIT_MEM1(SLJIT_SP), 0)); break;
  case 11: I(sljit_emit_op2(C, SLJIT_SHL, SLJIT_MEM1(SLJIT_SP), 8, R1, SLJIT_S1, 0)); break;
  case 12: I(sljit_emit_shift_into(C, SLJIT_SHL, SLJIT_R0, SLJIT_R1, SLJIT_R2, SLJIT_S1, 0)); break;
  case 13: I(sljit_emit_op1(C, SLJIT_MOV, R0, IMM(9))); I(sljit_emit_op1(C, SLJIT_MOV, R1, SLJIT_S1, 0)); I(sljit_emit_op0(C, SLJIT_DIVMOD_UW)); break;
  case 14: I(sljit_emit_op0(C, SLJIT_NOP)); break;
  case 15: I(sljit_emit_op0(C, SLJIT_ENDBR)); break;
  case 16: I(sljit_emit_op1(C, SLJIT_REV, SLJIT_MEM1(SLJIT_SP), 8, M0)); break;
  case 17: I(sljit_emit_fop1(C, SLJIT_CONV_F64_FROM_SW, SLJIT_FR0, 0, IMM(BIG))); break;
  case 18: I(sljit_emit_fop1(C, SLJIT_MOV_F64, SLJIT_MEM1(SLJIT_SP), 8, M0)); break;
  case 19: I(sljit_emit_fop1(C, SLJIT_CMP_F64 | SLJIT_SET_F_EQUAL, SLJIT_FR0, 0, M0)); break;
  case 20: I(sljit_emit_fop2(C, SLJIT_ADD_F64, SLJIT_FR0, 0, SLJIT_FR1, 0, SLJIT_FR2, 0)); break;
  case 21: I(sljit_emit_fop2(C, SLJIT_MUL_F32, SLJIT_MEM1(SLJIT_SP), 8, M0, SLJIT_FR2, 0)); break;
  case 22: I(sljit_emit_fop2r(C, SLJIT_COPYSIGN_F64, SLJIT_FR0, SLJIT_FR1, 0, SLJIT_FR2, 0)); break;
  case 23: I(sljit_emit_fset32(C, SLJIT_FR0, 1.5f)); break;
  case 24: I(sljit_emit_fset64(C, SLJIT_FR0, 2.7)); break;
  case 25: I(sljit_emit_fcopy(C, SLJIT_COPY_TO_F64, SLJIT_FR0, SLJIT_R0)); break;
  case 26: I(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z, SLJIT_S1, 0, IMM(3))); I(sljit_emit_op_flags(C, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 8, SLJIT_EQUAL)); break;
  case 27: I(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z, SLJIT_S1, 0, IMM(3))); I(sljit_emit_op_flags(C, SLJIT_OR, SLJIT_R0, 0, SLJIT_EQUAL)); break;
  case 28: I(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z, SLJIT_S1, 0, IMM(3))); I(sljit_emit_select(C, SLJIT_EQUAL, SLJIT_R0, IMM(BIG), SLJIT_R1)); break;
  case 29: I(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z, SLJIT_S1, 0, IMM(3))); I(sljit_emit_fselect(C, SLJIT_EQUAL, SLJIT_FR0, SLJIT_FR1, 0, SLJIT_FR2)); break;
  case 30: P(sljit_emit_label(C)); break;
  case 31: P(sljit_emit_aligned_label(C, SLJIT_LABEL_ALIGN_16, NULL)); break;
  case 32: J(sljit_emit_jump(C, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP)); break;
  case 33: J(sljit_emit_cmp(C, SLJIT_EQUAL, SLJIT_S1, 0, IMM(BIG))); break;
  case 34: J(sljit_emit_fcmp(C, SLJIT_F_EQUAL, SLJIT_FR0, 0, M0)); break;
  case 35: J(sljit_emit_op2cmpz(C, SLJIT_AND, R0, SLJIT_S1, 0, IMM(BIG))); break;
  case 36: I(sljit_emit_op1(C, SLJIT_MOV, R0, IMM(5))); I(sljit_emit_icall(C, SLJIT_CALL, SLJIT_ARGS1V(W), IMM(callee))); break;
  case 37: P(sljit_emit_const(C, SLJIT_MOV, SLJIT_R0, 0, BIG)); break;
  case 38: J(sljit_emit_op_addr(C, SLJIT_MOV_ADDR, SLJIT_R0, 0)); break;
  case 39: I(sljit_get_local_base(C, SLJIT_MEM1(SLJIT_SP), 8, 16)); break;
  case 40: I(sljit_emit_mem(C, SLJIT_MOV | SLJIT_MEM_UNALIGNED, SLJIT_R0, SLJIT_MEM1(SLJIT_SP), 5)); break;
  case 41: I(sljit_emit_op1(C, SLJIT_MOV, R1, IMM(mem_))); I(sljit_emit_atomic_load(C, SLJIT_MOV, SLJIT_R0, SLJIT_R1)); break;
  case 42: op = SLJIT_SIMD_REG_128 | SLJIT_SIMD_ELEM_32; I(sljit_emit_simd_mov(C, op | SLJIT_SIMD_LOAD, SLJIT_VR0, M0)); break;
  case 43: op = SLJIT_SIMD_REG_128 | SLJIT_SIMD_ELEM_32; I(sljit_emit_simd_replicate(C, op, SLJIT_VR0, SLJIT_S1, 0)); break;
  case 44: { uint8_t *m = P(sljit_alloc_memory(C, 33)); if (m) { memset(m, 0x99, 33); if ((uintptr_t)m & 7) mc_fail("alloc_memory is not aligned"); } break; }
  case 45: { struct sljit_jump *j = P(sljit_emit_call(C, SLJIT_CALL, SLJIT_ARGS0V())); sljit_set_target(j, (sljit_uw)callee); break; }
  }
}
static sljit_s32 eopt_; static void (*code_)(void); static uint64_t count_;
static void fill(int kind, int n) { at_ = "a filler"; for (int i = 0; i < n; i++) if (kind == 0) I(sljit_emit_op2(C, SLJIT_ADD, SLJIT_S0, 0, SLJIT_S0, 0, IMM(1))); else { P(sljit_alloc_memory(C, 8)); } }
static void prolog(void) { at_ = "emit_enter"; I(sljit_emit_enter(C, eopt_, SLJIT_ARGS0(W), 5 | SLJIT_ENTER_FLOAT(4) | SLJIT_ENTER_VECTOR(4), 3, 48)); at_ = "the start"; I(sljit_emit_op1(C, SLJIT_MOV, SLJIT_S0, 0, IMM(0))); I(sljit_emit_op1(C, SLJIT_MOV, SLJIT_S1, 0, IMM(3))); I(sljit_emit_op1(C, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 0, IMM(0))); I(sljit_emit_op1(C, SLJIT_MOV, SLJIT_R1, 0, IMM(1))); I(sljit_emit_op1(C, SLJIT_MOV, SLJIT_R2, 0, IMM(1))); }
/* jumps lead to the label after their item */
static void settle(void) { at_ = "the label of a jump"; if (!nj && !err) return; struct sljit_label *l = P(sljit_emit_label(C)); for (int i = 0; i < nj; i++) sljit_set_label(jmp_[i], l); if (err) sljit_set_label(NULL, l); nj = 0; }
static void epilog(void) { at_ = "emit_return"; I(sljit_emit_return(C, SLJIT_MOV, SLJIT_S0, 0)); }
static void *generate(int exf) {
  at_ = "generate_code"; int before = err; void *c = sljit_generate_code(C, 0, NULL); int e = sljit_get_compiler_error(C);
  if (!err && armed && a_fail_at < 0 && a_mmap_fail_at < 0) err = exf ? SLJIT_ERR_EX_ALLOC_FAILED : SLJIT_ERR_ALLOC_FAILED; (void)before;
  if (err) { if (c) mc_fail("generate_code returned code after error %d", err); if (err != before && e != SLJIT_ERR_ALLOC_FAILED && e != SLJIT_ERR_EX_ALLOC_FAILED) mc_fail("generate_code ran out of memory and left error %d", e); if (err == before && e != err) mc_fail("generate_code changed the error from %d to %d", err, e); err = e; }
  else { if (!c) mc_fail("generate_code failed with error %d", e); if (e != SLJIT_ERR_COMPILED) mc_fail("after generate_code the error is %d", e); err = SLJIT_ERR_COMPILED; }
  return c;
}
static void run(void *c, uint64_t want) { memset(mem_, 0, sizeof mem_); uint64_t r = ((uint64_t (*)(void))c)(); if (r != want) mc_fail("the code returned %llu, must be %llu", (unsigned long long)r, (unsigned long long)want); }
static ASnap s0;
static void begin(void) { err = nj = 0; hits = 0; sljit_free_unused_memory_exec(); s0 = a_snap(); mc_describe_cb = describe; mc_predesc(); }
static void over(void *c) { sljit_free_compiler(C); if (c) sljit_free_code(c, NULL); a_track = 0; a_fail_at = a_mmap_fail_at = -1; armed = 0; sljit_free_unused_memory_exec(); ASnap s = a_snap(); if (s.blocks != s0.blocks || s.bytes != s0.bytes || s.exec != s0.exec) mc_fail("%ld allocations (%ld bytes) and %ld bytes of executable memory were not returned", s.blocks - s0.blocks, s.bytes - s0.bytes, s.exec - s0.exec); }
/* how many fillers fit into what a fresh compiler has after the start */
static int cap[2]; static void caps(void) { if (cap[0]) return; for (int k = 0; k < 2; k++) { err = 0; C = sljit_create_compiler(NULL); prolog(); a_track = 1; long t = a_total; int n = 0; while (a_total == t) { fill(k, 1); if (++n > 100000) mc_die("no fragment is ever full"); } a_track = 0; cap[k] = n - 1; sljit_free_compiler(C); } a_blocks = a_bytes = 0; }
/* one program: start, n fillers, X, Y, end, with allocation f (or executable mapping) failing */
static void prog(int kind, int n, int x, int y, int f, int mm, int twice) {
  begin(); a_track = 1; armed = 1; a_fail_at = mm ? -1 : f; a_mmap_fail_at = mm ? 0 : -1; if (f < 0 && !mm) armed = 0;
  C = sljit_create_compiler(NULL); if (armed && a_fail_at < 0 && a_mmap_fail_at < 0) { if (C) mc_fail("create_compiler succeeded although memory ran out"); armed = 0; a_track = 0; ASnap s = a_snap(); if (s.blocks != s0.blocks) mc_fail("create_compiler lost %ld allocations", s.blocks - s0.blocks); mc_outcome(1); return; }
  if (!C) mc_fail("create_compiler failed"); prolog(); fill(kind, n); item(x); settle(); if (y >= 0) { item(y); settle(); } fill(0, 2); if (twice) fill(1, cap[1] + 1); epilog(); void *c = generate(mm); int e = err; if (c) run(c, (kind == 0 ? n : 0) + 2); over(c); mc_outcome((((uint64_t)kind * 64 + x) * 64 + y + 1) * 16 + e);
}
static void b_edge(void) { int kind = choose(2), j = choose(mc_thorough ? 28 : 16), x = choose(NI), f = choose(8); if (!mc_mine()) return; caps(); for (int yy = -1; yy < NI; yy++) { sprintf(dbuf, "%d %s, then %s%s%s; allocation %d fails\n", cap[kind] - j, kind ? "small allocations" : "instructions", in_[x], yy < 0 ? "" : ", ", yy < 0 ? "" : in_[yy], f); prog(kind, cap[kind] - j, x, yy, f, 0, 0); } }
static void b_pairs(void) { int x = choose(NI), y = choose(NI), f = choose(9); if (!mc_mine()) return; caps(); sprintf(dbuf, "%s, %s; %s %d fails\n", in_[x], in_[y], f == 7 ? "mapping" : f == 8 ? "nothing" : "allocation", f); prog(0, 3, x, y, f >= 7 ? -1 : f, f == 7, f < 7); }
/* the user declares that memory ran out before step p */
static void b_set(void) {
  int x = choose(NI), y = choose(NI), p = choose(7), again = choose(2); if (!mc_mine()) return; sprintf(dbuf, "%s, %s; memory error declared before step %d%s\n", in_[x], in_[y], p, again ? ", twice" : ""); begin(); a_track = 1; armed = 0; C = sljit_create_compiler(NULL); if (!C) mc_fail("create_compiler failed"); void *c = NULL;
  for (int s = 0; s < 7; s++) { if (s == p || (again && s > p)) { sljit_set_compiler_memory_error(C); if (!err) err = SLJIT_ERR_ALLOC_FAILED; if (sljit_get_compiler_error(C) != err) mc_fail("the error is %d, must be %d", sljit_get_compiler_error(C), err); } switch (s) { case 0: prolog(); break; case 1: item(x); settle(); break; case 2: item(y); settle(); break; case 3: fill(0, 1); break; case 4: epilog(); break; case 5: { sljit_uw sz; if (err) { sljit_uw *b = sljit_serialize_compiler(C, 0, &sz); if (b) mc_fail("a compiler with an error was serialized"); } c = generate(0); break; } case 6: at_ = "an instruction after generate_code"; I(sljit_emit_op0(C, SLJIT_NOP)); break; } }
  if (c) run(c, 1); over(c); mc_outcome((x * 64 + y) * 16 + p);
}
/* a compiler which has generated its code is used again */
static void b_again(void) {
  int x = choose(NI), y = choose(NI), g = choose(3); if (!mc_mine()) return; sprintf(dbuf, "after generate_code: %s, %s, generate %d times\n", in_[x], in_[y], g); begin(); a_track = 1; armed = 0; C = sljit_create_compiler(NULL); prolog(); fill(0, 4); item(x); settle(); epilog(); void *c = generate(0); run(c, 4); long t = a_total; item(y); settle(); for (int i = 0; i < g; i++) { if (sljit_generate_code(C, 0, NULL)) mc_fail("code was generated a second time"); if (sljit_get_compiler_error(C) != SLJIT_ERR_COMPILED) mc_fail("the error is %d", sljit_get_compiler_error(C)); item(x); }
  if (a_total != t) mc_fail("a compiler that is done allocates"); run(c, 4); over(c); mc_outcome((x * 64 + y) * 4 + g);
}
/* the caller's own buffer, of every size: code that fits is written into it alone, code that does not fit is refused */
#define BUFN 8192
static uint8_t *xb; static int xshort;
static int into(int x, int y, sljit_uw size) {
  begin(); C = sljit_create_compiler(NULL); a_track = 1; prolog(); fill(0, 5); item(x); settle(); if (y >= 0) { item(y); settle(); } epilog(); memset(xb, 0xf1, BUFN); struct sljit_generate_code_buffer b = {xb + BUFN - size, size, 0}; if (size > BUFN - 64) mc_die("size"); uint8_t *lo = xb + BUFN - size; 
  long t = a_total; void *c = sljit_generate_code(C, SLJIT_GENERATE_CODE_BUFFER, &b); (void)t; int e = sljit_get_compiler_error(C), r = c != NULL; for (int i = 0; i < BUFN - (int)size; i++) if (xb[i] != 0xf1) mc_fail("a byte before the buffer was changed");
  if (!c) { if (e != SLJIT_ERR_EX_ALLOC_FAILED) mc_fail("the code does not fit and the error is %d", e); for (int i = 0; i < BUFN; i++) if (xb[i] != 0xf1) mc_fail("code was refused and yet written"); sljit_set_compiler_memory_error(C); if (sljit_get_compiler_error(C) != e) mc_fail("the error was replaced"); }
  else { if (e != SLJIT_ERR_COMPILED) mc_fail("the error is %d after generating code", e); sljit_uw n = sljit_get_generated_code_size(C); if ((uint8_t *)c < lo || (uint8_t *)c + n > xb + BUFN) mc_fail("the code is not in the buffer"); if (n < 20 || n > size) mc_fail("%lu bytes of code in a buffer of %lu", (unsigned long)n, (unsigned long)size); if (sljit_get_executable_offset(C)) mc_fail("executable offset"); run(c, 5); }
  sljit_free_compiler(C); a_track = 0; ASnap q = a_snap(); if (q.blocks != s0.blocks || q.exec != s0.exec) mc_fail("%ld allocations, %ld bytes of executable memory were not returned", q.blocks - s0.blocks, q.exec - s0.exec); return r;
}
static void b_buffer(void) {
  int x = choose(NI), y = choose(NI + 1) - 1; if (!mc_mine()) return; if (!xb) { xb = mmap(0, BUFN + 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (xb == MAP_FAILED || mprotect(xb + BUFN, 4096, PROT_NONE)) mc_die("mmap"); }
  int ok = 0, min = -1, lim = mc_thorough ? 700 : 460, st = mc_thorough ? 1 : y < 0 ? 1 : 7; for (int n = y < 0 || mc_thorough ? 0 : (x + y) % 7; n <= lim; n += st) { sprintf(dbuf, "%s%s%s into a buffer of %d bytes\n", in_[x], y < 0 ? "" : ", ", y < 0 ? "" : in_[y], n); int r = into(x, y, n); if (ok && !r) mc_fail("a buffer of %d bytes was enough, this one is not", min); if (r && !ok) { ok = 1; min = n; } } if (!into(x, y, 4000)) mc_fail("4000 bytes are not enough"); mc_outcome((x * 64 + y + 1) * 1024 + min);
}
/* ---- every emission function with every kind of operand, alone: how much is emitted is found out, then the generator's memory ends within it, at every even distance ---- */
extern sljit_u32 cpu_feature_list __attribute__((weak)); static sljit_u32 cpu_all;
static void cpu(int k) { if (!&cpu_feature_list) return; if (!cpu_all) { sljit_has_cpu_feature(SLJIT_HAS_FPU); cpu_all = cpu_feature_list; } cpu_feature_list = cpu_all & ~(k == 1 ? 0xf8u : k == 2 ? 0x98u : 0u); eopt_ = k == 0 || k == 2 ? SLJIT_ENTER_USE_VEX : 0; }
struct opnd { sljit_s32 o; sljit_sw w; const char *n; };
static struct opnd D_[] = {{SLJIT_R3, 0, "r3"}, {SLJIT_R0, 0, "r0"}, {SLJIT_MEM1(SLJIT_SP), 8, "[sp+8]"}, {SLJIT_MEM0(), 0, "[abs]"}, {SLJIT_MEM1(SLJIT_S1), BIG, "[s1+big]"}, {SLJIT_MEM2(SLJIT_R1, SLJIT_S2), 3, "[r1+s2<<3]"}, {SLJIT_R2, 0, "r2"}};
static struct opnd S_[] = {{SLJIT_S1, 0, "s1"}, {SLJIT_IMM, 5, "5"}, {SLJIT_IMM, 0x12345, "0x12345"}, {SLJIT_IMM, BIG, "imm64"}, {SLJIT_MEM1(SLJIT_SP), 16, "[sp+16]"}, {SLJIT_MEM0(), 0, "[abs]"}, {SLJIT_R3, 0, "r3"}, {SLJIT_MEM1(SLJIT_R3), BIG, "[r3+big]"}, {SLJIT_R2, 0, "r2"}, {SLJIT_IMM, 1, "1"}, {SLJIT_IMM, 0, "0"}};
static struct opnd F_[] = {{SLJIT_FR0, 0, "f0"}, {SLJIT_FR1, 0, "f1"}, {SLJIT_MEM1(SLJIT_SP), 8, "[sp+8]"}, {SLJIT_MEM0(), 0, "[abs]"}, {SLJIT_MEM1(SLJIT_S1), BIG, "[s1+big]"}, {SLJIT_FR2, 0, "f2"}};
enum { ND = 7, NS = 11, NF = 6 };
#define O(a) a.o, a.w
static int U(int r) { hit(); if (!err && r == SLJIT_ERR_UNSUPPORTED && !sljit_get_compiler_error(C)) return r; I(r); return r; }
static void K(struct sljit_jump *j) { P(j); if (j) { struct sljit_label *l = P(sljit_emit_label(C)); sljit_set_label(j, l); } }
static char wname[160]; static int dry_;
#define E(...) if (k == n++) { snprintf(wname, sizeof wname, __VA_ARGS__); at_ = wname; if (!dry_) {
#define X }}
static void ctx(sljit_s32 a) { at_ = "set_context"; I(sljit_set_context(C, eopt_, a, 5 | SLJIT_ENTER_FLOAT(4) | SLJIT_ENTER_VECTOR(4), 3, 48)); at_ = wname; }
static int wide(int k) {
  int n = 0; D_[3].w = (sljit_sw)mem_; S_[5].w = (sljit_sw)(mem_ + 4); F_[3].w = (sljit_sw)(mem_ + 8);
  static const sljit_s32 o1[] = {SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV32_U8, SLJIT_MOV32_S16, SLJIT_CLZ, SLJIT_CLZ32, SLJIT_CTZ, SLJIT_CTZ32, SLJIT_REV, SLJIT_REV32, SLJIT_REV_U16, SLJIT_REV_S16, SLJIT_REV_U32, SLJIT_REV_S32, SLJIT_REV32_U16};
  for (int o = 0; o < 22; o++) for (int d = 0; d < ND; d++) for (int s = 0; s < NS; s++) E("op1 %d %s <- %s", o1[o], D_[d].n, S_[s].n) I(sljit_emit_op1(C, o1[o], O(D_[d]), O(S_[s]))); X
  static const sljit_s32 o2[] = {SLJIT_ADD, SLJIT_ADD32, SLJIT_ADD | SLJIT_SET_CARRY, SLJIT_ADDC | SLJIT_SET_CARRY, SLJIT_SUB, SLJIT_SUB32, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, SLJIT_SUBC | SLJIT_SET_CARRY, SLJIT_MUL, SLJIT_MUL32, SLJIT_AND, SLJIT_AND | SLJIT_SET_Z, SLJIT_OR, SLJIT_XOR, SLJIT_SHL, SLJIT_SHL | SLJIT_SET_Z, SLJIT_MSHL, SLJIT_LSHR32, SLJIT_ASHR, SLJIT_ASHR | SLJIT_SET_Z, SLJIT_ROTL, SLJIT_ROTR32};
  for (int o = 0; o < 22; o++) for (int d = 0; d < ND; d++) for (int s = 0; s < NS; s++) for (int t = 0; t < NS; t++) E("op2 %d %s <- %s, %s", o2[o], D_[d].n, S_[s].n, S_[t].n) if ((o2[o] & 0xff) == (SLJIT_ADDC & 0xff) || (o2[o] & 0xff) == (SLJIT_SUBC & 0xff)) { at_ = "setting the carry"; I(sljit_emit_op2u(C, SLJIT_ADD | SLJIT_SET_CARRY, R1, R2)); at_ = wname; } I(sljit_emit_op2(C, o2[o], O(D_[d]), O(S_[s]), O(S_[t]))); X
  static const sljit_s32 ou[] = {SLJIT_ADD | SLJIT_SET_Z, SLJIT_SUB | SLJIT_SET_Z, SLJIT_SUB32 | SLJIT_SET_SIG_LESS, SLJIT_AND | SLJIT_SET_Z, SLJIT_AND32 | SLJIT_SET_Z, SLJIT_XOR | SLJIT_SET_Z, SLJIT_SHL | SLJIT_SET_Z};
  for (int o = 0; o < 7; o++) for (int s = 0; s < NS; s++) for (int t = 0; t < NS; t++) E("op2u %d %s, %s", ou[o], S_[s].n, S_[t].n) I(sljit_emit_op2u(C, ou[o], O(S_[s]), O(S_[t]))); X
  for (int o = 0; o < 2; o++) for (int s = 0; s < NS; s++) for (int t = 0; t < NS; t++) E("muladd%d %s, %s", o, S_[s].n, S_[t].n) I(sljit_emit_op2r(C, o ? SLJIT_MULADD32 : SLJIT_MULADD, SLJIT_R0, O(S_[s]), O(S_[t]))); X
  for (int o = 0; o < 4; o++) for (int d = 0; d < 3; d++) for (int s = 0; s < NS; s++) E("shift_into %d, case %d, %s", o, d, S_[s].n) I(sljit_emit_shift_into(C, o == 0 ? SLJIT_SHL : o == 1 ? SLJIT_LSHR : o == 2 ? SLJIT_SHL32 : SLJIT_MLSHR, d == 2 ? SLJIT_R2 : SLJIT_R3, SLJIT_R1, d == 0 ? SLJIT_R1 : SLJIT_R0, O(S_[s]))); X
  static const sljit_s32 o0[] = {SLJIT_BREAKPOINT, SLJIT_NOP, SLJIT_LMUL_UW, SLJIT_LMUL_SW, SLJIT_DIVMOD_UW, SLJIT_DIVMOD_S32, SLJIT_DIV_SW, SLJIT_DIV_U32, SLJIT_ENDBR, SLJIT_SKIP_FRAMES_BEFORE_RETURN, SLJIT_MEMORY_BARRIER};
  for (int o = 0; o < 11; o++) E("op0 %d", o0[o]) U(sljit_emit_op0(C, o0[o])); X
  for (int s = 0; s < NS; s++) if (S_[s].o != SLJIT_IMM) { E("fast return %s", S_[s].n) I(sljit_emit_op_src(C, SLJIT_FAST_RETURN, O(S_[s]))); X E("skip frames %s", S_[s].n) I(sljit_emit_op_src(C, SLJIT_SKIP_FRAMES_BEFORE_FAST_RETURN, O(S_[s]))); X E("ijump %s", S_[s].n) I(sljit_emit_ijump(C, SLJIT_JUMP, O(S_[s]))); X E("return_to %s", S_[s].n) I(sljit_emit_return_to(C, O(S_[s]))); X }
  for (int s = 0; s < NS; s++) { for (int o = 0; o < 4; o++) if (S_[s].o & SLJIT_MEM) E("prefetch %d %s", o, S_[s].n) I(sljit_emit_op_src(C, o == 0 ? SLJIT_PREFETCH_L1 : o == 1 ? SLJIT_PREFETCH_L2 : o == 2 ? SLJIT_PREFETCH_L3 : SLJIT_PREFETCH_ONCE, O(S_[s]))); X
    E("return %s", S_[s].n) I(sljit_emit_return(C, SLJIT_MOV, O(S_[s]))); X E("return32 %s", S_[s].n) I(sljit_emit_return(C, SLJIT_MOV_S8, O(S_[s]))); X
    for (int t = 0; t < 3; t++) E("icall %s, %d arguments", S_[s].n, t) I(sljit_emit_icall(C, t == 2 ? SLJIT_CALL | SLJIT_CALL_RETURN : SLJIT_CALL, t == 0 ? SLJIT_ARGS0V() : SLJIT_ARGS3(W, W, F64, W), O(S_[s]))); X
    for (int t = 0; t < NS; t++) { E("cmp %s, %s", S_[s].n, S_[t].n) K(sljit_emit_cmp(C, SLJIT_SIG_LESS, O(S_[s]), O(S_[t]))); X E("op2cmpz %s, %s", S_[s].n, S_[t].n) K(sljit_emit_op2cmpz(C, SLJIT_SUB, R0, O(S_[s]), O(S_[t]))); X }
    for (int o = 0; o < 4; o++) for (int d = 0; d < 2; d++) E("select %d %s", o, S_[s].n) at_ = "flags"; I(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, R0, R1)); at_ = wname; I(sljit_emit_select(C, (o & 1 ? SLJIT_LESS : SLJIT_EQUAL) | (o & 2 ? SLJIT_32 : 0), D_[d].o, O(S_[s]), d ? SLJIT_R0 : SLJIT_R1)); X }
  for (int d = 0; d < ND; d++) { E("fast enter %s", D_[d].n) I(sljit_emit_op_dst(C, SLJIT_FAST_ENTER, O(D_[d]))); X E("return address %s", D_[d].n) I(sljit_emit_op_dst(C, SLJIT_GET_RETURN_ADDRESS, O(D_[d]))); X E("const %s", D_[d].n) P(sljit_emit_const(C, SLJIT_MOV, O(D_[d]), BIG)); X E("const8 %s", D_[d].n) P(sljit_emit_const(C, SLJIT_MOV_U8, O(D_[d]), 7)); X E("const32 %s", D_[d].n) P(sljit_emit_const(C, SLJIT_MOV32, O(D_[d]), 7)); X
    E("op_addr %s", D_[d].n) K(sljit_emit_op_addr(C, SLJIT_MOV_ADDR, O(D_[d]))); X
    for (int o = 0; o < 3; o++) E("local base %s", D_[d].n) I(sljit_get_local_base(C, O(D_[d]), o == 0 ? 0 : o == 1 ? 16 : BIG)); X
    for (int o = 0; o < 4; o++) for (int c = 0; c < 4; c++) E("op_flags %d %s type %d", o, D_[d].n, c) at_ = "flags"; if (c < 3) I(sljit_emit_op2u(C, SLJIT_SUB | (c == 2 ? SLJIT_SET_OVERFLOW : SLJIT_SET_Z | SLJIT_SET_LESS), R0, R1)); else I(sljit_emit_fop1(C, SLJIT_CMP_F64 | SLJIT_SET_F_EQUAL, SLJIT_FR0, 0, SLJIT_FR1, 0)); at_ = wname; I(sljit_emit_op_flags(C, o == 0 ? SLJIT_MOV : o == 1 ? SLJIT_MOV32 : o == 2 ? SLJIT_OR : SLJIT_AND, O(D_[d]), c == 0 ? SLJIT_EQUAL : c == 1 ? SLJIT_GREATER_EQUAL : c == 2 ? SLJIT_OVERFLOW : SLJIT_F_EQUAL)); X }
  static const sljit_s32 f1[] = {SLJIT_MOV_F64, SLJIT_MOV_F32, SLJIT_NEG_F64, SLJIT_NEG_F32, SLJIT_ABS_F64, SLJIT_ABS_F32, SLJIT_CONV_F32_FROM_F64, SLJIT_CONV_F64_FROM_F32};
  for (int o = 0; o < 8; o++) for (int d = 0; d < NF; d++) for (int s = 0; s < NF; s++) E("fop1 %d %s <- %s", f1[o], F_[d].n, F_[s].n) I(sljit_emit_fop1(C, f1[o], O(F_[d]), O(F_[s]))); X
  static const sljit_s32 ft[] = {SLJIT_CONV_SW_FROM_F64, SLJIT_CONV_SW_FROM_F32, SLJIT_CONV_S32_FROM_F64, SLJIT_CONV_S32_FROM_F32}, ff[] = {SLJIT_CONV_F64_FROM_SW, SLJIT_CONV_F32_FROM_SW, SLJIT_CONV_F64_FROM_S32, SLJIT_CONV_F32_FROM_S32, SLJIT_CONV_F64_FROM_UW, SLJIT_CONV_F32_FROM_UW, SLJIT_CONV_F64_FROM_U32, SLJIT_CONV_F32_FROM_U32};
  for (int o = 0; o < 4; o++) for (int d = 0; d < ND; d++) for (int s = 0; s < NF; s++) E("conv %d %s <- %s", ft[o], D_[d].n, F_[s].n) I(sljit_emit_fop1(C, ft[o], O(D_[d]), O(F_[s]))); X
  for (int o = 0; o < 8; o++) for (int d = 0; d < NF; d++) for (int s = 0; s < NS; s++) E("conv %d %s <- %s", ff[o], F_[d].n, S_[s].n) I(sljit_emit_fop1(C, ff[o], O(F_[d]), O(S_[s]))); X
  static const sljit_s32 fc[] = {SLJIT_F_EQUAL, SLJIT_F_NOT_EQUAL, SLJIT_F_LESS, SLJIT_F_GREATER, SLJIT_UNORDERED, SLJIT_ORDERED, SLJIT_ORDERED_EQUAL, SLJIT_UNORDERED_OR_LESS, SLJIT_ORDERED_GREATER, SLJIT_UNORDERED_OR_NOT_EQUAL};
  for (int o = 0; o < 10; o++) for (int w = 0; w < 2; w++) for (int s = 0; s < NF; s++) for (int t = 0; t < NF; t++) E("fcmp %d %s, %s", fc[o], F_[s].n, F_[t].n) K(sljit_emit_fcmp(C, fc[o] | (w ? SLJIT_32 : 0), O(F_[s]), O(F_[t]))); X
  static const sljit_s32 f2[] = {SLJIT_ADD_F64, SLJIT_SUB_F32, SLJIT_MUL_F64, SLJIT_DIV_F64, SLJIT_DIV_F32};
  for (int o = 0; o < 5; o++) for (int d = 0; d < NF; d++) for (int s = 0; s < NF; s++) for (int t = 0; t < NF; t++) E("fop2 %d %s <- %s, %s", f2[o], F_[d].n, F_[s].n, F_[t].n) I(sljit_emit_fop2(C, f2[o], O(F_[d]), O(F_[s]), O(F_[t]))); X
  for (int o = 0; o < 2; o++) for (int s = 0; s < NF; s++) for (int t = 0; t < NF; t++) { E("copysign %s, %s", F_[s].n, F_[t].n) I(sljit_emit_fop2r(C, o ? SLJIT_COPYSIGN_F32 : SLJIT_COPYSIGN_F64, SLJIT_FR0, O(F_[s]), O(F_[t]))); X E("fselect %d %s", t, F_[s].n) at_ = "flags"; I(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z, R0, R1)); at_ = wname; I(sljit_emit_fselect(C, (t & 1 ? SLJIT_NOT_EQUAL : SLJIT_EQUAL) | (o ? SLJIT_32 : 0), SLJIT_FR0, O(F_[s]), t & 2 ? SLJIT_FR1 : SLJIT_FR0)); X }
  for (int t = 0; t < 4; t++) { E("fset32 %d", t) I(sljit_emit_fset32(C, SLJIT_FR1, t == 0 ? 0.0f : t == 1 ? -0.0f : 1.1f)); X E("fset64 %d", t) I(sljit_emit_fset64(C, SLJIT_FR1, t == 0 ? 0.0 : t == 1 ? -0.0 : t == 2 ? 1.5 : 1.1)); X E("fcopy %d", t) I(sljit_emit_fcopy(C, t == 0 ? SLJIT_COPY_TO_F64 : t == 1 ? SLJIT_COPY32_TO_F32 : t == 2 ? SLJIT_COPY_FROM_F64 : SLJIT_COPY32_FROM_F32, SLJIT_FR1, SLJIT_R3)); X }
  for (int s = 0; s < NF; s++) { E("freturn %s", F_[s].n) ctx(SLJIT_ARGS0(F64)); I(sljit_emit_return(C, SLJIT_MOV_F64, O(F_[s]))); X E("freturn32 %s", F_[s].n) ctx(SLJIT_ARGS0(F32)); I(sljit_emit_return(C, SLJIT_MOV_F32, O(F_[s]))); X }
  E("return void") ctx(SLJIT_ARGS0V()); I(sljit_emit_return_void(C)); X
  for (int a = 0; a < 4; a++) { E("aligned label %d", a) P(sljit_emit_aligned_label(C, a, NULL)); X }
  static const sljit_s32 jt[] = {SLJIT_JUMP, SLJIT_FAST_CALL, SLJIT_EQUAL, SLJIT_LESS, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP, SLJIT_EQUAL | SLJIT_REWRITABLE_JUMP, SLJIT_FAST_CALL | SLJIT_REWRITABLE_JUMP};
  for (int j = 0; j < 7; j++) E("jump %x", jt[j]) at_ = "flags"; I(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, R0, R1)); at_ = wname; K(sljit_emit_jump(C, jt[j])); X
  for (int j = 0; j < 4; j++) E("call %d", j) K(sljit_emit_call(C, (j & 1 ? SLJIT_CALL | SLJIT_CALL_RETURN : SLJIT_CALL) | (j & 2 ? SLJIT_REWRITABLE_JUMP : 0), SLJIT_ARGS4(W, W, F64, W, F32))); X
  for (int a = 1; a <= 15; a += 7) E("custom of %d bytes", a) sljit_u8 b[15]; memset(b, 0x90, 15); I(sljit_emit_op_custom(C, b, a)); X
  for (int o = 0; o < 4; o++) for (int d = 2; d < ND - 1; d++) { E("mem %d %s", o, D_[d].n) U(sljit_emit_mem(C, (o & 1 ? SLJIT_MEM_STORE : 0) | (o & 2 ? SLJIT_MOV_S16 : SLJIT_MOV) | SLJIT_MEM_UNALIGNED, SLJIT_R0, O(D_[d]))); X E("fmem %d %s", o, D_[d].n) U(sljit_emit_fmem(C, (o & 1 ? SLJIT_MEM_STORE : 0) | (o & 2 ? SLJIT_MOV_F32 : SLJIT_MOV_F64) | SLJIT_MEM_UNALIGNED, SLJIT_FR0, O(D_[d]))); X E("pair %d %s", o, D_[d].n) U(sljit_emit_mem(C, (o & 1 ? SLJIT_MEM_STORE : 0) | SLJIT_MOV, SLJIT_REG_PAIR(o & 2 ? SLJIT_R1 : SLJIT_R0, o & 2 ? SLJIT_S1 : SLJIT_R3), O(D_[d]))); X }
  static const sljit_s32 at[] = {SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_U8, SLJIT_MOV_U16, SLJIT_MOV_U32}; for (int o = 0; o < 5; o++) { E("atomic load %d", o) U(sljit_emit_atomic_load(C, at[o], SLJIT_R3, SLJIT_R1)); X for (int t = 0; t < 6; t++) E("atomic store %d, %d", o, t) U(sljit_emit_atomic_store(C, at[o] | SLJIT_SET_ATOMIC_STORED, t & 1 ? SLJIT_R2 : t == 4 ? SLJIT_R0 : SLJIT_S1, t & 2 ? SLJIT_R0 : SLJIT_R1, t == 0 ? SLJIT_R0 : SLJIT_R3)); X }
  for (int rs = 4; rs <= 5; rs++) for (int es = 0; es < 4; es++) for (int fl = 0; fl < (es >= 2 ? 2 : 1); fl++) { sljit_s32 ty = (rs == 4 ? SLJIT_SIMD_REG_128 : SLJIT_SIMD_REG_256) | (es == 0 ? SLJIT_SIMD_ELEM_8 : es == 1 ? SLJIT_SIMD_ELEM_16 : es == 2 ? SLJIT_SIMD_ELEM_32 : SLJIT_SIMD_ELEM_64) | (fl ? SLJIT_SIMD_FLOAT : 0);
    for (int s = 0; s < NF; s++) if ((F_[s].o & SLJIT_MEM)) { E("vload %x %s", ty, F_[s].n) U(sljit_emit_simd_mov(C, ty | SLJIT_SIMD_LOAD, SLJIT_VR0, O(F_[s]))); X E("vstore %x %s", ty, F_[s].n) U(sljit_emit_simd_mov(C, ty | SLJIT_SIMD_STORE, SLJIT_VR0, O(F_[s]))); X } else { E("vmov %x", ty) U(sljit_emit_simd_mov(C, ty, SLJIT_VR1, SLJIT_VR0, 0)); X }
    if (fl) { for (int s = 0; s < NF; s++) { E("vsplat %x %s", ty, F_[s].n) U(sljit_emit_simd_replicate(C, ty, SLJIT_VR0, O(F_[s]))); X for (int l = 0; l < 4; l++) { E("vlane %x %d <- %s", ty, l, F_[s].n) U(sljit_emit_simd_lane_mov(C, ty | (l & 2 ? SLJIT_SIMD_LANE_ZERO : 0), SLJIT_VR0, l & 1, O(F_[s]))); X E("vlane %x %d -> %s", ty, l, F_[s].n) U(sljit_emit_simd_lane_mov(C, ty | SLJIT_SIMD_STORE, SLJIT_VR0, l & (es == 3 && rs == 4 ? 1 : 3), O(F_[s]))); X } } E("vsplat %x 0", ty) U(sljit_emit_simd_replicate(C, ty, SLJIT_VR0, SLJIT_IMM, 0)); X }
    else for (int s = 0; s < NS; s++) { E("vsplat %x %s", ty, S_[s].n) U(sljit_emit_simd_replicate(C, ty, SLJIT_VR0, O(S_[s]))); X for (int l = 0; l < 4; l++) { E("vlane %x %d <- %s", ty, l, S_[s].n) U(sljit_emit_simd_lane_mov(C, ty | (l & 2 ? SLJIT_SIMD_LANE_ZERO : 0), SLJIT_VR0, (l & 1) * ((rs == 4 ? 16 : 32) >> es) / 2, O(S_[s]))); X if (S_[s].o != SLJIT_IMM) E("vlane %x %d -> %s", ty, l, S_[s].n) U(sljit_emit_simd_lane_mov(C, ty | SLJIT_SIMD_STORE | (l & 2 ? SLJIT_SIMD_LANE_SIGNED : 0) | (es < 3 && l == 1 ? SLJIT_32 : 0), SLJIT_VR0, (l & 1) * ((rs == 4 ? 16 : 32) >> es) / 2, O(S_[s]))); X } }
    for (int l = 0; l < 4; l++) E("vreplicate lane %x %d", ty, l) U(sljit_emit_simd_lane_replicate(C, ty, l & 1 ? SLJIT_VR0 : SLJIT_VR1, SLJIT_VR0, l & 2 ? ((rs == 4 ? 16 : 32) >> es) - 1 : 0)); X
    if (es < 3) for (int b = es + 1; b < 4; b++) for (int s = 0; s < NF; s++) for (int g = 0; g < 2; g++) if (!fl || (b == 3 && !g)) E("vextend %x to %d %s", ty, b, F_[s].n) U(sljit_emit_simd_extend(C, ty | (g ? SLJIT_SIMD_EXTEND_SIGNED : 0) | (b == 1 ? SLJIT_SIMD_EXTEND_16 : b == 2 ? SLJIT_SIMD_EXTEND_32 : SLJIT_SIMD_EXTEND_64), SLJIT_VR0, F_[s].o & SLJIT_MEM ? F_[s].o : SLJIT_VR1, F_[s].w)); X
    for (int d = 0; d < ND; d++) for (int w = 0; w < 2; w++) E("vsign %x %s", ty, D_[d].n) U(sljit_emit_simd_sign(C, ty | SLJIT_SIMD_STORE | (w ? SLJIT_32 : 0), SLJIT_VR0, O(D_[d]))); X
    for (int o = 0; o < 3; o++) for (int d = 0; d < 3; d++) for (int s = 0; s < 2; s++) E("vop2 %x %d, %d", ty, o, d) U(sljit_emit_simd_op2(C, ty | (o == 0 ? SLJIT_SIMD_OP2_AND : o == 1 ? SLJIT_SIMD_OP2_OR : SLJIT_SIMD_OP2_XOR), d == 1 ? SLJIT_VR1 : d == 2 ? SLJIT_VR2 : SLJIT_VR0, SLJIT_VR1, s ? SLJIT_MEM1(SLJIT_SP) : SLJIT_VR2, s ? 8 : 0)); X }
  /* the whole entry of a function: only where nothing has been entered yet is the size free, so it is entered a second time */
  for (int a = 0; a < 8; a++) for (int z = 0; z < 3; z++) E("a second function %d, frame %d", a, z) I(sljit_emit_enter(C, 0, a & 1 ? SLJIT_ARGS4(W, W, F64, W, F32) : SLJIT_ARGS0(W), (a & 2 ? 5 : 9) | SLJIT_ENTER_FLOAT(4) | SLJIT_ENTER_VECTOR(4), a & 4 ? 4 : 3, z == 0 ? 0 : z == 1 ? 48 : 20000)); X
  for (int a = 0; a < 2; a++) E("set_context %d", a) I(sljit_set_context(C, 0, SLJIT_ARGS0(W), 5 | SLJIT_ENTER_FLOAT(4), 3, 48)); X
  return n;
}
static int nwide; static void nops(int n) { at_ = "a filler"; for (int i = 0; i < n; i++) I(sljit_emit_op0(C, SLJIT_NOP)); }
static int ncap(void) { static int cc[2]; int *cp = &cc[!!eopt_], c = *cp; if (c) return c; err = armed = 0; C = sljit_create_compiler(NULL); prolog(); a_track = 1; long t = a_total; while (a_total == t) nops(1), c++; c--; a_track = 0; sljit_free_compiler(C); a_blocks = a_bytes = 0; return *cp = c; }
static void one(int k, int cf, int kind, int room, int f) {
  cpu(cf); int nc = ncap(); begin(); a_track = 1; armed = f >= 0; a_fail_at = f < 0 ? -1 : 3 + f; a_mmap_fail_at = -1; C = sljit_create_compiler(NULL); if (!C) mc_fail("create_compiler"); prolog(); if (kind == 0) nops(nc - room); else if (kind == 1) fill(1, cap[1] - room); wide(k); if (err) { at_ = "an instruction after the failure"; I(sljit_emit_op0(C, SLJIT_NOP)); } at_ = "a label"; ctx(SLJIT_ARGS0(W)); ctx(SLJIT_ARGS0(W)); at_ = "a label"; P(sljit_emit_label(C)); epilog(); armed = armed && a_fail_at < 0; void *c = generate(0); if (c && !sljit_get_generated_code_size(C)) mc_fail("no code"); over(c); 
}
static void b_wide(void) {
  if (!nwide) { nwide = wide(-1); caps(); ncap(); } int cf = choose(4), st = 8; int blk = choose((nwide + st - 1) / st); if (!mc_mine()) return;
  for (int k = blk * st; k < nwide && k < blk * st + st; k++) { int step = mc_thorough ? 1 : 5, off = step > 1 ? k % step : 0; dry_ = 1; wide(k); dry_ = 0; sprintf(dbuf, "%s, processor %d, with room\n", wname, cf); one(k, cf, 2, 0, -1);
    for (int room = off; room < 44; room += step) { sprintf(dbuf, "%s, processor %d, %d instructions of two bytes from the end of the store; the next allocation fails\n", wname, cf, room); one(k, cf, 0, room, 0); } if (!off) for (int room = 0; room < 9; room++) { sprintf(dbuf, "%s, processor %d, %d small objects from the end of the object store; the next allocation fails\n", wname, cf, room); one(k, cf, 1, room, 0); } mc_outcome(k * 4 + cf); }
}
static struct mc_space sp[] = {
  {"edges", b_edge, "each of 46 calls, alone and before every other, with 0..15 (27) units left in the instruction or in the object store x each of the first 8 allocations failing"},
  {"pairs", b_pairs, "every pair of 46 calls in a program x each of the first 7 allocations, the executable mapping or nothing failing"},
  {"declared", b_set, "every pair of 46 calls x a memory error declared before each step, once or repeatedly"},
  {"finished", b_again, "every pair of 46 calls, one before and one after the code was generated, and generating again"},
  {"buffers", b_buffer, "each of 46 calls, alone and before every other, into a caller's buffer of every size 0..460 (every seventh for pairs; 0..700, all), which ends at an inaccessible page"},
  {"wide", b_wide, "every emission function x every kind of every operand (about 25,000 calls) x 4 processors (everything with VEX code, nothing optional, no AVX2/LZCNT/TZCNT, everything without VEX code), with room, and with the instruction store ending 0..43 two-byte instructions later (every fifth distance, shifted from call to call; all) or the object store 0..8 objects later, where no more can be had"}};
static const char *as[] = {"jumps are given labels only when both exist or the jump is null", 0};
int main(int c, char **v) { static struct mc_check k = {"P36", "one execution = one program emitted with one failure; every call's return value and the compiler's error are compared, the code is run when there is any, and all memory is accounted for; non-trivial = distinct (calls, outcome)", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
