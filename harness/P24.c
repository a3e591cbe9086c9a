/* P24 a saved and restored code generator.  The programs of P23 and P28 are generated again with the generator saved and
 * restored in the middle of the work: between any two calls of its interface.  Labels, jumps and constants are found
 * again through the documented enumeration.  The resulting code is compared with the same models. */
#include "alloc.h"
#include <sljitLir.h>
static int pat, mode, evt, cuts, last_custom; /* pat 0: a cut before every call; k: before the k-th only; -1: none.  mode 0: go on with the copy, 1: with the original */
static struct sljit_compiler *kept[4096]; static int nkept;
typedef struct { void *o, *n; } Tr; static Tr tr[200000]; static int ntr; static int trs[4096]; /* first entry of every generation */
static struct sljit_compiler **plc(void);
static void xadd(void *o, void *n) { if (ntr >= 200000) mc_die("too many objects"); tr[ntr].o = o; tr[ntr++].n = n; }
static void *xl(void *p) { if (!p) return p; for (int g = 0; g < nkept; g++) for (int i = trs[g], e = g + 1 < nkept ? trs[g + 1] : ntr; i < e; i++) if (tr[i].o == p) { p = tr[i].n; break; } return p; }
static void same_lists(struct sljit_compiler *a, struct sljit_compiler *b, int add) {
  int n = 0; struct sljit_label *l = sljit_get_first_label(a), *m = sljit_get_first_label(b);
  for (; l && m; l = sljit_get_next_label(l), m = sljit_get_next_label(m), n++) { if (add) xadd(l, m); if (sljit_get_label_index(l) != n || sljit_get_label_index(m) != n) mc_fail("label %d has number %lu, the restored one %lu", n, (long)sljit_get_label_index(l), (long)sljit_get_label_index(m)); }
  if (l || m) mc_fail("the restored generator has %s labels than %d", l ? "not more" : "more", n);
  struct sljit_jump *j = sljit_get_first_jump(a), *k = sljit_get_first_jump(b);
  for (n = 0; j && k; j = sljit_get_next_jump(j), k = sljit_get_next_jump(k), n++) {
    if (add) xadd(j, k); int h = sljit_jump_has_label(j), t = sljit_jump_has_target(j);
    if (!h != !sljit_jump_has_label(k) || !t != !sljit_jump_has_target(k) || !sljit_jump_is_mov_addr(j) != !sljit_jump_is_mov_addr(k)) mc_fail("jump %d: label %d, target %d, address %d became %d, %d, %d", n, h, t, sljit_jump_is_mov_addr(j), sljit_jump_has_label(k), sljit_jump_has_target(k), sljit_jump_is_mov_addr(k));
    if (h && sljit_get_label_index(sljit_jump_get_label(j)) != sljit_get_label_index(sljit_jump_get_label(k))) mc_fail("jump %d leads to label %lu, the restored one to %lu", n, (long)sljit_get_label_index(sljit_jump_get_label(j)), (long)sljit_get_label_index(sljit_jump_get_label(k)));
    if (t && sljit_jump_get_target(j) != sljit_jump_get_target(k)) mc_fail("jump %d has target 0x%lx, the restored one 0x%lx", n, (long)sljit_jump_get_target(j), (long)sljit_jump_get_target(k));
  }
  if (j || k) mc_fail("the restored generator has %s jumps than %d", j ? "not more" : "more", n);
  struct sljit_const *c = sljit_get_first_const(a), *d = sljit_get_first_const(b);
  for (n = 0; c && d; c = sljit_get_next_const(c), d = sljit_get_next_const(d), n++) if (add) xadd(c, d);
  if (c || d) mc_fail("the restored generator has %s constants than %d", c ? "not more" : "more", n);
}
static void cut(void) {
  struct sljit_compiler *a = *plc(); sljit_uw n = 1, *buf = sljit_serialize_compiler(a, 0, &n); if (!buf || !n || n % sizeof(sljit_uw)) mc_fail("the state could not be saved (size %lu)", (long)n);
  sljit_uw *cp = malloc(n); memcpy(cp, buf, n); free(buf); /* only the bytes count */
  struct sljit_compiler *b = sljit_deserialize_compiler(cp, n, 0, NULL); if (!b) mc_fail("the state could not be restored"); memset(cp, 0xee, n); free(cp);
  if (nkept >= 4090) mc_die("too many cuts"); cuts++;
  trs[nkept] = ntr; same_lists(a, b, mode == 0);
  if (mode == 0) { kept[nkept++] = a; *plc() = b; } else { sljit_free_compiler(b); }
}
static void cp(void) { last_custom = 0; evt++; if (pat == 0 || pat == evt) cut(); }
static void cpc(void) { if (!last_custom) { cp(); last_custom = 1; } }
static struct sljit_compiler *fresh(void *x) { evt = cuts = nkept = ntr = last_custom = 0; return sljit_create_compiler(x); }
static void free_all(struct sljit_compiler *c) { for (int i = 0; i < nkept; i++) sljit_free_compiler(kept[i]); nkept = ntr = 0; sljit_free_compiler(c); }
static struct sljit_jump *XJ(struct sljit_jump *j) { return xl(j); } static struct sljit_label *XLB(struct sljit_label *l) { return xl(l); } static struct sljit_const *XC(struct sljit_const *c) { return xl(c); }
#define V_(f, c, ...) (cp(), (f)(c, ##__VA_ARGS__))
#define sljit_create_compiler(x) fresh(x)
#define sljit_free_compiler(c) free_all(c)
#define sljit_emit_enter(c, ...) V_(sljit_emit_enter, c, ##__VA_ARGS__)
#define sljit_set_context(c, ...) V_(sljit_set_context, c, ##__VA_ARGS__)
#define sljit_emit_return_void(c) V_(sljit_emit_return_void, c)
#define sljit_emit_return_to(c, ...) V_(sljit_emit_return_to, c, ##__VA_ARGS__)
#define sljit_emit_return(c, ...) V_(sljit_emit_return, c, ##__VA_ARGS__)
#define sljit_emit_op0(c, ...) V_(sljit_emit_op0, c, ##__VA_ARGS__)
#define sljit_emit_op1(c, ...) V_(sljit_emit_op1, c, ##__VA_ARGS__)
#define sljit_emit_op2(c, ...) V_(sljit_emit_op2, c, ##__VA_ARGS__)
#define sljit_emit_op2u(c, ...) V_(sljit_emit_op2u, c, ##__VA_ARGS__)
#define sljit_emit_op2r(c, ...) V_(sljit_emit_op2r, c, ##__VA_ARGS__)
#define sljit_emit_shift_into(c, ...) V_(sljit_emit_shift_into, c, ##__VA_ARGS__)
#define sljit_emit_op_src(c, ...) V_(sljit_emit_op_src, c, ##__VA_ARGS__)
#define sljit_emit_op_dst(c, ...) V_(sljit_emit_op_dst, c, ##__VA_ARGS__)
#define sljit_emit_fop1(c, ...) V_(sljit_emit_fop1, c, ##__VA_ARGS__)
#define sljit_emit_fop2(c, ...) V_(sljit_emit_fop2, c, ##__VA_ARGS__)
#define sljit_emit_fop2r(c, ...) V_(sljit_emit_fop2r, c, ##__VA_ARGS__)
#define sljit_emit_fset32(c, ...) V_(sljit_emit_fset32, c, ##__VA_ARGS__)
#define sljit_emit_fset64(c, ...) V_(sljit_emit_fset64, c, ##__VA_ARGS__)
#define sljit_emit_fcopy(c, ...) V_(sljit_emit_fcopy, c, ##__VA_ARGS__)
#define sljit_emit_label(c) V_(sljit_emit_label, c)
#define sljit_emit_aligned_label(c, ...) V_(sljit_emit_aligned_label, c, ##__VA_ARGS__)
#define sljit_emit_jump(c, ...) V_(sljit_emit_jump, c, ##__VA_ARGS__)
#define sljit_emit_call(c, ...) V_(sljit_emit_call, c, ##__VA_ARGS__)
#define sljit_emit_cmp(c, ...) V_(sljit_emit_cmp, c, ##__VA_ARGS__)
#define sljit_emit_fcmp(c, ...) V_(sljit_emit_fcmp, c, ##__VA_ARGS__)
#define sljit_emit_op2cmpz(c, ...) V_(sljit_emit_op2cmpz, c, ##__VA_ARGS__)
#define sljit_emit_ijump(c, ...) V_(sljit_emit_ijump, c, ##__VA_ARGS__)
#define sljit_emit_icall(c, ...) V_(sljit_emit_icall, c, ##__VA_ARGS__)
#define sljit_emit_op_flags(c, ...) V_(sljit_emit_op_flags, c, ##__VA_ARGS__)
#define sljit_emit_select(c, ...) V_(sljit_emit_select, c, ##__VA_ARGS__)
#define sljit_emit_fselect(c, ...) V_(sljit_emit_fselect, c, ##__VA_ARGS__)
#define sljit_emit_mem(c, ...) V_(sljit_emit_mem, c, ##__VA_ARGS__)
#define sljit_emit_fmem(c, ...) V_(sljit_emit_fmem, c, ##__VA_ARGS__)
#define sljit_emit_simd_mov(c, ...) V_(sljit_emit_simd_mov, c, ##__VA_ARGS__)
#define sljit_emit_simd_op2(c, ...) V_(sljit_emit_simd_op2, c, ##__VA_ARGS__)
#define sljit_emit_atomic_load(c, ...) V_(sljit_emit_atomic_load, c, ##__VA_ARGS__)
#define sljit_emit_atomic_store(c, ...) V_(sljit_emit_atomic_store, c, ##__VA_ARGS__)
#define sljit_get_local_base(c, ...) V_(sljit_get_local_base, c, ##__VA_ARGS__)
#define sljit_emit_const(c, ...) V_(sljit_emit_const, c, ##__VA_ARGS__)
#define sljit_emit_op_addr(c, ...) V_(sljit_emit_op_addr, c, ##__VA_ARGS__)
#define sljit_emit_op_custom(c, ...) (cpc(), (sljit_emit_op_custom)(c, ##__VA_ARGS__))
#define sljit_generate_code(c, ...) V_(sljit_generate_code, c, ##__VA_ARGS__)
#define sljit_set_label(j, l) (cp(), (sljit_set_label)(XJ(j), XLB(l)))
#define sljit_set_target(j, t) (cp(), (sljit_set_target)(XJ(j), t))
#define sljit_get_label_addr(l) (sljit_get_label_addr)(XLB(l))
#define sljit_get_label_abs_addr(l) (sljit_get_label_abs_addr)(XLB(l))
#define sljit_get_jump_addr(j) (sljit_get_jump_addr)(XJ(j))
#define sljit_get_const_addr(c) (sljit_get_const_addr)(XC(c))
static void (*inner_cb)(void);
static void outer_cb(void) { if (inner_cb) inner_cb(); if (pat < 0) return; if (pat == 0) mc_desc("saved and restored before every call of the interface, going on with the %s\n", mode ? "original" : "restored state"); else mc_desc("saved and restored before call %d, going on with the %s\n", pat, mode ? "original" : "restored state"); }
static void (**cbp(void))(void) { mc_describe_cb = outer_cb; return &inner_cb; }
#define mc_describe_cb (*cbp())
#define P28_LIB
#include "P28.c"
#define P31_LIB
#define P31_FEW (!mc_thorough)
#define b_frames b_frames31
#include "P31.c"
#undef b_frames
static struct sljit_compiler **plc(void) { return &lc; }
/* how the cuts are chosen */
static void every(void) { pat = 0; mode = choose(2); }
static void copy_only(void) { pat = 0; mode = 0; }
static void single(int n) { pat = choose(n + 1); mode = 0; }
#define PICK() (mode == 0 && pat)
static void s_seq2(void) { static int n; single(9); b_seq2(); } static void s_seq2e(void) { every(); b_seq2(); } static void s_seq3(void) { copy_only(); b_seq3(); } static void s_seq3s(void) { single(10); b_seq3(); }
static void s_opflags(void) { copy_only(); b_opflags(); } static void s_select(void) { copy_only(); b_select(); } static void s_fselect(void) { copy_only(); b_fselect(); } static void s_jcc(void) { copy_only(); b_jcc(); } static void s_carry(void) { copy_only(); b_carry(); } static void s_cas(void) { copy_only(); b_cas(); }
static void s_g2(void) { every(); b_g2(); } static void s_g2s(void) { static const int q[] = {1, 5, 9, 12, 14, 15, 17, 20}; mode = 0; pat = mc_thorough ? 1 + choose(26) : q[choose(8)]; b_g2(); } static void s_g3(void) { copy_only(); b_g3(); }
static void s_fast(void) { every(); b_fast(); } static void s_calls(void) { every(); b_calls(); } static void s_rewrite(void) { copy_only(); b_rewrite(); } static void s_rwcall(void) { copy_only(); b_rwcall(); } static void s_far(void) { copy_only(); b_far(); } static void s_dist(void) { copy_only(); b_dist(); }
static void s_const(void) { copy_only(); b_const(); } static void s_const2(void) { copy_only(); b_const2(); } static void s_addr(void) { copy_only(); b_addr(); } static void s_buf(void) { copy_only(); b_buffers(); }
/* P31's functions */
static void s_entry(void) { copy_only(); b_entry(); } static void s_frames31(void) { copy_only(); b_frames31(); } static void s_returns(void) { copy_only(); b_returns(); } static void s_calls31(void) { copy_only(); b_calls31(); } static void s_tail(void) { copy_only(); b_tail(); }
static void s_regarg(void) { copy_only(); b_regarg(); } static void s_returnto(void) { copy_only(); b_returnto(); } static void s_kept(void) { every(); b_returnto_kept(); } static void s_kepts(void) { single(26); b_returnto_kept(); } static void s_nest(void) { every(); b_nest(); } static void s_nests(void) { single(30); b_nest(); }
/* ---- large programs: several fragments of code and of descriptions ---- */
static int fn_, fp_, fk_; static char fd_[300]; static void fdesc_(void) { mc_desc("%s", fd_); }
static void big(int n, int pd, int kind, int where) { /* n blocks; kind: 0 forward, 1 labels set at the end, 2 threaded backwards, 3 constants, 4 aligned labels */
  sprintf(fd_, "%d blocks of %d bytes, kind %d, cut in block %d, code place %d\n", n, pd, kind, where, place); mc_describe_cb = fdesc_; mc_predesc();
  static struct sljit_label *l[1200]; static struct sljit_jump *j[1200], *e[1200]; static struct sljit_const *c[1200]; int sv = pat; pat = -1; lists(); lir_begin(); lir_enter(0); struct sljit_jump *first = NULL, *last = NULL;
  if (kind == 2) first = jmp(sljit_emit_jump(lc, SLJIT_JUMP));
  for (int i = 0; i < n; i++) {
    if (i == where) cut();
    l[i] = kind == 4 ? lab(4) : lab(0); if (kind == 1 && i) { if (i & 1) sljit_set_label(j[i - 1], l[i]); }
    OK(sljit_emit_op2(lc, SLJIT_MUL, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, 31)); OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_IMM, i));
    if (kind == 3) { c[i] = sljit_emit_const(lc, SLJIT_MOV, SLJIT_R3, 0, i * 0x100000001l); if (!c[i]) mc_fail("no constant"); OK(sljit_emit_op2(lc, SLJIT_XOR, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_R3, 0)); }
    if (kind == 2) { if (i) { j[i] = jmp(sljit_emit_jump(lc, i % 3 ? SLJIT_JUMP : SLJIT_JUMP | SLJIT_REWRITABLE_JUMP)); sljit_set_label(j[i], l[i - 1]); } else last = jmp(sljit_emit_jump(lc, SLJIT_JUMP)); }
    else { j[i] = i % 3 == 2 ? jmp(sljit_emit_cmp(lc, SLJIT_EQUAL, SLJIT_R1, 0, SLJIT_R1, 0)) : jmp(sljit_emit_jump(lc, i % 3 ? SLJIT_JUMP : SLJIT_JUMP | SLJIT_REWRITABLE_JUMP)); if (kind != 1 && i) sljit_set_label(j[i - 1], l[i]); }
    pad(pd);
  }
  if (where == n) cut(); struct sljit_label *en = lab(0); if (kind == 2) { sljit_set_label(first, l[n - 1]); sljit_set_label(last, en); } else { if (kind == 1) for (int i = 0; i + 1 < n; i++) if (!(i + 1 & 1)) sljit_set_label(j[i], l[i + 1]); sljit_set_label(j[n - 1], en); }
  lir_leave(0); if (where == n + 1) cut(); pat = sv; gen(); u64 la = 0, ca[1200]; for (int i = 0; i < n; i++) { u64 a = sljit_get_label_addr(l[i]); CODE_OK(a, "label address"); if (i && a <= la) mc_fail("label %d is not behind label %d", i, i - 1); la = a; if (kind == 4 && (a & 15)) mc_fail("label %d is not aligned", i); if (kind == 3) ca[i] = sljit_get_const_addr(c[i]); }
  sljit_free_compiler(lc); lc = NULL;
  for (int step = 0; step < (kind == 3 ? 2 : 1); step++) {
    if (step) for (int i = 0; i < n; i++) sljit_set_const(ca[i], SLJIT_MOV, i * 0x7000000009l, xoff);
    u64 x = 7; for (int q = 0; q < n; q++) { int i = kind == 2 ? n - 1 - q : q; x = x * 31 + i; if (kind == 3) x ^= i * (step ? 0x7000000009l : 0x100000001l); }
    for (int again = 0; again < 2; again++) { begin_state(); init0.r[SLJIT_R0] = 7; if (!sp_) sp_ = 0x7ff000000000; cx->sp = sp_; want = init0; memset(want.mark, 0, sizeof want.mark); nanp = NULL; to_real(&init0, 0); ((void (*)(void))code)(); if (cx->sp != sp_) { sp_ = cx->sp; continue; } want.r[SLJIT_R0] = x; if (kind == 3) want.r[SLJIT_R3] = (n - 1) * (step ? 0x7000000009l : 0x100000001l); cmp_state(&init0, 0); runs_++; hh = mc_hash(hh, &x, 8); break; }
  }
  mc_steps(runs_ * n); mc_outcome(hh); runs_ = 0; hh = 0; ungen();
}
static void b_many(void) { static const int ns[] = {1, 2, 5, 40, 80, 130, 170, 260, 600, 1150}; int n = choose_from(ns), pd = choose(2) ? 130 : 0, k = choose(5), w = choose(8); mode = choose(2); place = choose(2); pat = -1; if (!mc_mine()) return; big(n, pd, k, w == 7 ? n + 1 : w == 6 ? n : n * w / 6); }
/* every fill level of a fragment */
static void b_fill(void) { int pd = choose(mc_thorough ? 140 : 70), k = choose(5), w = choose(4); mode = choose(2); place = 0; pat = -1; if (!mc_mine()) return; big(3, mc_thorough ? 3960 + pd : 4000 + 2 * pd, k, w); }
static void b_fill2(void) { int pd = choose(64), n = 30 + choose(12) * 12, k = choose(5); mode = 0; place = 0; pat = -1; if (!mc_mine()) return; big(n, pd, k, n / 2); }
/* ---- frames: what emit_enter established must survive ---- */
__attribute__((naked)) static void tramp(void *fn, u64 *io) { /* io: 0-3 integer arguments, 4-7 float arguments, 8-13 callee-saved in and out, 14 result, 15 float result */
  __asm__("push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15; push %rsi; mov %rdi, %rax; mov %rsi, %r10;"
    "mov 64(%r10), %rbx; mov 72(%r10), %rbp; mov 80(%r10), %r12; mov 88(%r10), %r13; mov 96(%r10), %r14; mov 104(%r10), %r15;"
    "movsd 32(%r10), %xmm0; movsd 40(%r10), %xmm1; movsd 48(%r10), %xmm2; movsd 56(%r10), %xmm3;"
    "mov (%r10), %rdi; mov 8(%r10), %rsi; mov 16(%r10), %rdx; mov 24(%r10), %rcx; call *%rax; pop %r10;"
    "mov %rbx, 64(%r10); mov %rbp, 72(%r10); mov %r12, 80(%r10); mov %r13, 88(%r10); mov %r14, 96(%r10); mov %r15, 104(%r10); mov %rax, 112(%r10); movsd %xmm0, 120(%r10);"
    "pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret");
}
static void b_frames(void) {
  static const s32 at[] = {SLJIT_ARGS0(W), SLJIT_ARGS1(W, W), SLJIT_ARGS3(W, W, 32, W), SLJIT_ARGS4(W, W, W_R, W, W_R), SLJIT_ARGS4(F64, W, F64, 32, F32), SLJIT_ARGS3(32, F64, F64, W_R)};
  static const int atn[] = {0, 1, 3, 4, 4, 3}; static const char ak[6][5] = {"", "w", "wdw", "wrwr", "wFdf", "FFr"};
  int a = choose(6), sc = choose(5), sv = choose(7), vf = choose(3), ls = choose(6), ctx = choose(2), vex = choose(2) && sljit_has_cpu_feature(SLJIT_HAS_AVX) ? SLJIT_ENTER_USE_VEX : 0; pat = choose(30); mode = 0;
  static const int lsz[] = {0, 8, 120, 4096, 5000, 20000}; int loc = lsz[ls], S = (int[]){0, 1, 3, 7, 4}[sc], nw = 0, nr = 0, nf = 0; for (int i = 0; i < atn[a]; i++) { char k = ak[a][i]; if (k == 'F' || k == 'f') nf++; else if (k == 'r') nr = i + 1; else nw++; }
  if (sv < nw || S < nr || S < atn[a] - nf || S + sv > 13) return; int FS = vf == 0 ? nf : vf == 1 ? 6 : 15, VS = vf == 2 ? 4 : 0; if (S < 1 && a != 4) return; if (!mc_mine()) return;
  sprintf(fd_, "argument list %d, %d scratch, %d saved, %d float, %d vector registers, %d bytes of locals, %s set_context\n", a, S, sv, FS, VS, loc, ctx ? "with" : "without"); mc_describe_cb = fdesc_; mc_predesc(); lists();
  lir_begin(); s32 scr = S | SLJIT_ENTER_FLOAT(FS) | SLJIT_ENTER_VECTOR(VS); OK(sljit_emit_enter(lc, vex, at[a], scr, sv, loc)); if (ctx) OK(sljit_set_context(lc, vex, at[a], scr, sv, loc));
  int w = 0, f = 0, o = 0; sljit_sw lo = (sljit_sw)LO;
  for (int i = 0; i < atn[a]; i++) { char k = ak[a][i]; if (k == 'F' || k == 'f') { f++; OK(sljit_emit_fop1(lc, k == 'F' ? SLJIT_MOV_F64 : SLJIT_MOV_F32, SLJIT_MEM0(), lo + 8 * i, SLJIT_FR(f - 1), 0)); } else if (k == 'r') { OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_MEM0(), lo + 8 * i, SLJIT_R(o), 0)); o++; } else { OK(sljit_emit_op1(lc, k == 'd' ? SLJIT_MOV32 : SLJIT_MOV, SLJIT_MEM0(), lo + 8 * i, SLJIT_S(w), 0)); w++; o++; } }
  if (loc >= 8) { OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_IMM, 11)); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), loc - 8, SLJIT_IMM, 22)); }
  for (int i = 0; i < sv; i++) OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_S(i), 0, SLJIT_IMM, 1000 + i)); for (int i = 0; i < S; i++) OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_R(i), 0, SLJIT_IMM, 2000 + i));
  for (int i = 0; i < FS; i += 5) OK(sljit_emit_fset64(lc, SLJIT_FR(i), 1.5 + i)); if (VS) { OK(sljit_emit_simd_mov(lc, SLJIT_SIMD_LOAD | SLJIT_SIMD_REG_128 | SLJIT_SIMD_ELEM_64, SLJIT_VR3, SLJIT_MEM0(), lo + 256)); OK(sljit_emit_simd_mov(lc, SLJIT_SIMD_STORE | SLJIT_SIMD_REG_128 | SLJIT_SIMD_ELEM_64, SLJIT_VR3, SLJIT_MEM0(), lo + 288)); }
  u64 x = 5; if (loc >= 8) { x = 33; if (loc == 8) x = 44; OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_MEM0(), lo + 128, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_MEM1(SLJIT_SP), loc - 8)); }
  for (int i = 0; i < sv; i++) { OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_MEM0(), lo + 128, SLJIT_MEM0(), lo + 128, SLJIT_S(i), 0)); x += 1000 + i; } if (loc < 8) x += -5 + 77;
  int rt = at[a] & 7; if (rt == SLJIT_ARG_TYPE_F64) { OK(sljit_emit_fset64(lc, SLJIT_FR0, -2.25)); OK(sljit_emit_return(lc, SLJIT_MOV_F64, SLJIT_FR0, 0)); } else OK(sljit_emit_return(lc, rt == SLJIT_ARG_TYPE_32 ? SLJIT_MOV32 : SLJIT_MOV, SLJIT_MEM0(), lo + 128));
  place = 0; gen(); sljit_free_compiler(lc); lc = NULL;
  u64 io[16], in[16]; for (int i = 0; i < 16; i++) io[i] = in[i] = 0x1111111111111111ull * (i + 1) + i; for (int i = 0; i < 4; i++) { double d = 3.25 + i; memcpy(&io[4 + i], &d, 8); float g = 9.5f; if (a == 4 && i == 1) { u32 u; memcpy(&u, &g, 4); io[4 + i] = u; } in[4 + i] = io[4 + i]; }
  memset(LO, 0, AR); *(u64 *)(LO + 128) = 77; for (int i = 0; i < 16; i++) LO[256 + i] = 3 * i + 1; if (loc >= 8 && loc != 8) ; tramp(code, io);
  for (int i = 8; i < 14; i++) if (io[i] != in[i]) mc_fail("callee-saved register %d was changed", i - 8);
  int ii = 0, fi = 0; for (int i = 0; i < atn[a]; i++) { char k = ak[a][i]; u64 g = *(u64 *)(LO + 8 * i), e; if (k == 'F') e = in[4 + fi++]; else if (k == 'f') e = (u32)in[4 + fi++]; else { e = in[ii++]; if (k == 'd') e = (u32)e; } if (g != e) mc_fail("argument %d was 0x%lx, must be 0x%lx", i, g, e); }
  if (*(u64 *)(LO + 128) != x) mc_fail("the sum of local and saved values is %lu, must be %lu", *(u64 *)(LO + 128), x); if (VS && memcmp(LO + 256, LO + 288, 16)) mc_fail("the vector register did not hold its value");
  if (rt == SLJIT_ARG_TYPE_F64) { double d = -2.25; if (memcmp(&io[15], &d, 8)) mc_fail("the result is wrong"); } else if (rt == SLJIT_ARG_TYPE_32 ? (u32)io[14] != (u32)x : io[14] != x) mc_fail("the result is %lu, must be %lu", io[14], x);
  mc_steps(1); hh = mc_hash(0, fd_, strlen(fd_)); mc_outcome(hh); hh = 0; ungen();
}
/* ---- states that cannot be saved or restored ---- */
static void sample(int n) { /* a state with some of everything */
  lir_begin(); lir_enter(0); struct sljit_label *l = NULL; for (int i = 0; i < n; i++) { struct sljit_jump *j = jmp(sljit_emit_jump(lc, SLJIT_JUMP)); if (!sljit_emit_const(lc, SLJIT_MOV, SLJIT_R0, 0, 5)) mc_fail("no constant"); if (i) { jmp(sljit_emit_jump(lc, SLJIT_EQUAL | 0 * i ? SLJIT_JUMP : SLJIT_JUMP)); } l = lab(i & 1 ? 3 : 0); if (i % 3) sljit_set_label(j, l); else sljit_set_target(j, 0x12345678); pad(n == 3 ? 2100 : 7); }
}
static u64 sample_end(void) { struct sljit_jump *j; struct sljit_label *en; int n = 0; en = lab(0); for (j = sljit_get_first_jump(lc); j; j = sljit_get_next_jump(j)) if (!sljit_jump_has_label(j) && !sljit_jump_has_target(j)) { (sljit_set_label)(j, en); n++; } lir_leave(0); place = 0; gen(); u64 h = csize; ungen(); return h * 16 + n; }
static void b_trunc(void) {
  int n = choose(9), odd = choose(2); pat = -1; mode = 0; if (!mc_mine()) return; lists(); sprintf(fd_, "a state with %d labels, cut short%s\n", n, odd ? " inside a word" : ""); mc_describe_cb = fdesc_; mc_predesc(); sample(n); sljit_uw sz = 0, *b = sljit_serialize_compiler(lc, 0, &sz); if (!b) mc_fail("the state could not be saved");
  static uint8_t *pg; size_t PG = 1 << 16; if (!pg) { pg = mmap(NULL, PG + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (pg == MAP_FAILED || mprotect(pg + PG, 4096, PROT_NONE)) mc_die("no memory"); }
  for (size_t k = 0; k < sz; k += odd ? 1 : 8) { if (odd && k % 8 == 0) continue; size_t room = (k + 7) & ~7ul; uint8_t *q = pg + PG - room; memcpy(q, b, k); ASnap s = a_snap(); a_track = 1; struct sljit_compiler *c = sljit_deserialize_compiler((sljit_uw *)q, k, 0, NULL); a_track = 0; if (c) mc_fail("%zu of %lu bytes were accepted", k, (long)sz); if (a_snap().blocks != s.blocks) mc_fail("%ld blocks of memory were lost when %zu of %lu bytes were refused", a_snap().blocks - s.blocks, k, (long)sz); mc_steps(1); }
  struct sljit_compiler *c = sljit_deserialize_compiler(b, sz, 0, NULL); if (!c) mc_fail("the whole state was refused"); same_lists(lc, c, 0); free(b); u64 h1 = sample_end(); sljit_free_compiler(lc); lc = c; u64 h2 = sample_end(); sljit_free_compiler(lc); lc = NULL; if (h1 != h2) mc_fail("the restored state gives different code"); mc_outcome(h1);
}
static void b_nomem(void) {
  int n = choose(6), what = choose(3), k = choose(mc_thorough ? 40 : 20); if (what == 2 && k) return; pat = -1; mode = 0; if (!mc_mine()) return; lists(); sprintf(fd_, "a state with %d labels, %s %d\n", n, what == 0 ? "saved without memory after allocation" : what == 1 ? "restored without memory after allocation" : "saved after an error", k); mc_describe_cb = fdesc_; mc_predesc();
  sample(n); if (what == 2) { sljit_set_compiler_memory_error(lc); sljit_uw sz = 99, *b = sljit_serialize_compiler(lc, 0, &sz); if (b || sz) mc_fail("a generator in an error state was saved"); sljit_free_compiler(lc); lc = NULL; mc_steps(1); mc_outcome(n); return; }
  ASnap s = a_snap(); sljit_uw sz = 99, *b; if (what == 0) { a_track = 1; a_fail_at = k; } b = sljit_serialize_compiler(lc, 0, &sz); int hit = a_fail_at < 0; a_track = 0; a_fail_at = -1; int failed = 0;
  if (what == 0 && hit) { failed = 1; if (b || sz) mc_fail("saving without memory reported success"); if (a_snap().blocks != s.blocks) mc_fail("memory was lost"); if (sljit_get_compiler_error(lc)) { if (sljit_get_compiler_error(lc) != SLJIT_ERR_ALLOC_FAILED) mc_fail("the failure left error %d", sljit_get_compiler_error(lc)); sljit_free_compiler(lc); lc = NULL; mc_steps(1); mc_outcome(n + 100); return; } /* like every call that fails for lack of memory */ b = sljit_serialize_compiler(lc, 0, &sz); } if (!b) mc_fail("the state could not be saved");
  struct sljit_compiler *c; if (what == 1) { s = a_snap(); a_track = 1; a_fail_at = k; c = sljit_deserialize_compiler(b, sz, 0, NULL); hit = a_fail_at < 0; a_track = 0; a_fail_at = -1; if (hit) { failed = 1; if (c) mc_fail("restoring without memory reported success"); if (a_snap().blocks != s.blocks) mc_fail("%ld blocks of memory were lost", a_snap().blocks - s.blocks); c = sljit_deserialize_compiler(b, sz, 0, NULL); } } else c = sljit_deserialize_compiler(b, sz, 0, NULL);
  if (!c) mc_fail("the state could not be restored"); free(b); same_lists(lc, c, 0); u64 h1 = sample_end(); sljit_free_compiler(lc); lc = c; u64 h2 = sample_end(); sljit_free_compiler(lc); lc = NULL; if (h1 != h2) mc_fail("the restored state gives different code"); mc_steps(1); mc_outcome(h1 * 64 + what * 32 + failed);
}
static struct mc_space sp[] = {{"sequences-2", s_seq2, "every legal sequence of 2 of about 100 instructions, cut before each single call or before all"}, {"sequences-2-original", s_seq2e, "the same, going on with the original"}, {"sequences-3", s_seq3, "every sequence of 3, cut before every call"}, {"op-flags", s_opflags, "P23's op-flags space, cut everywhere (in particular between setting and using flags)"}, {"select", s_select, "likewise"}, {"fselect", s_fselect, "likewise"}, {"jumps", s_jcc, "likewise"}, {"carry", s_carry, "likewise"}, {"atomic", s_cas, "likewise"},
  {"graphs-2", s_g2, "P28's graphs of 2 blocks, cut everywhere, going on with either state"}, {"graphs-2-single", s_g2s, "the same, cut before one call only, one of 8 (26)"}, {"graphs-3", s_g3, "graphs of 3 blocks, cut everywhere"}, {"fast-calls", s_fast, "P28's space of that name, cut everywhere"}, {"calls", s_calls, "likewise"}, {"rewrite", s_rewrite, "likewise"}, {"rewrite-calls", s_rwcall, "likewise"}, {"far", s_far, "likewise"}, {"constants", s_const, "likewise"}, {"constants-2", s_const2, "likewise"}, {"addresses", s_addr, "likewise"}, {"buffers", s_buf, "likewise"},
  {"many", b_many, "1..1150 blocks (up to 200 kB of code) with labels, jumps, constants or aligned labels in 5 arrangements, cut at 8 places, going on with either state"}, {"fill", b_fill, "every fill level around the size of a code fragment"}, {"fill-2", b_fill2, "30..162 blocks x 64 sizes"},
  {"frames", b_frames, "6 argument lists x 5 scratch x 7 saved x 3 float/vector register counts x 6 local sizes, with and without set_context, cut before each call"}, {"entry", s_entry, "P31's argument lists, cut everywhere"}, {"function-frames", s_frames31, "P31's frames, cut everywhere"}, {"returns", s_returns, "P31's return forms, cut everywhere"}, {"function-calls", s_calls31, "P31's calls, cut everywhere"}, {"tail-calls", s_tail, "P31's tail calls, cut everywhere"},
 {"register-arguments", s_regarg, "P31's functions with register arguments and kept registers (quick: as many kept by the function in the middle), cut everywhere"}, {"return-to", s_returnto, "P31's returns to another place, cut everywhere"}, {"return-to-kept", s_kept, "the same out of functions with kept registers, cut everywhere, going on with either state"}, {"return-to-kept-single", s_kepts, "the same, cut before one of the first 26 calls"}, {"recursion", s_nest, "P31's recursions, cut everywhere, going on with either state"}, {"recursion-single", s_nests, "the same, cut before one of the first 30 calls"},
 {"cut-short", b_trunc, "every shorter length of 9 saved states, ending at an inaccessible page"}, {"no-memory", b_nomem, "each allocation of saving and restoring failing"}, {"sequences-3-single", s_seq3s, "every sequence of 3, cut before each single call (thorough only)"}};
static const char *as[] = {"x86-64", "a restored state is used with the labels, jumps and constants found by the documented enumeration", 0};
int main(int c, char **v) { static struct mc_check k = {"P24", "one execution = one program assembled with its generator saved and restored at the chosen points, and run; lists of labels, jumps and constants compared at every cut, results compared with the models of P23 and P28; non-trivial = distinct results", sp, sizeof sp / sizeof *sp, as}; const char *t = getenv("VERIF_TIER"); if (!t || strcmp(t, "thorough")) k.nspaces--; return mc_main(c, v, &k); }
