/* P28 jumps, labels, rewritable constants.  Programs are graphs of blocks; every block records its number, so that the
 * whole path through the generated code is compared with the graph.  The registers, both memory areas and the local
 * area are compared as well. */
#define LIR_LIB
#include "P23.c"
static char gb[3000]; static int gn;
static void gdesc(void) { mc_desc("%s", gb); }
#define G(...) (gn += gn < 2700 ? sprintf(gb + gn, __VA_ARGS__) : 0)
/* ---- where the code goes ---- */
/* 0 the default allocator, 1 a caller's buffer in high memory, 2 a buffer in low memory */
static int place; static struct sljit_generate_code_buffer gbuf; static sljit_sw xoff;
#define FARX 0x520000000000ull
#define NBIG (1u << 20)
static uint8_t *fw, *lowx;
static void places(void) {
  if (fw) return; fw = mmap((void *)FARX, NBIG, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (fw != (void *)FARX) mc_die("no memory for far code");
  lowx = mmap((void *)0x31000000, NBIG, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (lowx != (void *)0x31000000) mc_die("no low memory for code");
}
static uint8_t *cstart; static u64 csize;
static void gen(void) {
  places(); if (place == 0) { code = sljit_generate_code(lc, 0, NULL); }
  else { gbuf.buffer = place == 1 ? fw : lowx; gbuf.size = NBIG; gbuf.executable_offset = 0; code = sljit_generate_code(lc, SLJIT_GENERATE_CODE_BUFFER, &gbuf); }
  if (!code) mc_fail("generate_code failed: error %d", sljit_get_compiler_error(lc));
  xoff = sljit_get_executable_offset(lc); cstart = code; csize = sljit_get_generated_code_size(lc);
}
static void ungen(void) { if (place == 0 && code) sljit_free_code(code, NULL); code = NULL; }
/* ---- pieces ---- */
static void pad(int n) { uint8_t b[15]; memset(b, 0x90, 15); while (n >= 15) raw(b, 15), n -= 15; if (n) raw(b, n); }
static void d32(uint8_t *b, const void *p) { u32 d = (u32)(u64)p; memcpy(b, &d, 4); }
static void raw_budget(void) { uint8_t a[7] = {0xff, 0x0c, 0x25}; d32(a + 3, &cx->budget); raw(a, 7); raw((uint8_t[]){0x79, 15}, 2); uint8_t b[8] = {0x48, 0x8b, 0x24, 0x25}; d32(b + 4, &cx->sp); raw(b, 8); uint8_t c[7] = {0xff, 0x24, 0x25}; d32(c + 3, &cx->exit); raw(c, 7); }
/* S1 = S1 * 16 + id, flags untouched (two lea) */
static void raw_trace(int id) { int m = sljit_get_register_index(SLJIT_GP_REGISTER, SLJIT_S1); uint8_t b[8] = {0x48 | (m >> 3 << 2) | (m >> 3 << 1), 0x8d, (m & 7) << 3 | 4, 0xc0 | (m & 7) << 3 | 5, id, 0, 0, 0}; raw(b, 8); }
#define TR(t, id) ((t) * 8 + (id))
static struct sljit_label *lab(int al) { struct sljit_label *l = al ? sljit_emit_aligned_label(lc, al, NULL) : sljit_emit_label(lc); if (!l) mc_fail("no label: error %d", sljit_get_compiler_error(lc)); return l; }
static struct sljit_jump *jmp(struct sljit_jump *j) { if (!j) mc_fail("no jump: error %d", sljit_get_compiler_error(lc)); return j; }
/* jump kinds; a decision bit is in S2, its complement's zero flag is computed just before */
enum { J_NONE, J_JUMP, J_JUMP_RW, J_EQ, J_NE_RW, J_CMP, J_CMP_RW, J_FEQ, J_FNE_RW, J_CMPZ, J_REG, J_MEM, J_TAB, J_FEQ32, J_CARRY, J_OPADD, NJ };
static const char *kname[] = {"fall through", "jump", "rewritable jump", "jump if bit=0", "rewritable jump if bit=1", "cmp bit==0", "rewritable cmp bit>0", "fcmp ordered equal (bit=0)", "rewritable fcmp unordered or not equal (bit=1)", "op2cmpz (bit=1)", "ijump register", "ijump memory", "ijump table", "fcmp32 ordered equal (bit=0)", "jump if carry (bit=1)", "ijump to added address"};
#define BIT SLJIT_S2, 0
/* emits; pj receives jumps whose target must be set; returns 0 for an always-taken one; sense = bit value that takes it, 2 = always, 3 = never */
static const int jsense[] = {3, 2, 2, 0, 1, 0, 1, 0, 1, 1, 2, 2, 2, 0, 1, 2};
static struct sljit_jump *jump_kind(int k, int blk) {
  struct sljit_jump *j = NULL;
  switch (k) {
  case J_NONE: return NULL;
  case J_JUMP: return jmp(sljit_emit_jump(lc, SLJIT_JUMP)); case J_JUMP_RW: return jmp(sljit_emit_jump(lc, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP));
  case J_EQ: case J_NE_RW: OK(sljit_emit_op2u(lc, SLJIT_AND | SLJIT_SET_Z, BIT, SLJIT_IMM, 1)); return jmp(sljit_emit_jump(lc, k == J_EQ ? SLJIT_EQUAL : SLJIT_NOT_EQUAL | SLJIT_REWRITABLE_JUMP));
  case J_CMP: return jmp(sljit_emit_cmp(lc, SLJIT_EQUAL, BIT, SLJIT_IMM, 0)); case J_CMP_RW: return jmp(sljit_emit_cmp(lc, SLJIT_SIG_GREATER | SLJIT_REWRITABLE_JUMP, BIT, SLJIT_IMM, 0));
  case J_FEQ: case J_FNE_RW: OK(sljit_emit_fop1(lc, SLJIT_CONV_F64_FROM_SW, SLJIT_FR0, 0, BIT)); OK(sljit_emit_fset64(lc, SLJIT_FR1, 0.0)); return jmp(sljit_emit_fcmp(lc, k == J_FEQ ? SLJIT_ORDERED_EQUAL : SLJIT_UNORDERED_OR_NOT_EQUAL | SLJIT_REWRITABLE_JUMP, SLJIT_FR0, 0, SLJIT_FR1, 0));
  case J_FEQ32: OK(sljit_emit_fop1(lc, SLJIT_CONV_F32_FROM_SW, SLJIT_FR0, 0, BIT)); OK(sljit_emit_fset32(lc, SLJIT_FR1, 0.0f)); return jmp(sljit_emit_fcmp(lc, SLJIT_ORDERED_EQUAL | SLJIT_32, SLJIT_FR0, 0, SLJIT_FR1, 0));
  case J_CMPZ: return jmp(sljit_emit_op2cmpz(lc, SLJIT_AND, BIT, BIT, SLJIT_IMM, 1));
  case J_REG: j = jmp(sljit_emit_op_addr(lc, SLJIT_MOV_ADDR, SLJIT_R2, 0)); OK(sljit_emit_ijump(lc, SLJIT_JUMP, SLJIT_R2, 0)); return j;
  case J_MEM: j = jmp(sljit_emit_op_addr(lc, SLJIT_MOV_ADDR, SLJIT_MEM1(SLJIT_SP), 16)); OK(sljit_emit_ijump(lc, SLJIT_JUMP, SLJIT_MEM1(SLJIT_SP), 16)); return j;
  case J_TAB: OK(sljit_emit_ijump(lc, SLJIT_JUMP, SLJIT_MEM0(), (sljit_sw)&cx->tab[blk])); return NULL;
  case J_CARRY: OK(sljit_emit_op2u(lc, SLJIT_SUB | SLJIT_SET_CARRY, SLJIT_IMM, 0, BIT)); return jmp(sljit_emit_jump(lc, SLJIT_CARRY));
  case J_OPADD: OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_R4, 0, SLJIT_IMM, 0)); j = jmp(sljit_emit_op_addr(lc, SLJIT_ADD_ABS_ADDR, SLJIT_R4, 0)); OK(sljit_emit_ijump(lc, SLJIT_JUMP, SLJIT_R4, 0)); return j;
  }
  return NULL;
}
typedef struct { int kind, to, pad, al; } Blk;
static Blk B[8]; static int nb; static struct sljit_label *L[8]; static u64 LA[8]; /* label addresses; [nb] = exit */
static struct sljit_jump *BJ[8]; static u64 JA[8]; static int far_id; static u64 far_addr; /* a stub outside the code */
static void bdesc(void) { gn = 0; G("code %s\n", place == 0 ? "allocated by the library" : place == 1 ? "in a high buffer" : "in a low buffer"); for (int i = 0; i < nb; i++) { G("block %d%s: %d NOPs, %s", i, B[i].al ? " (aligned)" : "", B[i].pad, kname[B[i].kind]); if (B[i].kind) { if (B[i].to == nb) G(" -> exit"); else if (B[i].to > nb) G(" -> code at 0x%lx", far_addr); else G(" -> block %d", B[i].to); } G("\n"); } gdesc(); }
#define CODE_OK(a, what) do { u64 a_ = (a); if (a_ < (u64)cstart || a_ > (u64)cstart + csize) mc_fail(what " 0x%lx is outside the code 0x%lx..0x%lx", a_, (u64)cstart, (u64)cstart + csize); } while (0)
static void blk_build(void) {
  lists(); mc_describe_cb = bdesc; mc_predesc(); lir_begin(); lir_enter(2);
  struct sljit_jump **pj = BJ;
  for (int i = 0; i < nb; i++) {
    L[i] = lab(B[i].al); raw_budget(); raw_trace(i + 1); OK(sljit_emit_op2(lc, SLJIT_AND, SLJIT_S2, 0, SLJIT_S0, 0, SLJIT_IMM, 1)); OK(sljit_emit_op2(lc, SLJIT_LSHR, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, 1)); int h = B[i].pad / 2; pad(h);
    pj[i] = jump_kind(B[i].kind, i); pad(B[i].pad - h);
  }
  L[nb] = sljit_emit_label(lc); if (!L[nb]) mc_fail("no label"); lir_leave(2);
  for (int i = 0; i < nb; i++) if (BJ[i]) { if (B[i].to > nb) sljit_set_target(BJ[i], far_addr); else sljit_set_label(BJ[i], L[B[i].to]); }
  gen();
  for (int i = 0; i <= nb; i++) { LA[i] = sljit_get_label_addr(L[i]); CODE_OK(LA[i], "label address"); if (i && LA[i] < LA[i - 1]) mc_fail("label %d is before label %d", i, i - 1); if (i < nb && B[i].al && LA[i] & ((1 << B[i].al) - 1)) mc_fail("label %d at 0x%lx is not aligned", i, LA[i]); }
  for (int i = 0; i < nb; i++) if (BJ[i]) JA[i] = sljit_get_jump_addr(BJ[i]);
  sljit_free_compiler(lc); lc = NULL; cx->sp = 0; cx->exit = LA[nb];
  for (int i = 0; i < nb; i++) if (B[i].kind == J_TAB) cx->tab[i] = B[i].to > nb ? far_addr : LA[B[i].to];
}
static void setw(u64 a, u64 v) { Opd o = {SLJIT_MEM0(), a}; uint8_t *p = mp(&want, a, 8); if (!p) mc_die("setw"); memcpy(p, &v, 8); (void)o; }
/* runs with the decision bits d and budget n; the model walks the graph */
static u64 ph_;
static void blk_run1(u64 d, int budget) {
  for (int again = 0; again < 2; again++) {
    begin_state(); init0.r[SLJIT_S0] = d; init0.r[SLJIT_S1] = 0; if (!sp_) sp_ = 0x7ff000000000; cx->sp = sp_; want = init0; memset(want.mark, 0, sizeof want.mark); nanp = NULL; u64 t = 0, s0 = d, s2 = init0.r[SLJIT_S2]; int pc = 0, bu = budget, nf = 0;
    while (pc < nb) {
      if (--bu < 0) break; t = TR(t, pc + 1); s2 = s0 & 1; s0 >>= 1; Blk *b = &B[pc]; int tk = jsense[b->kind] == 2 || jsense[b->kind] == (int)s2; u64 ta = b->to > nb ? far_addr : LA[b->to];
      if (b->kind == J_REG) want.r[SLJIT_R2] = ta; if (b->kind == J_MEM) setw(cx->sp + 16, ta); if (b->kind == J_OPADD) want.r[SLJIT_R4] = ta;
      if (tk && b->to > nb) { t = TR(t, 7); pc = nb; } else pc = tk ? b->to : pc + 1; (void)nf;
    }
    want.r[SLJIT_S0] = s0; want.r[SLJIT_S1] = t; want.r[SLJIT_S2] = s2;
    to_real(&init0, 0); cx->budget = budget; g_init = &init0; FR_ = 0; ((void (*)(void))code)();
    if (cx->sp != sp_) { sp_ = cx->sp; continue; }
    if (cx->r[SLJIT_S1] != t) mc_fail("the path was %lo, must be %lo (decision bits 0x%lx)", cx->r[SLJIT_S1], t, d);
    cmp_state(&init0, 0); runs_++; ph_ = mc_hash(ph_, &t, sizeof t); ph_ = mc_hash(ph_, &pc, sizeof pc); return;
  }
  mc_die("the stack address keeps changing");
}
static void blk_done(void) { mc_steps(runs_); mc_outcome(ph_); runs_ = 0; ph_ = 0; ungen(); far_addr = 0; }
static int uses_bits(void) { return 1; }
static void graph(int n, const int *kinds, int nk, const int *pads, int np_, int budget, u64 nd) {
  nb = n; for (int i = 0; i < n; i++) { B[i].kind = kinds[choose(nk)]; B[i].to = B[i].kind ? choose(n + 1) : 0; B[i].pad = pads[choose(np_)]; B[i].al = choose(2) * 4; }
  place = choose(3); if (!mc_mine()) return; blk_build(); for (u64 d = 0; d < nd; d++) blk_run1(d * 0x9d ^ d >> 1, budget); blk_done();
}
static const int allk[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
static void b_g2(void) { static const int pd[] = {0, 110, 5000}; graph(2, allk, NJ, pd, 3, 8, 12); }
static void b_g3(void) { static const int k[] = {J_NONE, J_JUMP, J_EQ, J_NE_RW, J_CMP, J_REG}, pd[] = {0, 110}, kt[] = {J_NONE, J_JUMP, J_JUMP_RW, J_EQ, J_NE_RW, J_CMP, J_FEQ, J_REG, J_TAB}; if (mc_thorough) graph(3, kt, 9, pd, 2, 12, 16); else graph(3, k, 6, pd, 2, 12, 8); }
static void b_g4(void) { static const int k[] = {J_NONE, J_JUMP, J_EQ, J_NE_RW}; static const int kt[] = {J_NONE, J_JUMP, J_EQ, J_NE_RW, J_REG}; static const int p0[] = {0}; nb = 4; for (int i = 0; i < 4; i++) { B[i].kind = mc_thorough ? kt[choose(5)] : k[choose(4)]; B[i].to = B[i].kind ? choose(5) : 0; B[i].al = 0; } int p = choose(3); for (int i = 0; i < 4; i++) B[i].pad = p == 0 ? 0 : p == 1 ? 30 : 100; place = 0; (void)p0; if (!mc_mine()) return; blk_build(); for (u64 d = 0; d < 16; d++) blk_run1(d | d << 5, 14); blk_done(); }
/* distances around the limits of the short forms, with a second jump whose own size depends on the distance */
static void b_dist(void) {
  static const int k1[] = {J_JUMP, J_EQ, J_NE_RW, J_CMP, J_CMPZ, J_FEQ, J_REG, J_OPADD}; nb = 3; int dir = choose(2), ka = choose_from(k1), kb = mc_thorough ? choose(NJ) : (int[]){J_NONE, J_JUMP, J_EQ, J_JUMP_RW, J_FEQ, J_REG, J_CMP}[choose(7)]; int tb = kb ? choose(4) : 0; int p = mc_thorough ? choose(170) : 60 + choose(85); int where = choose(3), al = choose(3);
  for (int i = 0; i < 3; i++) B[i] = (Blk){J_NONE, 0, 0, 0};
  if (dir == 0) { B[0].kind = ka; B[0].to = 2; B[1].kind = kb; B[1].to = tb; } else { B[2].kind = ka; B[2].to = choose(2); B[1].kind = kb; B[1].to = tb; }
  if (where == 0) B[1].pad = p; else if (where == 1) { B[dir ? 1 : 0].pad = p; } else { B[dir ? 2 : 0].pad = p / 2; B[1].pad = p - p / 2; }
  if (al) B[al].al = 4; place = 0; if (!mc_mine()) return; blk_build(); for (u64 d = 0; d < 8; d++) blk_run1(d, 6); blk_done();
}
/* chains of jumps over each other: the size of each depends on all the others */
static void b_chain(void) {
  nb = 6; int p = choose(64), ka = choose(2), kb = choose(2), back = choose(2), span = 2 + choose(3), sh = choose(3); for (int i = 0; i < 6; i++) { B[i] = (Blk){i & 1 ? (ka ? J_EQ : J_JUMP) : kb ? J_CMP : J_EQ, 0, p + (sh == 1 ? i : sh == 2 ? 5 - i : 0), 0}; B[i].to = back ? (i - span + 12) % 6 : (i + span > 6 ? 6 : i + span); } place = choose(3); if (!mc_mine()) return; blk_build(); for (u64 d = 0; d < 32; d++) blk_run1(d, 12); blk_done();
}
/* ---- code outside ---- */
static uint8_t *stubs[4]; /* low, high, and both limits of the reach of a relative jump from FARX */
#define STUBSZ 0x20000
static void far_init(void) {
  lists();
  if (stubs[0]) return; places(); static const u64 at[] = {0x32000000, 0x512345800000ull, FARX + 0x80000000ull - 0x10000, FARX - 0x80000000ull - 0x10000};
  for (int i = 0; i < 4; i++) { stubs[i] = mmap((void *)at[i], STUBSZ, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (stubs[i] != (void *)at[i]) mc_die("no memory for stubs"); memset(stubs[i], 0xcc, STUBSZ); }
}
/* a stub that records being reached: continues at the exit, or returns */
static u64 mk_stub(uint8_t *p, int ret) {
  uint8_t *q = p; int m = sljit_get_register_index(SLJIT_GP_REGISTER, SLJIT_S1); uint8_t t[8] = {0x48 | (m >> 3 << 2) | (m >> 3 << 1), 0x8d, (m & 7) << 3 | 4, 0xc0 | (m & 7) << 3 | 5, 7, 0, 0, 0}; memcpy(q, t, 8); q += 8;
  if (ret) *q++ = 0xc3; else { uint8_t c[7] = {0xff, 0x24, 0x25}; d32(c + 3, &cx->exit); memcpy(q, c, 7); q += 7; } return (u64)p;
}
static void un_stub(u64 a) { memset((void *)a, 0xcc, 16); }
static const int farpos[] = {0, 1, 0x7ff0, STUBSZ - 16};
static void b_far(void) { /* jumps of every kind to code elsewhere */
  static const int ks[] = {J_JUMP, J_JUMP_RW, J_EQ, J_NE_RW, J_CMP, J_CMP_RW, J_FEQ, J_FNE_RW, J_CMPZ, J_REG, J_MEM, J_TAB, J_FEQ32, J_CARRY, J_OPADD}; int k = choose_from(ks), w = choose(2), pos = choose_from(farpos), k2 = choose(NJ), pd = (int[]){0, 115, 122, 300}[choose(4)]; nb = 2; int pl = choose(3), t2 = k2 ? choose(3) : 0; if (!mc_mine()) return;
  place = pl; far_init(); far_addr = mk_stub(stubs[w] + pos, 0); B[0] = (Blk){k, 3, 0, 0}; B[1] = (Blk){k2, t2, pd, 0}; blk_build(); for (u64 d = 0; d < 8; d++) blk_run1(d, 6); un_stub(far_addr); blk_done();
}
static void b_reach(void) { /* every distance around the limits of a 32-bit relative jump */
  static const int ks[] = {J_JUMP, J_JUMP_RW, J_EQ, J_NE_RW, J_CMP, J_FEQ, J_REG, J_MEM, J_OPADD}; int k = choose_from(ks), side = choose(2), off = choose(400); if (!mc_mine()) return;
  place = 1; far_init(); nb = 1; far_addr = FARX + (side ? -0x80000000ll : 0x80000000ll) + 400 - off + (side ? 200 : 0); mk_stub((uint8_t *)far_addr, 0); B[0] = (Blk){k, 2, 0, 0}; blk_build(); for (u64 d = 0; d < 2; d++) blk_run1(d, 3); un_stub(far_addr); blk_done();
}
static void b_reach_low(void) { /* targets around 4 GiB, from near and far */
  static uint8_t *s4; static const int ks[] = {J_JUMP, J_JUMP_RW, J_EQ, J_NE_RW, J_CMP, J_FEQ, J_REG, J_MEM, J_OPADD, J_TAB}; int k = choose_from(ks), off = choose(40), w = choose(3), pl = choose(3); if (!mc_mine()) return;
  static const u64 base[] = {0x100000000ull, 0x80000000ull, 0x40000000ull}; static uint8_t *m[3]; far_init(); if (!m[w]) { m[w] = mmap((void *)(base[w] - 0x1000), 0x2000, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (m[w] == MAP_FAILED) mc_die("no memory"); memset(m[w], 0xcc, 0x2000); } (void)s4;
  place = pl; nb = 1; far_addr = base[w] - 20 + off; mk_stub((uint8_t *)far_addr, 0); B[0] = (Blk){k, 2, 0, 0}; blk_build(); for (u64 d = 0; d < 2; d++) blk_run1(d, 3); un_stub(far_addr); blk_done();
}
/* ---- fast calls ---- */
static void fdesc(void) { gdesc(); }
static struct sljit_jump *fcall(int kind, u64 *slot_) { /* 0 direct, 1 rewritable, 2 through a register, 3 memory, 4 table */
  switch (kind) { case 0: return jmp(sljit_emit_jump(lc, SLJIT_FAST_CALL)); case 1: return jmp(sljit_emit_jump(lc, SLJIT_FAST_CALL | SLJIT_REWRITABLE_JUMP)); case 2: { struct sljit_jump *j = jmp(sljit_emit_op_addr(lc, SLJIT_MOV_ADDR, SLJIT_R5, 0)); OK(sljit_emit_ijump(lc, SLJIT_FAST_CALL, SLJIT_R5, 0)); return j; } case 3: { struct sljit_jump *j = jmp(sljit_emit_op_addr(lc, SLJIT_MOV_ADDR, SLJIT_MEM1(SLJIT_SP), 16)); OK(sljit_emit_ijump(lc, SLJIT_FAST_CALL, SLJIT_MEM1(SLJIT_SP), 16)); return j; } default: OK(sljit_emit_ijump(lc, SLJIT_FAST_CALL, SLJIT_MEM0(), (sljit_sw)slot_)); return NULL; }
}
static int ret_src_ok(Opd d) { return 1; }
static void b_fast(void) {
  lists(); int dk = choose(2); Opd d = dk ? ML[choose(nM)] : RL[choose(nR)]; int ck = choose(5), nest = choose(3), before = choose(2), pl = choose(3), pd = choose(2) * 5000; if (!dk && (d.a == SLJIT_S1 || d.a == SLJIT_R5 && ck == 2 || d.a == SLJIT_R6 && nest)) return; if (dk && d.a == SLJIT_MEM1(SLJIT_SP) && d.w == 16) return; if (dk && d.a != SLJIT_MEM0()) { int b = d.a & 0x7f, x = d.a >> 8 & 0x7f; if (b == SLJIT_S1 || x == SLJIT_S1 || b == SLJIT_R5 || x == SLJIT_R5 || b == SLJIT_R6 && nest || x == SLJIT_R6 && nest) return; } if (!mc_mine()) return;
  place = pl; gn = 0; { static int o; oi_ = o; } G("fast calls (%s) of f, which stores its return address in %s and %s, f %s the caller, code place %d\n", (const char *[]){"direct", "rewritable", "register", "memory", "table"}[ck], opd(d, 0), nest == 0 ? "returns" : nest == 1 ? "calls g" : "calls g twice", before ? "before" : "after", pl); mc_describe_cb = fdesc; mc_predesc();
  lir_begin(); lir_enter(0); struct sljit_jump *cj[2], *gj[2] = {0}, *over = NULL, *ex; struct sljit_label *fl = NULL, *gl = NULL, *fe;
  for (int part = 0; part < 2; part++) {
    if (part == before) { /* the caller */ raw_trace(1); cj[0] = fcall(ck, &cx->tab[0]); raw_trace(2); pad(pd); cj[1] = fcall(ck, &cx->tab[0]); raw_trace(3); ex = jmp(sljit_emit_jump(lc, SLJIT_JUMP)); }
    else { if (before) over = jmp(sljit_emit_jump(lc, SLJIT_JUMP)); fl = lab(0); OK(sljit_emit_op_dst(lc, SLJIT_FAST_ENTER, d.a, d.w)); raw_trace(4); for (int i = 0; i < nest; i++) { gj[i] = jmp(sljit_emit_jump(lc, SLJIT_FAST_CALL)); raw_trace(5); } OK(sljit_emit_op_src(lc, SLJIT_FAST_RETURN, d.a, d.w)); if (nest) { pad(pd); gl = lab(0); OK(sljit_emit_op_dst(lc, SLJIT_FAST_ENTER, SLJIT_R6, 0)); raw_trace(6); OK(sljit_emit_op_src(lc, SLJIT_FAST_RETURN, SLJIT_R6, 0)); } if (before) sljit_set_label(over, lab(0)); }
  }
  fe = lab(0); lir_leave(0); sljit_set_label(ex, fe); for (int i = 0; i < 2; i++) if (cj[i]) sljit_set_label(cj[i], fl); for (int i = 0; i < nest; i++) sljit_set_label(gj[i], gl); gen(); u64 fa = sljit_get_label_addr(fl); sljit_free_compiler(lc); lc = NULL; cx->tab[0] = fa; cx->sp = 0;
  u64 t = 1; for (int c = 0; c < 2; c++) { t = TR(t, 4); for (int i = 0; i < nest; i++) { t = TR(t, 6); t = TR(t, 5); } t = TR(t, 2 + c); }
  for (int again = 0; again < 2; again++) {
    begin_state(); addr_regs(d); init0.r[SLJIT_S1] = 0; if (!sp_) sp_ = 0x7ff000000000; cx->sp = sp_; want = init0; memset(want.mark, 0, sizeof want.mark); nanp = NULL; to_real(&init0, 0); ((void (*)(void))code)(); if (cx->sp != sp_) { sp_ = cx->sp; continue; }
    if (cx->r[SLJIT_S1] != t) mc_fail("the path was %lo, must be %lo", cx->r[SLJIT_S1], t); want.r[SLJIT_S1] = t; if (nest) { CODE_OK(cx->r[SLJIT_R6], "g's return address"); want.r[SLJIT_R6] = cx->r[SLJIT_R6]; } if (ck == 2) want.r[SLJIT_R5] = fa; if (ck == 3) setw(cx->sp + 16, fa);
    u64 ra; if (dk) { u64 ea; if (!rd_base(&init0, d, &ea)) mc_die("ea"); uint8_t *p = mp(&want, ea, 8); if (!p) mc_die("ea"); uint8_t *rp = p >= want.lo && p < want.lo + AR ? LO + (p - want.lo) : p >= want.hi && p < want.hi + AR ? HI + (p - want.hi) : cx->stk + (p - want.stk); memcpy(&ra, rp, 8); memcpy(p, rp, 8); } else { ra = cx->r[d.a]; want.r[d.a] = ra; } CODE_OK(ra, "f's return address");
    cmp_state(&init0, 0); runs_++; break;
  }
  hh = mc_hash(0, &t, 8); hh = mc_hash(hh, gb, gn); mc_outcome(hh); mc_steps(runs_); runs_ = 0; ungen();
}
/* ---- C calls between generated functions, and to stubs ---- */
static void b_calls(void) { /* caller and callee in one compilation, or a stub elsewhere */
  int ck = choose(6), before = choose(2), target = choose(4) /* own function, low, high, edge */, pl = choose(3), pd = choose(3), off = 0; if (target == 3) { if (pl != 1) return; off = choose(60); } if (target && (ck == 5)) return; if (target && before) return; if (!mc_mine()) return; pd = pd == 0 ? 0 : pd == 1 ? 120 : 5000;
  place = pl; far_init(); gn = 0; G("C call (%s) of %s %s, pad %d, code place %d, offset %d\n", (const char *[]){"direct", "rewritable", "icall register", "icall memory", "icall table", "icall immediate"}[ck], target ? "a stub" : "a function", target == 1 ? "in low memory" : target == 2 ? "in high memory" : target == 3 ? "2 GiB away" : before ? "before" : "after", pd, pl, off); mc_describe_cb = fdesc; mc_predesc();
  u64 ta = 0; if (target) { ta = target == 3 ? FARX + 0x80000000ull + 100 - off : (u64)stubs[target - 1] + 64; uint8_t *q = (uint8_t *)ta; /* lea rax, [rdi + rsi*2 + 5]; ret */ memcpy(q, (uint8_t[]){0x48, 0x8d, 0x44, 0x77, 0x05, 0xc3}, 6); }
  lir_begin(); struct sljit_label *fl = NULL; struct sljit_jump *j = NULL, *j2 = NULL; struct sljit_label *entry = NULL; s32 at = SLJIT_ARGS2(W, W, W);
#define CALLEE() do { fl = lab(0); OK(sljit_emit_enter(lc, 0, SLJIT_ARGS2(W, W, W), 3, 3, 40)); OK(sljit_emit_op2(lc, SLJIT_SHL, SLJIT_S1, 0, SLJIT_S1, 0, SLJIT_IMM, 1)); OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_S1, 0)); OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_R0, 0, SLJIT_S0, 0, SLJIT_IMM, 5)); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 32, SLJIT_R0, 0)); OK(sljit_emit_return(lc, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 32)); } while (0)
  if (before) { CALLEE(); pad(pd); } entry = lab(0); lir_enter(0); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 1000)); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_R1, 0, SLJIT_S2, 0));
  switch (ck) { case 0: j = jmp(sljit_emit_call(lc, SLJIT_CALL, at)); break; case 1: j = jmp(sljit_emit_call(lc, SLJIT_CALL | SLJIT_REWRITABLE_JUMP, at)); break; case 2: j = jmp(sljit_emit_op_addr(lc, SLJIT_MOV_ADDR, SLJIT_R5, 0)); OK(sljit_emit_icall(lc, SLJIT_CALL, at, SLJIT_R5, 0)); break; case 3: j = jmp(sljit_emit_op_addr(lc, SLJIT_MOV_ADDR, SLJIT_MEM1(SLJIT_SP), 16)); OK(sljit_emit_icall(lc, SLJIT_CALL, at, SLJIT_MEM1(SLJIT_SP), 16)); break; case 4: OK(sljit_emit_icall(lc, SLJIT_CALL, at, SLJIT_MEM0(), (sljit_sw)&cx->tab[0])); break; case 5: break; }
  if (ck == 5) j = jmp(sljit_emit_call(lc, SLJIT_CALL, at)); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 24, SLJIT_R0, 0)); lir_leave(0); if (!before && !target) { pad(pd); CALLEE(); }
  if (j) { if (target) sljit_set_target(j, ta); else sljit_set_label(j, fl); } gen(); u64 fa = target ? ta : sljit_get_label_addr(fl); void *ent = (void *)sljit_get_label_addr(entry); sljit_free_compiler(lc); lc = NULL; cx->tab[0] = fa; cx->sp = 0; (void)j2;
  for (int again = 0; again < 2; again++) {
    begin_state(); if (!sp_) sp_ = 0x7ff000000000; cx->sp = sp_; want = init0; memset(want.mark, 0, sizeof want.mark); nanp = NULL; to_real(&init0, 0); ((void (*)(void))ent)(); if (cx->sp != sp_) { sp_ = cx->sp; continue; }
    u64 rv = 1000 + 2 * init0.r[SLJIT_S2] + 5; for (int r = 1; r <= SCR; r++) want.r[r] = cx->r[r]; setw(cx->sp + 24, rv); if (ck == 3) setw(cx->sp + 16, fa); cmp_state(&init0, 0); runs_++; break;
  }
  hh = mc_hash(0, gb, gn); mc_outcome(hh); mc_steps(runs_); runs_ = 0; if (target) un_stub(ta); ungen();
}
/* ---- rewriting ---- */
static const u64 cvals[] = {0, ~0ull, 0x7fffffff, 0x80000000, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, 0x123456789abcdef0ull};
static int hist[8], nh, rk1, rk2, rinit;
static void rdesc(void) { gn = 0; G("block 0: %s, block 1: %s, both initially to %s; a constant before each; code place %d\n", kname[rk1], kname[rk2], rinit == 0 ? "the next block" : rinit == 1 ? "the exit" : "a far stub", place); for (int i = 0; i < nh; i++) { int h = hist[i]; if (h < 12) G("rewrite jump %d to %s%d\n", h / 6, h % 6 < 4 ? "block " : "stub ", h % 6 < 4 ? h % 6 : h % 6 - 4); else G("set constant %d to 0x%lx\n", (h - 12) / 3, cvals[(h - 12) % 3 * 3 + 1]); } gdesc(); }
static void b_rewrite(void) {
  static const int ks[] = {J_JUMP_RW, J_NE_RW, J_CMP_RW, J_FNE_RW}; lists(); rk1 = choose_from(ks); rk2 = choose_from(ks); rinit = choose(3); place = choose(3); nh = mc_thorough ? 3 : 2; for (int i = 0; i < nh; i++) hist[i] = choose(18); int copl = 0; (void)copl; if (!mc_mine()) return;
  far_init(); mc_describe_cb = rdesc; mc_predesc(); u64 st[2] = {mk_stub(stubs[0] + 128, 0), mk_stub(stubs[1] + 128, 0)}; nb = 3; lir_begin(); lir_enter(2); int k[3] = {rk1, rk2, J_NONE}; struct sljit_const *cc[2];
  for (int i = 0; i < 3; i++) { L[i] = lab(0); raw_budget(); raw_trace(i + 1); if (i < 2) { cc[i] = sljit_emit_const(lc, SLJIT_MOV, i ? SLJIT_R6 : SLJIT_S4, 0, 77 + i); if (!cc[i]) mc_fail("no constant"); } OK(sljit_emit_op2(lc, SLJIT_AND, SLJIT_S2, 0, SLJIT_S0, 0, SLJIT_IMM, 1)); OK(sljit_emit_op2(lc, SLJIT_LSHR, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, 1)); BJ[i] = jump_kind(k[i], i); }
  L[3] = lab(0); lir_leave(2); int to[2]; for (int i = 0; i < 2; i++) { to[i] = rinit == 0 ? i + 1 : rinit == 1 ? 3 : 4; if (rinit == 2) sljit_set_target(BJ[i], st[0]); else sljit_set_label(BJ[i], L[to[i]]); }
  gen(); u64 ja[2], ca[2]; for (int i = 0; i < 4; i++) LA[i] = sljit_get_label_addr(L[i]); LA[4] = st[0]; LA[5] = st[1]; for (int i = 0; i < 2; i++) ja[i] = sljit_get_jump_addr(BJ[i]), ca[i] = sljit_get_const_addr(cc[i]); sljit_free_compiler(lc); lc = NULL; cx->exit = LA[3]; cx->sp = 0; u64 cv[2] = {77, 78};
  for (int h = -1; h < nh; h++) {
    if (h >= 0) { int x = hist[h]; if (x < 12) { to[x / 6] = x % 6; sljit_set_jump_addr(ja[x / 6], LA[x % 6], xoff); } else { int c = (x - 12) / 3; cv[c] = cvals[(x - 12) % 3 * 3 + 1]; sljit_set_const(ca[c], SLJIT_MOV, cv[c], xoff); } }
    for (u64 d = 0; d < 8; d++) for (int again = 0; ; again++) {
      if (again == 2) mc_die("the stack address keeps changing"); begin_state(); init0.r[SLJIT_S0] = d; init0.r[SLJIT_S1] = 0; if (!sp_) sp_ = 0x7ff000000000; cx->sp = sp_; want = init0; memset(want.mark, 0, sizeof want.mark); nanp = NULL; u64 t = 0, s0 = d, s2 = init0.r[SLJIT_S2]; int pc = 0, bu = 5;
      while (pc < 3) { if (--bu < 0) break; t = TR(t, pc + 1); s2 = s0 & 1; s0 >>= 1; if (pc < 2) want.r[pc ? SLJIT_R6 : SLJIT_S4] = cv[pc]; int tk = pc < 2 && (jsense[k[pc]] == 2 || jsense[k[pc]] == (int)s2); if (tk && to[pc] >= 4) { t = TR(t, 7); pc = 3; } else pc = tk ? to[pc] : pc + 1; }
      want.r[SLJIT_S0] = s0; want.r[SLJIT_S1] = t; want.r[SLJIT_S2] = s2; to_real(&init0, 0); cx->budget = 5; ((void (*)(void))code)(); if (cx->sp != sp_) { sp_ = cx->sp; continue; }
      if (cx->r[SLJIT_S1] != t) mc_fail("after %d rewrites the path was %lo, must be %lo (decision bits 0x%lx)", h + 1, cx->r[SLJIT_S1], t, d); cmp_state(&init0, 0); runs_++; ph_ = mc_hash(ph_, &t, 8); ph_ = mc_hash(ph_, cv, 16); break;
    }
  }
  un_stub(st[0]); un_stub(st[1]); blk_done();
}
static void b_rwcall(void) { /* rewritable calls retargeted */
  int fast = choose(2), n = mc_thorough ? 4 : 3, h[4]; for (int i = 0; i < n; i++) h[i] = choose(4); int in = choose(4); place = choose(3); if (!mc_mine()) return; far_init(); gn = 0; G("%s call, initially to %d, then", fast ? "fast" : "C", in); for (int i = 0; i < n; i++) G(" %d", h[i]); G(" (0 function before, 1 after, 2 low stub, 3 high stub), code place %d\n", place); mc_describe_cb = fdesc; mc_predesc();
  u64 ad[4]; ad[2] = mk_stub(stubs[0] + 256, 1); ad[3] = mk_stub(stubs[1] + 256, 1); lir_begin(); struct sljit_label *f[2], *en; struct sljit_jump *j;
#define CE(i) do { f[i] = lab(0); if (fast) { OK(sljit_emit_enter(lc, 0, SLJIT_ARGS0V(), SCR, NR - SCR, STK)); } } while (0)
  /* callees are written as raw code so that fast and C calls can share them: lea S1; ret */
  f[0] = lab(0); raw_trace(1); raw((uint8_t[]){0xc3}, 1); en = lab(0); lir_enter(0); j = jmp(fast ? sljit_emit_jump(lc, SLJIT_FAST_CALL | SLJIT_REWRITABLE_JUMP) : sljit_emit_call(lc, SLJIT_CALL | SLJIT_REWRITABLE_JUMP, SLJIT_ARGS0V())); raw_trace(3); lir_leave(0); f[1] = lab(0); raw_trace(2); raw((uint8_t[]){0xc3}, 1);
  if (in < 2) sljit_set_label(j, f[in]); else sljit_set_target(j, ad[in]); gen(); ad[0] = sljit_get_label_addr(f[0]); ad[1] = sljit_get_label_addr(f[1]); void *ent = (void *)sljit_get_label_addr(en); u64 ja = sljit_get_jump_addr(j); sljit_free_compiler(lc); lc = NULL; cx->sp = 0; int cur = in;
  for (int i = -1; i < n; i++) { if (i >= 0) { cur = h[i]; sljit_set_jump_addr(ja, ad[cur], xoff); }
    for (int again = 0; again < 2; again++) { begin_state(); init0.r[SLJIT_S1] = 0; if (!sp_) sp_ = 0x7ff000000000; cx->sp = sp_; want = init0; memset(want.mark, 0, sizeof want.mark); nanp = NULL; to_real(&init0, 0); ((void (*)(void))ent)(); if (cx->sp != sp_) { sp_ = cx->sp; continue; } u64 t = TR(cur == 0 ? 1 : cur == 1 ? 2 : 7, 3); if (cx->r[SLJIT_S1] != t) mc_fail("after %d rewrites the path was %lo, must be %lo", i + 1, cx->r[SLJIT_S1], t); want.r[SLJIT_S1] = t; if (!fast) for (int r = 1; r <= SCR; r++) want.r[r] = cx->r[r]; cmp_state(&init0, 0); runs_++; break; } }
  un_stub(ad[2]); un_stub(ad[3]); hh = mc_hash(0, gb, gn); mc_outcome(hh); mc_steps(runs_); runs_ = 0; ungen();
}
/* ---- constants ---- */
static void b_const(void) {
  lists(); static const int ops[] = {SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8, SLJIT_MOV32_U8}; int op = choose_from(ops), dk = choose(2); Opd d = dk ? ML[choose(nM)] : RL[choose(nR)]; static const long w[] = {0, 1, -1, 127, 128, 255, -128, 0x7fffffffl, -0x80000000l, 0x80000000l, 0xffffffffl, 0x100000000l, LONG_MIN, 0x123456789abcdefl}, w3[] = {0, 1, -1, 127, 128, 255, -128, 0x7fffffffl, -0x80000000l, 0xff12345678l, 0x1200000003l}, w8[] = {0, 1, 127, 128, 255, -1, -128, -255, -256}, m8[] = {0, 1, 127, 128, 255}; const long *vs = op == SLJIT_MOV ? w : op == SLJIT_MOV32 || op == SLJIT_MOV_S32 ? w3 : dk ? m8 : w8; int nv = op == SLJIT_MOV ? 14 : op == SLJIT_MOV32 || op == SLJIT_MOV_S32 ? 11 : dk ? 5 : 9;
  long init = vs[choose(nv)]; int fl = choose(2); place = choose(3); if (!mc_mine()) return; cpu_ = 0; np = 0; if (fl) P[np++] = (Ins){K_OP2U, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, .a = {SLJIT_R1}, .b = {SLJIT_R2}}; int ci = np; P[np++] = (Ins){K_CONST, op, d, .imm = init}; if (fl) P[np++] = (Ins){K_OPFLAGS, SLJIT_MOV, .d = {SLJIT_R6}, .r1 = SLJIT_LESS};
  FR_ = 0; g_init = NULL; mc_describe_cb = describe; mc_predesc(); lir_begin(); lir_enter(0); for (int i = 0; i < np; i++) emit_ins(&P[i]); lir_leave(0); gen(); u64 ca = sljit_get_const_addr(lir_const_); sljit_free_compiler(lc); lc = NULL; cx->sp = 0;
  for (int v = -1; v < nv; v++) { if (v >= 0) { sljit_set_const(ca, op, vs[v], xoff); P[ci].imm = vs[v]; } begin_state(); addr_regs(d); run(); }
  cpu_ = 0; mc_steps(runs_); if (runs_) mc_outcome(hh); runs_ = 0; ungen();
}
static void b_const2(void) { /* two constants and a jump next to each other, one rewritten */
  lists(); static const int ops[] = {SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8, SLJIT_MOV32_U8}; int o1 = choose_from(ops), o2 = choose_from(ops); static const Opd ds[] = {{SLJIT_R0, 0}, {SLJIT_R6, 0}, {SLJIT_MEM1(SLJIT_S4), 8}, {SLJIT_MEM1(SLJIT_SP), 8}, {SLJIT_MEM0(), 0}}; Opd d1 = choose_from(ds), d2 = choose_from(ds); int h[3]; int n = mc_thorough ? 3 : 2; for (int i = 0; i < n; i++) h[i] = choose(8); place = choose(3); if (!mc_mine()) return; if (d1.a == SLJIT_MEM0()) d1.w = (long)HI + 720; if (d2.a == SLJIT_MEM0()) d2.w = (long)HI + 728;
  np = 0; P[np++] = (Ins){K_CONST, o1, d1, .imm = 3}; P[np++] = (Ins){K_CONST, o2, d2, .imm = 4}; FR_ = 0; g_init = NULL; mc_describe_cb = describe; mc_predesc(); lir_begin(); lir_enter(0); struct sljit_const *c[2]; for (int i = 0; i < 2; i++) { emit_ins(&P[i]); c[i] = lir_const_; } lir_leave(0); gen(); u64 ca[2] = {sljit_get_const_addr(c[0]), sljit_get_const_addr(c[1])}; sljit_free_compiler(lc); lc = NULL; cx->sp = 0;
  for (int i = -1; i < n; i++) { if (i >= 0) { int k = h[i] & 1; long v = (long[]){0, 255, 100, 1}[h[i] >> 1]; if (P[k].op == SLJIT_MOV) v = v * 0x123456789abcl; sljit_set_const(ca[k], P[k].op, v, xoff); P[k].imm = v; } begin_state(); addr_regs((Opd){SLJIT_MEM1(SLJIT_S4), 8}); run(); }
  mc_steps(runs_); if (runs_) mc_outcome(hh); runs_ = 0; ungen();
}
/* ---- label addresses ---- */
static void b_addr(void) {
  lists(); int op = choose(3), dk = choose(2); Opd d = dk ? ML[choose(nM)] : RL[choose(nR)]; int where = choose(11); int fl = op == SLJIT_ADD_ABS_ADDR ? 0 : choose(2); place = choose(3); if (!mc_mine()) return; cpu_ = 0; static const u64 tv[] = {0, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x512345678901ull, ~0ull};
  np = 0; if (fl) P[np++] = (Ins){K_OP2U, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, .a = {SLJIT_R1}, .b = {SLJIT_R2}}; int ci = np; P[np++] = (Ins){K_OPADDR, op, d, .r1 = where >= 4, .imm = where >= 4 ? tv[where - 4] : 0}; if (fl) P[np++] = (Ins){K_OPFLAGS, SLJIT_MOV, .d = {SLJIT_R6}, .r1 = SLJIT_LESS};
  FR_ = 0; g_init = NULL; mc_describe_cb = describe; mc_predesc(); lir_begin(); lir_enter(0); struct sljit_label *l = NULL; struct sljit_jump *j; if (where == 0) l = lab(0); if (where == 1) l = lab(4); for (int i = 0; i < np; i++) { emit_ins(&P[i]); if (i == ci) j = lir_jump; } if (where == 2) l = lab(0); lir_leave(0); if (where == 3) { pad(100); l = lab(4); } if (l) sljit_set_label(j, l); gen(); if (l) { P[ci].imm = sljit_get_label_abs_addr(l); CODE_OK(P[ci].imm, "label address"); } sljit_free_compiler(lc); lc = NULL; cx->sp = 0;
  begin_state(); addr_regs(d); run(); begin_state(); addr_regs(d); val_to(d, 0xfffffffffffffff0ull, 0); run(); mc_steps(runs_); if (runs_) mc_outcome(hh); runs_ = 0; ungen();
}
/* ---- aligned labels with read-only buffers ---- */
static void b_buffers(void) {
  static const int sz[] = {1, 3, 4, 8, 17}; int al = choose(5), n = choose(4), s[3]; for (int i = 0; i < n; i++) s[i] = sz[choose(5)]; int pre = choose(mc_thorough ? 17 : 9), where = choose(2); int pl = choose(3), nj = choose(3); if (!mc_mine()) return; place = pl; lists();
  gn = 0; G("aligned label %d with %d buffers", 1 << al, n); for (int i = 0; i < n; i++) G(" %d", s[i]); G(" %s the code, %d bytes before, %d jumps between, code place %d\n", where ? "after" : "inside", pre, nj, pl); mc_describe_cb = fdesc; mc_predesc();
  struct sljit_read_only_buffer rb[3]; for (int i = 0; i < n; i++) { rb[i].next = i + 1 < n ? &rb[i + 1] : NULL; rb[i].size = s[i]; rb[i].u.label = NULL; }
  static const int dr[] = {SLJIT_R0, SLJIT_R3, SLJIT_S4}; lir_begin(); lir_enter(0); struct sljit_jump *aj[3], *e[3]; for (int i = 0; i < n; i++) { aj[i] = jmp(sljit_emit_op_addr(lc, SLJIT_MOV_ABS_ADDR, dr[i], 0)); OK(sljit_emit_op1(lc, SLJIT_MOV_U8, dr[i], 0, SLJIT_MEM1(dr[i]), 0)); } raw_trace(1);
  for (int i = 0; i < nj; i++) { e[i] = jmp(sljit_emit_cmp(lc, SLJIT_EQUAL, SLJIT_S0, 0, SLJIT_IMM, 12345 + i)); } pad(pre); struct sljit_label *l = NULL, *ret = NULL;
  if (!where) { l = sljit_emit_aligned_label(lc, al, n ? rb : NULL); if (!l) mc_fail("no aligned label"); raw_trace(2); } ret = lab(0); lir_leave(0); if (where) { pad(pre); l = sljit_emit_aligned_label(lc, al, n ? rb : NULL); if (!l) mc_fail("no aligned label"); raw((uint8_t[]){0xcc}, 1); } for (int i = 0; i < nj; i++) sljit_set_label(e[i], ret);
  for (int i = 0; i < n; i++) { if (!rb[i].u.label) mc_fail("buffer %d has no label", i); sljit_set_label(aj[i], rb[i].u.label); } gen(); u64 a0 = sljit_get_label_abs_addr(l); CODE_OK(a0, "aligned label"); if (a0 & ((1 << al) - 1)) mc_fail("label at 0x%lx is not aligned to %d", a0, 1 << al); u64 at = a0;
  for (int i = 0; i < n; i++) { u64 b = sljit_get_label_abs_addr(rb[i].u.label); if (b != at) mc_fail("buffer %d is at 0x%lx, must be at 0x%lx", i, b, at); at += s[i]; CODE_OK(at, "end of the buffer"); for (int k = 0; k < s[i]; k++) if (((uint8_t *)b)[k] != 0x90) mc_fail("byte %d of buffer %d is 0x%02x initially", k, i, ((uint8_t *)b)[k]); rb[i].u.addr = b; }
  sljit_free_compiler(lc); lc = NULL; cx->sp = 0; uint8_t first[3] = {0x90, 0x90, 0x90}; static uint8_t im[NBIG < 70000 ? 1 : 70000]; 
  for (int step = -1; step < n; step++) {
    if (step >= 0) { memcpy(im, code, csize); uint8_t *w = sljit_read_only_buffer_start_writing(rb[step].u.addr, s[step], xoff); if (!w) mc_fail("buffer %d cannot be written", step); for (int k = 0; k < s[step]; k++) w[k] = where ? 0x40 + step * 20 + k : 0x90; sljit_read_only_buffer_end_writing(rb[step].u.addr, s[step], xoff); for (int k = 0; k < s[step]; k++) im[rb[step].u.addr - (u64)code + k] = where ? 0x40 + step * 20 + k : 0x90; if (memcmp(im, code, csize)) mc_fail("writing buffer %d changed other bytes of the code or did not take effect", step); first[step] = where ? 0x40 + step * 20 : 0x90; }
    for (int again = 0; again < 2; again++) { begin_state(); init0.r[SLJIT_S1] = 0; if (!sp_) sp_ = 0x7ff000000000; cx->sp = sp_; want = init0; memset(want.mark, 0, sizeof want.mark); nanp = NULL; to_real(&init0, 0); ((void (*)(void))code)(); if (cx->sp != sp_) { sp_ = cx->sp; continue; } for (int i = 0; i < n; i++) want.r[dr[i]] = first[i]; want.r[SLJIT_S1] = where ? 1 : TR(1, 2); cmp_state(&init0, 0); runs_++; break; }
  }
  hh = mc_hash(0, gb, gn); mc_outcome(hh); mc_steps(runs_); runs_ = 0; ungen();
}
#ifndef P28_LIB
static struct mc_space sp[] = {
  {"graphs-2", b_g2, "every graph of 2 blocks: 16 kinds of jump x targets x 3 distances x alignment x 3 places for the code"},
  {"graphs-3", b_g3, "every graph of 3 blocks with 6 (9) kinds"}, {"graphs-4", b_g4, "every graph of 4 blocks with 4 (5) kinds x 3 distances"},
  {"distances", b_dist, "8 kinds of jump over or into a second one, every distance around the limits of short jumps"}, {"chains", b_chain, "6 interleaved jumps, each over others, every block length up to 63"},
  {"far", b_far, "every kind of jump to code in low and high memory, followed by every kind"}, {"reach", b_reach, "targets at every distance around +-2 GiB"}, {"reach-low", b_reach_low, "targets at every address around 1, 2 and 4 GiB"},
  {"fast-calls", b_fast, "fast calls: every form of return address x kinds of call x nesting x layout"}, {"calls", b_calls, "C calls within one compilation and to code elsewhere"},
  {"rewrite", b_rewrite, "every history of 2 (3) rewrites of two jumps and two constants, all paths run after each"}, {"rewrite-calls", b_rwcall, "every history of 3 (4) retargetings of fast and C calls"},
  {"constants", b_const, "every constant operation x destination form x initial value x every new value"}, {"constants-2", b_const2, "pairs of constants, every history of 2 (3) changes"},
  {"addresses", b_addr, "every address operation x destination form x labels before and behind, aligned, absolute values"}, {"buffers", b_buffers, "aligned labels with chains of read-only buffers, written one after the other"}};
static const char *as[] = {"x86-64", "code is at most 1 MB; distances near 2 GiB are reached with absolute targets only", 0};
int main(int c, char **v) { static struct mc_check k = {"P28", "one execution = one program of blocks assembled and run along all its paths; path, registers, memory and label addresses compared; non-trivial = distinct paths", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
#endif
