/* P31 functions made with the code generator are entered, call, and return according to the C calling convention of the
 * machine (or to SLJIT_ENTER_REG_ARG's).  Generated functions are called by hand-assembled code that loads every machine
 * register, on a stack of its own; hand-assembled callees record every machine register and destroy those a callee may. */
#ifndef P31_FEW
#define P31_FEW 0
#endif
#ifndef P31_LIB
#define P28_LIB
#include "P28.c"
#endif
typedef struct { u64 gp[16], x[16][2], ra; } Dump;
typedef struct { u64 fn, stk, sv_sp, t[4], locsz, alt, stub[8], in_gp[16], in_x[16][2], cal_gp[16], cal_x[16][2], calls[8], cell[4]; Dump d[8], out; } Abi;
static Abi *A; static u64 tramp_, altentry, fillstub, retaddr; static uint8_t *stk0; static void (*go)(void);
#define STKSZ (3u << 20)
#define CANARY 2048
#define STKTOP ((u64)stk0 + STKSZ - CANARY)
#define FILL 0x5a
static uint8_t *q_;
static void e_(const uint8_t *b, int n) { memcpy(q_, b, n); q_ += n; }
#define E(...) do { static const uint8_t b_[] = {__VA_ARGS__}; e_(b_, sizeof b_); } while (0)
static void e_abs(const void *p) { u32 d = (u32)(u64)p; memcpy(q_, &d, 4); q_ += 4; }
static void e_gp(int m, void *at, int store) { uint8_t b[4] = {0x48 | (m >> 3 << 2), store ? 0x89 : 0x8b, (m & 7) << 3 | 4, 0x25}; e_(b, 4); e_abs(at); }
static void e_x(int m, void *at, int store) { uint8_t b[5] = {0x40 | (m >> 3 << 2), 0x0f, store ? 0x11 : 0x10, (m & 7) << 3 | 4, 0x25}; e_(b, 5); e_abs(at); }
static void e_dump(Dump *d) { for (int i = 0; i < 16; i++) e_gp(i, &d->gp[i], 1); for (int i = 0; i < 16; i++) e_x(i, d->x[i], 1); }
static const int csaved[] = {3, 5, 12, 13, 14, 15}, crsaved[] = {0, 1, 2, 6, 7, 8, 9, 10, 11}, cargs[] = {7, 6, 2, 1};
/* stub k: 0-3 record and go back; 4-7 are callees: record, destroy what a callee may destroy, return */
static void abi_init(void) {
  lists(); if (A) return; A = (Abi *)(0x30000000 + 0x8000); if (sizeof *A > 0x8000) mc_die("Abi");
  uint8_t *p = mmap((void *)0x33000000, 1 << 14, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)0x33000000) mc_die("no low memory for stubs");
  stk0 = mmap((void *)0x34000000, STKSZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (stk0 != (void *)0x34000000) mc_die("no low memory for a stack");
  q_ = p; go = (void (*)(void))q_; E(0x53, 0x55, 0x41, 0x54, 0x41, 0x55, 0x41, 0x56, 0x41, 0x57); e_gp(4, &A->sv_sp, 1); e_gp(4, &A->stk, 0); for (int i = 0; i < 16; i++) { if (i != 4) e_gp(i, &A->in_gp[i], 0); e_x(i, A->in_x[i], 0); }
  E(0xff, 0x14, 0x25); e_abs(&A->fn); retaddr = (u64)q_; e_dump(&A->out); e_gp(4, &A->sv_sp, 0); E(0x41, 0x5f, 0x41, 0x5e, 0x41, 0x5d, 0x41, 0x5c, 0x5d, 0x5b, 0xc3);
  altentry = (u64)q_; E(0x48, 0xff, 0x04, 0x25); e_abs(&A->alt); E(0xe9); { s32 r = (s32)(retaddr - ((u64)q_ + 4)); memcpy(q_, &r, 4); q_ += 4; }
  for (int k = 0; k < 8; k++) { A->stub[k] = (u64)q_; e_dump(&A->d[k]); E(0x48, 0x8b, 0x04, 0x24); e_gp(0, &A->d[k].ra, 1); E(0x48, 0xff, 0x04, 0x25); e_abs(&A->calls[k]); if (k < 4) e_gp(0, &A->d[k].gp[0], 0); else { for (int i = 0; i < 9; i++) e_gp(crsaved[i], &A->cal_gp[crsaved[i]], 0); for (int i = 0; i < 16; i++) e_x(i, A->cal_x[i], 0); } E(0xc3); }
  fillstub = (u64)q_; e_gp(7, &A->t[0], 1); e_gp(1, &A->t[1], 1); e_gp(0, &A->t[2], 1); E(0x48, 0x8d, 0x7c, 0x24, 0x08); e_gp(1, &A->locsz, 0); E(0xb0, FILL, 0xf3, 0xaa); e_gp(7, &A->t[0], 0); e_gp(1, &A->t[1], 0); e_gp(0, &A->t[2], 0); E(0xc3); A->t[3] = fillstub;
}
static void raw_stub(void *cell) { uint8_t b[7] = {0xff, 0x14, 0x25}; d32(b + 3, cell); raw(b, 7); }
#define DUMP(k) raw_stub(&A->stub[k])
static int GI(int reg) { int m = sljit_get_register_index(SLJIT_GP_REGISTER, reg); if (m < 0 || m > 15) mc_fail("register %d has no machine register", reg); return m; }
static int FI(int reg) { int m = sljit_get_register_index(SLJIT_FLOAT_REGISTER, reg); if (m < 0 || m > 15) mc_fail("float register %d has no machine register", reg); return m; }
/* ---- argument lists ---- */
typedef struct { int ret, n, ty[4]; } Args;
static const char *tyn[] = {"void", "w", "32", "p", "f64", "f32", "?", "?", "?", "w_r", "32_r", "p_r"};
static s32 al_bits(const Args *a) { s32 r = a->ret; for (int i = 0; i < a->n; i++) r |= a->ty[i] << 4 * (i + 1); return r; }
static int al_w(const Args *a) { int n = 0; for (int i = 0; i < a->n; i++) n += !(a->ty[i] == 4 || a->ty[i] == 5); return n; }
static int al_s(const Args *a) { int n = 0; for (int i = 0; i < a->n; i++) n += a->ty[i] < 4; return n; }
static int al_r(const Args *a) { int n = 0, e = 0; for (int i = 0; i < a->n; i++) { if (a->ty[i] != 4 && a->ty[i] != 5) { n++; if (a->ty[i] & 8) e = n; } } return e; }
static int al_f(const Args *a) { return a->n - al_w(a); }
static char *al_str(const Args *a) { static char b[4][80]; static int o; char *s = b[o++ & 3]; int n = sprintf(s, "%s(", tyn[a->ret]); for (int i = 0; i < a->n; i++) n += sprintf(s + n, "%s%s", i ? ", " : "", tyn[a->ty[i]]); strcpy(s + n, ")"); return s; }
static void al_pick(Args *a, const int *ty, int nt) { a->n = choose(5); for (int i = 0; i < a->n; i++) a->ty[i] = ty[choose(nt)]; }
/* ---- one frame ---- */
typedef struct { int opt, sc, sv, fs, loc; } Fr;
static Fr fr; static u64 rv[16]; static u64 fv[17]; static u64 locpatch; static int locoff; /* a word stored into the local area */
static int decl(const Fr *f, int reg) { return reg >= 1 && reg <= f->sc || reg <= NR && reg > NR - f->sv; }
static int fr_ok(const Fr *f) { return f->sc >= 0 && f->sv >= 0 && f->sv <= 6 && f->sc + f->sv <= NR && f->fs <= NF && (f->opt & 3) <= f->sv; }
static void *codes[8]; static int ncodes;
static u64 fin(void) { place = 0; gen(); if (ncodes >= 8) mc_die("codes"); codes[ncodes++] = code; u64 r = (u64)code; sljit_free_compiler(lc); lc = NULL; return r; }
static void fin_free(void) { for (int i = 0; i < ncodes; i++) sljit_free_code(codes[i], NULL); ncodes = 0; code = NULL; }
static void start(const Fr *f, const Args *a) { if (!lc) lir_begin(); OK(sljit_emit_enter(lc, f->opt, al_bits(a), f->sc | SLJIT_ENTER_FLOAT(f->fs), f->sv, f->loc)); }
/* the rest of the function is generated by a second code generator, which only knows the context */
static u64 part1; static u64 fin_parts(void);
static void split(const Fr *f, const Args *a) { OK(sljit_emit_ijump(lc, SLJIT_JUMP, SLJIT_MEM0(), (sljit_sw)&A->cell[3])); part1 = fin(); lir_begin(); OK(sljit_set_context(lc, f->opt, al_bits(a), f->sc | SLJIT_ENTER_FLOAT(f->fs), f->sv, f->loc)); }
static u64 fin_parts(void) { u64 r = fin(); if (part1) { A->cell[3] = r; r = part1; } part1 = 0; return r; }
static void fills(const Fr *f) { if (f->loc) { A->locsz = f->loc; raw_stub(&A->t[3]); } }
static void set_regs(const Fr *f) { for (int i = 1; i <= NR; i++) if (decl(f, i)) OK(sljit_emit_op1(lc, SLJIT_MOV, i, 0, SLJIT_IMM, rv[i])); for (int i = 1; i <= f->fs; i++) { double d; memcpy(&d, &fv[i], 8); OK(sljit_emit_fset64(lc, i, d)); } }
static void new_values(void) { for (int i = 0; i < 16; i++) rv[i] = 0x0102030405060708ull * (i + 3) + 0x7777000000000000ull + i, fv[i] = b64(1000.0625 + 3 * i) | (u64)i << 3; fv[16] = 0; locoff = -1; part1 = 0; memset(LO, 0x33, 512); memset(HI, 0x44, 512); A->cell[0] = A->cell[1] = A->cell[2] = A->cell[3] = 0; }
/* ---- operand forms; V ends up in the operand ---- */
#define NFORM 46
static int form(const Fr *f, int k, u64 V, int fl, Opd *o) {
  u64 cell = (u64)LO + 64;
  memcpy(LO + 64, &V, 8); memcpy(HI + 64, &V, 8);
  if (k == 0) { if (fl) return 0; *o = (Opd){SLJIT_IMM, V}; return 1; }
  if (k <= 15) { if (fl) { if (k > f->fs) return 0; fv[k] = V; *o = (Opd){k, 0}; return 1; } if (k > NR || !decl(f, k)) return 0; rv[k] = V; *o = (Opd){k, 0}; return 1; }
  if (k == 16) { *o = (Opd){SLJIT_MEM0(), cell}; return 1; }
  if (k == 17) { *o = (Opd){SLJIT_MEM0(), (u64)HI + 64}; return 1; }
  if (k == 18) { if (f->loc < 16) return 0; locoff = (f->loc - 8) & ~7; locpatch = V; *o = (Opd){SLJIT_MEM1(SLJIT_SP), locoff}; return 1; }
  if (k <= 31) { int r = k - 18; if (!decl(f, r)) return 0; rv[r] = cell - 16; *o = (Opd){SLJIT_MEM1(r), 16}; return 1; }
  if (k <= 44) { int r = k - 31, x = r % NR + 1, n = 0; if (!decl(f, r)) return 0; while (!decl(f, x) && n++ < NR) x = x % NR + 1; if (x == r) return 0; int s = k & 3; rv[x] = 5; rv[r] = cell - (5u << s); *o = (Opd){SLJIT_MEM2(r, x), s}; return 1; }
  if (k == 45) { int r = decl(f, SLJIT_S0) ? SLJIT_S0 : 1; if (!decl(f, r)) return 0; rv[r] = cell - 0x123456789a0ull; *o = (Opd){SLJIT_MEM1(r), 0x123456789a0ll}; return 1; }
  return 0;
}
static void patch_local(void) { if (locoff >= 0) OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), locoff, SLJIT_IMM, locpatch)); }
static const char *form_str(Opd o, int f) { if (SLJIT_IS_MEM(o.a) || o.a == SLJIT_IMM || f) return opd(o, f); return opd(o, 0); }
/* ---- running ---- */
static u64 hv;
static void runf(u64 fn) {
  for (int i = 0; i < 16; i++) { A->in_gp[i] = 0xa1b2c3d4e5f60718ull * (2 * i + 1) ^ 0x8000000080000000ull; A->in_x[i][0] = 0xc0d1e2f3a4b5c6d7ull * (2 * i + 3); A->in_x[i][1] = ~A->in_x[i][0]; A->cal_gp[i] = 0x0fedcba987654321ull * (2 * i + 5); A->cal_x[i][0] = 0x13579bdf02468aceull * (2 * i + 7); A->cal_x[i][1] = 77 + i; }
  memset(A->calls, 0, sizeof A->calls); memset(A->d, 0, sizeof A->d); A->alt = 0; A->stk = STKTOP; memset((void *)STKTOP, 0xc7, CANARY); A->fn = fn; go(); mc_steps(1);
  for (int i = 0; i < CANARY; i++) if (((uint8_t *)STKTOP)[i] != 0xc7) mc_fail("byte %d of the caller's stack was overwritten", i);
  if (A->out.gp[4] != STKTOP) mc_fail("the stack pointer is %ld bytes %s after the return", labs((long)(A->out.gp[4] - STKTOP)), A->out.gp[4] < STKTOP ? "too low" : "too high");
}
static void csaved_same(const Dump *d, const char *when) { for (int i = 0; i < 6; i++) if (d->gp[csaved[i]] != A->in_gp[csaved[i]]) mc_fail("machine register %d, which belongs to the caller, is 0x%lx %s, was 0x%lx", csaved[i], d->gp[csaved[i]], when, A->in_gp[csaved[i]]); }
/* the function's own view: d is a record taken inside it (the record's stub call moved the stack pointer by one word) */
static void locals_ok(const Fr *f, const Dump *d, u64 top) {
  u64 sp = d->gp[4] + 8; if (sp + f->loc > top) mc_fail("the local area of %d bytes at %ld bytes below the caller's stack reaches into it", f->loc, (long)(top + 8 - sp));
  for (int i = 0; i < f->loc; i++) { uint8_t e = locoff >= 0 && i >= locoff && i < locoff + 8 ? (uint8_t)(locpatch >> 8 * (i - locoff)) : FILL; if (((uint8_t *)sp)[i] != e) mc_fail("byte %d of the local area is 0x%02x, must be 0x%02x", i, ((uint8_t *)sp)[i], e); }
}
static void entry_ok(const Args *a, const Dump *d, const u64 *w, const u64 *fl) { /* w, fl: argument values */
  int nw = 0, ns = 0, nf = 0; for (int i = 0; i < a->n; i++) { int t = a->ty[i]; u64 g, e, m = ~0ull; const char *rn; char b[8];
    if (t == 4 || t == 5) { g = d->x[FI(SLJIT_FR(nf))][0]; e = fl[nf]; if (t == 5) m = 0xffffffff; sprintf(b, "fr%d", nf); nf++; } else { int r = t & 8 ? SLJIT_R(nw) : SLJIT_S(ns); if (t & 8) sprintf(b, "r%d", nw); else sprintf(b, "s%d", ns); if (!(t & 8)) ns++; g = d->gp[GI(r)]; e = w[nw++]; if ((t & 7) == 2) m = 0xffffffff; } rn = b;
    if ((g ^ e) & m) mc_fail("argument %d of %s is 0x%lx in %s, must be 0x%lx", i + 1, al_str(a), g & m, rn, e & m); }
}
static void c_args(u64 *w, u64 *fl) { for (int i = 0; i < 4; i++) w[i] = A->in_gp[cargs[i]], fl[i] = A->in_x[i][0]; }
static void result_ok(int ret, u64 gp, u64 x) { u64 g = A->out.gp[0], fx = A->out.x[0][0]; if (ret == 0) return; if (ret == 4 ? fx != x : ret == 5 ? (u32)fx != (u32)x : ret == 2 ? (u32)g != (u32)gp : g != gp) mc_fail("the result of type %s is 0x%lx, must be 0x%lx", tyn[ret], ret >= 4 ? fx : g, ret >= 4 ? x : gp); }
static char pd_[1200]; static void pdesc(void) { mc_desc("%s", pd_); }
static char *fr_str(const Fr *f) { static char b[4][140]; static int o; char *s = b[o++ & 3]; int n = sprintf(s, "%d scratch, %d saved, %d float registers, %d bytes of locals", f->sc, f->sv, f->fs, f->loc); if (f->opt & SLJIT_ENTER_REG_ARG) sprintf(s + n, ", register arguments, %d kept", f->opt & 3); return s; }
static void done(void) { mc_outcome(mc_hash(hv, pd_, strlen(pd_))); hv = 0; fin_free(); }
#define DESC(...) do { sprintf(pd_, __VA_ARGS__); mc_describe_cb = pdesc; mc_predesc(); } while (0)
static const int ty8[] = {1, 2, 3, 9, 10, 11, 4, 5}, ty5[] = {1, 2, 3, 4, 5}, tyr5[] = {9, 10, 11, 4, 5};
static void free_lc(void) { if (lc) { sljit_free_compiler(lc); lc = NULL; } }
/* ---- entry: every argument list ---- */
static void ret_any(int ret) { if (ret == 0) OK(sljit_emit_return_void(lc)); else OK(sljit_emit_return(lc, ret == 1 ? SLJIT_MOV : ret == 2 ? SLJIT_MOV32 : ret == 3 ? SLJIT_MOV_P : ret == 4 ? SLJIT_MOV_F64 : SLJIT_MOV_F32, ret >= 4 ? SLJIT_FR0 : SLJIT_R0, 0)); }
static void b_entry(void) {
  Args a = {0}; al_pick(&a, ty8, 8); a.ret = choose(6); int c = choose(4); fr = (Fr){0, al_r(&a), al_s(&a), al_f(&a), c == 1 ? 24 : c == 3 ? 8 : 0}; if (c == 1) fr.sc = 7, fr.sv = 6; if (c == 2) fr.sv = fr.sv < 2 ? 2 : fr.sv, fr.sc = NR - fr.sv, fr.fs = 15; if (c == 3) fr.sv = 5, fr.sc = fr.sc < 6 ? 6 : fr.sc; if (a.ret && a.ret < 4 && !fr.sc) fr.sc = 1; if (a.ret >= 4 && !fr.fs) fr.fs = 1;
  if (!mc_mine()) return; abi_init(); new_values(); DESC("function %s with %s\n", al_str(&a), fr_str(&fr)); start(&fr, &a); DUMP(0); fills(&fr); set_regs(&fr); ret_any(a.ret); runf(fin());
  u64 w[4], f[4]; c_args(w, f); if (A->calls[0] != 1) mc_fail("the function ran %lu times", A->calls[0]); entry_ok(&a, &A->d[0], w, f); csaved_same(&A->out, "after the return"); locals_ok(&fr, &A->d[0], STKTOP - 8); done();
}
/* ---- frames: every register count, local sizes ---- */
static const char *rastr(int r) { static const char *s[] = {"", ", asks for its return address in r0", ", asks for its return address in s0", ", asks for its return address in memory", ", asks for its return address in the local area"}; return s[r]; }
static int locsize(int k) { static const int big[] = {120, 121, 127, 128, 129, 135, 136, 137, 200, 4000, 4096, 4104, 65536, 100000, 1048575, 1048576}; int n = mc_thorough ? 41 : 26; return k < n ? k : big[k - n]; }
#define NLOC ((mc_thorough ? 41 : 26) + 16)
static void b_frames(void) {
  fr = (Fr){0, choose(14), choose(7), (int[]){0, 1, 15}[choose(3)]}; if (fr.sc + fr.sv > NR) return; int al = choose(3), frag = choose(2), ra = choose(5); fr.loc = locsize(choose(NLOC)); if (fr.loc > 4200 && fr.fs == 1) return;
  Args a = {0}; if (al == 1) { a.n = 4; for (int i = 0; i < 4; i++) a.ty[i] = i < fr.sv ? 1 : 9; } if (al == 2) { a.n = 4; for (int i = 0; i < 4; i++) a.ty[i] = i & 1 ? 4 : 9; } if (al_r(&a) > fr.sc || al_f(&a) > fr.fs) return; static const int rr[] = {0, SLJIT_R0, SLJIT_S0, SLJIT_MEM0(), SLJIT_MEM1(SLJIT_SP)}; int dr = rr[ra]; if (ra == 1 && !decl(&fr, SLJIT_R0) || ra == 2 && !decl(&fr, SLJIT_S0) || ra == 4 && fr.loc < 16) return;
  if (!mc_mine()) return; abi_init(); new_values(); DESC("function %s with %s%s%s\n", al_str(&a), fr_str(&fr), frag ? ", in two pieces" : "", ra ? rastr(ra) : ""); start(&fr, &a); DUMP(0); fills(&fr); if (frag) split(&fr, &a); set_regs(&fr); u64 cell = (u64)LO + 64; if (ra) OK(sljit_emit_op_dst(lc, SLJIT_GET_RETURN_ADDRESS, dr, ra == 3 ? cell : ra == 4 ? 8 : 0)); DUMP(1); OK(sljit_emit_return_void(lc)); runf(fin_parts());
  u64 w[4], f[4]; c_args(w, f); if (A->calls[0] != 1 || A->calls[1] != 1) mc_fail("the parts of the function ran %lu and %lu times", A->calls[0], A->calls[1]); entry_ok(&a, &A->d[0], w, f); csaved_same(&A->out, "after the return"); if (ra == 4) { locoff = 8; locpatch = retaddr; } locals_ok(&fr, &A->d[0], STKTOP - 8);
  if (A->d[0].gp[4] != A->d[1].gp[4]) mc_fail("the stack pointer moved"); if (ra == 1 || ra == 2) rv[dr] = retaddr; if (ra == 3 && *(u64 *)cell != retaddr) mc_fail("the return address is given as 0x%lx, must be 0x%lx", *(u64 *)cell, retaddr);
  for (int i = 1; i <= NR; i++) if (decl(&fr, i) && A->d[1].gp[GI(i)] != rv[i]) mc_fail("%s is 0x%lx, must be 0x%lx", rname(i), A->d[1].gp[GI(i)], rv[i]); for (int i = 1; i <= fr.fs; i++) if (A->d[1].x[FI(i)][0] != fv[i]) mc_fail("fr%d is 0x%lx, must be 0x%lx", i - 1, A->d[1].x[FI(i)][0], fv[i]); done();
}
/* ---- returns ---- */
static const Fr frs[] = {{0, 4, 0, 4, 0}, {0, 4, 6, 4, 16}, {0, 7, 3, 15, 200}, {0, 13, 0, 6, 24}, {0, 9, 4, 4, 40}, {0, 5, 1, 5, 8}, {0, 7, 6, 8, 4104}};
#define NFR 7
/* any frame: one of the above, or (all != 0) every count of registers, without and with locals */
static int pick_fr(int first, int *all) { int k = choose(first + 2); *all = 0; if (k < first) { fr = frs[k]; return 1; } *all = 1; fr = (Fr){0, choose(14), choose(7), 4, k == first ? 0 : 16}; return fr.sc + fr.sv <= NR; }
static int rops(int ret, int k) { static const int w[] = {SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32}, d[] = {SLJIT_MOV32, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16}; return ret == 1 ? w[k] : ret == 2 ? d[k] : ret == 3 ? SLJIT_MOV_P : ret == 4 ? SLJIT_MOV_F64 : SLJIT_MOV_F32; }
static const u64 vals[] = {0, 0x8182838485868788ull, 0x7f7e7d7c7b7a7978ull, 0xffffffffffffff80ull, 0x00000000fffe8001ull};
static u64 ext(int op, u64 v) { switch (op & 0xff) { case SLJIT_MOV_U8: return (uint8_t)v; case SLJIT_MOV_S8: return sx(v, 1); case SLJIT_MOV_U16: return (uint16_t)v; case SLJIT_MOV_S16: return sx(v, 2); case SLJIT_MOV_U32: return (u32)v; case SLJIT_MOV_S32: return sx(v, 4); } return v; }
static void b_returns(void) {
  int all; if (!pick_fr(NFR, &all)) return; Args a = {1 + choose(5)}; if (!fr.sc) return; int op = rops(a.ret, choose(all ? 1 : a.ret == 1 ? 7 : a.ret == 2 ? 5 : 1)); int k = choose(NFORM), frag = choose(2); u64 V = vals[all ? 1 : choose(5)]; Opd o; int fl = a.ret >= 4; if (k <= 15 && k && (fl ? k > fr.fs : !decl(&fr, k))) return; if (k == 0 && fl) return; if (fl && k <= 15 && a.ret == 5) V = (u32)V; if (!mc_mine()) return;
  int sz = a.ret == 2 ? 4 : 8; abi_init(); new_values(); if (k == 0 && a.ret == 2) V = (u64)(s64)(s32)V; if (!form(&fr, k, V, fl, &o)) { mc_owned = 0; return; } (void)sz; DESC("%s%s with %s returns %s, 0x%lx (operation %d)\n", frag ? "the second piece of " : "", al_str(&a), fr_str(&fr), form_str(o, fl), V, op & 0xff); start(&fr, &a); DUMP(0); fills(&fr); if (frag) split(&fr, &a); set_regs(&fr); patch_local(); OK(sljit_emit_return(lc, op, o.a, o.w)); runf(fin_parts());
  csaved_same(&A->out, "after the return"); locals_ok(&fr, &A->d[0], STKTOP - 8); u64 e = ext(op, V); result_ok(a.ret, e, V); hv = e; done();
}
/* ---- calls ---- */
static u64 target_of(int k) { return A->stub[4 + k]; }
static void load_args(const Args *a, const Fr *f, u64 *w, u64 *x) { int nw = 0, nf = 0; for (int i = 0; i < a->n; i++) { if (a->ty[i] == 4 || a->ty[i] == 5) { nf++; u64 v = fv[nf]; if (a->ty[i] == 5) { float g = 4.25f + nf; v = b32(g); OK(sljit_emit_fset32(lc, nf, g)); } x[nf - 1] = v; } else { nw++; w[nw - 1] = rv[nw]; } } (void)f; }
/* what a C callee finds */
static void callee_ok(const Args *a, const Dump *d, const u64 *w, const u64 *x) { int nw = 0, nf = 0; for (int i = 0; i < a->n; i++) { int t = a->ty[i]; if (t == 4 || t == 5) { u64 g = d->x[nf][0], m = t == 5 ? 0xffffffff : ~0ull; if ((g ^ x[nf]) & m) mc_fail("argument %d of the callee %s is 0x%lx, must be 0x%lx", i + 1, al_str(a), g & m, x[nf] & m); nf++; } else { u64 g = d->gp[cargs[nw]], m = t == 2 ? 0xffffffff : ~0ull; if ((g ^ w[nw]) & m) mc_fail("argument %d of the callee %s is 0x%lx, must be 0x%lx", i + 1, al_str(a), g & m, w[nw] & m); nw++; } }
  if ((d->gp[4] & 15) != 8) mc_fail("the callee finds the stack pointer at 0x%lx, which is not 16-byte aligned", d->gp[4]); }
static void emit_c(int kind, s32 type, const Args *a, u64 target, Opd o) { /* kind 0 jump, 1 rewritable jump, 2 icall */
  if (kind == 2) { OK(sljit_emit_icall(lc, type, al_bits(a), o.a, o.w)); return; } struct sljit_jump *j = sljit_emit_call(lc, type | (kind ? SLJIT_REWRITABLE_JUMP : 0), al_bits(a)); if (!j) mc_fail("no call was emitted: error %d", sljit_get_compiler_error(lc)); sljit_set_target(j, target); }
static int pick_kind(int *k) { int c = choose(NFORM + 2); *k = c < 2 ? 0 : c - 2; return c < 2 ? c : 2; }
static void sub_lists(Args *a) { al_pick(a, ty5, 5); a->ret = choose(6); }
static void b_calls31(void) { /* every argument list, every way to name the callee */
  Args a = {0}, own = {0}; int k, kind = pick_kind(&k); fr = frs[choose(mc_thorough ? NFR : 3)]; sub_lists(&a); Opd o = {SLJIT_IMM, 0}; if (al_w(&a) > fr.sc || al_f(&a) > fr.fs) return; if (kind == 2 && k <= 15 && k && !decl(&fr, k)) return;
  if (!mc_mine()) return; abi_init(); new_values(); if (kind == 2 && !form(&fr, k, target_of(0), 0, &o)) { mc_owned = 0; return; } DESC("a function with %s calls %s by %s%s\n", fr_str(&fr), al_str(&a), kind == 0 ? "a jump" : kind == 1 ? "a rewritable jump" : "icall ", kind == 2 ? opd(o, 0) : "");
  u64 w[4], x[4]; start(&fr, &own); DUMP(0); fills(&fr); set_regs(&fr); patch_local(); load_args(&a, &fr, w, x); emit_c(kind, SLJIT_CALL, &a, target_of(0), o); DUMP(1); OK(sljit_emit_return_void(lc)); runf(fin());
  if (A->calls[4] != 1 || A->calls[1] != 1) mc_fail("the callee ran %lu times, the code behind the call %lu times", A->calls[4], A->calls[1]); callee_ok(&a, &A->d[4], w, x); csaved_same(&A->out, "after the return"); locals_ok(&fr, &A->d[0], STKTOP - 8); if (A->d[1].gp[4] != A->d[0].gp[4]) mc_fail("the stack pointer moved by %ld bytes over the call", (long)(A->d[1].gp[4] - A->d[0].gp[4])); if (A->d[4].gp[4] + 8 > A->d[0].gp[4] + 8) mc_fail("the callee's frame overlaps the local area");
  for (int i = NR; i > NR - fr.sv; i--) if (A->d[1].gp[GI(i)] != rv[i]) mc_fail("%s is 0x%lx after the call, must be 0x%lx", rname(i), A->d[1].gp[GI(i)], rv[i]);
  u64 g = A->d[1].gp[GI(SLJIT_R0)], y = A->d[1].x[FI(SLJIT_FR0)][0]; if (a.ret >= 1 && a.ret <= 3 && (a.ret == 2 ? (u32)g != (u32)A->cal_gp[0] : g != A->cal_gp[0])) mc_fail("r0 is 0x%lx after the call, the callee returned 0x%lx", g, A->cal_gp[0]); if (a.ret >= 4 && (a.ret == 5 ? (u32)y != (u32)A->cal_x[0][0] : y != A->cal_x[0][0])) mc_fail("fr0 is 0x%lx after the call, the callee returned 0x%lx", y, A->cal_x[0][0]); done();
}
static void b_tail(void) { /* SLJIT_CALL_RETURN */
  Args a = {0}, own = {0}; int k, all, kind = pick_kind(&k), frag = choose(2); if (!pick_fr(NFR, &all)) return; static const int t2[] = {1, 4, 2}; if (all) { a.n = choose(5); for (int i = 0; i < a.n; i++) a.ty[i] = 1; a.ret = 1; } else { al_pick(&a, t2, mc_thorough ? 3 : 2); a.ret = choose(6); } if (a.ret && !fr.sc) return; Opd o = {SLJIT_IMM, 0}; if (al_w(&a) > fr.sc || al_f(&a) > fr.fs) return; if (kind == 2 && k <= 15 && k && !decl(&fr, k)) return; own.ret = a.ret;
  if (!mc_mine()) return; abi_init(); new_values(); if (kind == 2 && !form(&fr, k, target_of(0), 0, &o)) { mc_owned = 0; return; } DESC("a function with %s ends with a tail call of %s by %s%s%s\n", fr_str(&fr), al_str(&a), kind == 0 ? "a jump" : kind == 1 ? "a rewritable jump" : "icall ", kind == 2 ? opd(o, 0) : "", frag ? ", in two pieces" : "");
  u64 w[4], x[4]; start(&fr, &own); DUMP(0); fills(&fr); if (frag) split(&fr, &own); set_regs(&fr); patch_local(); load_args(&a, &fr, w, x); emit_c(kind, SLJIT_CALL | SLJIT_CALL_RETURN, &a, target_of(0), o); DUMP(1); ret_any(a.ret); runf(fin_parts());
  if (A->calls[4] != 1 || A->calls[1]) mc_fail("the callee ran %lu times, the code behind the tail call %lu times", A->calls[4], A->calls[1]); callee_ok(&a, &A->d[4], w, x); csaved_same(&A->out, "after the return"); result_ok(a.ret, A->cal_gp[0], A->cal_x[0][0]); done();
}
/* ---- functions with register arguments ---- */
static const Fr infr[] = {{0, 4, 0, 4, 0}, {0, 4, 3, 4, 24}, {0, 7, 6, 15, 8}, {0, 10, 3, 4, 16}, {0, 8, 5, 5, 200}};
static void b_regarg(void) { /* outer (C) -> [middle, tail call] -> inner */
  int via = choose(5) /* 0 label behind, 1 label before, 2 target, 3 icall register, 4 icall memory */, mid = choose(2), keep = choose(4), km = mid ? choose(4) : 0; fr = frs[choose(4)]; Fr in = infr[choose(5)], md = infr[mid ? 1 + choose(4) : 0]; Args a = {0}; int act = choose(via >= 2 ? 5 : 3); /* what the inner function does: nothing, calls C, asks for its return address, both of it in two pieces */ if (mc_thorough && !act || !mid && !act) al_pick(&a, tyr5, 5); else { static const int t2[] = {9, 4}; al_pick(&a, t2, 2); } a.ret = choose(6);
  if (P31_FEW && mid && keep != km) return;
  if (keep > in.sv || mid && km > md.sv || keep > fr.sv || km > fr.sv) return; in.opt = SLJIT_ENTER_REG_ARG | keep; md.opt = SLJIT_ENTER_REG_ARG | km; Args plain = a; for (int i = 0; i < a.n; i++) plain.ty[i] &= 7; Args own = {0}; if (al_w(&a) > fr.sc || al_f(&a) > fr.fs) return; if (!mc_mine()) return;
  abi_init(); new_values(); DESC("a function with %s calls %s, which has %s%s, through %s%s%s\n", fr_str(&fr), al_str(&a), fr_str(&in), (const char *[]){"", " and calls a C function", " and asks for its return address", " and comes in two pieces", ", comes in two pieces, calls a C function and asks for its return address"}[act], via == 0 ? "a label behind" : via == 1 ? "a label before" : via == 2 ? "a jump" : via == 3 ? "a register" : "memory", mid ? "; between them one that ends with a tail call and has " : "", mid ? fr_str(&md) : "");
  u64 w[4], x[4], nv[4] = {0x1111222233334444ull, 0x5555666677778888ull, 0x9999aaaabbbbccccull, 0}, mv[4] = {0x123400005678ull, 0x2234000056780000ull, 0x3234000056781111ull}; struct sljit_label *li = NULL; struct sljit_jump *jc = NULL; u64 ia = 0, entry;
  /* scratch values survive up to the callee's entry only as arguments */
#define INNER() do { start(&in, &a); DUMP(2); fills(&in); if (act >= 3) split(&in, &a); if (act == 2 || act == 4) OK(sljit_emit_op_dst(lc, SLJIT_GET_RETURN_ADDRESS, SLJIT_MEM0(), (sljit_sw)HI + 128)); if (act == 1 || act == 4) { struct sljit_jump *cj = sljit_emit_call(lc, SLJIT_CALL, 0); if (!cj) mc_fail("no call"); sljit_set_target(cj, target_of(0)); } for (int i = 1; i <= NR; i++) if (decl(&in, i)) OK(sljit_emit_op1(lc, SLJIT_MOV, i, 0, SLJIT_IMM, ~rv[i] ^ 0x55)); for (int i = 0; i < keep; i++) OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_S(i), 0, SLJIT_IMM, nv[i])); if (a.ret == 0) OK(sljit_emit_return_void(lc)); else if (a.ret == 4) { OK(sljit_emit_fset64(lc, SLJIT_FR0, 7.5)); OK(sljit_emit_return(lc, SLJIT_MOV_F64, SLJIT_FR0, 0)); } else if (a.ret == 5) { OK(sljit_emit_fset32(lc, SLJIT_FR1, 8.5f)); OK(sljit_emit_return(lc, SLJIT_MOV_F32, SLJIT_FR1, 0)); } else OK(sljit_emit_return(lc, a.ret == 1 ? SLJIT_MOV : a.ret == 2 ? SLJIT_MOV32 : SLJIT_MOV_P, SLJIT_IMM, 0x7654321)); } while (0)
  Fr inl = in; int il = in.loc; u64 ma = 0; Opd o = {0, 0}; u64 mrv[16]; for (int i = 0; i < 16; i++) mrv[i] = rv[i] ^ 0x00f0f0f0f0f0f0f0ull;
  /* only one frame is filled (locsz is shared): the inner one */
  if (via >= 2 || mid) { lir_begin(); INNER(); ia = fin_parts(); }
  if (mid) { lir_begin(); start(&md, &a); DUMP(1); int kk = 0; /* change the saved registers this function owns, and the kept ones */ for (int i = 0; i < md.sv; i++) OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_S(i), 0, SLJIT_IMM, i < km ? mv[i] : mrv[i])); for (int i = al_w(&a); i < md.sc; i++) OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_R(i), 0, SLJIT_IMM, 99)); (void)kk; Opd mo = {SLJIT_MEM0(), (sljit_sw)&A->cell[1]}; A->cell[1] = ia; int mk = via == 0 ? 0 : via == 1 ? 1 : 2; if (via == 3 && md.sv) { mo = (Opd){SLJIT_S(md.sv - 1), 0}; OK(sljit_emit_op1(lc, SLJIT_MOV, mo.a, 0, SLJIT_IMM, ia)); if (md.sv - 1 < km) mv[md.sv - 1] = ia; } emit_c(mk, SLJIT_CALL_REG_ARG | SLJIT_CALL_RETURN, &plain, ia, mo); ma = fin(); }
  u64 ta = mid ? ma : ia; lir_begin(); int lb = !mid && via < 2;
  if (lb && via == 1) { li = lab(0); INNER(); }
  struct sljit_label *le = lab(0); start(&fr, &own); DUMP(0); if (fr.loc && !in.loc) fills(&fr); set_regs(&fr); load_args(&plain, &fr, w, x);
  if (lb) { jc = sljit_emit_call(lc, SLJIT_CALL_REG_ARG | (via ? SLJIT_REWRITABLE_JUMP : 0), al_bits(&plain)); if (!jc) mc_fail("no call was emitted"); } else { int kind = via == 2 ? 0 : via == 0 ? 0 : via == 1 ? 1 : 2; A->cell[0] = ta; if (via == 3) { int r = al_w(&a) < fr.sc ? SLJIT_R(al_w(&a)) : fr.sv ? SLJIT_S(fr.sv - 1) : 0; if (r) { o = (Opd){r, 0}; rv[r] = ta; OK(sljit_emit_op1(lc, SLJIT_MOV, r, 0, SLJIT_IMM, ta)); } else o = (Opd){SLJIT_IMM, ta}; } else o = (Opd){SLJIT_MEM0(), (sljit_sw)&A->cell[0]}; emit_c(kind, SLJIT_CALL_REG_ARG, &plain, ta, o); }
  struct sljit_label *lr = lab(0); DUMP(3); OK(sljit_emit_return_void(lc)); if (lb && via == 0) { li = lab(0); INNER(); } if (lb) sljit_set_label(jc, li); place = 0; gen(); codes[ncodes++] = code; entry = sljit_get_label_addr(le); u64 lra = sljit_get_label_addr(lr); sljit_free_compiler(lc); lc = NULL; (void)inl; (void)il;
  runf(entry); if (A->calls[2] != 1 || A->calls[3] != 1 || A->calls[1] != (u64)mid) mc_fail("the callee ran %lu times, the code behind the call %lu times", A->calls[2], A->calls[3]);
  if (act == 1 || act == 4) { if (A->calls[4] != 1) mc_fail("the C function ran %lu times", A->calls[4]); if ((A->d[4].gp[4] & 15) != 8) mc_fail("the C function called by the callee finds the stack pointer at 0x%lx, which is not 16-byte aligned", A->d[4].gp[4]); }
  if ((act == 2 || act == 4) && *(u64 *)(HI + 128) != lra) mc_fail("the return address is given as 0x%lx, must be 0x%lx", *(u64 *)(HI + 128), lra);
  entry_ok(&a, &A->d[2], w, x); if (mid) entry_ok(&a, &A->d[1], w, x); csaved_same(&A->out, "after the return"); int lo = locoff; if (in.loc) locals_ok(&in, &A->d[2], A->d[0].gp[4]); (void)lo; if (A->d[3].gp[4] != A->d[0].gp[4]) mc_fail("the stack pointer moved by %ld bytes over the call", (long)(A->d[3].gp[4] - A->d[0].gp[4]));
  /* saved registers: value seen by the inner function, and afterwards by the outer one */
  for (int i = 0; i < 6; i++) { u64 ov = i < fr.sv || SLJIT_S(i) <= fr.sc ? rv[SLJIT_S(i)] : A->in_gp[GI(SLJIT_S(i))], iv = ov, av; if (mid && i < km) iv = mv[i]; if (A->d[2].gp[GI(SLJIT_S(i))] != iv) mc_fail("s%d is 0x%lx in the callee, must be 0x%lx", i, A->d[2].gp[GI(SLJIT_S(i))], iv); av = i < keep ? nv[i] : iv; if (i < fr.sv && A->d[3].gp[GI(SLJIT_S(i))] != av) mc_fail("s%d is 0x%lx after the call, must be 0x%lx", i, A->d[3].gp[GI(SLJIT_S(i))], av); }
  u64 g = A->d[3].gp[GI(SLJIT_R0)], y = A->d[3].x[FI(SLJIT_FR0)][0]; if (a.ret >= 1 && a.ret <= 3 && (a.ret == 2 ? (u32)g != 0x7654321 : g != 0x7654321)) mc_fail("r0 is 0x%lx after the call, must be 0x7654321", g); if (a.ret == 4 && y != b64(7.5)) mc_fail("fr0 is 0x%lx after the call, must be 7.5", y); if (a.ret == 5 && (u32)y != b32(8.5f)) mc_fail("fr0 is 0x%lx after the call, must be 8.5", y); { char *t = al_str(&a), *u = fr_str(&in); mc_outcome(mc_hash(mc_hash(act * 16 + via, t, strlen(t)), u, strlen(u))); fin_free(); }
}
/* ---- leaving to another place ---- */
static void b_returnto(void) {
  int all; if (!pick_fr(1, &all)) return; int k = choose(NFORM), frag = choose(2), locs = choose(4); fr.loc = (int[]){fr.loc, 0, 16, 120}[locs]; Args a = {0, choose(3), {1, 4}}; if (al_s(&a) > fr.sv) return; if (k && k <= 15 && !decl(&fr, k)) return; Opd o; if (!mc_mine()) return; abi_init(); new_values(); if (!form(&fr, k, altentry, 0, &o)) { mc_owned = 0; return; }
  DESC("%s with %s goes on at %s%s\n", al_str(&a), fr_str(&fr), opd(o, 0), frag ? ", in two pieces" : ""); start(&fr, &a); DUMP(0); fills(&fr); if (frag) split(&fr, &a); set_regs(&fr); patch_local(); OK(sljit_emit_return_to(lc, o.a, o.w)); runf(fin_parts()); if (A->alt != 1) mc_fail("the function returned to its caller instead"); csaved_same(&A->out, "there"); locals_ok(&fr, &A->d[0], STKTOP - 8); if (A->out.gp[GI(SLJIT_RETURN_REG)] != rv[SLJIT_RETURN_REG] && decl(&fr, SLJIT_RETURN_REG)) mc_fail("the value passed is 0x%lx, must be 0x%lx", A->out.gp[GI(SLJIT_RETURN_REG)], rv[SLJIT_RETURN_REG]); done();
}
static void b_returnto_kept(void) { /* a callee with kept registers goes on at a label of its caller */
  Fr in = infr[1 + choose(4)]; int keep = choose(4); if (keep > in.sv) return; in.opt = SLJIT_ENTER_REG_ARG | keep; fr = frs[1 + choose(2)]; if (fr.sv < 3) return; int k = choose(NFORM), loc = choose(3); in.loc = (int[]){in.loc, 0, 24}[loc]; if (k == 0 || k == 17 || k && k <= 15 && !decl(&in, k)) return; if (!mc_mine()) return; abi_init(); new_values(); Args z = {0}; u64 srv[16]; memcpy(srv, rv, sizeof srv);
  u64 nv[16]; for (int i = 0; i < 16; i++) rv[i] = nv[i] = rv[i] ^ 0x0ff00ff00ff00ff0ull; Opd o; if (!form(&in, k, 0, 0, &o)) { mc_owned = 0; return; } memcpy(nv, rv, sizeof nv); int lf = locoff; locoff = -1;
  DESC("a callee with %s goes on at %s, a label of its caller\n", fr_str(&in), opd(o, 0)); struct sljit_label *li, *ll; struct sljit_jump *j, *aj; lir_begin(); memcpy(rv, srv, sizeof rv); struct sljit_label *le = lab(0); start(&fr, &z); DUMP(0); set_regs(&fr); aj = sljit_emit_op_addr(lc, SLJIT_MOV_ADDR, SLJIT_MEM0(), (sljit_sw)LO + 64); if (!aj) mc_fail("no address"); j = sljit_emit_call(lc, SLJIT_CALL_REG_ARG, 0); if (!j) mc_fail("no call"); DUMP(2); ll = lab(0); DUMP(3); OK(sljit_emit_return_void(lc));
  li = lab(0); start(&in, &z); DUMP(1); fills(&in); memcpy(rv, nv, sizeof rv); set_regs(&in); if (k <= 15) OK(sljit_emit_op1(lc, SLJIT_MOV, k, 0, SLJIT_MEM0(), (sljit_sw)LO + 64)); if (lf >= 0) OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), lf, SLJIT_MEM0(), (sljit_sw)LO + 64)); OK(sljit_emit_return_to(lc, o.a, o.w)); sljit_set_label(j, li); sljit_set_label(aj, ll); place = 0; gen(); codes[ncodes++] = code; u64 e = sljit_get_label_addr(le), la = sljit_get_label_addr(ll); sljit_free_compiler(lc); lc = NULL;
  runf(e); if (A->calls[2] || A->calls[3] != 1) mc_fail("the callee returned to its caller instead"); csaved_same(&A->out, "after the return"); locoff = lf; locpatch = la; if (in.loc) locals_ok(&in, &A->d[1], A->d[0].gp[4]); if (k <= 15) nv[k] = la; if (A->d[3].gp[4] != A->d[0].gp[4]) mc_fail("the stack pointer moved by %ld bytes", (long)(A->d[3].gp[4] - A->d[0].gp[4]));
  for (int i = 0; i < fr.sv; i++) { u64 e = i < keep ? nv[SLJIT_S(i)] : srv[SLJIT_S(i)]; if (A->d[3].gp[GI(SLJIT_S(i))] != e) mc_fail("s%d is 0x%lx there, must be 0x%lx", i, A->d[3].gp[GI(SLJIT_S(i))], e); } if (A->d[3].gp[GI(SLJIT_R0)] != nv[1]) mc_fail("the value passed is 0x%lx, must be 0x%lx", A->d[3].gp[GI(SLJIT_R0)], nv[1]); done();
}
/* ---- recursion through generated functions: the frames of many activations stay apart ---- */
static void b_nest(void) { /* f(n, p): locals filled with n; if n, calls itself with n - 1; then checks that its locals and saved registers are unchanged; returns the sum */
  static const Fr nf[] = {{0, 4, 3, 0, 16}, {0, 7, 6, 0, 100}, {0, 13 - 3, 3, 0, 24}, {0, 9, 4, 0, 8}, {0, 4, 3, 0, 4104}}; int q = choose(5), ra = choose(2), kind = choose(3), depth = (int[]){0, 1, 2, 5, 17}[choose(5)]; fr = nf[q]; if (!mc_mine()) return; if (ra) fr.opt = SLJIT_ENTER_REG_ARG; abi_init(); new_values(); DESC("a function with %s calls itself %d times through %s\n", fr_str(&fr), depth, kind == 0 ? "a label" : kind == 1 ? "memory" : "a saved register");
  Args a = {1, 2, {1, 1}}, ar = {1, 2, {9, 9}}, c = {0}; lir_begin(); struct sljit_label *lf = lab(0); start(&fr, ra ? &ar : &a); if (ra) { OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_S0, 0, SLJIT_R0, 0)); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_S1, 0, SLJIT_R1, 0)); }
  OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_S0, 0)); int hi = (fr.loc - 8) & ~7; OK(sljit_emit_op2(lc, SLJIT_MUL, SLJIT_MEM1(SLJIT_SP), hi, SLJIT_S0, 0, SLJIT_IMM, 3)); OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_S2, 0, SLJIT_S0, 0, SLJIT_IMM, 1000)); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0)); struct sljit_jump *jz = jmp(sljit_emit_cmp(lc, SLJIT_EQUAL, SLJIT_S0, 0, SLJIT_IMM, 0));
  OK(sljit_emit_op2(lc, SLJIT_SUB, SLJIT_R0, 0, SLJIT_S0, 0, SLJIT_IMM, 1)); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_R1, 0, SLJIT_S1, 0)); s32 ty = ra ? SLJIT_CALL_REG_ARG : SLJIT_CALL; struct sljit_jump *j = NULL; if (kind == 0) { j = jmp(sljit_emit_call(lc, ty, SLJIT_ARGS2(W, W, W))); sljit_set_label(j, lf); } else if (kind == 1) OK(sljit_emit_icall(lc, ty, SLJIT_ARGS2(W, W, W), SLJIT_MEM0(), (sljit_sw)&A->cell[0])); else OK(sljit_emit_icall(lc, ty, SLJIT_ARGS2(W, W, W), SLJIT_S1, 0));
  sljit_set_label(jz, lab(0)); if (hi) OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_SP), 0)); OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_SP), hi)); OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_S2, 0)); OK(sljit_emit_op2(lc, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_S0, 0)); OK(sljit_emit_return(lc, SLJIT_MOV, SLJIT_R0, 0));
  struct sljit_label *le = lab(0); Fr ofr = {0, 4, 2, 0, 0}; Args oa = {1}; start(&ofr, &oa); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, depth)); OK(sljit_emit_op1(lc, SLJIT_MOV, SLJIT_R1, 0, SLJIT_MEM0(), (sljit_sw)&A->cell[0])); struct sljit_jump *jo = jmp(sljit_emit_call(lc, ty, SLJIT_ARGS2(W, W, W))); sljit_set_label(jo, lf); OK(sljit_emit_return(lc, SLJIT_MOV, SLJIT_R0, 0)); place = 0; gen(); codes[ncodes++] = code; A->cell[0] = sljit_get_label_addr(lf); u64 e = sljit_get_label_addr(le); sljit_free_compiler(lc); lc = NULL; (void)c;
  runf(e); u64 s = 0; for (int n = 0; n <= depth; n++) s += (hi ? n : 0) + 3 * n + 1000 + n + n; s -= 0; u64 want_ = 0; for (int n = 0; n <= depth; n++) want_ += (hi ? (u64)n : 0) + 3 * (u64)n + (1000 + n) + n; if (A->out.gp[0] != want_) mc_fail("the sum is %lu, must be %lu", A->out.gp[0], want_); csaved_same(&A->out, "after the return"); hv = s; done();
}
#ifndef P31_LIB
static struct mc_space sp31[] = {{"entry", b_entry, "every list of up to 4 arguments of 8 types x 6 result types x 4 frames: each argument arrives in the documented register"}, {"frames", b_frames, "every count of scratch and saved registers, float registers, local sizes 0..25 (40) and 16 larger up to the limit; whole or in two pieces (set_context); return address asked for in 4 ways"}, {"returns", b_returns, "15 return operations x 46 operand forms x 7 frames x 5 values, and 46 forms x every count of registers; whole or in two pieces"}, {"calls", b_calls31, "every list of up to 4 arguments of 5 types x 6 result types x 48 ways to name the callee x 3 (7) frames"}, {"tail-calls", b_tail, "lists of 2 (3) types x 6 result types x 48 ways x 7 frames, and 0..4 arguments x 48 ways x every count of registers; whole or in two pieces"}, {"register-arguments", b_regarg, "every list of up to 4 scratch arguments x result types x frames of both functions x kept registers 0..3 x 5 ways to call, directly or through a function ending in a tail call"}, {"return-to", b_returnto, "46 operand forms x every count of scratch and saved registers x 4 local sizes"}, {"return-to-kept", b_returnto_kept, "the same from a callee with 0..3 kept registers to a label of its caller"}, {"recursion", b_nest, "5 frames x C or register arguments x 3 ways to call x depths up to 17"}};
static const char *as31[] = {"x86-64, System V calling convention", "machine registers are identified through sljit_get_register_index", 0};
int main(int c, char **v) { static struct mc_check k = {"P31", "one execution = one small program of generated functions, entered from hand-assembled code with known values in every machine register on a stack of its own, and compared (arguments, results, saved registers, stack pointer and alignment, local area, caller's stack) with the calling convention; non-trivial = distinct programs", sp31, sizeof sp31 / sizeof *sp31, as31}; return mc_main(c, v, &k); }
#endif
