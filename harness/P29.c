/* P29 the foreign-function bridge: every signature, exact values, every history of callbacks */
#include "num.h"
#include "host.h"
#include "alloc.h"
#include <ffi.h>
#include <pwart_syslib.h>
static char dbuf[4000]; static int dn; static void describe(void) { mc_desc("%s", dbuf); }
extern struct pwart_host_module *off_pwart_libffi_module_new(void); extern int off_pwart_libffi_module_ffi_is_enabled(void); extern char *off_pwart_libffi_module_delete(struct pwart_host_module *);
/* ---- the functions of the module ---- */
enum { F_EN, F_PREP, F_PREPV, F_CALL, F_ABI, F_TYPES, X_CIF, X_DCIF, X_CALL, F_CALLOC, F_CFREE, F_PREPC, X_CB, X_DCB, NF };
static const char *fname[NF] = {"ffi_is_enabled", "ffi_prep_cif", "ffi_prep_cif_var", "ffi_call", "ffi_default_abi", "ffi_built_in_types", "ffix_new_cif", "ffix_del_cif", "ffix_call", "ffi_closure_alloc", "ffi_closure_free", "ffi_prep_closure_loc", "ffix_new_c_callback", "ffix_del_c_callback"};
#define R_ XREF
static FT ftype[NF] = {{0, 1, {0}, {I32}}, {5, 1, {R_, I32, I32, R_, R_}, {I32}}, {6, 1, {R_, I32, I32, I32, R_, R_}, {I32}}, {4, 0, {R_, R_, R_, R_}, {0}}, {0, 1, {0}, {I32}}, {0, 8, {0}, {R_, R_, R_, R_, R_, R_, R_, R_}}, {1, 2, {R_}, {R_, I32}}, {1, 0, {R_}, {0}}, {4, 0, {R_, R_, R_, R_}, {0}}, {0, 2, {0}, {R_, R_}}, {1, 0, {R_}, {0}}, {5, 1, {R_, R_, R_, R_, R_}, {I32}}, {3, 3, {R_, R_, R_}, {R_, R_, I32}}, {1, 0, {R_}, {0}}};
static void *fn_[NF]; static pwart_namespace ns_; static struct pwart_host_module *hm;
static void resolve_all(struct pwart_host_module *m, void **out) { for (int i = 0; i < NF; i++) { struct pwart_symbol_resolve_request q = {"libffi", fname[i], PWART_KIND_FUNCTION, NULL}; m->resolve(m, &q); out[i] = q.result; if (!q.result) mc_fail("%s is not found", fname[i]); } }
static pwart_module_state w_mod[3]; static void *wasm_cb(int, int);
static void *ucif, *uclo, *ucode;
static void ensure(void) { static int d; if (d) return; d = 1; hm = pwart_libffi_module_new(); resolve_all(hm, fn_); ns_ = pwart_namespace_new(); struct pwart_named_module nm; nm.name = "libffi"; nm.type = PWART_MODULE_TYPE_HOST_MODULE; nm.val.host = pwart_libffi_module_new(); char *e = pwart_namespace_define_module(ns_, &nm); if (e) mc_die(e);
  (void)ucif; uclo = ffi_closure_alloc(sizeof(ffi_closure), &ucode); set_cfg(1, 0); FT t0 = {0, 1, {0}, {I32}}; V r0; call_real(fn_[F_EN], &t0, 0, &r0); wasm_cb(0, 0); pwart_free_module_state(w_mod[0]); } /* one closure stays: libffi keeps its tables */
static void begin(int cfg) { ensure(); set_cfg(cfg & 1, 0); mc_describe_cb = describe; mc_predesc(); }
static V vref(const void *p) { return mk(XREF, (uintptr_t)p); }
#define P_(v) ((void *)(uintptr_t)(v).b)
static V res_[8]; static void call_(int f, ...) { V a[8]; va_list ap; va_start(ap, f); for (int i = 0; i < ftype[f].np; i++) a[i] = ftype[f].p[i] == I32 ? mk(I32, va_arg(ap, int)) : vref(va_arg(ap, void *)); va_end(ap); memset(res_, 0, sizeof res_); V r[8]; call_real(fn_[f], &ftype[f], a, r); memcpy(res_, r, sizeof res_); }
/* ---- the native side: what the C calling convention says ---- */
uint64_t c_int[6], c_fp[8], c_rax, c_ri, c_rf, c_stk[512]; static int c_n, c_nstk; static void (*c_hook)(void);
__attribute__((used)) void cap_body(uint64_t *stk) { c_n++; memcpy(c_stk, stk, 8 * c_nstk); if (c_hook) c_hook(); }
__attribute__((naked, noinline)) void cap(void) {
  __asm__ volatile("mov %rsp,%r11\n and $15,%r11\n cmp $8,%r11\n je 1f\n ud2\n1: mov %rax,c_rax(%rip)\n mov %rdi,c_int(%rip)\n mov %rsi,c_int+8(%rip)\n mov %rdx,c_int+16(%rip)\n mov %rcx,c_int+24(%rip)\n mov %r8,c_int+32(%rip)\n mov %r9,c_int+40(%rip)\n"
    "movq %xmm0,c_fp(%rip)\n movq %xmm1,c_fp+8(%rip)\n movq %xmm2,c_fp+16(%rip)\n movq %xmm3,c_fp+24(%rip)\n movq %xmm4,c_fp+32(%rip)\n movq %xmm5,c_fp+40(%rip)\n movq %xmm6,c_fp+48(%rip)\n movq %xmm7,c_fp+56(%rip)\n"
    "lea 8(%rsp),%rdi\n sub $8,%rsp\n call cap_body\n add $8,%rsp\n mov c_ri(%rip),%rax\n movq c_rf(%rip),%xmm0\n movabs $0xe7e7e7e7e7e7e7e7,%rcx\n mov %rcx,%rdx\n mov %rcx,%rsi\n mov %rcx,%rdi\n mov %rcx,%r8\n mov %rcx,%r9\n mov %rcx,%r10\n mov %rcx,%r11\n movq %rcx,%xmm1\n movaps %xmm1,%xmm2\n movaps %xmm1,%xmm7\n movaps %xmm1,%xmm15\n ret");
}
struct ncall { uint64_t ri[6], rf[8], n, *stk, code, rax, xmm0, saved[5]; };
void do_ncall(struct ncall *); /* calls code with the given registers and stack; keeps what it must find again */
__asm__("do_ncall:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rdi,%rbx\n mov %rsp,%rbp\n mov 112(%rbx),%rcx\n lea 1(%rcx),%rax\n and $-2,%rax\n shl $3,%rax\n sub %rax,%rsp\n sub $8,%rsp\n and $-16,%rsp\n mov 120(%rbx),%rsi\n mov %rsp,%rdi\n cld\n rep movsq\n"
  "movq 48(%rbx),%xmm0\n movq 56(%rbx),%xmm1\n movq 64(%rbx),%xmm2\n movq 72(%rbx),%xmm3\n movq 80(%rbx),%xmm4\n movq 88(%rbx),%xmm5\n movq 96(%rbx),%xmm6\n movq 104(%rbx),%xmm7\n mov 0(%rbx),%rdi\n mov 8(%rbx),%rsi\n mov 16(%rbx),%rdx\n mov 24(%rbx),%rcx\n mov 32(%rbx),%r8\n mov 40(%rbx),%r9\n mov $0x1234512,%r12\n mov $0x1234513,%r13\n mov $0x1234514,%r14\n mov $0x1234515,%r15\n mov $8,%eax\n call *128(%rbx)\n"
  "mov %rax,136(%rbx)\n movq %xmm0,144(%rbx)\n mov %r12,152(%rbx)\n mov %r13,160(%rbx)\n mov %r14,168(%rbx)\n mov %r15,176(%rbx)\n mov %rbp,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
#define NARG 256
static int isf(int t) { return t == 'f' || t == 'd'; }
static int tsz(int t) { return t == 'i' || t == 'f' ? 4 : t == 'v' ? 0 : 8; }
static uint64_t low(int t, uint64_t v) { return tsz(t) == 4 ? (uint32_t)v : v; }
/* values: all positions and turns differ; the high half of a 4-byte value is noise */
static uint64_t val(int t, int pos, int turn) { uint64_t h = hmix(hmix(turn * 1000003 + 17, pos), t); h ^= h >> 31; return h; }
static const uint64_t bv[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x7fc00000, 0xff812345, 0x7ff0000000000001, 0xfff8000000000000, 0x8000000000000001, 0x3ff0000000000000, 0x3f800000};
/* ---- signatures ---- */
static const char TC[] = "ilfdp", RC[] = "ilfdpv";
typedef struct { char a[300]; int n; char r; int form; char s[300]; } Sig;
static void sig_text(Sig *s) { memcpy(s->s, s->a, s->n); s->s[s->n] = 0; if (s->form == 0) sprintf(s->s + s->n, ">%c", s->r); if (s->form == 1) s->s[s->n] = 0; if (s->form == 2) s->s[s->n + 1] = s->s[s->n] = 0, s->s[s->n] = '>', s->s[s->n + 1] = 'v', s->s[s->n + 2] = 0; }
static void sig_choose(Sig *s, int maxn) { s->n = choose(maxn + 1); for (int i = 0; i < s->n; i++) s->a[i] = TC[choose(5)]; s->r = RC[choose(6)]; s->form = s->r == 'v' ? choose(2) : 0; sig_text(s); }
static ffi_type *tof(int t) { return t == 'i' ? &ffi_type_uint32 : t == 'l' ? &ffi_type_uint64 : t == 'f' ? &ffi_type_float : t == 'd' ? &ffi_type_double : t == 'v' ? &ffi_type_void : &ffi_type_pointer; }
static ffi_type *w_t[8]; /* as the module hands them out */
static ffi_type *wtype(int t) { if (!w_t[0]) { call_(F_TYPES); for (int i = 0; i < 8; i++) w_t[i] = P_(res_[i]); } return t == 'v' ? w_t[0] : t == 'i' ? w_t[1] : t == 'j' ? w_t[2] : t == 'l' ? w_t[3] : t == 'm' ? w_t[4] : t == 'f' ? w_t[5] : t == 'd' ? w_t[6] : w_t[7]; }
static int abi_(void) { call_(F_ABI); return res_[0].b; }
/* a cif in one of three ways: 0 ffix_new_cif, 1 ffi_prep_cif, 2 ffi_prep_cif_var with fix fixed arguments */
static ffi_cif rawcif[8]; static ffi_type *rawty[8][NARG];
static ffi_cif *cif_new(Sig *s, int way, int k, int fix) {
  if (way == 0) { call_(X_CIF, s->s); if (res_[1].b) mc_fail("ffix_new_cif(\"%s\") reports %d", s->s, (int)res_[1].b); ffi_cif *c = P_(res_[0]); if (c->nargs != s->n || c->rtype->size != tof(s->r)->size) mc_fail("the call interface has other types than \"%s\"", s->s); for (int i = 0; i < s->n; i++) if (c->arg_types[i]->size != tof(s->a[i])->size) mc_fail("argument %d of the call interface has another type", i); return c; }
  for (int i = 0; i < s->n; i++) rawty[k][i] = wtype(s->a[i]); ffi_type *rt = wtype(s->r); int abi = abi_();
  if (way == 1) call_(F_PREP, &rawcif[k], abi, s->n, rt, rawty[k]); else call_(F_PREPV, &rawcif[k], abi, fix, s->n, rt, rawty[k]);
  if (res_[0].b) mc_fail("preparing the call interface reports %d", (int)res_[0].b); return &rawcif[k];
}
static void cif_del(ffi_cif *c, int way) { if (way == 0) call_(X_DCIF, c); }
/* where the convention puts the arguments */
typedef struct { int in, fp, st; } Loc; static Loc loc_next(Loc *c, int t) { Loc l = {-1, -1, -1}; if (isf(t) ? c->fp < 8 : c->in < 6) { if (isf(t)) l.fp = c->fp++; else l.in = c->in++; } else l.st = c->st++; return l; }
static void check_native(Sig *s, uint64_t *v) { Loc c = {0, 0, 0}; for (int i = 0; i < s->n; i++) { Loc l = loc_next(&c, s->a[i]); uint64_t g = l.in >= 0 ? c_int[l.in] : l.fp >= 0 ? c_fp[l.fp] : c_stk[l.st]; if (low(s->a[i], g) != low(s->a[i], v[i])) mc_fail("the native function received 0x%llx as argument %d (%c), must be 0x%llx", (unsigned long long)low(s->a[i], g), i, s->a[i], (unsigned long long)low(s->a[i], v[i])); } }
static int nstk(Sig *s) { Loc c = {0, 0, 0}; for (int i = 0; i < s->n; i++) loc_next(&c, s->a[i]); return c.st; }
/* way 0 ffix_call, 1 ffi_call */
static void call_native(ffi_cif *c, int way, Sig *s, uint64_t *v, uint64_t ret) {
  uint64_t a[NARG + 1], r[4]; void *pa[NARG + 1]; uint64_t b4[NARG + 1]; for (int i = 0; i < s->n; i++) { a[i] = v[i]; pa[i] = tsz(s->a[i]) == 4 ? (void *)((uint32_t *)&b4[i] + 1) : &b4[i]; memcpy(pa[i], &v[i], tsz(s->a[i])); } a[s->n] = 0xabababababababab; for (int i = 0; i < 4; i++) r[i] = 0x5a5a5a5a5a5a5a5aull; c_n = 0; c_ri = isf(s->r) ? 0x7777777777777777ull : ret; c_rf = isf(s->r) ? ret : 0x6666666666666666ull; c_nstk = nstk(s); memset(c_int, 0xcc, sizeof c_int); memset(c_fp, 0xcc, sizeof c_fp);
  if (way == 0) call_(X_CALL, c, cap, &r[1], a); else call_(F_CALL, c, cap, &r[1], pa);
  if (c_n != 1) mc_fail("the native function was called %d times", c_n); check_native(s, v);
  if (low(s->r, r[1]) != low(s->r, ret) && s->r != 'v') mc_fail("the result is 0x%llx, must be 0x%llx", (unsigned long long)low(s->r, r[1]), (unsigned long long)low(s->r, ret));
  if (s->r == 'v' && r[1] != 0x5a5a5a5a5a5a5a5aull) mc_fail("a call without a result wrote one"); if (r[0] != 0x5a5a5a5a5a5a5a5aull || r[2] != r[0] || r[3] != r[0]) mc_fail("the call wrote next to its result");
  for (int i = 0; i < s->n; i++) if (a[i] != v[i]) mc_fail("argument %d was changed in the caller's array", i); mc_steps(1);
}
static uint64_t rtok(Sig *s, int turn) { return val(s->r, 999, turn); }
static void b_calls(void) {
  Sig s; sig_choose(&s, mc_thorough ? 8 : 6); int cw = choose(2), way = choose(2), cfg = choose(2); if (!mc_mine()) return;
  dn = sprintf(dbuf, "signature \"%s\", %s, %s, stack configuration %d\n", s.s, cw ? "ffi_prep_cif" : "ffix_new_cif", way ? "ffi_call" : "ffix_call", cfg); begin(cfg); a_track = 1; long b0 = a_blocks; uint64_t v[NARG];
  ffi_cif *c = cif_new(&s, cw, 0, 0); for (int t = 0; t < 2; t++) { for (int i = 0; i < s.n; i++) v[i] = val(s.a[i], i, t); call_native(c, way, &s, v, rtok(&s, t)); } cif_del(c, cw); a_track = 0; if (a_blocks != b0) mc_fail("%ld allocations are left", a_blocks - b0); mc_outcome(mc_hash(101, s.s, strlen(s.s)) + cw + way * 2);
}
static void b_values(void) {
  Sig s; s.n = 1 + choose(3); s.a[0] = TC[choose(5)]; for (int i = 1; i < s.n; i++) s.a[i] = i == 2 ? s.a[0] : TC[choose(5)]; s.r = RC[choose(5)]; s.form = 0; sig_text(&s); uint64_t v[4]; for (int i = 0; i < s.n && i < 2; i++) v[i] = choose_from(bv); v[2] = v[0] ^ v[1]; uint64_t ret = choose_from(bv); int cfg = choose(2); if (!mc_mine()) return;
  dn = sprintf(dbuf, "signature \"%s\", values %llx %llx, result %llx\n", s.s, (unsigned long long)v[0], (unsigned long long)(s.n > 1 ? v[1] : 0), (unsigned long long)ret); begin(cfg); ffi_cif *c = cif_new(&s, 0, 0, 0); call_native(c, 0, &s, v, ret); cif_del(c, 0); mc_outcome(mc_hash(102, s.s, strlen(s.s)) ^ hmix(v[0], ret));
}
/* long signatures: a period of up to 3 types repeated, every length up to the limit */
static void sig_long(Sig *s, int quick_all) { int per = 1 + choose(3), p[3]; static const int L[] = {6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 250, 251, 252, 253}; for (int i = 0; i < per; i++) p[i] = choose(quick_all && per == 3 ? 3 : 5); s->n = mc_thorough ? choose(254) : choose_from(L); for (int i = 0; i < s->n; i++) s->a[i] = TC[p[i % per]]; s->r = RC[choose(6)]; s->form = s->r == 'v' ? choose(2) : 0; sig_text(s); }
static void b_long(void) {
  Sig s; sig_long(&s, 1); int way = choose(2); if (!mc_mine()) return; dn = sprintf(dbuf, "signature of %d arguments \"%.100s..\"\n", s.n, s.s); begin(1); a_track = 1; long b0 = a_blocks; uint64_t v[NARG]; ffi_cif *c = cif_new(&s, 0, 0, 0); for (int i = 0; i < s.n; i++) v[i] = val(s.a[i], i, 3); call_native(c, way, &s, v, rtok(&s, 3)); cif_del(c, 0); a_track = 0; if (a_blocks != b0) mc_fail("%ld allocations are left", a_blocks - b0); mc_outcome(mc_hash(103, s.s, strlen(s.s)));
}
/* definitions which are too long are refused; everything shorter is accepted */
static void b_limit(void) {
  int n = 250 + choose(12), form = choose(2), t = choose(5), cfg = choose(2); if (!mc_mine()) return; char *s = malloc(400); memset(s, TC[t], n); strcpy(s + n, form ? ">l" : ""); memset(s + n + 3, 'i', 300 - n); dn = sprintf(dbuf, "%d arguments%s\n", n, form ? " and a result" : ""); begin(cfg);
  a_track = 1; long b0 = a_blocks; call_(X_CIF, s); if (n >= 256 ? !(res_[0].b == 0 && res_[1].b != 0) : res_[1].b != 0) mc_fail("ffix_new_cif returns %llx, %d", (unsigned long long)res_[0].b, (int)res_[1].b); if (n < 256) { ffi_cif *c = P_(res_[0]); if (c->nargs != n || c->rtype->size != (form ? 8 : ffi_type_void.size)) mc_fail("wrong call interface"); cif_del(c, 0); } a_track = 0; if (a_blocks != b0) mc_fail("%ld allocations are left", a_blocks - b0); free(s); mc_outcome(n * 2 + form);
}
/* variadic calls: doubles and integers behind the fixed ones */
static void b_variadic(void) {
  Sig s; s.n = 1 + choose(mc_thorough ? 7 : 6); int fix = 1 + choose(s.n); for (int i = 0; i < s.n; i++) s.a[i] = TC[choose(5)]; s.r = RC[choose(6)]; s.form = 0; sig_text(&s); for (int i = fix; i < s.n; i++) if (s.a[i] == 'f') { mc_owned = 0; return; } if (!mc_mine()) return; dn = sprintf(dbuf, "signature \"%s\" with %d fixed arguments\n", s.s, fix); begin(1);
  uint64_t v[NARG]; ffi_cif *c = cif_new(&s, 2, 0, fix); for (int i = 0; i < s.n; i++) v[i] = val(s.a[i], i, 5); call_native(c, 1, &s, v, rtok(&s, 5)); int nf = 0; for (int i = 0; i < s.n; i++) nf += isf(s.a[i]); if ((c_rax & 255) < (nf < 8 ? nf : 8)) mc_fail("al holds %d for %d floating point arguments", (int)(c_rax & 255), nf); mc_outcome(mc_hash(104, s.s, strlen(s.s)) + fix);
}
/* ---- callbacks ---- */
#define NCB 3
typedef struct { int live, way, wasm; Sig s; ffi_cif *cif; void *clo, *code; int turn; void *user; } CB; static CB cb[NCB]; static int cb_n, cb_exp, cb_nest; static uint64_t cb_v[NCB][NARG];
static void invoke(int k);
__attribute__((used)) void cb_body(uint8_t *fp, int hid) { /* the host function a callback leads to: (cif, ret, arguments, user data) */
  uint64_t sp; __asm__("mov %%rsp,%0" : "=r"(sp)); V a[4]; uint8_t ts[4] = {XREF, XREF, XREF, XREF}; if ((g_cfg.stack_flags & 1) && ((uintptr_t)fp & 7)) mc_fail("frame not aligned"); get_vals(fp, ts, 4, a); CB *c = &cb[cb_exp]; Sig *s = &c->s; cb_n++; int k = cb_exp;
  if (P_(a[3]) != c->user) mc_fail("the callback received other user data"); if (P_(a[0]) != c->cif) mc_fail("the callback received another call interface"); if (hid != k) mc_fail("another function was called back");
  uint64_t own[NARG]; memcpy(own, cb_v[k], sizeof own); int turn = c->turn, nest = cb_nest; cb_nest = -1;
  for (int pass = 0; pass <= (nest >= 0); pass++) { /* the arguments are there, and still there after another callback was called from within this one */
    for (int i = 0; i < s->n; i++) { uint64_t g = 0; memcpy(&g, c->way ? ((void **)P_(a[2]))[i] : (uint64_t *)P_(a[2]) + i, tsz(s->a[i])); if (g != low(s->a[i], own[i])) mc_fail("the callback %s 0x%llx as argument %d (%c), must be 0x%llx", pass ? "has, after an inner callback," : "received", (unsigned long long)g, i, s->a[i], (unsigned long long)low(s->a[i], own[i])); }
    if (!pass) { memset(fp, 0xa5 ^ k, 512); if (nest >= 0) { invoke(nest); cb_exp = k; c->turn = turn; memcpy(cb_v[k], own, sizeof own); } } else for (int i = 0; i < 512; i++) if (fp[i] != (uint8_t)(0xa5 ^ k)) mc_fail("an inner callback changed the frame of the outer one"); }
  uint64_t r = rtok(s, c->turn); if (s->r != 'v') { if (tsz(s->r) == 4 && isf(s->r)) memcpy(P_(a[1]), &r, 4); else if (tsz(s->r) == 4) { uint64_t z = (uint32_t)r; memcpy(P_(a[1]), &z, 8); } else memcpy(P_(a[1]), &r, 8); }
}
#define CW(n) __attribute__((naked, noinline)) void cb_w##n(void *fp) { __asm__ volatile("mov %rsp,%rax\n and $15,%rax\n cmp $8,%rax\n je 1f\n ud2\n1: sub $8,%rsp\n mov $" #n ",%esi\n call cb_body\n movabs $0xe7e7e7e7e7e7e7e7,%rax\n mov %rax,%rcx\n mov %rax,%rdx\n mov %rax,%rsi\n mov %rax,%rdi\n mov %rax,%r8\n mov %rax,%r9\n mov %rax,%r10\n mov %rax,%r11\n movq %rax,%xmm0\n movaps %xmm0,%xmm1\n add $8,%rsp\n ret"); }
CW(0) CW(1) CW(2)
static void *cbw[NCB] = {cb_w0, cb_w1, cb_w2};
static uint8_t *w_mem(int k) { struct pwart_wasm_memory *m = pwart_get_export_memory(w_mod[k], "m"); return m->bytes; }
/* a module function which is called back: it hands back its argument number pick (8 bytes of the slot), and logs the user data */
static void *wasm_cb(int k, int pick) {
  mod_reset(&M); uint8_t p4[4] = {XREF, XREF, XREF, XREF}, cp[3] = {XREF, XREF, I32}, x = XREF, l = I64; int t0 = mod_ft(&M, 4, p4, 0, 0), t1 = mod_ft(&M, 3, cp, 0, 0), t2 = mod_ft(&M, 1, &x, 1, &l), t3 = mod_ft(&M, 1, &l, 1, &x); Imp *p = mod_imp(&M, 0, "pwart_builtin", "ref_copy_bytes"); p->type = t1; p = mod_imp(&M, 0, "pwart_builtin", "i64_from_ref"); p->type = t2; p = mod_imp(&M, 0, "pwart_builtin", "ref_from_i64"); p->type = t3; M.mem[M.nmem++] = (Mem){1, 1, 1, 0}; mod_exp(&M, "m", 2, 0);
  Fn *f = mod_fn(&M, t0); f->nloc = 1; f->loc[0] = I32; E1(f, KI32, 0); E1(f, KI32, 0); emit_mem(f, 0x28, 0, 0); E1(f, KI32, 1); E0(f, 0x6a); emit_mem(f, 0x36, 0, 0); E1(f, KI32, 8); E1(f, LGET, 3); E1(f, CALL, 1); emit_mem(f, 0x37, 0, 0);
  if (pick >= 0) { E1(f, LGET, 1); E1(f, LGET, 2); E1(f, CALL, 1); E1(f, KI64, 8 * pick); E0(f, 0x7c); E1(f, CALL, 2); E1(f, KI32, 8); E1(f, CALL, 0); } mod_exp(&M, "f", 0, 3); char *er; w_mod[k] = real_load(&M, NULL, &er); if (!w_mod[k]) mc_fail("module rejected: %s", er); return pwart_get_export_function(w_mod[k], "f");
}
static int pick_of(Sig *s) { for (int i = 0; i < s->n; i++) if (s->a[i] == s->r) return i; return -1; }
static void cb_new(int k, int way, int wasm) { CB *c = &cb[k]; c->live = 1; c->way = way; c->wasm = wasm; c->turn = 0; c->user = (void *)(0x1000 + k * 16 + 0x700000000000ull); void *f = wasm ? wasm_cb(k, pick_of(&c->s)) : pwart_wrap_host_function_c(cbw[k]);
  c->cif = cif_new(&c->s, 0, 0, 0); if (way == 0) { call_(X_CB, c->cif, f, c->user); c->clo = P_(res_[0]); c->code = P_(res_[1]); if (res_[2].b) mc_fail("ffix_new_c_callback reports %d", (int)res_[2].b); }
  else { call_(F_CALLOC); c->clo = P_(res_[0]); c->code = P_(res_[1]); call_(F_PREPC, c->clo, c->cif, f, c->user, c->code); if (res_[0].b) mc_fail("ffi_prep_closure_loc reports %d", (int)res_[0].b); }
  if (!c->clo || !c->code) mc_fail("no callback"); for (int i = 0; i < NCB; i++) if (i != k && cb[i].live && (cb[i].clo == c->clo || cb[i].code == c->code)) mc_fail("two callbacks are the same"); mc_steps(1); }
static void cb_del(int k) { CB *c = &cb[k]; call_(c->way ? F_CFREE : X_DCB, c->clo); cif_del(c->cif, 0); if (c->wasm) { pwart_free_module_state(w_mod[k]); } c->live = 0; mc_steps(1); }
static void invoke(int k) {
  CB *c = &cb[k]; Sig *s = &c->s; c->turn++; uint64_t stk[NARG + 2]; struct ncall n; memset(&n, 0xcc, sizeof n); Loc l = {0, 0, 0}; for (int i = 0; i < s->n; i++) { uint64_t v = cb_v[k][i] = val(s->a[i], i, c->turn * 7 + k); Loc p = loc_next(&l, s->a[i]); if (p.in >= 0) n.ri[p.in] = v; else if (p.fp >= 0) n.rf[p.fp] = v; else stk[p.st] = v; }
  n.n = l.st; n.stk = stk; n.code = (uintptr_t)c->code; int n0 = cb_n; cb_exp = k; uint32_t w0 = c->wasm ? *(uint32_t *)w_mem(k) : 0; do_ncall(&n);
  if (n.saved[0] != 0x1234512 || n.saved[1] != 0x1234513 || n.saved[2] != 0x1234514 || n.saved[3] != 0x1234515) mc_fail("a callback changed a register its caller owns");
  if (!c->wasm && cb_n == n0) mc_fail("the callback did not arrive"); if (c->wasm) { if (*(uint32_t *)w_mem(k) != w0 + 1) mc_fail("the callback did not arrive once"); if (*(uint64_t *)(w_mem(k) + 8) != (uintptr_t)c->user) mc_fail("the callback received other user data"); }
  if (s->r != 'v') { int pk = pick_of(s); if (c->wasm && pk < 0) return; uint64_t e = c->wasm ? cb_v[k][pk] : rtok(s, c->turn), g = isf(s->r) ? n.xmm0 : n.rax; if (low(s->r, g) != low(s->r, e)) mc_fail("the native caller received 0x%llx, must be 0x%llx", (unsigned long long)low(s->r, g), (unsigned long long)low(s->r, e)); } mc_steps(1);
}
static void cb_begin(int cfg) { begin(cfg); memset(cb, 0, sizeof cb); cb_n = 0; cb_nest = -1; }
static void b_callbacks(void) {
  Sig s; sig_choose(&s, mc_thorough ? 7 : 6); int way = choose(3), cfg = choose(2); if (!mc_mine()) return; dn = sprintf(dbuf, "callback of signature \"%s\", %s\n", s.s, way == 0 ? "ffix_new_c_callback" : way == 1 ? "ffi_prep_closure_loc" : "ffix_new_c_callback of a module function"); cb_begin(cfg); a_track = 1; long b0 = a_blocks, e0 = a_exec;
  cb[0].s = s; cb_new(0, way == 1, way == 2); for (int i = 0; i < 3; i++) invoke(0); cb_del(0); a_track = 0; if (a_blocks != b0) mc_fail("%ld allocations are left", a_blocks - b0); (void)e0; mc_outcome(mc_hash(105, s.s, strlen(s.s)) + way);
}
static void b_longcb(void) {
  Sig s; sig_long(&s, 1); int way = choose(3); if (!mc_mine()) return; dn = sprintf(dbuf, "callback of %d arguments \"%.100s..\", kind %d\n", s.n, s.s, way); cb_begin(1); a_track = 1; long b0 = a_blocks; cb[0].s = s; cb_new(0, way == 1, way == 2); for (int i = 0; i < 2; i++) invoke(0); cb_del(0); a_track = 0; if (a_blocks != b0) mc_fail("%ld allocations are left", a_blocks - b0); mc_outcome(mc_hash(106, s.s, strlen(s.s)) + way);
}
/* every history of three callbacks being created, called (also from within another) and removed */
static void b_history(void) {
  static const char *SG[NCB] = {"ild>d", "fdlipplidff>l", "pii>i"}; int n = mc_thorough ? 9 : 7, live[NCB] = {0}, h[10], wy[NCB]; for (int i = 0; i < NCB; i++) wy[i] = choose(i ? 2 : 3);
  for (int d = 0; d < n; d++) { int en[24], c = 0; for (int k = 0; k < NCB; k++) { if (!live[k]) { if (k == 0 || live[k - 1] || d > 2) en[c++] = k; } else { en[c++] = 8 + k; en[c++] = 16 + k; for (int j = 0; j < NCB; j++) if (live[j] && wy[k] != 2) en[c++] = 24 + k * 4 + j; } } h[d] = en[choose(c)]; if (h[d] < 8) live[h[d]] = 1; else if (h[d] >= 16 && h[d] < 24) live[h[d] - 16] = 0; }
  if (!mc_mine()) return; dn = sprintf(dbuf, "callback kinds %d %d %d:", wy[0], wy[1], wy[2]); for (int d = 0; d < n; d++) dn += h[d] < 8 ? sprintf(dbuf + dn, " new %d", h[d]) : h[d] < 16 ? sprintf(dbuf + dn, " call %d", h[d] - 8) : h[d] < 24 ? sprintf(dbuf + dn, " delete %d", h[d] - 16) : sprintf(dbuf + dn, " call %d within %d", (h[d] - 24) & 3, (h[d] - 24) / 4); sprintf(dbuf + dn, "\n"); cb_begin(1); a_track = 1; long b0 = a_blocks; uint64_t o = 0;
  for (int d = 0; d < n; d++) { int x = h[d]; o = o * 41 + x; if (x < 8) { Sig *s = &cb[x].s; strcpy(s->s, SG[x]); s->n = strchr(s->s, '>') - s->s; memcpy(s->a, s->s, s->n); s->r = s->s[s->n + 1]; cb_new(x, wy[x] == 1, wy[x] == 2); } else if (x < 16) invoke(x - 8); else if (x < 24) cb_del(x - 16); else { cb_nest = (x - 24) & 3; invoke((x - 24) / 4); } }
  for (int k = 0; k < NCB; k++) if (cb[k].live) { invoke(k); } for (int k = 0; k < NCB; k++) if (cb[k].live) cb_del(k); a_track = 0; if (a_blocks != b0) mc_fail("%ld allocations are left", a_blocks - b0); mc_outcome(o * 8 + wy[0] * 4 + wy[1] * 2 + wy[2]);
}
/* the round trip: a module calls the bridge, the native function calls back a module function, whose result comes back */
static uint64_t rt_v[NARG], rt_ri, rt_rf; static Sig *rt_s;
static void rt_hook(void) { struct ncall n; memset(&n, 0, sizeof n); for (int i = 0; i < 6; i++) n.ri[i] = c_int[i]; for (int i = 0; i < 8; i++) n.rf[i] = c_fp[i]; n.n = c_nstk; n.stk = c_stk; n.code = (uintptr_t)cb[0].code; do_ncall(&n); c_ri = n.rax; c_rf = n.xmm0; }
static struct pwart_symbol_resolver *ns_rs;
static void b_round(void) {
  Sig s; sig_choose(&s, mc_thorough ? 7 : 5); int tail = choose(3), cfg = choose(2); if (s.r == 'v' || !strchr("ilfdp", s.r)) { mc_owned = 0; return; } s.n = s.n; int pk = pick_of(&s); if (pk < 0) { mc_owned = 0; return; } if (!mc_mine()) return; dn = sprintf(dbuf, "round trip of \"%s\", %s\n", s.s, tail == 0 ? "call" : tail == 1 ? "return_call" : "call_indirect"); cb_begin(cfg);
  cb[0].s = s; cb_new(0, 0, 1); mod_reset(&M); uint8_t p4[4] = {XREF, XREF, XREF, XREF}; int t0 = mod_ft(&M, 4, p4, 0, 0); Imp *p = mod_imp(&M, 0, "libffi", "ffix_call"); p->type = t0; M.tab[M.ntab++] = (Tab){FREF, 2, 2, 1}; Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->noff = 1; e->off[0].op = KI32; e->off[0].a = 1; e->n = 1; e->fidx[0] = 0; Fn *f = mod_fn(&M, t0); for (int i = 0; i < 4; i++) E1(f, LGET, i); if (tail == 2) { E1(f, KI32, 1); E2(f, CALL_IND, t0, 0); } else E1(f, tail ? RCALL : CALL, 0); mod_exp(&M, "g", 0, 1); char *er; struct pwart_symbol_resolver *rs = pwart_namespace_resolver(ns_); pwart_module_state st = real_load(&M, rs, &er); if (!st) mc_fail("module rejected: %s", er);
  ffi_cif *c = cif_new(&s, 0, 0, 0); uint64_t a[NARG], r[3] = {1, 2, 3}; for (int i = 0; i < s.n; i++) a[i] = val(s.a[i], i, 11); c_nstk = nstk(&s); c_hook = rt_hook; V va[4] = {vref(c), vref(cap), vref(&r[1]), vref(a)}, vr[1]; call_real(pwart_get_export_function(st, "g"), &ftype[X_CALL], va, vr); c_hook = NULL; if (low(s.r, r[1]) != low(s.r, a[pk])) mc_fail("the result is 0x%llx, must be 0x%llx", (unsigned long long)r[1], (unsigned long long)a[pk]); if (r[0] != 1 || r[2] != 3) mc_fail("the call wrote next to its result"); cif_del(c, 0); cb_del(0); pwart_free_module_state(st); mc_outcome(mc_hash(107, s.s, strlen(s.s)) + tail);
}
/* the module itself: symbols, the disabled build, being created and deleted */
static void b_module(void) {
  int off = choose(2), f = choose(NF), reps = 1 + choose(3), cfg = choose(2); if (!mc_mine()) return; dn = sprintf(dbuf, "%s of the %s module\n", fname[f], off ? "disabled" : "enabled"); begin(cfg);
  if (off_pwart_libffi_module_ffi_is_enabled() != 0 || pwart_libffi_module_ffi_is_enabled() != 1) mc_fail("is_enabled is wrong"); a_track = 1; long b0 = a_blocks; for (int i = 0; i < reps; i++) { struct pwart_host_module *m = off ? off_pwart_libffi_module_new() : pwart_libffi_module_new(); void *o[NF]; resolve_all(m, o); struct pwart_symbol_resolve_request q = {"libffi", "ffi_nothing", PWART_KIND_FUNCTION, NULL}; m->resolve(m, &q); if (q.result) mc_fail("an unknown name is found");
    if (!off && memcmp(o, fn_, sizeof o)) mc_fail("another module has other functions"); if (off) { V a[8], r[8]; for (int k = 0; k < ftype[f].np; k++) a[k] = ftype[f].p[k] == I32 ? mk(I32, 3) : vref((void *)0x10); FT t = ftype[f]; if (f != F_EN) t.nr = 0; call_real(o[f], &t, a, r); if (f == F_EN && r[0].b) mc_fail("a disabled module reports that it is enabled"); }
    if (!off && f == F_EN) { call_(F_EN); if (res_[0].b != 1) mc_fail("ffi_is_enabled is %d", (int)res_[0].b); } if (!off && f == F_ABI) { call_(F_ABI); if (res_[0].b != FFI_DEFAULT_ABI) mc_fail("wrong abi"); } if (!off && f == F_TYPES) { static const char ts[] = "vijlmfdp"; ffi_type *w[] = {&ffi_type_void, &ffi_type_uint32, &ffi_type_sint32, &ffi_type_uint64, &ffi_type_sint64, &ffi_type_float, &ffi_type_double, &ffi_type_pointer}; for (int k = 0; k < 8; k++) if (wtype(ts[k]) != w[k]) mc_fail("type %d is another one", k); }
    if (off) off_pwart_libffi_module_delete(m); else pwart_libffi_module_delete(m); } a_track = 0; if (a_blocks != b0) mc_fail("%ld allocations are left", a_blocks - b0); mc_outcome(off * 100 + f);
}
static struct mc_space sp[] = {
  {"calls", b_calls, "every signature of up to 6 (8) arguments of 5 types x 6 results x both ways of describing and of calling x stack alignment on or off; 2 calls each"},
  {"values", b_values, "signatures of up to 3 arguments x 16 boundary bit patterns per argument and result"},
  {"long-calls", b_long, "arguments repeating a period of up to 3 types, 25 lengths up to 253 (every length)"},
  {"definition-limit", b_limit, "definitions of 250 to 261 arguments"},
  {"variadic", b_variadic, "every signature of up to 6 (7) arguments, every number of fixed ones"},
  {"callbacks", b_callbacks, "every signature of up to 6 (7) arguments x 6 results x three kinds of callback, 3 invocations from native code"},
  {"long-callbacks", b_longcb, "as long-calls, for callbacks"},
  {"callback-histories", b_history, "every history of 7 (9) steps of creating, calling, calling within another and deleting three callbacks of different signatures, x their kinds"},
  {"round-trips", b_round, "every signature of up to 5 (7) arguments: module -> bridge -> native -> callback -> module function, called in 3 ways"},
  {"module", b_module, "every function of the enabled and of the disabled module"}};
static const char *as[] = {"libffi itself and the SysV calling convention of the machine are trusted", 0};
int main(int c, char **v) { static struct mc_check k = {"P29", "one execution = one signature (or history of callbacks): native calls and callbacks through the bridge; every register and stack slot compared with the C calling convention; non-trivial = distinct signatures, values and histories", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
