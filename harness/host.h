/* host functions shared by the model and the real module: every host function logs its arguments and computes its
 * results from them; the real ones additionally destroy every register the native ABI lets them destroy. */
#ifndef HOST_H
#define HOST_H
#include "wasm.h"
#define NHOST 8
static FT hft[NHOST];
static uint64_t hlog_m, hlog_r; static int hn_m, hn_r;
static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static uint64_t hseed(int hid, FT *t, V *a) { uint64_t h = 77 + hid; for (int i = 0; i < t->np; i++) h = hmix(h, t->p[i] == FREF ? a[i].b != 0 : a[i].b); return h; }
static V hres(uint64_t h, int i, int t) {
  uint64_t x = hmix(h, i * 31 + 5); x ^= x >> 29;
  if (t == F32) x = (x & 0x807fffff) | 0x40000000; else if (t == F64) x = (x & 0x800fffffffffffffull) | 0x4010000000000000ull; else if (t == FREF) x = 0;
  return mk(t, x);
}
static void host_model(int hid, V *a, V *r) {
  FT *t = &hft[hid]; uint64_t h = hseed(hid, t, a); hlog_m = hmix(hlog_m, h); hn_m++;
  for (int i = 0; i < t->nr; i++) r[i] = hres(h, i, t->r[i]);
}
static void (*host_extra)(int hid, void *fp); /* harness hook */
__attribute__((used)) void host_body(void *fp, int hid) {
  FT *t = &hft[hid]; V a[64], r[64];
  if ((g_cfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN) && ((uintptr_t)fp & 7)) mc_fail("host function entered with a frame that is not aligned to 8");
  uint64_t sp; __asm__("mov %%rsp,%0" : "=r"(sp));
  get_vals(fp, t->p, t->np, a);
  uint64_t h = hseed(hid, t, a); hlog_r = hmix(hlog_r, h); hn_r++;
  if (host_extra) host_extra(hid, fp);
  memset(fp, 0xa5, 256); /* everything from its frame base up belongs to the callee */
  for (int i = 0; i < t->nr; i++) r[i] = hres(h, i, t->r[i]);
  put_vals(fp, t->r, t->nr, r);
}
#define HW(n) \
  __attribute__((naked, noinline)) void host_w##n(void *fp) { \
    __asm__ volatile("mov %%rsp,%%rax\n and $15,%%rax\n cmp $8,%%rax\n je 1f\n ud2\n1: sub $8,%%rsp\n mov $" #n ",%%esi\n call host_body\n" \
      "movabs $0xe7e7e7e7e7e7e7e7,%%rax\n mov %%rax,%%rcx\n mov %%rax,%%rdx\n mov %%rax,%%rsi\n mov %%rax,%%rdi\n mov %%rax,%%r8\n mov %%rax,%%r9\n mov %%rax,%%r10\n mov %%rax,%%r11\n" \
      "movq %%rax,%%xmm0\n movaps %%xmm0,%%xmm1\n movaps %%xmm0,%%xmm2\n movaps %%xmm0,%%xmm3\n movaps %%xmm0,%%xmm4\n movaps %%xmm0,%%xmm5\n movaps %%xmm0,%%xmm6\n movaps %%xmm0,%%xmm7\n" \
      "movaps %%xmm0,%%xmm8\n movaps %%xmm0,%%xmm9\n movaps %%xmm0,%%xmm10\n movaps %%xmm0,%%xmm11\n movaps %%xmm0,%%xmm12\n movaps %%xmm0,%%xmm13\n movaps %%xmm0,%%xmm14\n movaps %%xmm0,%%xmm15\n" \
      "add $8,%%rsp\n ret\n" ::); }
HW(0) HW(1) HW(2) HW(3) HW(4) HW(5) HW(6) HW(7)
static void *host_w[NHOST] = {host_w0, host_w1, host_w2, host_w3, host_w4, host_w5, host_w6, host_w7};
static RFunc host_rf[NHOST];
/* resolver: module "h", fields "0".."7"; harness may supply more through host_res_more */
static void *(*host_res_more)(const char *mod, const char *field, int kind);
static void host_resolve(struct pwart_symbol_resolver *rs, struct pwart_symbol_resolve_request *q) {
  if (!strcmp(q->import_module, "h") && q->kind == PWART_KIND_FUNCTION) q->result = pwart_wrap_host_function_c(host_w[atoi(q->import_field)]);
  else if (host_res_more) q->result = host_res_more(q->import_module, q->import_field, q->kind);
}
static struct pwart_symbol_resolver host_rs = {host_resolve};
static const char *hname[NHOST] = {"0", "1", "2", "3", "4", "5", "6", "7"};
/* import host function hid with function type index ty */
static void imp_host(int hid, int ty, void **imps) { Imp *p = mod_imp(&M, 0, "h", hname[hid]); p->type = ty; hft[hid] = M.ft[ty]; host_rf[hid] = (RFunc){1, hid, 0, 0}; imps[M.nimp - 1] = &host_rf[hid]; }
static void host_reset(void) { hlog_m = hlog_r = 0; hn_m = hn_r = 0; r_hostmodel = host_model; host_extra = 0; host_res_more = 0; }
static void host_check(void) { if (hn_m != hn_r) mc_fail("host functions were called %d times, must be %d", hn_r, hn_m); if (hlog_m != hlog_r) mc_fail("a host function received other arguments than the caller passed"); }
#endif
