/* P21 executable memory allocation */
#include "mc.h"
#include "alloc.h"
#include <sljitLir.h>
#include <sys/mman.h>
#define API(X) X(void *, malloc_exec, (sljit_uw)) X(void, free_exec, (void *)) X(void, free_unused_memory_exec, (void)) X(sljit_sw, exec_offset, (void *)) X(struct sljit_compiler *, create_compiler, (void *)) X(void, free_compiler, (struct sljit_compiler *)) X(sljit_s32, emit_enter, (struct sljit_compiler *, sljit_s32, sljit_s32, sljit_s32, sljit_s32, sljit_s32)) X(sljit_s32, emit_op1, (struct sljit_compiler *, sljit_s32, sljit_s32, sljit_sw, sljit_s32, sljit_sw)) X(sljit_s32, emit_op2, (struct sljit_compiler *, sljit_s32, sljit_s32, sljit_sw, sljit_s32, sljit_sw, sljit_s32, sljit_sw)) X(sljit_s32, emit_return, (struct sljit_compiler *, sljit_s32, sljit_s32, sljit_sw)) X(void *, generate_code, (struct sljit_compiler *, sljit_s32, void *)) X(void, free_code, (void *, void *))  X(struct sljit_const *, emit_const, (struct sljit_compiler *, sljit_s32, sljit_s32, sljit_sw, sljit_sw)) X(void, set_const, (sljit_uw, sljit_s32, sljit_sw, sljit_sw))
typedef struct {
#define F(r, n, a) r (*n) a;
  API(F)
#undef F
  const char *name; int hdr, rx, simple;
} Ops;
static sljit_sw zero_off(void *p) { return 0; }
#define WK __attribute__((weak))
#define D(r, n, a) extern r prot_sljit_##n a WK;
API(D)
#undef D
#define D(r, n, a) extern r wx_sljit_##n a WK;
API(D)
#undef D
extern sljit_sw sljit_exec_offset(void *) WK;
static Ops ops[3];
static void init_ops(void) {
#define S(r, n, a) ops[0].n = sljit_##n;
  API(S)
#undef S
#define S(r, n, a) ops[1].n = prot_sljit_##n;
  API(S)
#undef S
#define S(r, n, a) ops[2].n = wx_sljit_##n;
  API(S)
#undef S
  for (int i = 0; i < 3; i++) if (!ops[i].exec_offset) ops[i].exec_offset = zero_off;
  ops[0].name = "default"; ops[1].name = "two-mappings"; ops[2].name = "write-xor-execute"; ops[0].rx = ops[1].rx = 1;
}
static char dbuf[2000]; static int dn; static void describe(void) { mc_desc("%s", dbuf); }
/* ---- raw blocks ---- */
#define NB 12
typedef struct { uint8_t *p; sljit_sw off; sljit_uw n; uint32_t id; } Blk;
static Ops *O; static Blk B[NB];
static void fill(Blk *b) { uint32_t x = b->id * 2654435761u | 1; for (sljit_uw i = 0; i < b->n; i++) { if (i >= 96 && i + 96 < b->n && (i & 4095) >= 8) { i += (4096 - (i & 4095)); if (i + 96 > b->n) i = b->n - 96; i--; continue; } b->p[i] = (uint8_t)(x * (i + 3) >> 11); } if (b->n >= 6 && O->rx) { b->p[0] = 0xb8; memcpy(b->p + 1, &b->id, 4); b->p[5] = 0xc3; if (b->n >= 12) { uint32_t t = b->id ^ 0x5555; b->p[b->n - 6] = 0xb8; memcpy(b->p + b->n - 5, &t, 4); b->p[b->n - 1] = 0xc3; } } }
static void check(Blk *b, int j) { static uint8_t *w; if (!w) w = __libc_malloc(400000); Blk c = *b; c.p = w; memset(w, 0, 8); fill(&c); for (sljit_uw i = 0; i < b->n; i++) { if (i >= 96 && i + 96 < b->n && (i & 4095) >= 8) { i += (4096 - (i & 4095)); if (i + 96 > b->n) i = b->n - 96; i--; continue; } if (b->p[i] != w[i]) mc_fail("byte %lu of the %lu of live block %d changed", (unsigned long)i, (unsigned long)b->n, j); if (b->off && b->p[b->off + i] != w[i]) mc_fail("byte %lu of live block %d differs in the executable mapping", (unsigned long)i, j); }
  if (O->rx && b->n >= 6) { if (((uint32_t(*)(void))(b->p + b->off))() != b->id) mc_fail("code in live block %d returned another value", j); if (b->n >= 12 && ((uint32_t(*)(void))(b->p + b->off + b->n - 6))() != (b->id ^ 0x5555)) mc_fail("code at the end of live block %d returned another value", j); } }
/* the largest request certain to fit between live blocks of what is mapped */
static sljit_uw biggest_gap(void) { sljit_uw best = 0; for (int m = 0; m < a_nmap; m++) { uintptr_t at = a_map[m].a, end = a_map[m].a + a_map[m].n - 64; uintptr_t pos = at; for (;;) { Blk *nx = NULL; for (int j = 0; j < NB; j++) if (B[j].p && (uintptr_t)B[j].p + B[j].off >= pos && (uintptr_t)B[j].p + B[j].off < end && (!nx || B[j].p < nx->p)) nx = &B[j]; uintptr_t to = nx ? (uintptr_t)nx->p + nx->off : end; if (to > pos + best + 300) best = to - pos - 300; if (!nx) break; pos = (uintptr_t)nx->p + nx->off + nx->n; } } return best; }
static uint32_t nid;
static int do_alloc_at(int i, sljit_uw n, int may_fail) {
  sljit_uw gap = O == &ops[2] ? 0 : biggest_gap(); long maps = a_maps; uint8_t *p = O->malloc_exec(n);
  if (!p) { if (!may_fail) mc_fail("allocating %lu bytes failed", (unsigned long)n); return 0; }
  if ((uintptr_t)p % sizeof(sljit_sw)) mc_fail("a block of %lu bytes is at a misaligned address", (unsigned long)n); sljit_sw off = O->exec_offset(p); if (((uintptr_t)p + off) % sizeof(sljit_sw)) mc_fail("the executable address is misaligned");
  if (gap >= n && n >= 48 && a_maps != maps) mc_fail("%lu bytes were taken from the system while %lu contiguous bytes were free", (unsigned long)n, (unsigned long)gap);
  int in = 0; for (int m = 0; m < a_nall; m++) if ((uintptr_t)p >= a_all[m].a && (uintptr_t)p + n <= a_all[m].a + a_all[m].n) in = 1; if (!in) mc_fail("the block of %lu bytes is not inside memory taken from the system", (unsigned long)n);
  for (int j = 0; j < NB; j++) if (B[j].p && p < B[j].p + B[j].n && B[j].p < p + n) mc_fail("a block of %lu bytes overlaps live block %d", (unsigned long)n, j);
  B[i] = (Blk){p, off, n, ++nid * 77 + 5}; fill(&B[i]); return 1;
}
static void check_all(void) { for (int j = 0; j < NB; j++) if (B[j].p) check(&B[j], j); }
static void do_free(int i) { O->free_exec(B[i].p + B[i].off); B[i].p = NULL; }
static void finish(void) { for (int j = 0; j < NB; j++) if (B[j].p) { do_free(j); check_all(); } O->free_unused_memory_exec(); if (a_maps) mc_fail("%ld mappings are still held after everything was freed", a_maps); a_track = 0; }
static void start(int v) { static int d; if (!d) { d = 1; init_ops(); mallopt(M_PERTURB, 0); char *s = getenv("MC_SCRATCH"); if (s) setenv("TMPDIR", s, 1); } O = &ops[v]; memset(B, 0, sizeof B); nid = 0; mc_describe_cb = describe; mc_predesc(); a_track = 1; a_mmap_fail_at = -1; if (a_maps) mc_die("maps"); }
static void history(int v, int depth, const sljit_uw *sz, int ns, int maxlive, int fault) {
  int c[16], live[NB] = {0}, fa = fault ? choose(6) : -1; for (int d = 0; d < depth; d++) { int en[40], n = 0, nl = 0, fr = -1; for (int i = 0; i < NB; i++) { nl += live[i]; if (!live[i] && fr < 0) fr = i; } if (nl < maxlive) for (int k = 0; k < ns; k++) en[n++] = k; for (int i = 0; i < NB; i++) if (live[i]) en[n++] = 100 + i; if (d && c[d - 1] >= 100) en[n++] = 99; int x = en[choose(n)]; c[d] = x; if (x < 99) live[fr] = 1; else if (x > 99) live[x - 100] = 0; }
  if (!mc_mine()) return; dn = 0; dn += sprintf(dbuf, "allocator %d%s:", v, fault ? ", system memory failure injected" : ""); if (fault) dn += sprintf(dbuf + dn, " (mapping %d fails)", fa); for (int d = 0; d < depth; d++) dn += c[d] < 99 ? sprintf(dbuf + dn, " alloc(%lu)", (unsigned long)sz[c[d]]) : c[d] == 99 ? sprintf(dbuf + dn, " free_unused") : sprintf(dbuf + dn, " free(%d)", c[d] - 100); sprintf(dbuf + dn, "\n");
  start(v); a_mmap_fail_at = fa; uint64_t o = v; int lv[NB] = {0};
  for (int d = 0; d < depth; d++) { if (c[d] < 99) { int i = 0; while (lv[i]) i++; lv[i] = 1; int r = do_alloc_at(i, sz[c[d]], fault); o = o * 3 + r; } else if (c[d] == 99) O->free_unused_memory_exec(); else { lv[c[d] - 100] = 0; if (B[c[d] - 100].p) do_free(c[d] - 100); } check_all(); o = o * 31 + a_maps; for (int j = 0; j < NB; j++) if (B[j].p) o = o * 65599 + ((uintptr_t)B[j].p & 0xffff); }
  a_mmap_fail_at = -1; finish(); mc_outcome(o);
}

static const sljit_uw wide[] = {1, 56, 500, 21000, 32700, 65432, 65440, 65504, 65505, 140000}, few[] = {48, 21000, 43000}, tiny[] = {1, 49, 65, 113, 65300}, mid[] = {500, 30000, 70000};
static void b_wide(void) { int v = choose(3); history(v, mc_thorough ? 6 : 5, wide, 10, 5, 0); }
static void b_deep(void) { history(0, mc_thorough ? 10 : 8, few, 3, 8, 0); }
static void b_small(void) { history(choose(2), mc_thorough ? 8 : 6, tiny, 5, 8, 0); }
static void b_fault(void) { history(choose(2), mc_thorough ? 8 : 6, mid, 3, 6, 1); }
/* ---- generated code ---- */
typedef struct { void *code; sljit_uw k, add, size; sljit_uw cadr; sljit_sw off; } Gen;
static Gen gen(int len, sljit_uw k) {
  struct sljit_compiler *c = O->create_compiler(NULL); if (!c) mc_fail("no compiler"); O->emit_enter(c, 0, SLJIT_ARGS0(W), 4, 3, 0); O->emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_IMM, 0); struct sljit_const *cn = O->emit_const(c, SLJIT_MOV, SLJIT_R0, 0, k); for (int i = 0; i < len; i++) O->emit_op2(c, SLJIT_ADD, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, 0x10000001); O->emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_S0, 0); O->emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
  Gen g = {0}; g.code = O->generate_code(c, 0, NULL); if (!g.code) { if (a_mmap_fail_at < 0 && sljit_get_compiler_error(c) == 0) mc_fail("no code and no error"); if (sljit_get_compiler_error(c) != SLJIT_ERR_EX_ALLOC_FAILED) mc_fail("error %d instead of the executable allocation failure", sljit_get_compiler_error(c)); O->free_compiler(c); return g; } g.size = sljit_get_generated_code_size(c); g.cadr = sljit_get_const_addr(cn); g.off = c->executable_offset; g.add = (sljit_uw)len * 0x10000001; g.k = k + g.add; O->free_compiler(c); return g;
}
static void b_code(void) {
  static const int len[] = {0, 3, 300, 2500, 9000}; int v = choose(3), depth = mc_thorough ? 7 : 5, fa = choose(4) - 1, c[10], live[NB] = {0};
  for (int d = 0; d < depth; d++) { int en[40], n = 0, fr = -1; for (int i = 0; i < NB; i++) if (!live[i]) { fr = i; break; } for (int k = 0; k < 5; k++) en[n++] = k; for (int i = 0; i < NB; i++) if (live[i]) { en[n++] = 100 + i; } if (live[0] && (!d || c[d - 1] < 200)) en[n++] = 200; int x = en[choose(n)]; c[d] = x; if (x < 99) live[fr] = 1; else if (x < 200) live[x - 100] = 0; }
  if (!mc_mine()) return; dn = sprintf(dbuf, "allocator %d, mapping %d fails, code of these many additions:", v, fa); for (int d = 0; d < depth; d++) dn += c[d] < 99 ? sprintf(dbuf + dn, " generate(%d)", len[c[d]]) : c[d] < 200 ? sprintf(dbuf + dn, " free(%d)", c[d] - 100) : sprintf(dbuf + dn, " rewrite the constant of 0"); sprintf(dbuf + dn, "\n");
  start(v); a_mmap_fail_at = fa; long blocks = a_blocks; Gen G[NB]; memset(G, 0, sizeof G); int lv[NB] = {0}; uint64_t o = v;
  for (int d = 0; d < depth; d++) { if (c[d] < 99) { int i = 0; while (lv[i]) i++; lv[i] = 1; G[i] = gen(len[c[d]], 1000 * d + 7); if (!G[i].code && fa < 0) mc_fail("code could not be generated"); for (int j = 0; j < NB; j++) if (j != i && G[i].code && G[j].code && (uint8_t *)G[i].code < (uint8_t *)G[j].code + G[j].size && (uint8_t *)G[j].code < (uint8_t *)G[i].code + G[i].size) mc_fail("new code overlaps live code %d", j); }
    else if (c[d] < 200) { int i = c[d] - 100; lv[i] = 0; if (G[i].code) O->free_code(G[i].code, NULL); G[i].code = NULL; }
    else if (G[0].code && v != 2) { O->set_const(G[0].cadr, SLJIT_MOV, 0x123456 + d, G[0].off); G[0].k = 0x123456 + d + G[0].add; }
    for (int j = 0; j < NB; j++) if (G[j].code) { sljit_uw r = ((sljit_uw(*)(void))G[j].code)(); if (r != G[j].k) mc_fail("live code %d returned 0x%lx, must return 0x%lx", j, (unsigned long)r, (unsigned long)G[j].k); } if (a_blocks != blocks) mc_fail("heap blocks are still held after the compiler was freed"); o = o * 31 + a_maps * 5 + c[d]; }
  a_mmap_fail_at = -1; for (int j = 0; j < NB; j++) if (G[j].code) { O->free_code(G[j].code, NULL); G[j].code = NULL; for (int i = 0; i < NB; i++) if (G[i].code && ((sljit_uw(*)(void))G[i].code)() != G[i].k) mc_fail("code %d changed while others were freed", i); } O->free_unused_memory_exec(); if (a_maps) mc_fail("%ld mappings are still held after all code was freed", a_maps); a_track = 0; mc_outcome(o);
}
static struct mc_space sp[] = {
  {"wide", b_wide, "every history of 5 (6) allocate/free/release steps, 10 sizes around the chunk boundaries, 3 allocators"},
  {"deep", b_deep, "every history of 8 (10) steps with 3 sizes"},
  {"small", b_small, "every history of 6 (8) steps with 5 sizes around the smallest block, 2 allocators"},
  {"fault", b_fault, "every history of 6 (8) steps with 3 sizes, the system refusing the k-th mapping for every k below 6, 2 allocators"},
  {"code", b_code, "every history of 5 (7) steps of generating code of 5 lengths, freeing it and rewriting a constant, 3 allocators, with and without refused mappings"}};
static const char *as[] = {"x86-64 Linux", "blocks are aligned to the machine word", "the two alternative allocators are built from the same sources with their configuration switch", 0};
int main(int c, char **v) { static struct mc_check k = {"P21", "one execution = one allocation history; after every step all live blocks are disjoint, unchanged and executable; non-trivial = distinct placements", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
