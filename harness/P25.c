/* P25 the growable native stack */
#include "mc.h"
#include "alloc.h"
#include <sljitLir.h>
#include <sys/mman.h>
/* the system may reclaim memory given back with madvise at once: do exactly that */
int madvise(void *a, size_t n, int adv) { if (adv == MADV_FREE || adv == MADV_DONTNEED) { return syscall(SYS_madvise, a, n, MADV_DONTNEED); } return syscall(SYS_madvise, a, n, adv); }
int posix_madvise(void *a, size_t n, int adv) { return 0; }
#define WK __attribute__((weak))
extern struct sljit_stack *ss_sljit_allocate_stack(sljit_uw, sljit_uw, void *) WK; extern void ss_sljit_free_stack(struct sljit_stack *, void *) WK; extern sljit_u8 *ss_sljit_stack_resize(struct sljit_stack *, sljit_u8 *) WK;
static struct { struct sljit_stack *(*alloc)(sljit_uw, sljit_uw, void *); void (*free)(struct sljit_stack *, void *); sljit_u8 *(*resize)(struct sljit_stack *, sljit_u8 *); const char *name; } V[2], *O;
static char dbuf[3000]; static int dn; static void describe(void) { mc_desc("%s", dbuf); }
#define NS 3
typedef struct { struct sljit_stack *s; sljit_u8 *top, *end, *start, *min; uint32_t seed; sljit_uw max; sljit_uw lo; } St; /* lo: bytes below end that hold the pattern */
static St S[NS]; static uint32_t seq;
static int probe(size_t i, size_t n) { return i < 130 || i + 130 >= n || (i & 4095) < 66 || (i & 4095) >= 4030; }
static uint8_t pat(uint32_t seed, size_t d) { return (uint8_t)((seed * 2654435761u + d * 40503u) >> 9); }
/* d = distance below end, 1-based */
static void fill(St *t, size_t from) { size_t n = t->end - t->start; for (size_t d = from + 1; d <= n; d++) t->end[-(ptrdiff_t)d] = pat(t->seed, d); t->lo = n; }
static void check_c(int i) { St *t = &S[i]; size_t n = t->lo; for (size_t d = 1; d <= n; d++) { if ((d & 4095) == 100 && (d | 4095) - 70 > d) d = (d | 4095) - 70; if (d > n) break; if (!probe(d, n)) continue; if (t->end[-(ptrdiff_t)d] != pat(t->seed, d)) mc_fail("stack %d: the byte %zu below the end changed (%zu bytes were retained)", i, d, n); } }
static void fields(int i) { St *t = &S[i]; struct sljit_stack *s = t->s; if (s->start != t->start) mc_fail("stack %d: start is %ld below the end, must be %ld", i, (long)(s->end - s->start), (long)(t->end - t->start)); if (s->end != t->end || s->min_start != t->min) mc_fail("stack %d: the limits changed", i); if (s->top != t->top) mc_fail("stack %d: top changed", i); }
static void check_all(void) { for (int i = 0; i < NS; i++) if (S[i].s) { fields(i); check_c(i); } }
static void begin(int v) { if (!V[0].alloc) { V[0].alloc = sljit_allocate_stack; V[0].free = sljit_free_stack; V[0].resize = sljit_stack_resize; V[0].name = "reserved address space"; V[1].alloc = ss_sljit_allocate_stack; V[1].free = ss_sljit_free_stack; V[1].resize = ss_sljit_stack_resize; V[1].name = "simple"; mallopt(M_PERTURB, 0); } O = &V[v]; memset(S, 0, sizeof S); seq = 0; mc_describe_cb = describe; mc_predesc(); a_track = 1; a_mmap_fail_at = a_fail_at = -1; }
static int st_new(int i, sljit_uw start, sljit_uw max) {
  long b = a_blocks, m = a_maps; struct sljit_stack *s = O->alloc(start, max, NULL); int legal = start >= 1 && start <= max && max < (1ull << 40);
  if (!legal) { if (s) mc_fail("a stack of %lu bytes with a maximum of %lu was created", start, max); if (a_blocks != b || a_maps != m) mc_fail("a refused creation kept memory"); return 0; }
  if (!s) { if (a_blocks != b || a_maps != m) mc_fail("a failed creation kept memory"); return -1; }
  St *t = &S[i]; *t = (St){s, s->top, s->end, s->start, s->min_start, ++seq * 7919 + i, max, 0};
  if (s->end - s->start != (ptrdiff_t)start) mc_fail("the start of a new stack is %ld below its end, must be %lu", (long)(s->end - s->start), start); if (s->top != s->end) mc_fail("top is not the end"); if (s->end < s->min_start + max) mc_fail("only %ld of %lu bytes are reserved", (long)(s->end - s->min_start), max);
  for (int j = 0; j < NS; j++) if (j != i && S[j].s && s->min_start < S[j].end && S[j].min < s->end) mc_fail("two stacks overlap"); fill(t, 0); return 1;
}
static void st_resize(int i, sljit_uw n, int *refused) { /* to n bytes; n may lie outside the limits */
  St *t = &S[i]; sljit_u8 *ns = (sljit_u8 *)((sljit_uw)t->end - n); sljit_u8 *r = O->resize(t->s, ns);
  if (ns < t->min || ns >= t->end) { if (r) mc_fail("stack %d: a size of %ld bytes is outside the limits (%ld) and was not refused", i, (long)n, (long)(t->end - t->min)); (*refused)++; return; }
  if (r != ns) mc_fail("stack %d: resizing from %ld to %lu bytes yields %s", i, (long)(t->end - t->start), n, r ? "another start" : "NULL");
  sljit_uw old = t->end - t->start; t->start = ns; if (n < t->lo) t->lo = n; fields(i); check_c(i); if (n > old) fill(t, t->lo); }
static void st_free(int i) { O->free(S[i].s, NULL); S[i].s = NULL; }
static void finish(void) { for (int i = 0; i < NS; i++) if (S[i].s) { st_free(i); check_all(); } a_track = 0; if (a_blocks) mc_fail("%ld allocations are still held after every stack was freed", a_blocks); if (a_maps) mc_fail("%ld mappings are still held after every stack was freed", a_maps); }
static const sljit_uw MAXS[] = {1, 4095, 4096, 4097, 8192, 12289, 65536, 300000};
static sljit_uw size_of(int k, sljit_uw max, sljit_uw cur) { sljit_uw al = (max + 4095) & ~4095ull; switch (k) { case 0: return 1; case 1: return max; case 2: return max / 2; case 3: return 4096; case 4: return 4097; case 5: return 4095; case 6: return al; case 7: return cur > 1 ? cur - 1 : 1; case 8: return cur + 1; case 9: return cur > 4096 ? cur - 4096 : cur; case 10: return cur + 4096; case 11: return 8192; case 12: return 8191; case 13: return al + 1; case 14: return 0; case 15: return (sljit_uw)-8; default: return cur; } }
#define NK 17
static void b_resizes(void) {
  int v = choose(2), mx = choose(8), st = choose(3), n = mc_thorough ? 4 : 3, k[8]; for (int i = 0; i < n; i++) { k[i] = choose(NK); } if (!mc_mine()) return;
  sljit_uw max = MAXS[mx], s0 = st == 0 ? 1 : st == 1 ? max : (max + 1) / 2; dn = sprintf(dbuf, "variant %d, maximum %lu, first %lu, resize codes", v, max, s0); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " %d", k[i]); sprintf(dbuf + dn, "\n"); begin(v); int ref = 0; uint64_t o = mx;
  if (st_new(0, s0, max) != 1) mc_fail("a stack of %lu of %lu bytes was not created", s0, max);
  for (int i = 0; i < n; i++) { sljit_uw z = size_of(k[i], max, S[0].end - S[0].start); st_resize(0, z, &ref); check_all(); o = o * 31 + (S[0].end - S[0].start); mc_steps(1); }
  finish(); mc_outcome(o * 8 + ref);
}
static void b_several(void) { /* three stacks, created, resized and freed in every order */
  int v = choose(2), n = mc_thorough ? 7 : 5, live[NS] = {0}, h[10], z[10]; for (int d = 0; d < n; d++) { int en[8], c = 0; for (int i = 0; i < NS; i++) { if (!live[i]) { if (i == 0 || live[i - 1] || d > i) en[c++] = i; } else { en[c++] = 4 + i; en[c++] = 8 + i; } if (c > 7) break; } h[d] = en[choose(c)]; int i = h[d] & 3; z[d] = h[d] < 8 ? choose(4) : 0; if (h[d] < 4) live[i] = 1; else if (h[d] >= 8) live[i] = 0; }
  if (!mc_mine()) return; dn = sprintf(dbuf, "variant %d:", v); for (int d = 0; d < n; d++) dn += sprintf(dbuf + dn, " %s(%d,%d)", h[d] < 4 ? "new" : h[d] < 8 ? "resize" : "free", h[d] & 3, z[d]); sprintf(dbuf + dn, "\n"); begin(v); int ref = 0; uint64_t o = 1; static const sljit_uw MX[] = {4096, 12288, 20000, 65536}; static const sljit_uw RS[] = {1, 4097, 12288, 20000};
  for (int d = 0; d < n; d++) { int i = h[d] & 3; if (h[d] < 4) { if (st_new(i, z[d] & 1 ? MX[z[d]] : 1, MX[z[d]]) != 1) mc_fail("not created"); } else if (h[d] < 8) st_resize(i, RS[z[d]], &ref); else st_free(i); check_all(); for (int j = 0; j < NS; j++) o = o * 31 + (S[j].s ? S[j].end - S[j].start : 0); mc_steps(1); }
  finish(); mc_outcome(o);
}
static void b_create(void) { /* legal and illegal requests, with and without memory */
  static const sljit_uw Z[] = {0, 1, 2, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (sljit_uw)1 << 62, ~(sljit_uw)0 - 4095, ~(sljit_uw)0}; int v = choose(2), a = choose_from(Z), zi = choose(13), fault = choose(4); sljit_uw st = a, mx = Z[zi]; if (!mc_mine()) return;
  dn = sprintf(dbuf, "variant %d, first %lu, maximum %lu, fault %d\n", v, st, mx, fault); (void)a; sljit_uw Zs[] = {0}; (void)Zs; begin(v); if (fault == 1) a_fail_at = 0; if (fault == 2) a_fail_at = 1; if (fault == 3) a_mmap_fail_at = 0;
  int r = st_new(0, st, mx); if (r < 0 && !fault && mx <= 1 << 20) mc_fail("a legal request was refused"); a_fail_at = a_mmap_fail_at = -1; check_all(); finish(); mc_outcome(((v * 13 + zi) * 4 + fault) * 3 + r + 1);
}
static struct mc_space sp[] = {
  {"resizes", b_resizes, "every sequence of 3 (4) resizes to 17 sizes (inside, at and outside the limits, relative to the current size and to page boundaries) x 8 maxima x 3 first sizes x both implementations"},
  {"several", b_several, "every history of 5 (7) steps (create, resize, free) of 3 stacks x both implementations"},
  {"creation", b_create, "13 x 13 first and maximal sizes including illegal ones x no fault, each allocation or mapping failing"}};
static const char *as[] = {"memory handed back with madvise is reclaimed at once (the harness does it), as the system may", 0};
int main(int c, char **v) { static struct mc_check k = {"P25", "one execution = one history of creations, resizes and frees; fields, contents and memory balance checked after every step; non-trivial = distinct histories of sizes", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
