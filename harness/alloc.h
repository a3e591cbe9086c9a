/* allocation accounting: the harness binary defines malloc and friends, so every allocation of the code under test passes
 * here.  Blocks allocated while a_track is set are counted until they are freed, whenever that happens.  Every block has a
 * canary behind it.  Executable mappings are counted too. */
#ifndef ALLOC_H
#define ALLOC_H
#include "mc.h"
#include <sys/syscall.h>
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void __libc_free(void *);
typedef struct { void *base; size_t size; uint32_t tracked, id; uint64_t magic; } AHdr;
#define A_MAGIC 0x51ab7c3de9f04126ull
static size_t a_fail_min; /* only allocations of at least this size are counted for a_fail_at */
static int a_track; static long a_blocks, a_bytes, a_total; static size_t a_limit = 1ull << 30; static long a_fail_at = -1; static int a_bad; static long a_exec, a_exec_n;
static uint32_t a_next_id;
#ifdef A_LIST /* a list of the tracked blocks, to release what an abandoned schedule left */
static void *a_lst[8192]; static int a_nlst;
#define A_ADD(u) do { if (a_nlst < 8192) a_lst[a_nlst++] = (u); } while (0)
#define A_DEL(u) do { for (int i_ = a_nlst - 1; i_ >= 0; i_--) if (a_lst[i_] == (u)) { a_lst[i_] = a_lst[--a_nlst]; break; } } while (0)
#else
#define A_ADD(u) ((void)0)
#define A_DEL(u) ((void)0)
#endif
#ifdef A_ARENA /* tracked blocks at fixed addresses, never reused before the arena is reset; every block knows its thread and the place that allocated it */
#define AR_SIZE (96ul << 20)
static uint8_t *ar_base = (uint8_t *)0x2a0000000000ul; static size_t ar_pos; static int ar_on, ar_nblk; static uint16_t ar_of[AR_SIZE / 64]; static struct { int16_t thread; uint16_t site; uint8_t acc, wr; } ar_blk[65536];
static int ar_thread(void); static unsigned ar_site(void);
static char *ar_new(size_t n, size_t al, int zero) { static int m; if (!m) { m = 1; if ((uint8_t *)syscall(SYS_mmap, ar_base, AR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ar_base) mc_die("arena"); } if (al < 64) al = 64; size_t u = (ar_pos + sizeof(AHdr) + al - 1) & ~(al - 1), e = (u + n + 8 + 63) & ~63ul; if (e > AR_SIZE || ar_nblk >= 65535) mc_die("arena full"); ar_nblk++; ar_blk[ar_nblk].thread = ar_thread(); ar_blk[ar_nblk].site = ar_site(); ar_blk[ar_nblk].acc = ar_blk[ar_nblk].wr = 0; for (size_t g = u / 64; g < e / 64; g++) ar_of[g] = ar_nblk; for (size_t g = ar_pos / 64; g < u / 64; g++) ar_of[g] = 0; ar_pos = e; if (zero) memset(ar_base + u, 0, n); return (char *)ar_base + u; }
static void ar_reset(void) { ar_pos = 0; ar_nblk = 0; }
static uintptr_t ar_map = 0x2b0000000000ul; /* mappings lie at fixed addresses, too */
#endif
static void *a_new(size_t n, size_t al, int zero) {
  if (n > a_limit && a_track) { errno = ENOMEM; return NULL; }
  if (a_track) { a_total++; if (a_fail_at >= 0 && n >= a_fail_min && a_fail_at-- == 0) { errno = ENOMEM; return NULL; } }
  if (al < 16) al = 16;
  if (n > (size_t)1 << 60) return NULL;
#ifdef A_ARENA
  if (a_track && ar_on) { char *u = ar_new(n, al, zero); AHdr *h = (AHdr *)u - 1; h->magic = A_MAGIC; h->base = NULL; h->size = n; h->tracked = 1; h->id = a_next_id++; if (!zero) memset(u, 0xa7, n < 4096 ? n : 4096); memset(u + n, 0x6b, 8); a_blocks++; a_bytes += n; return u; }
#endif
  char *b = zero ? __libc_calloc(1, n + sizeof(AHdr) + al + 8) : __libc_malloc(n + sizeof(AHdr) + al + 8); if (!b) return NULL;
  char *u = (char *)(((uintptr_t)b + sizeof(AHdr) + al - 1) & ~(al - 1)); AHdr *h = (AHdr *)u - 1;
  h->magic = A_MAGIC; h->base = b; h->size = n; h->tracked = a_track; h->id = a_next_id++; if (!zero) memset(u, 0xa7, n < 4096 ? n : 4096); memset(u + n, 0x6b, 8);
  if (a_track) { a_blocks++; a_bytes += n; A_ADD(u); }
  return u;
}
void *malloc(size_t n) { return a_new(n, 16, 0); }
void *calloc(size_t n, size_t m) { size_t t; if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; } return a_new(t, 16, 1); }
void *memalign(size_t al, size_t n) { return a_new(n, al, 0); }
void *aligned_alloc(size_t al, size_t n) { return a_new(n, al, 0); }
int posix_memalign(void **p, size_t al, size_t n) { *p = a_new(n, al, 0); return *p ? 0 : ENOMEM; }
void free(void *p) {
  if (!p) return; AHdr *h = (AHdr *)p - 1; if (h->magic != A_MAGIC) { a_bad = 1; if (a_track) mc_fail("free of a pointer that is not a live allocation"); return; }
  for (int i = 0; i < 8; i++) if (((uint8_t *)p)[h->size + i] != 0x6b) { a_bad = 2; mc_fail("the code wrote past the end of a block of %zu bytes", h->size); }
  if (h->tracked) { a_blocks--; a_bytes -= h->size; A_DEL(p); }
  h->magic = 0xdeadull; memset(p, 0xdd, h->size < 4096 ? h->size : 4096); if (h->base) __libc_free(h->base);
}
#ifdef A_LIST
static void a_release(void) { static void (*volatile f)(void *) = free; while (*(volatile int *)&a_nlst) f(a_lst[a_nlst - 1]); }
#endif
size_t malloc_usable_size(void *p) { return p ? ((AHdr *)p - 1)->size : 0; }
void *realloc(void *p, size_t n) { if (!p) return a_new(n, 16, 0); AHdr *h = (AHdr *)p - 1; if (h->magic != A_MAGIC) { if (a_track) mc_fail("realloc of a pointer that is not a live allocation"); return NULL; } void *q = a_new(n, 16, 0); if (!q) return NULL; memcpy(q, p, h->size < n ? h->size : n); free(p); return q; }
/* executable mappings */
static struct { uintptr_t a; size_t n; } a_map[4096]; static int a_nmap;
static long a_maps, a_mmap_fail_at = -1; /* mappings made while a_track is set and not yet removed; the n-th tracked mapping fails */
static struct { uintptr_t a; size_t n; } a_all[4096]; static int a_nall;
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (a_track && a_mmap_fail_at >= 0 && a_mmap_fail_at-- == 0) { errno = ENOMEM; return MAP_FAILED; }
#ifdef A_ARENA
  if (a_track && ar_on && !addr) { addr = (void *)ar_map; ar_map += (len + 0x1fffff) & ~0xffffful; }
#endif
  void *r = (void *)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
  if (r != MAP_FAILED && a_track && a_nall < 4096) { a_maps++; a_all[a_nall].a = (uintptr_t)r; a_all[a_nall++].n = len; }
  if (r != MAP_FAILED && (prot & PROT_EXEC)) { a_exec += len; a_exec_n++; if (a_nmap < 4096) { a_map[a_nmap].a = (uintptr_t)r; a_map[a_nmap++].n = len; } }
  return r;
}
void *mmap64(void *addr, size_t len, int prot, int flags, int fd, off_t off) { return mmap(addr, len, prot, flags, fd, off); }
int munmap(void *addr, size_t len) {
  int r = syscall(SYS_munmap, addr, len);
  if (!r) for (int i = 0; i < a_nall; i++) if (a_all[i].a == (uintptr_t)addr) { if (a_all[i].n != len) mc_fail("a mapping of %zu bytes was unmapped with length %zu", a_all[i].n, len); a_maps--; a_all[i] = a_all[--a_nall]; break; }
  if (!r) for (int i = 0; i < a_nmap; i++) if (a_map[i].a == (uintptr_t)addr) { a_exec -= a_map[i].n; a_exec_n--; a_map[i] = a_map[--a_nmap]; break; }
  return r;
}
typedef struct { long blocks, bytes, exec; } ASnap;
static ASnap a_snap(void) { return (ASnap){a_blocks, a_bytes, a_exec}; }
#endif
