/* Option execguard: the generator gets its executable memory through its documented hooks from here: 64 known bytes follow
 * every block, which are checked when the block is freed.  A generator that computes its code size too small is seen
 * at once, not when the block behind happens to be in use. */
#ifdef EXECGUARD
#include <sljitLir.h>
#define EG 64
static struct { char *p; size_t n; } eg_t[1048576];
void *mc_exec_alloc(size_t n) {
  char *p = sljit_malloc_exec(n + EG); if (!p) return p;
  memset(p + n, 0xa5, EG);
  for (size_t h = ((uintptr_t)p >> 4) % 1048576, i = 0; i < 1048576; i++, h = (h + 1) % 1048576) if (!eg_t[h].p || eg_t[h].p == (char *)1) { eg_t[h].p = p; eg_t[h].n = n; return p; }
  mc_die("too many code blocks"); return p;
}
static void eg_check(char *p, size_t n) { for (int k = 0; k < EG; k++) if ((uint8_t)p[n + k] != 0xa5) mc_fail("generated code of %zu bytes was written beyond the executable memory obtained for it (byte %d behind it)", n, k); }
void mc_exec_free(void *q) {
  for (size_t h = ((uintptr_t)q >> 4) % 1048576, i = 0; i < 1048576 && eg_t[h].p; i++, h = (h + 1) % 1048576) if (eg_t[h].p == q) { eg_t[h].p = (char *)1; eg_check(q, eg_t[h].n); break; }
  sljit_free_exec(q);
}
#endif
