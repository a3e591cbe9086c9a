/* P22 threads: every schedule of a few threads which load, run and free modules of their own */
#define MC_MAXDEPTH 16384
#define A_ARENA
#include "num.h"
#include "host.h"
#include "conc.h"
#include "sljitLir.h"
extern char __start_cut_data[], __stop_cut_data[], __executable_start[];
/* ---- the instrumented accesses ---- */
static uintptr_t shst[SC_MAX][512]; static int shd[SC_MAX];
static int ar_thread(void) { return sc_cur; }
static unsigned ar_site(void) { uint64_t h = 7; if (sc_cur >= 0) for (int i = 0; i < shd[sc_cur] && i < 512; i++) { h ^= shst[sc_cur][i] - (uintptr_t)__executable_start; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return (h ^ h >> 32) & 4095; }
static uint8_t st_shared[1 << 14], site_shared[4096]; static int discovering, late; static long naccess;
static void acc(void *a, int n, int wr) {
  if (sc_cur < 0 || !sc_on) return; naccess++; char *p = a;
  if (p >= __start_cut_data && p < __stop_cut_data) { size_t g = (p - __start_cut_data) >> 3; if (g >= sizeof st_shared) mc_die("static data"); size_t e = (p + (n ? n : 1) - 1 - __start_cut_data) >> 3; int pt = 0; if (e >= sizeof st_shared) mc_die("static data"); for (; g <= e; g++) { if (wr && !st_shared[g]) { if (discovering) st_shared[g] = 1; else late++; } pt |= st_shared[g]; } if (pt) sc_point(); return; }
  size_t o = (uint8_t *)p - ar_base; if (o < AR_SIZE) { int b = ar_of[o / 64]; if (!b || o >= ar_pos) return; int s = ar_blk[b].site; ar_blk[b].acc |= 1 << sc_cur; if (wr) ar_blk[b].wr |= 1 << sc_cur; if (ar_blk[b].wr && (ar_blk[b].acc & (ar_blk[b].acc - 1)) && !site_shared[s]) { if (discovering) site_shared[s] = 1; else late++; } if (site_shared[s]) sc_point(); return; }
  if (n == 8 && !((uintptr_t)p & 7)) for (int i = 0; i < a_nmap; i++) if ((uintptr_t)p - a_map[i].a < a_map[i].n) { sc_point(); return; }
}
#define RW(n) void __tsan_read##n(void *a) { acc(a, n, 0); } void __tsan_write##n(void *a) { acc(a, n, 1); } void __tsan_unaligned_read##n(void *a) { acc(a, n, 0); } void __tsan_unaligned_write##n(void *a) { acc(a, n, 1); } void __tsan_volatile_read##n(void *a) { acc(a, n, 0); } void __tsan_volatile_write##n(void *a) { acc(a, n, 1); } void __tsan_read_write##n(void *a) { acc(a, n, 1); } void __tsan_unaligned_read_write##n(void *a) { acc(a, n, 1); } void __tsan_unaligned_volatile_read##n(void *a) { acc(a, n, 0); } void __tsan_unaligned_volatile_write##n(void *a) { acc(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { acc(a, n, 0); } void __tsan_write_range(void *a, size_t n) { acc(a, n, 1); }
/* copies are accesses, too */
void *cut_memcpy(void *d, const void *p, size_t n) { acc((void *)p, n, 0); acc(d, n, 1); return __wrap_memcpy(d, p, n); } void *cut_memmove(void *d, const void *p, size_t n) { acc((void *)p, n, 0); acc(d, n, 1); return memmove(d, p, n); } void *cut_memset(void *d, int c, size_t n) { acc(d, n, 1); return memset(d, c, n); }
void __tsan_init(void) {} void __tsan_vptr_update(void **a, void *b) {} void __tsan_vptr_read(void **a) {}
void __tsan_func_entry(void *pc) { if (sc_cur >= 0) { int d = shd[sc_cur]++; if (d < 512) shst[sc_cur][d] = (uintptr_t)pc; } } void __tsan_func_exit(void *pc) { if (sc_cur >= 0 && shd[sc_cur] > 0) shd[sc_cur]--; }
/* atomic operations are indivisible points of their own */
#define AT(b, T) T __tsan_atomic##b##_load(const T *a, int mo) { acc((void *)a, b / 8, 0); return *(volatile T *)a; } void __tsan_atomic##b##_store(T *a, T v, int mo) { acc(a, b / 8, 1); *(volatile T *)a = v; } \
  T __tsan_atomic##b##_exchange(T *a, T v, int mo) { acc(a, b / 8, 1); T o = *a; *a = v; return o; } T __tsan_atomic##b##_fetch_add(T *a, T v, int mo) { acc(a, b / 8, 1); T o = *a; *a += v; return o; } T __tsan_atomic##b##_fetch_sub(T *a, T v, int mo) { acc(a, b / 8, 1); T o = *a; *a -= v; return o; } \
  T __tsan_atomic##b##_fetch_and(T *a, T v, int mo) { acc(a, b / 8, 1); T o = *a; *a &= v; return o; } T __tsan_atomic##b##_fetch_or(T *a, T v, int mo) { acc(a, b / 8, 1); T o = *a; *a |= v; return o; } T __tsan_atomic##b##_fetch_xor(T *a, T v, int mo) { acc(a, b / 8, 1); T o = *a; *a ^= v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(T *a, T *e, T v, int mo, int fmo) { acc(a, b / 8, 1); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } int __tsan_atomic##b##_compare_exchange_weak(T *a, T *e, T v, int mo, int fmo) { acc(a, b / 8, 1); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } T __tsan_atomic##b##_compare_exchange_val(T *a, T e, T v, int mo, int fmo) { acc(a, b / 8, 1); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {} void __tsan_atomic_signal_fence(int mo) {}
/* pthread_once, for code that uses it */
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!sc_on || sc_cur < 0) { if (*o != 2) { *o = 2; f(); } return 0; } sc_point(); if (*o == 0) { *o = 1; f(); *o = 2; } else while (*o != 2) { /* wait: nobody else can finish it but the thread inside */ Co *me = &co[sc_cur]; me->wait_kind = 4; me->wait_obj = o; sc_point(); me->wait_kind = 0; } return 0; }
/* ---- the modules ---- */
enum { K_REF, K_NUM, K_TAB, K_MEM, K_HOST, K_ERR, K_NAT, K_FLT, K_INT, K_CVT, K_SEG, K_BLT, NK, K_LINK = NK }; static const char *kn[] = {"builtin references", "floats and bit counts", "tables and branches", "memory", "host calls and recursion", "an error in the last function", "native memory", "float operations", "integer operations", "conversions", "globals, bulk operations and segments", "builtin functions", "linking at run time"};
static struct { uint8_t *b; int n; } mb[NK + 1], inner_;
static void h_mix(void *fp) { void *sp = fp; uint64_t a = pwart_rstack_get_i64(&sp), b = pwart_rstack_get_i64(&sp); sc_point(); memset(fp, 0xa5, 64); sp = fp; pwart_rstack_put_i64(&sp, a * 31 + b); }
static void rs_all(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { if (!strcmp(q->import_module, "h")) q->result = pwart_wrap_host_function_c((void *)h_mix); }
static struct pwart_symbol_resolver rsv = {rs_all};
/* every operation of a list applied to operands made from parameter 0; the results are added up */
typedef struct { int op; const char *ty; } OpT;
static const OpT o_flt[] = {{0x8b, "f>f"}, {0x8c, "f>f"}, {0x8d, "f>f"}, {0x8e, "f>f"}, {0x8f, "f>f"}, {0x90, "f>f"}, {0x91, "f>f"}, {0x92, "ff>f"}, {0x93, "ff>f"}, {0x94, "ff>f"}, {0x95, "ff>f"}, {0x96, "ff>f"}, {0x97, "ff>f"}, {0x98, "ff>f"}, {0x99, "d>d"}, {0x9a, "d>d"}, {0x9b, "d>d"}, {0x9c, "d>d"}, {0x9d, "d>d"}, {0x9e, "d>d"}, {0x9f, "d>d"}, {0xa0, "dd>d"}, {0xa2, "dd>d"}, {0xa3, "dd>d"}, {0xa4, "dd>d"}, {0xa5, "dd>d"}, {0xa6, "dd>d"}, {0x5b, "ff>i"}, {0x5d, "ff>i"}, {0x60, "ff>i"}, {0x61, "dd>i"}, {0x63, "dd>i"}, {0x66, "dd>i"}, {0}};
static const OpT o_int[] = {{0x45, "i>i"}, {0x48, "ii>i"}, {0x4b, "ii>i"}, {0x50, "l>i"}, {0x51, "ll>i"}, {0x53, "ll>i"}, {0x54, "ll>i"}, {0x57, "ll>i"}, {0x5a, "ll>i"}, {0x67, "i>i"}, {0x68, "i>i"}, {0x69, "i>i"}, {0x6c, "ii>i"}, {0x6d, "ii>i"}, {0x6e, "ii>i"}, {0x6f, "ii>i"}, {0x70, "ii>i"}, {0x74, "ii>i"}, {0x75, "ii>i"}, {0x76, "ii>i"}, {0x77, "ii>i"}, {0x78, "ii>i"}, {0x79, "l>l"}, {0x7a, "l>l"}, {0x7b, "l>l"}, {0x7e, "ll>l"}, {0x7f, "ll>l"}, {0x80, "ll>l"}, {0x81, "ll>l"}, {0x82, "ll>l"}, {0x86, "ll>l"}, {0x87, "ll>l"}, {0x88, "ll>l"}, {0x89, "ll>l"}, {0x8a, "ll>l"}, {0}};
static const OpT o_cvt[] = {{0xa8, "f>i"}, {0xa9, "f>i"}, {0xaa, "d>i"}, {0xab, "d>i"}, {0xae, "f>l"}, {0xaf, "f>l"}, {0xb0, "d>l"}, {0xb1, "d>l"}, {0xb2, "i>f"}, {0xb3, "i>f"}, {0xb4, "l>f"}, {0xb5, "l>f"}, {0xb6, "d>f"}, {0xb7, "i>d"}, {0xb8, "i>d"}, {0xb9, "l>d"}, {0xba, "l>d"}, {0xbb, "f>d"}, {0xbc, "f>i"}, {0xbd, "d>l"}, {0xbe, "i>f"}, {0xbf, "l>d"}, {0xc0, "i>i"}, {0xc1, "i>i"}, {0xc2, "l>l"}, {0xc3, "l>l"}, {0xc4, "l>l"}, {0}};
static void apply_ops(int t11, const OpT *o) { Fn *f = mod_fn(&M, t11); f->nloc = 1; f->loc[0] = I64; for (int n = 1; o->op; o++, n++) { const char *y = o->ty; for (; *y != '>'; y++) { E1(f, LGET, 0); E1(f, KI64, 1023); E0(f, 0x83); E1(f, KI64, n % 7 + (y - o->ty) + 1); E0(f, 0x7c); if (*y == 'i') E0(f, 0xa7); else if (*y == 'f') E0(f, 0xb4); else if (*y == 'd') E0(f, 0xb9); } E0(f, o->op); if (y[1] == 'i') E0(f, 0xad); else if (y[1] == 'f') { E0(f, 0xbb); E0(f, 0xbd); } else if (y[1] == 'd') E0(f, 0xbd); E1(f, KI64, 2 * n + 1); E0(f, 0x7e); E1(f, LGET, 1); E0(f, 0x7c); E1(f, LSET, 1); } E1(f, LGET, 1); }
static int bi(const char *n, const char *t) { uint8_t p[5], r[1]; int np = 0, nr = 0; for (; *t != '>'; t++) p[np++] = *t == 'i' ? I32 : *t == 'l' ? I64 : XREF; if (t[1]) { nr = 1; r[0] = t[1] == 'i' ? I32 : t[1] == 'l' ? I64 : XREF; } Imp *q = mod_imp(&M, 0, "pwart_builtin", n); q->type = mod_ft(&M, np, p, nr, r); return M.nimp - 1; }
static void data_at(int at, const void *b, int n) { for (int o = 0; o < n; o += 64) { Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->n = n - o < 64 ? n - o : 64; memcpy(d->bytes, (const char *)b + o, d->n); d->noff = 1; d->off[0].op = KI32; d->off[0].a = at + o; } }
static void mk_mod(int k) {
  if (k == K_LINK) { /* the module that is loaded by the module: f(x) = x * 11 */ mod_reset(&M); uint8_t l1 = I64; int t = mod_ft(&M, 1, &l1, 1, &l1); Fn *f1 = mod_fn(&M, t); E1(f1, LGET, 0); E1(f1, KI64, 11); E0(f1, 0x7e); mod_exp(&M, "f", 0, 0); mod_encode(&M, &g_out); inner_.n = g_out.n; inner_.b = __libc_malloc(g_out.n); memcpy(inner_.b, g_out.p, g_out.n); }
  mod_reset(&M); uint8_t l[2] = {I64, I64}, r = XREF, i = I32; int t11 = mod_ft(&M, 1, l, 1, l); Fn *f, *g;
  switch (k) {
  case K_REF: { Imp *p = mod_imp(&M, 0, "pwart_builtin", "ref_from_i64"); p->type = mod_ft(&M, 1, l, 1, &r); p = mod_imp(&M, 0, "pwart_builtin", "i64_from_ref"); p->type = mod_ft(&M, 1, &r, 1, l); p = mod_imp(&M, 0, "pwart_builtin", "get_self_runtime_context"); p->type = mod_ft(&M, 0, l, 1, &r); p = mod_imp(&M, 0, "pwart_builtin", "native_index_size"); p->type = mod_ft(&M, 0, l, 1, &i);
    f = mod_fn(&M, t11); E1(f, LGET, 0); E1(f, CALL, 0); E1(f, CALL, 1); E1(f, KI64, 77); E0(f, 0x7c); E1(f, CALL, 3); E0(f, 0xad); E0(f, 0x7e); E1(f, CALL, 2); E0(f, 0xd1); E0(f, 0xad); E0(f, 0x7c); break; }
  case K_NUM: f = mod_fn(&M, t11); E1(f, LGET, 0); E0(f, 0xb9); E0(f, 0x9a); E0(f, 0x99); E0(f, 0xb0); E1(f, LGET, 0); E0(f, 0x79); E0(f, 0x7c); E1(f, LGET, 0); E0(f, 0x7a); E0(f, 0x7c); E1(f, LGET, 0); E0(f, 0x7b); E0(f, 0x7e); E1(f, LGET, 0); E0(f, 0xb4); E0(f, 0x8c); E0(f, 0x8b); E0(f, 0xae); E0(f, 0x7c); break;
  case K_TAB: M.tab[M.ntab++] = (Tab){FREF, 3, 3, 1}; g = mod_fn(&M, t11); E1(g, LGET, 0); E1(g, KI64, 3); E0(g, 0x7e); g = mod_fn(&M, t11); E1(g, LGET, 0); E1(g, KI64, 5); E0(g, 0x85); { Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->n = 3; e->fidx[0] = 0; e->fidx[1] = 1; e->fidx[2] = 0; e->noff = 1; e->off[0].op = KI32; e->off[0].a = 0; }
    f = mod_fn(&M, t11); E1(f, LGET, 0); E1(f, LGET, 0); E1(f, KI64, 3); E0(f, 0x82); E0(f, 0xa7); emit(f, CALL_IND, t11, 0); E1(f, LOOP, 0x40); E1(f, LGET, 0); E0(f, 0x50); E0(f, 0x45); E1(f, IF, 0x40); E1(f, LGET, 0); E1(f, KI64, 1); E0(f, 0x88); E1(f, LSET, 0); E1(f, BR, 1); E0(f, END); E0(f, END); /* a value leaves a block in three ways */ E1(f, BLOCK, I64); E1(f, KI64, 100); E1(f, LGET, 0); E0(f, 0xa7); E1(f, BR_IF, 0); E1(f, KI64, 23); E0(f, 0x7c); E1(f, BR, 0); E0(f, END); E0(f, 0x7c); break;
  case K_MEM: M.mem[M.nmem++] = (Mem){1, 3, 1, 0}; { Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->n = 8; memcpy(d->bytes, "\1\2\3\4\5\6\7\10", 8); d->noff = 1; d->off[0].op = KI32; d->off[0].a = 16; }
    f = mod_fn(&M, t11); E1(f, KI32, 24); E1(f, LGET, 0); emit_mem(f, 0x37, 0, 0); E1(f, KI32, 1); E1(f, MGROW, 0); E0(f, 0xad); E1(f, KI32, 18); emit_mem(f, 0x29, 2, 0); E0(f, 0x7c); E1(f, KI32, 0); emit_mem(f, 0x29, 24, 0); E0(f, 0x7c); break;
  case K_HOST: { Imp *p = mod_imp(&M, 0, "h", "m"); p->type = mod_ft(&M, 2, l, 1, l); f = mod_fn(&M, t11); f->nloc = 1; f->loc[0] = I64; E1(f, LGET, 0); E1(f, KI64, 7); E0(f, 0x83); E0(f, 0x50); E1(f, IF, I64); E1(f, KI64, 1); E0(f, ELSE); E1(f, LGET, 0); E1(f, LGET, 0); E1(f, KI64, 1); E0(f, 0x7d); E1(f, CALL, 1); E1(f, CALL, 0); E0(f, END); break; }
  case K_ERR: mod_fn(&M, t11); f = &M.fn[0]; E1(f, LGET, 0); g = mod_fn(&M, t11); E1(g, LGET, 0); E0(g, 0xff); f = g; break;
  case K_FLT: apply_ops(t11, o_flt); break;
  case K_INT: apply_ops(t11, o_int); break;
  case K_CVT: apply_ops(t11, o_cvt); break;
  case K_SEG: { M.mem[M.nmem++] = (Mem){1, 3, 0, 0}; M.mem[M.nmem++] = (Mem){1, 1, 1, 0}; M.tab[M.ntab++] = (Tab){FREF, 4, 4, 1}; M.tab[M.ntab++] = (Tab){XREF, 3, 3, 1}; for (int i = 0; i < 3; i++) { Glob *q = &M.glob[M.nglob++]; memset(q, 0, sizeof *q); q->vt = i == 2 ? F64 : i ? I32 : I64; q->mut = 1; q->nins = 1; q->ins[0].op = i == 2 ? KF64 : i ? KI32 : KI64; q->ins[0].a = i == 2 ? (int64_t)f64b(2.5) : 7 + i; }
    g = mod_fn(&M, t11); E1(g, LGET, 0); E1(g, KI64, 13); E0(g, 0x7e); Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->n = 2; e->noff = 1; e->off[0].op = KI32; e->off[0].a = 1; data_at(8, "abcdefgh", 8);
    f = mod_fn(&M, t11); E1(f, LGET, 0); E1(f, GGET, 0); E0(f, 0x7c); E1(f, GSET, 0); E1(f, GGET, 1); E1(f, KI32, 3); E0(f, 0x6c); E1(f, GSET, 1); E1(f, GGET, 2); E1(f, GGET, 2); E0(f, 0xa2); E1(f, GSET, 2); E1(f, KI32, 16); E1(f, KI32, 8); E1(f, KI32, 5); E2(f, MCOPY, 0, 0); E1(f, KI32, 21); E1(f, KI32, 0x5c); E1(f, KI32, 3); E1(f, MFILL, 0); E1(f, KI32, 0); E1(f, KI32, 2); E1(f, KI32, 1); E2(f, TCOPY, 0, 0); E1(f, KI32, 1); E1(f, REFNULL, FREF); E1(f, KI32, 1); E1(f, TFILL, 0); E1(f, KI32, 1); E1(f, MGROW, 0); E0(f, DROP);
    E1(f, LGET, 0); E1(f, KI32, 0); E2(f, CALL_IND, t11, 0); E1(f, KI32, 16); emit_mem(f, 0x29, 0, 0); E0(f, 0x7c); E1(f, GGET, 0); E0(f, 0x7c); E1(f, GGET, 1); E0(f, 0xad); E0(f, 0x7c); E1(f, GGET, 2); E0(f, 0xb0); E0(f, 0x7c); E1(f, KI32, 1); E1(f, TGET, 0); E0(f, 0xd1); E0(f, 0xad); E0(f, 0x7c); E1(f, TSIZE, 1); E0(f, 0xad); E0(f, 0x7c); E1(f, MSIZE, 0); E0(f, 0xad); E0(f, 0x7c); break; }
  case K_BLT: { int v = bi("version", ">i"), al = bi("memory_alloc", "i>l"), fr = bi("memory_free", "l>"), fl = bi("ref_from_i64", "l>r"), cp = bi("ref_copy_bytes", "rri>"), sl = bi("ref_string_length", "r>i"), fi = bi("ref_from_index", "ii>r"), op = bi("fopen", "rr>r"), rd = bi("fread", "riir>i"), cl = bi("fclose", "r>i"); (void)rd; (void)op; (void)cl; M.mem[M.nmem++] = (Mem){1, 2, 1, 0}; data_at(32, "a string of characters\0/dev/zero\0r", 35);
    f = mod_fn(&M, t11); f->nloc = 1; f->loc[0] = I64; E1(f, LGET, 0); E1(f, KI64, 31); E0(f, 0x83); E0(f, 0xa7); E1(f, KI32, 24); E0(f, 0x6a); E1(f, CALL, al); E1(f, LSET, 1); E1(f, LGET, 1); E1(f, CALL, fl); E1(f, KI32, 0); E1(f, KI32, 32); E1(f, CALL, fi); E1(f, LGET, 0); E1(f, KI64, 31); E0(f, 0x83); E0(f, 0xa7); E1(f, KI32, 24); E0(f, 0x6a); E1(f, CALL, cp); E1(f, KI32, 0); E1(f, KI32, 100); E1(f, CALL, fi); E1(f, LGET, 1); E1(f, CALL, fl); E1(f, KI32, 20); E1(f, CALL, cp);
    E1(f, LGET, 1); E1(f, CALL, fl); E1(f, CALL, sl); E0(f, 0xad); E1(f, LGET, 1); E1(f, CALL, fr); E1(f, KI32, 104); emit_mem(f, 0x29, 0, 0); E0(f, 0x7c); E1(f, CALL, v); E0(f, 0xad); E0(f, 0x7c); E1(f, LGET, 0); E0(f, 0x7c); break; }
  case K_LINK: { int im = bi("import", "rrri>r"), ld = bi("load_module", "rrri>r"), ul = bi("unload_module", "rr>r"), cx = bi("get_self_runtime_context", ">r"), fi = bi("ref_from_index", "ii>r"); M.mem[M.nmem++] = (Mem){1, 2, 1, 0}; M.tab[M.ntab++] = (Tab){FREF, 2, 2, 1}; data_at(32, "h\0m\0b\0f", 8); data_at(64, inner_.b, inner_.n); int t2 = mod_ft(&M, 2, l, 1, l); (void)t2;
    f = mod_fn(&M, t11); f->nloc = 1; f->loc[0] = I64; E1(f, KI32, 0); E1(f, CALL, cx); E1(f, KI32, 0); E1(f, KI32, 32); E1(f, CALL, fi); E1(f, KI32, 0); E1(f, KI32, 34); E1(f, CALL, fi); E1(f, KI32, 0); E1(f, CALL, im); E1(f, TSET, 0); E1(f, LGET, 0); E1(f, KI64, 3); E1(f, KI32, 0); E2(f, CALL_IND, t2, 0); E1(f, LSET, 1);
    E1(f, CALL, cx); E1(f, KI32, 0); E1(f, KI32, 36); E1(f, CALL, fi); E1(f, KI32, 0); E1(f, KI32, 64); E1(f, CALL, fi); E1(f, KI32, inner_.n); E1(f, CALL, ld); E0(f, 0xd1); E0(f, 0xad); E1(f, LGET, 1); E0(f, 0x7c); E1(f, LSET, 1); E1(f, KI32, 1); E1(f, CALL, cx); E1(f, KI32, 0); E1(f, KI32, 36); E1(f, CALL, fi); E1(f, KI32, 0); E1(f, KI32, 38); E1(f, CALL, fi); E1(f, KI32, 0); E1(f, CALL, im); E1(f, TSET, 0); E1(f, LGET, 0); E1(f, KI32, 1); E2(f, CALL_IND, t11, 0); E1(f, LGET, 1); E0(f, 0x7e); E1(f, LSET, 1);
    E1(f, CALL, cx); E1(f, KI32, 0); E1(f, KI32, 36); E1(f, CALL, fi); E1(f, CALL, ul); E0(f, 0xd1); E0(f, 0xad); E1(f, LGET, 1); E0(f, 0x7c); break; }
  default: { mod_imp(&M, 2, "pwart_builtin", "native_memory"); f = mod_fn(&M, t11); E1(f, LGET, 0); E1(f, KI64, 9); E0(f, 0x7e); E0(f, 0x3f); break; }
  }
  int ni = 0; for (int x = 0; x < M.nimp; x++) ni += M.imp[x].kind == 0; mod_exp(&M, "f", 0, ni + M.nfn - 1); mod_encode(&M, &g_out); mb[k].n = g_out.n; mb[k].b = __libc_malloc(g_out.n); memcpy(mb[k].b, g_out.p, g_out.n);
}

/* ---- the lives of a thread ---- */
enum { L_ONE, L_TWO, L_TWICE, L_NS, L_LIR, L_STACK, L_TRIM, L_REGS, NL }; static const char *ln[] = {"load, call, call, free", "two instances at once", "twice", "a namespace with two linked modules", "low-level code", "a growing stack", "load, trim the code allocator, call, free", "load with a failed load before"};
typedef struct { int kind, life, v; uint64_t log; int n; const char *bad; } Th; static Th th[SC_MAX]; static pwart_module_state shared_st; static void *shared_fn;
static void lg(Th *t, uint64_t v) { t->log = mc_hash(t->log, &v, 8); t->n++; }
static void *ald(int k, char **e) { pwart_module_compiler c = pwart_new_module_compiler(); pwart_set_symbol_resolver(c, &rsv); char *b = __libc_malloc(mb[k].n); memcpy(b, mb[k].b, mb[k].n); *e = pwart_compile(c, b, mb[k].n); void *s = *e ? NULL : pwart_get_module_state(c); pwart_free_module_compiler(c); __libc_free(b); return s; }
static void cal(Th *t, void *st, void *stack, uint64_t a) { if (!st) { lg(t, 0x999); return; } void *fn = st == shared_st && shared_st ? shared_fn : pwart_get_export_function(st, "f"); if (!fn) { lg(t, 0x998); return; } void *sp = stack; pwart_rstack_put_i64(&sp, a + 2 * t->v); pwart_call_wasm_function(fn, stack); sp = stack; lg(t, pwart_rstack_get_i64(&sp)); }
static void lerr(Th *t, char *e) { if (e && getenv("P22_DEBUG")) { FILE *q = fopen("/tmp/p22err", "a"); fprintf(q, "kind %d life %d: %s\n", t->kind, t->life, e); fclose(q); } uint64_t h = 3; lg(t, e ? mc_hash(h, e, strlen(e)) : 1); }
static void life_lir(Th *t) { for (int r = 0; r < 2; r++) { struct sljit_compiler *c = sljit_create_compiler(NULL); if (!c) { lg(t, 0x997); return; } sljit_emit_enter(c, 0, SLJIT_ARGS2(W, W, W), 3, 3, 16); sljit_emit_op2(c, SLJIT_MUL, SLJIT_R0, 0, SLJIT_S0, 0, SLJIT_S1, 0); sljit_emit_op1(c, SLJIT_CLZ, SLJIT_R1, 0, SLJIT_S0, 0); sljit_emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_R1, 0); struct sljit_const *k = sljit_emit_const(c, SLJIT_MOV, SLJIT_R1, 0, 1234567 + 8 * t->v); sljit_emit_op2(c, SLJIT_XOR, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_R1, 0); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0); void *code = sljit_generate_code(c, 0, NULL); sljit_sw off = sljit_get_executable_offset(c); uintptr_t ka = sljit_get_const_addr(k); lg(t, sljit_get_generated_code_size(c)); sljit_free_compiler(c); if (!code) { lg(t, 0x996); return; } lg(t, ((sljit_sw (*)(sljit_sw, sljit_sw))code)(77 + r, 1000003 + t->v)); sljit_set_const(ka, SLJIT_MOV, 7654321 + t->v, off); sc_point(); lg(t, ((sljit_sw (*)(sljit_sw, sljit_sw))code)(78 + r, 1000007)); sljit_free_code(code, NULL); lg(t, sljit_has_cpu_feature(SLJIT_HAS_FPU) * 2 + (sljit_has_cpu_feature(SLJIT_HAS_CLZ) != 0)); } }
static void life_stack(Th *t) { struct sljit_stack *s = sljit_allocate_stack(5000 + t->v * 100, 20000 + t->v * 4096, NULL); if (!s) { lg(t, 0x995); return; } lg(t, s->end - s->start); lg(t, s->end - s->min_start); memset(s->start, 0x5a + t->kind + t->v, s->end - s->start); sljit_u8 *e = s->end; sljit_u8 *g = sljit_stack_resize(s, s->end - 16000); lg(t, g ? e - g : 0); sc_point(); if (g) { memset(g, 0x11 + t->kind + t->v, 100); lg(t, g[50]); } lg(t, e[-1]); sljit_free_stack(s, NULL); }
static void life_ns(Th *t, void *stack) { pwart_namespace ns = pwart_namespace_new(); char *e = NULL, nm[8] = "a"; struct pwart_named_module d; struct pwart_host_module *hm = NULL; static char *hn[] = {"m"}; static pwart_host_function_c hf[] = {(void *)h_mix}; hm = pwart_namespace_new_host_module(hn, hf, 1); d.name = "h"; d.type = PWART_MODULE_TYPE_HOST_MODULE; d.val.host = hm; lerr(t, pwart_namespace_define_module(ns, &d)); char *b = __libc_malloc(mb[t->kind].n); memcpy(b, mb[t->kind].b, mb[t->kind].n); void *st = pwart_namespace_define_wasm_module(ns, nm, b, mb[t->kind].n, &e); lerr(t, st ? NULL : e); cal(t, st, stack, 11); struct pwart_named_module *f = pwart_namespace_find_module(ns, "a"); lg(t, f != NULL && f->type == PWART_MODULE_TYPE_WASM_MODULE); cal(t, st, stack, 12); __libc_free(b); lerr(t, pwart_namespace_remove_module(ns, "h")); pwart_namespace_delete(ns); pwart_namespace_delete_host_module(hm); lg(t, 5); }
static void *thread_main(void *a) {
  Th *t = a; void *stack = pwart_allocate_stack(16 << 10); char *e = NULL; void *s, *s2; int k = t->kind;
  switch (t->life) {
  case L_ONE: s = ald(k, &e); lerr(t, e); cal(t, s, stack, 5); cal(t, s, stack, 1000001); if (s) pwart_free_module_state(s); break;
  case L_TWO: s = ald(k, &e); lerr(t, e); s2 = ald((k + 1) % NK, &e); lerr(t, e); cal(t, s, stack, 5); cal(t, s2, stack, 6); if (s) pwart_free_module_state(s); cal(t, s2, stack, 1000001); if (s2) pwart_free_module_state(s2); break;
  case L_TWICE: for (int i = 0; i < 2; i++) { s = ald(k, &e); lerr(t, e); cal(t, s, stack, 9 + i); if (s) pwart_free_module_state(s); } break;
  case L_NS: life_ns(t, stack); break;
  case L_LIR: life_lir(t); break;
  case L_STACK: life_stack(t); break;
  case L_TRIM: s = ald(k, &e); lerr(t, e); sljit_free_unused_memory_exec(); cal(t, s, stack, 3); if (s) pwart_free_module_state(s); sljit_free_unused_memory_exec(); break;
  case L_REGS: s = ald(K_ERR, &e); lerr(t, e); s = ald(k, &e); lerr(t, e); cal(t, s, stack, 21); if (s) pwart_free_module_state(s); break;
  }
  pwart_free_stack(stack); return NULL;
}
/* ---- one execution ---- */
static char *cut_init; static char dbuf[1500]; static int x_warm, x_n;
static void describe(void) { mc_desc("%s", dbuf); mc_desc("  schedule: %s\n", sc_trace); }
static void fresh(void) { memcpy(__start_cut_data, cut_init, __stop_cut_data - __start_cut_data); ar_reset(); ar_map = 0x2b0000000000ul; while (a_nmap) { size_t n = a_map[a_nmap - 1].n; void *p = (void *)a_map[--a_nmap].a; syscall(SYS_munmap, p, n); } a_exec = a_exec_n = 0; a_nall = 0; a_maps = 0; memset(shd, 0, sizeof shd); late = 0; }
static long left_blocks, left_exec;
static int v0; /* what the first thread differs by from the others */
static int run_all(int n, int bound, int warm) {
  fresh(); sc_on = 0; ar_on = 1; a_track = 1; a_blocks = 0; static Th w; w = (Th){K_REF, L_ONE}; sc_cur = -1; long b0 = 0; if (warm) { thread_main(&w); w = (Th){K_NUM, L_LIR}; thread_main(&w); } (void)b0; sc_reset(bound); for (int i = 0; i < n; i++) { th[i].log = 1; th[i].n = 0; th[i].v = i + v0; sc_add(thread_main, &th[i]); }
  int fin = sc_run(); sc_on = 0; sljit_free_unused_memory_exec(); a_track = 0; ar_on = 0; left_blocks = a_blocks; left_exec = a_exec; return fin;
}
static struct { uint64_t log; int n; long left; } alone[2][NK + 1][NL + 1][3];
static int seq_choice; /* schedules of the discovery are not explored: no preemption, first thread first */
static void discover(void) {
  static int d; if (d) return; d = 1; set_cfg(1, 0); for (int k = 0; k <= NK; k++) mk_mod(k); cut_init = __libc_malloc(__stop_cut_data - __start_cut_data); memcpy(cut_init, __start_cut_data, __stop_cut_data - __start_cut_data);
  discovering = 1; struct mc_slot *s = mc_slot_, *tmp = __libc_calloc(1, sizeof *tmp); mc_slot_ = tmp;
  for (int l = 0; l < NL; l++) for (int k = 0; k <= NK; k++) for (int w = 0; w < 2; w++) { if (k == K_LINK && l != L_NS) continue; for (int two = 3; two >= 0; two--) { v0 = two == 3 ? 0 : two; mc_pos = 0; tmp->len = 0; th[0] = th[1] = (Th){k, l}; if (!run_all(two == 3 ? 2 : 1, 0, w)) mc_die("a single thread does not finish"); if (two < 3) { alone[w][k][l][two].log = th[0].log; alone[w][k][l][two].n = th[0].n; alone[w][k][l][two].left = left_blocks; } } v0 = 0; }
  mc_slot_ = s; discovering = 0; mc_pos = 0; if (getenv("P22_DEBUG")) { static int o; if (o++) return; FILE *df = fopen("/tmp/p22dbg", "w"); int a = 0, b = 0; for (int i = 0; i < sizeof st_shared; i++) a += st_shared[i]; for (int i = 0; i < 4096; i++) b += site_shared[i]; fprintf(df, "static %d sites %d\n", a, b); for (int l = 0; l < NL; l++) for (int k = 0; k <= NK; k++) { if (k == K_LINK && l != L_NS) continue; th[0] = (Th){k, l}; mc_pos = 0; tmp->len = 0; mc_slot_ = tmp; naccess = 0; run_all(1, 0, 0); mc_slot_ = s; fprintf(df, "%s / %s: %ld points %ld accesses log %llx left %ld %ld\n", kn[k], ln[l], sc_points, naccess, (unsigned long long)th[0].log, left_blocks, left_exec); } fclose(df); }
}
static void check(int n, int bound, int warm) {
  mc_describe_cb = describe; int dn = sprintf(dbuf, "%s process, up to %d preemptions\n", warm ? "used" : "fresh", bound); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, "  thread %d: %s: %s\n", i, kn[th[i].kind], ln[th[i].life]); mc_predesc();
  if (!run_all(n, bound, warm)) mc_fail("no thread can go on"); mc_steps(sc_points); uint64_t o = n * 2 + warm; long left = 0; for (int i = 0; i < n; i++) if (alone[warm][th[i].kind][th[i].life][i].left > left) left = alone[warm][th[i].kind][th[i].life][i].left;
  for (int i = 0; i < n; i++) { if (th[i].log != alone[warm][th[i].kind][th[i].life][i].log || th[i].n != alone[warm][th[i].kind][th[i].life][i].n) mc_fail("thread %d gets other results than alone", i); o = mc_hash(o, &th[i], sizeof(int) * 2); } 
  if (left_exec) mc_fail("%ld bytes of executable memory are left", left_exec); if (left_blocks > left) mc_fail("%ld allocations are left, alone %ld", left_blocks, left); o = mc_hash(o, sc_trace, sc_tn); mc_outcome(o);
}
static void *sh_main(void *a) { Th *t = a; void *stack = pwart_allocate_stack(16 << 10); cal(t, shared_st, stack, 5 + 3 * (t - th)); cal(t, shared_st, stack, 14 + (t - th)); pwart_free_stack(stack); return NULL; }
static void b_shared(void) { static const int sk[] = {K_HOST, K_NUM, K_TAB, K_REF}; int k = sk[choose(4)], n = 2 + choose(2); if (!mc_mine()) return; int bound = mc_thorough ? 3 : 2; mc_describe_cb = describe; sprintf(dbuf, "%d threads call one instance: %s\n", n, kn[k]); mc_predesc(); uint64_t alone_[SC_MAX]; for (int ph = 0; ph < 2; ph++) { fresh(); sc_on = 0; ar_on = 1; a_track = 1; a_blocks = 0; sc_cur = -1; char *e; shared_st = ald(k, &e); if (!shared_st) mc_fail("a valid module was rejected: %s", e); shared_fn = pwart_get_export_function(shared_st, "f"); for (int i = 0; i < n; i++) th[i] = (Th){k, NL, 0, 1}; int fin = 1; if (ph) { sc_reset(bound); for (int i = 0; i < n; i++) sc_add(sh_main, &th[i]); fin = sc_run(); } else for (int i = 0; i < n; i++) { sh_main(&th[i]); alone_[i] = th[i].log; } sc_on = 0; pwart_free_module_state(shared_st); shared_st = NULL; sljit_free_unused_memory_exec(); a_track = 0; ar_on = 0; if (!fin) mc_fail("no thread can go on"); }
  mc_steps(sc_points); for (int i = 0; i < n; i++) if (th[i].log != alone_[i]) mc_fail("thread %d gets other results than alone", i); if (a_exec || a_blocks) mc_fail("memory is left"); uint64_t o = k * 4 + n; mc_outcome(mc_hash(o, sc_trace, sc_tn)); }
static int pre(int q, int t) { return mc_thorough ? t : q; }
static void b_kinds(void) { int warm = choose(2); th[0] = (Th){choose(NK), L_ONE}; th[1] = (Th){choose(NK), choose(2) ? L_TWO : L_ONE}; if (th[1].life == L_ONE && th[1].kind < th[0].kind) { mc_owned = 0; return; } if (!mc_mine()) return; check(2, pre(1, 2), warm); }
static const int lk[] = {K_REF, K_TAB, K_HOST, K_NUM, K_ERR};
static void b_lives(void) { int warm = choose(2), l0 = choose(NL), l1 = choose(NL); th[0] = (Th){lk[choose(mc_thorough ? 5 : 3)], l0}; th[1] = (Th){lk[choose(mc_thorough ? 5 : 3)], l1}; if (l1 < l0 || (l1 == l0 && th[1].kind < th[0].kind)) { mc_owned = 0; return; } if (!mc_mine()) return; check(2, pre(1, 2), warm); }
static void b_deep(void) { static const int d[][2] = {{K_NUM, L_LIR}, {K_NUM, L_STACK}, {K_REF, L_ONE}, {K_MEM, L_TRIM}, {K_HOST, L_NS}, {K_ERR, L_REGS}, {K_TAB, L_ONE}}; int a = choose(7), b = choose(7), warm = choose(2); th[0] = (Th){d[a][0], d[a][1]}; th[1] = (Th){d[b][0], d[b][1]}; if (b < a) { mc_owned = 0; return; } if (!mc_mine()) return; check(2, 2, warm); }
static void b_three(void) { static const int d[][2] = {{K_REF, L_ONE}, {K_NUM, L_LIR}, {K_MEM, L_TRIM}, {K_TAB, L_ONE}}; int warm = choose(2); for (int i = 0; i < 3; i++) { int a = choose(pre(3, 4)); th[i] = (Th){d[a][0], d[a][1]}; } if (!mc_mine()) return; check(3, pre(1, 2), warm); }
static void b_link(void) { static const int d[][2] = {{K_LINK, L_NS}, {K_BLT, L_NS}, {K_HOST, L_NS}, {K_SEG, L_ONE}, {K_NUM, L_LIR}}; int warm = choose(2); th[0] = (Th){K_LINK, L_NS}; int b = choose(5); th[1] = (Th){d[b][0], d[b][1]}; if (!mc_mine()) return; check(2, pre(1, 2), warm); }
static struct mc_space sp[] = {
  {"kinds", b_kinds, "every unordered pair of 12 kinds of modules, one or two instances, in a fresh and a used process, all schedules with up to 1 (2) preemptions"},
  {"lives", b_lives, "every unordered pair of 8 lives (load-call-free, two instances, twice, namespaces, low-level code, growing stacks, trimming the code allocator, behind a failed load) x 3 (5) kinds each, all schedules with up to 1 (2) preemptions"},
  {"link", b_link, "a module which looks up host functions, loads, calls and unloads another module while it runs, next to 5 other threads, all schedules with up to 1 (2) preemptions"},
  {"deep", b_deep, "every unordered pair of 7 threads, all schedules with up to 2 preemptions"},
  {"three", b_three, "every triple of 3 (4) threads, all schedules with up to 1 (2) preemptions"},
  {"shared", b_shared, "two or three threads which call functions of one instance that have no state of their own, on their own stacks: 3 kinds, all schedules with up to 2 (3) preemptions"}};
static const char *as[] = {"memory is sequentially consistent; threads switch before accesses to static data that some thread writes, to heap blocks shared by threads and to words of executable memory, at pthread functions and at calls out of generated code", "code of the C library is atomic", 0};
int main(int c, char **v) { mc_worker_init = discover; static struct mc_check k = {"P22", "one execution = the whole lives of a few threads under one schedule: every result and error of every thread compared with the thread's results alone, executable memory and allocations at the end; non-trivial = distinct programs and schedules", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
