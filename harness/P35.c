/* P35 the WASI bridge: every call of a guest reaches the wrapped library exactly as passed, and the system library's life cycle */
#include "num.h"
#include "host.h"
#include "alloc.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <pwart_syslib.h>
#include <uvwasi.h>
static char dbuf[4000]; static int dn; static void describe(void) { mc_desc("stack_flags=%d %s\n", g_cfg.stack_flags, dbuf); }
/* ---- the functions of wasi_snapshot_preview1: w u32, h u16, b u8, l 64 bits, n length, p memory read, 2 4 8 memory written (bytes), S fdstat, T filestat, R prestat, E event, O buffer written (length next), v vector of buffers (count next) ---- */
enum { F_ARGS_GET, F_ARGS_SIZES, F_ENV_GET = 4, F_ENV_SIZES, F_FD_CLOSE = 8, F_FD_PREAD = 16, F_FD_PWRITE = 19, F_FD_READ, F_FD_WRITE = 26, F_PROC_EXIT = 38, F_PROC_RAISE, F_SOCK_RECV = 43, F_SOCK_SEND, NF = 46 };
static const struct { const char *name, *sig; } W[NF] = {
  {"args_get", "pp"}, {"args_sizes_get", "44"}, {"clock_res_get", "w8"}, {"clock_time_get", "wl8"}, {"environ_get", "pp"}, {"environ_sizes_get", "44"}, {"fd_advise", "wllb"}, {"fd_allocate", "wll"}, {"fd_close", "w"}, {"fd_datasync", "w"},
  {"fd_fdstat_get", "wS"}, {"fd_fdstat_set_flags", "wh"}, {"fd_fdstat_set_rights", "wll"}, {"fd_filestat_get", "wT"}, {"fd_filestat_set_size", "wl"}, {"fd_filestat_set_times", "wllh"}, {"fd_pread", "wvnl4"}, {"fd_prestat_get", "wR"}, {"fd_prestat_dir_name", "wOn"}, {"fd_pwrite", "wvnl4"},
  {"fd_read", "wvn4"}, {"fd_readdir", "wOnl4"}, {"fd_renumber", "ww"}, {"fd_seek", "wlb8"}, {"fd_sync", "w"}, {"fd_tell", "w8"}, {"fd_write", "wvn4"}, {"path_create_directory", "wpn"}, {"path_filestat_get", "wwpnT"}, {"path_filestat_set_times", "wwpnllh"},
  {"path_link", "wwpnwpn"}, {"path_open", "wwpnhllh4"}, {"path_readlink", "wpnOn4"}, {"path_remove_directory", "wpn"}, {"path_rename", "wpnwpn"}, {"path_symlink", "pnwpn"}, {"path_unlink_file", "wpn"}, {"poll_oneoff", "pEn4"}, {"proc_exit", "w"}, {"proc_raise", "b"},
  {"random_get", "On"}, {"sched_yield", ""}, {"sock_accept", "wh4"}, {"sock_recv", "wvnh42"}, {"sock_send", "wvnh4"}, {"sock_shutdown", "wb"}};
/* ---- the stand-in library: records its arguments, writes its results where it was told ---- */
static struct { int fn, n; uint64_t a[10]; uvwasi_t *ctx; } got; static int ncalls, cur_errno, init_errno; static struct { const void *buf; uint32_t len; } gv[8192]; static int ngv;
static int ctx_live, ctx_inits, ctx_destroys; static uvwasi_t *ctx_; static struct { int argc; char args[4][400]; int in, out, err, npre; char mapped[40], real[40]; } opt;
static int want_mark;
static uint8_t *gbase; static uint64_t gsize; /* the memory of the guest */
static char ev[64]; static int nev; static void event(char c) { if (nev < 60) ev[nev++] = c; ev[nev] = 0; }
static uint8_t outb(int fn, int arg, int i) { return 0x31 + fn * 7 + arg * 13 + i * 29; }
static int outlen(const char *sig, int i, const uint64_t *a) { switch (sig[i]) { case '2': return 2; case '4': return 4; case '8': case 'R': return 8; case 'S': return 24; case 'T': return 64; case 'E': return 32; case 'O': return a[i + 1] < 16 ? a[i + 1] : 16; } return 0; }
static int rec(uvwasi_t *u, int fn, int n, const uint64_t *a) {
  ncalls++; got.fn = fn; got.n = n; got.ctx = u; memcpy(got.a, a, n * 8); event('0' + fn); if (n != (int)strlen(W[fn].sig)) mc_die("stand-in");
  for (int i = 0; i < n; i++) if (W[fn].sig[i] == 'v') { ngv = a[i + 1]; if (ngv > 8192) mc_fail("%s: %d vectors", W[fn].name, ngv); for (int k = 0; k < ngv; k++) { const uvwasi_iovec_t *v = (void *)(uintptr_t)a[i]; gv[k].buf = v[k].buf; gv[k].len = v[k].buf_len; } }
  if (want_mark && fn == F_FD_WRITE && (ngv != 1 || *(volatile int *)gv[0].buf != want_mark)) mc_fail("the program's buffer lies in another memory");
  for (int i = 0; i < n; i++) { int l = outlen(W[fn].sig, i, a); if (l) { if (a[i] - (uintptr_t)gbase >= gsize || a[i] - (uintptr_t)gbase + l > gsize) mc_fail("%s: argument %d is a place outside of the guest's memory", W[fn].name, i); if (!cur_errno) for (int k = 0; k < l; k++) ((uint8_t *)(uintptr_t)a[i])[k] = outb(fn, i, k); } }
  return cur_errno;
}
#define X(v) ((uint64_t)(uintptr_t)(v))
#define REC(fn, ...) { uint64_t a_[] = {__VA_ARGS__}; return rec(u, fn, sizeof a_ / 8, a_); }
typedef uvwasi_t U_; typedef uvwasi_size_t Z_; typedef uvwasi_fd_t D_; typedef uvwasi_errno_t E_; typedef const char *C_;
E_ uvwasi_clock_res_get(U_ *u, uvwasi_clockid_t c, uvwasi_timestamp_t *t) REC(2, c, X(t))
E_ uvwasi_clock_time_get(U_ *u, uvwasi_clockid_t c, uvwasi_timestamp_t p, uvwasi_timestamp_t *t) REC(3, c, p, X(t))
E_ uvwasi_fd_advise(U_ *u, D_ d, uvwasi_filesize_t o, uvwasi_filesize_t l, uvwasi_advice_t a) REC(6, d, o, l, a)
E_ uvwasi_fd_allocate(U_ *u, D_ d, uvwasi_filesize_t o, uvwasi_filesize_t l) REC(7, d, o, l)
E_ uvwasi_fd_close(U_ *u, D_ d) REC(8, d)
E_ uvwasi_fd_datasync(U_ *u, D_ d) REC(9, d)
E_ uvwasi_fd_fdstat_get(U_ *u, D_ d, uvwasi_fdstat_t *b) REC(10, d, X(b))
E_ uvwasi_fd_fdstat_set_flags(U_ *u, D_ d, uvwasi_fdflags_t f) REC(11, d, f)
E_ uvwasi_fd_fdstat_set_rights(U_ *u, D_ d, uvwasi_rights_t b, uvwasi_rights_t i) REC(12, d, b, i)
E_ uvwasi_fd_filestat_get(U_ *u, D_ d, uvwasi_filestat_t *b) REC(13, d, X(b))
E_ uvwasi_fd_filestat_set_size(U_ *u, D_ d, uvwasi_filesize_t s) REC(14, d, s)
E_ uvwasi_fd_filestat_set_times(U_ *u, D_ d, uvwasi_timestamp_t a, uvwasi_timestamp_t m, uvwasi_fstflags_t f) REC(15, d, a, m, f)
E_ uvwasi_fd_pread(U_ *u, D_ d, const uvwasi_iovec_t *v, Z_ n, uvwasi_filesize_t o, Z_ *r) REC(16, d, X(v), n, o, X(r))
E_ uvwasi_fd_prestat_get(U_ *u, D_ d, uvwasi_prestat_t *b) REC(17, d, X(b))
E_ uvwasi_fd_prestat_dir_name(U_ *u, D_ d, char *p, Z_ n) REC(18, d, X(p), n)
E_ uvwasi_fd_pwrite(U_ *u, D_ d, const uvwasi_ciovec_t *v, Z_ n, uvwasi_filesize_t o, Z_ *r) REC(19, d, X(v), n, o, X(r))
E_ uvwasi_fd_read(U_ *u, D_ d, const uvwasi_iovec_t *v, Z_ n, Z_ *r) REC(20, d, X(v), n, X(r))
E_ uvwasi_fd_readdir(U_ *u, D_ d, void *b, Z_ n, uvwasi_dircookie_t c, Z_ *r) REC(21, d, X(b), n, c, X(r))
E_ uvwasi_fd_renumber(U_ *u, D_ d, D_ e) REC(22, d, e)
E_ uvwasi_fd_seek(U_ *u, D_ d, uvwasi_filedelta_t o, uvwasi_whence_t w, uvwasi_filesize_t *r) REC(23, d, (uint64_t)o, w, X(r))
E_ uvwasi_fd_sync(U_ *u, D_ d) REC(24, d)
E_ uvwasi_fd_tell(U_ *u, D_ d, uvwasi_filesize_t *r) REC(25, d, X(r))
E_ uvwasi_fd_write(U_ *u, D_ d, const uvwasi_ciovec_t *v, Z_ n, Z_ *r) REC(26, d, X(v), n, X(r))
E_ uvwasi_path_create_directory(U_ *u, D_ d, C_ p, Z_ n) REC(27, d, X(p), n)
E_ uvwasi_path_filestat_get(U_ *u, D_ d, uvwasi_lookupflags_t f, C_ p, Z_ n, uvwasi_filestat_t *b) REC(28, d, f, X(p), n, X(b))
E_ uvwasi_path_filestat_set_times(U_ *u, D_ d, uvwasi_lookupflags_t f, C_ p, Z_ n, uvwasi_timestamp_t a, uvwasi_timestamp_t m, uvwasi_fstflags_t g) REC(29, d, f, X(p), n, a, m, g)
E_ uvwasi_path_link(U_ *u, D_ d, uvwasi_lookupflags_t f, C_ p, Z_ n, D_ e, C_ q, Z_ m) REC(30, d, f, X(p), n, e, X(q), m)
E_ uvwasi_path_open(U_ *u, D_ d, uvwasi_lookupflags_t f, C_ p, Z_ n, uvwasi_oflags_t o, uvwasi_rights_t b, uvwasi_rights_t i, uvwasi_fdflags_t g, D_ *r) REC(31, d, f, X(p), n, o, b, i, g, X(r))
E_ uvwasi_path_readlink(U_ *u, D_ d, C_ p, Z_ n, char *b, Z_ m, Z_ *r) REC(32, d, X(p), n, X(b), m, X(r))
E_ uvwasi_path_remove_directory(U_ *u, D_ d, C_ p, Z_ n) REC(33, d, X(p), n)
E_ uvwasi_path_rename(U_ *u, D_ d, C_ p, Z_ n, D_ e, C_ q, Z_ m) REC(34, d, X(p), n, e, X(q), m)
E_ uvwasi_path_symlink(U_ *u, C_ p, Z_ n, D_ d, C_ q, Z_ m) REC(35, X(p), n, d, X(q), m)
E_ uvwasi_path_unlink_file(U_ *u, D_ d, C_ p, Z_ n) REC(36, d, X(p), n)
E_ uvwasi_poll_oneoff(U_ *u, const uvwasi_subscription_t *i, uvwasi_event_t *o, Z_ n, Z_ *r) REC(37, X(i), X(o), n, X(r))
E_ uvwasi_proc_exit(U_ *u, uvwasi_exitcode_t c) REC(38, c)
E_ uvwasi_proc_raise(U_ *u, uvwasi_signal_t s) REC(39, s)
E_ uvwasi_random_get(U_ *u, void *b, Z_ n) REC(40, X(b), n)
E_ uvwasi_sched_yield(U_ *u) { ncalls++; got.fn = 41; got.n = 0; got.ctx = u; return cur_errno; }
E_ uvwasi_sock_accept(U_ *u, D_ d, uvwasi_fdflags_t f, D_ *r) REC(42, d, f, X(r))
E_ uvwasi_sock_recv(U_ *u, D_ d, const uvwasi_iovec_t *v, Z_ n, uvwasi_riflags_t f, Z_ *r, uvwasi_roflags_t *g) REC(43, d, X(v), n, f, X(r), X(g))
E_ uvwasi_sock_send(U_ *u, D_ d, const uvwasi_ciovec_t *v, Z_ n, uvwasi_siflags_t f, Z_ *r) REC(44, d, X(v), n, f, X(r))
E_ uvwasi_sock_shutdown(U_ *u, D_ d, uvwasi_sdflags_t h) REC(45, d, h)
E_ uvwasi_args_sizes_get(U_ *u, Z_ *c, Z_ *s) { ncalls++; got.ctx = u; *c = u->argc; *s = u->argv_buf_size; return 0; }
E_ uvwasi_args_get(U_ *u, char **v, char *b) { got.ctx = u; for (uint32_t i = 0; i < u->argc; i++) v[i] = b + (u->argv[i] - u->argv_buf); if (u->argv_buf_size) memcpy(b, u->argv_buf, u->argv_buf_size); return 0; }
E_ uvwasi_environ_sizes_get(U_ *u, Z_ *c, Z_ *s) { *c = u->envc; *s = u->env_buf_size; return 0; }
E_ uvwasi_environ_get(U_ *u, char **v, char *b) { for (uint32_t i = 0; i < u->envc; i++) v[i] = b + (u->env[i] - u->env_buf); if (u->env_buf_size) memcpy(b, u->env_buf, u->env_buf_size); return 0; }
C_ uvwasi_embedder_err_code_to_string(E_ e) { return "error"; }
void uvwasi_options_init(uvwasi_options_t *o) { memset(o, 0, sizeof *o); o->in = 0; o->out = 1; o->err = 2; o->fd_table_size = 3; }
/* like the library: strings one behind the other in one block, the context owns everything */
static void pack(C_ const *v, uint32_t n, char ***pv, char **pb, uint32_t *ps) { uint32_t s = 0; for (uint32_t i = 0; i < n; i++) s += strlen(v[i]) + 1; *ps = s; *pv = n ? malloc(n * sizeof(char *)) : NULL; *pb = n ? malloc(s) : NULL; s = 0; for (uint32_t i = 0; i < n; i++) { (*pv)[i] = *pb + s; strcpy(*pb + s, v[i]); s += strlen(v[i]) + 1; } }
E_ uvwasi_init(U_ *u, const uvwasi_options_t *o) {
  event('i'); if (!u || !o) return UVWASI_EINVAL; if (ctx_live) mc_fail("a second context is initialised while one is live"); ctx_inits++; opt.in = o->in; opt.out = o->out; opt.err = o->err; opt.npre = o->preopenc; if (o->preopenc) { snprintf(opt.mapped, 40, "%s", o->preopens[0].mapped_path); snprintf(opt.real, 40, "%s", o->preopens[0].real_path); } opt.argc = o->argc; for (int i = 0; i < opt.argc && i < 4; i++) snprintf(opt.args[i], 400, "%s", o->argv[i]); if (o->fd_table_size < 3) mc_fail("no room for the standard streams"); if (o->allocator) mc_fail("an allocator");
  if (init_errno) { memset(u, 0x5c, sizeof *u); return init_errno; } /* what a failed context holds is not to be used */
  memset(u, 0, sizeof *u); u->argc = o->argc; pack(o->argv, o->argc, &u->argv, &u->argv_buf, &u->argv_buf_size); uint32_t n = 0; if (o->envp) while (o->envp[n]) n++; u->envc = n; pack(o->envp, n, &u->env, &u->env_buf, &u->env_buf_size); ctx_ = u; ctx_live = 1; return 0;
}
void uvwasi_destroy(U_ *u) { event('d'); ctx_destroys++; if (!ctx_live || u != ctx_) mc_fail("a context that is not live is destroyed"); free(u->argv); free(u->argv_buf); free(u->env); free(u->env_buf); memset(u, 0x5d, sizeof *u); ctx_live = 0; }
unsigned uv_version(void) { event('u'); return 0x123456; }
int wexec_printed; int wexec_printf(const char *f, ...) { wexec_printed++; return 0; }
int wasiexec_main(int argc, char **argv);
/* ---- guests: one module per function, which calls it and returns its result ---- */
static pwart_namespace ns_[2]; static pwart_module_state gst[2][NF]; static pwart_wasm_function gfn[2][NF]; static FT gft[NF]; static struct pwart_wasm_memory fm;
static void ft_of(int f) { FT *t = &gft[f]; t->np = strlen(W[f].sig); for (int i = 0; i < t->np; i++) t->p[i] = W[f].sig[i] == 'l' ? I64 : I32; t->nr = f != F_PROC_EXIT; t->r[0] = I32; }
static void gen_guest(int f) { /* the value below the call must survive it */
  mod_reset(&M); FT *t = &gft[f]; ft_of(f); int ty = mod_ft(&M, t->np, t->p, t->nr, t->r), te = mod_ft(&M, t->np, t->p, 1, (uint8_t[]){I32}); Imp *p = mod_imp(&M, 0, "wasi_snapshot_preview1", W[f].name); p->type = ty; Fn *g = mod_fn(&M, te); g->nloc = 1; g->loc[0] = I32;
  E1(g, KI64, 0x1122334455667788); for (int i = 0; i < t->np; i++) E1(g, LGET, i); E1(g, CALL, 0); if (t->nr) E1(g, LSET, t->np); E1(g, KI64, 0x1122334455667788); E0(g, 0x52); E1(g, IF, 0x40); E0(g, UNREACHABLE); E0(g, END); E1(g, LGET, t->np); mod_exp(&M, "e", 0, 1);
}
static void prepare(int cfg) {
  set_cfg(cfg, 0); if (!gbase) { uint8_t *r = mmap(0, (1ull << 32) + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r == MAP_FAILED) mc_die("mmap"); gbase = r + 4096; gsize = 1ull << 32; }
  fm.bytes = gbase; fm.pages = 65536; pwart_wasi_module_set_wasimemory(&fm);
  init_errno = 0; if (!ctx_live) { char *e = pwart_wasi_module_init(); if (e) mc_fail("initialisation fails: %s", e); if (!ctx_live) mc_fail("initialisation does nothing"); }
  if (!ns_[cfg]) { ns_[cfg] = pwart_namespace_new(); char *e = pwart_syslib_load(ns_[cfg]); if (e) mc_fail("loading the system library fails: %s", e); }
}
static void guest(int cfg, int f) { wstack(); prepare(cfg); if (gfn[cfg][f]) return; gen_guest(f); char *er; gst[cfg][f] = real_load(&M, pwart_namespace_resolver(ns_[cfg]), &er); if (!gst[cfg][f]) mc_fail("a guest that imports %s is rejected: %s", W[f].name, er); gfn[cfg][f] = pwart_get_export_function(gst[cfg][f], "e"); }
static uint32_t call_guest(int cfg, int f, const uint64_t *a) { V v[10], r[2]; FT t = gft[f]; t.nr = 1; t.r[0] = I32; for (int i = 0; i < t.np; i++) v[i] = mk(t.p[i], a[i]); ncalls = 0; nev = 0; mc_steps(1); call_real(gfn[cfg][f], &t, v, r); return r[0].b; }
/* windows of the guest's memory that are compared */
#define NWIN 4
static const uint32_t A[NWIN] = {0x1235, 0x80000010, 0xfffffe00, 0}; static uint8_t ex[NWIN][256];
static void win_fill(void) { for (int k = 0; k < NWIN; k++) { for (int i = 0; i < 256; i++) ex[k][i] = 0x90 ^ (k * 37 + i * 11); memcpy(gbase + A[k] - 64, ex[k], 256); } }
static void win_put(uint32_t a, const void *p, int n) { for (int k = 0; k < NWIN; k++) if (a - A[k] < 192) { memcpy(ex[k] + 64 + (a - A[k]), p, n); memcpy(gbase + a, p, n); return; } mc_die("window"); }
static void win_check(const char *nm) { for (int k = 0; k < NWIN; k++) if (memcmp(gbase + A[k] - 64, ex[k], 256)) for (int i = 0; i < 256; i++) if (gbase[(int64_t)A[k] - 64 + i] != ex[k][i]) mc_fail("%s: the byte at 0x%llx of the guest's memory is %02x, must be %02x", nm, (long long)A[k] - 64 + i, gbase[(int64_t)A[k] - 64 + i], ex[k][i]); }
static const uint32_t eb[3] = {0x2000, 0xffff0000, 0}, el[3] = {7, 0xffffffff, 0};
static void check_call(int f, const uint64_t *a, uint32_t res, const uint32_t *vec) {
  const char *s = W[f].sig, *nm = W[f].name; int n = strlen(s); if (ncalls != 1) mc_fail("%s: the library was called %d times", nm, ncalls); if (got.fn != f) mc_fail("%s reached %s", nm, W[got.fn].name); if (got.ctx != ctx_) mc_fail("%s: another context", nm);
  for (int i = 0; i < n; i++) { uint64_t w = a[i]; if (strchr("p248STREO", s[i])) w = (uintptr_t)(gbase + (uint32_t)a[i]); else if (s[i] == 'v') continue; if (got.a[i] != w) mc_fail("%s: argument %d is 0x%llx, must be 0x%llx", nm, i, (unsigned long long)got.a[i], (unsigned long long)w); }
  if (vec) for (int k = 0; k < ngv; k++) { if (gv[k].buf != gbase + vec[2 * k]) mc_fail("%s: buffer %d lies at %p, must be at 0x%x of the guest's memory (%p)", nm, k, gv[k].buf, vec[2 * k], (void *)(gbase + vec[2 * k])); if (gv[k].len != vec[2 * k + 1]) mc_fail("%s: buffer %d has %u bytes, must have %u", nm, k, gv[k].len, vec[2 * k + 1]); }
  if (f != F_PROC_EXIT && res != (uint32_t)cur_errno) mc_fail("%s returned %u, must be %u", nm, res, cur_errno);
  if (!cur_errno) for (int i = 0; i < n; i++) { uint64_t aa[10]; memcpy(aa, a, sizeof aa); int l = outlen(s, i, aa); uint8_t o[64]; for (int k = 0; k < l; k++) o[k] = outb(f, i, k); if (l) for (int k = 0; k < NWIN; k++) if ((uint32_t)a[i] - A[k] < 192) memcpy(ex[k] + 64 + ((uint32_t)a[i] - A[k]), o, l); }
  win_check(nm);
}
static int skip_fn(int f) { return f == F_ARGS_GET || f == F_ARGS_SIZES || f == F_ENV_GET || f == F_ENV_SIZES; }
static void show_call(int f, const uint64_t *a) { dn = sprintf(dbuf, "%s(", W[f].name); for (int i = 0; W[f].sig[i]; i++) dn += sprintf(dbuf + dn, "%s0x%llx", i ? ", " : "", (unsigned long long)a[i]); dn += sprintf(dbuf + dn, ")"); }
static void b_calls(void) {
  int f = choose(NF), cfg = choose(2); if (skip_fn(f)) { mc_owned = 0; return; } const char *s = W[f].sig; uint64_t a[10] = {0}; int nv = mc_thorough ? 4 : 3; uint64_t o = f;
  static const uint32_t w[] = {3, 0, 0xffffffff, 0x80000000}, h[] = {0, 1, 0xffff, 0x8000}, b[] = {0, 1, 0xff, 0x80}, n[] = {5, 0, 0x80000001, 0xffffffff}, vn[] = {0, 1, 3, 2}; static const uint64_t l[] = {0x123456789abcdef0, 0, ~0ull, 0x80000000};
  for (int i = 0; s[i]; i++) { int c = choose(nv); o = o * 5 + c; switch (s[i]) { case 'w': a[i] = w[c]; break; case 'h': a[i] = h[c]; break; case 'b': a[i] = b[c]; break; case 'l': a[i] = l[c]; break; case 'n': a[i] = i && s[i - 1] == 'v' ? vn[c] : n[c]; break; default: a[i] = A[c]; } }
  static const int en[] = {0, 8, 0xffff}; int e = choose_from(en); if (!mc_mine()) return; guest(cfg, f); show_call(f, a); mc_describe_cb = describe; mc_predesc(); win_fill(); uint32_t vec[8]; int hasv = 0;
  for (int i = 0; s[i]; i++) if (s[i] == 'v') { hasv = 1; for (int k = 0; k < (int)a[i + 1]; k++) { vec[2 * k] = eb[k % 3]; vec[2 * k + 1] = el[(k + e) % 3]; } win_put(a[i], vec, 8 * a[i + 1]); }
  cur_errno = e; uint32_t r = call_guest(cfg, f, a); check_call(f, a, r, hasv ? vec : NULL); mc_outcome(o * 3 + e % 3);
}
static const int vf[6] = {F_FD_READ, F_FD_WRITE, F_FD_PREAD, F_FD_PWRITE, F_SOCK_RECV, F_SOCK_SEND};
static void b_vectors(void) {
  static const int big[] = {16, 64, 1000, 1024, 4096, 5000, 8192}; int f = choose_from(vf), cfg = choose(2), pos = choose(2), n = choose(mc_thorough ? 12 : 11), o = 0; static uint32_t vec[2 * 8192];
  if (n < 4 || n == 11) { if (n == 11) n = 4; for (int k = 0; k < n; k++) { vec[2 * k] = eb[choose(3)] + k; vec[2 * k + 1] = el[choose(3)]; o = o * 13 + vec[2 * k] % 5 * 3 + vec[2 * k + 1] % 3; } } else n = big[n - 4]; if (!mc_mine()) return;
  if (n > 4) for (int k = 0; k < n; k++) { vec[2 * k] = 0x9e3779b1u * (k + 1); vec[2 * k + 1] = k * 3; } guest(cfg, f); const char *s = W[f].sig; uint64_t a[10] = {0}; uint32_t at = pos ? 0xa0000004 : 0x20001; for (int i = 0; s[i]; i++) a[i] = s[i] == 'v' ? at : s[i] == 'n' ? n : s[i] == 'l' ? 0x0102030405060708 : s[i] == 'w' ? 77 : s[i] == 'h' ? 0x0203 : s[i] == '2' ? A[1] : A[0];
  show_call(f, a); for (int k = 0; k < n && k < 6; k++) dn += sprintf(dbuf + dn, " {0x%x, %u}", vec[2 * k], vec[2 * k + 1]); mc_describe_cb = describe; mc_predesc(); win_fill(); memset(gbase + at - 64, 0x3c, n * 8 + 128); memcpy(gbase + at, vec, 8 * n); cur_errno = 0; a_track = 1; long b0 = a_blocks; uint32_t r = call_guest(cfg, f, a); a_track = 0; check_call(f, a, r, vec); if (a_blocks != b0) mc_fail("%s leaves %ld allocations", W[f].name, a_blocks - b0); if (memcmp(gbase + at, vec, 8 * n)) mc_fail("%s changes the guest's vector", W[f].name); for (int i = 0; i < 64; i++) if (gbase[at - 64 + i] != 0x3c || gbase[at + 8 * n + i] != 0x3c) mc_fail("%s writes next to the guest's vector", W[f].name); mc_outcome(o * 31 + n * 7 + f);
}
/* ---- arguments and environment ---- */
static char longs[320]; static const char *str[] = {"", "a", "prog --x=1 y", "\xc3\xbc\xe2\x82\xac", longs};
#define LIM 4096
static void strings(int cfg, int fs, int fg, uint32_t cp, uint32_t sp_, uint32_t tab, uint32_t buf, const char **want, int n) { /* sizes, then the strings, like a guest's start-up code */
  int tot = 0; for (int i = 0; i < n; i++) tot += strlen(want[i]) + 1; uint64_t a[10] = {cp, sp_}; uint8_t *g = gbase; memset(g + tab - 64, 0x3c, 256); memset(g + buf - 64, 0x3c, LIM); memset(g + cp - 8, 0x3c, 32); memset(g + sp_ - 8, 0x3c, 32); a_track = 1; long b0 = a_blocks; uint32_t r = call_guest(cfg, fs, a), x, y; if (r) mc_fail("%s returned %u", W[fs].name, r); memcpy(&x, g + cp, 4); memcpy(&y, g + sp_, 4);
  if ((int)x != n) mc_fail("%s: there are %u strings, must be %d", W[fs].name, x, n); if ((int)y != tot) mc_fail("%s: they have %u bytes, must have %d", W[fs].name, y, tot); for (int i = 0; i < 32; i++) if ((i < 8 || i >= 12) && (g[cp - 8 + i] != 0x3c || g[sp_ - 8 + i] != 0x3c)) mc_fail("%s writes next to its results", W[fs].name);
  a[0] = tab; a[1] = buf; r = call_guest(cfg, fg, a); a_track = 0; if (r) mc_fail("%s returned %u", W[fg].name, r); if (a_blocks != b0) mc_fail("%s and %s leave %ld allocations", W[fs].name, W[fg].name, a_blocks - b0);
  uint8_t used[LIM] = {0}; for (int i = 0; i < n; i++) { uint32_t p; memcpy(&p, g + tab + 4 * i, 4); int l = strlen(want[i]) + 1; if (p - buf >= (uint32_t)tot || p - buf + l > (uint32_t)tot) mc_fail("%s: string %d lies at 0x%x, outside of the buffer at 0x%x", W[fg].name, i, p, buf); if (memcmp(g + p, want[i], l)) mc_fail("%s: string %d is \"%.40s\", must be \"%.40s\"", W[fg].name, i, (char *)g + p, want[i]); for (int k = 0; k < l; k++) { if (used[p - buf + k]) mc_fail("%s: two strings share bytes", W[fg].name); used[p - buf + k] = 1; } }
  for (int i = -64; i < LIM - 64; i++) if ((i < 0 || i >= tot) && g[buf + i] != 0x3c) mc_fail("%s writes next to its buffer", W[fg].name); for (int i = -64; i < 192; i++) if ((i < 0 || i >= 4 * n) && g[tab + i] != 0x3c) mc_fail("%s writes next to its table", W[fg].name);
}
static void b_args(void) {
  memset(longs, 'k', 319); int n = choose(4), pt = choose(2), pb = choose(2), pc = choose(2), re = choose(2), cfg = choose(2); char *v[4]; const char *w[4]; int o = n; for (int i = 0; i < n; i++) { int k = choose(5); o = o * 6 + k; w[i] = v[i] = (char *)str[k]; } v[n] = NULL; if (!mc_mine()) return;
  dn = sprintf(dbuf, "%d arguments:", n); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " \"%.20s\"", w[i]); mc_describe_cb = describe; mc_predesc(); guest(cfg, F_ARGS_GET); guest(cfg, F_ARGS_SIZES); char *old[] = {"older", "ones", NULL}; a_track = 1; long b0 = a_blocks; if (re) { pwart_wasi_module_set_wasiargs(2, old); if (pwart_wasi_module_init()) mc_fail("initialisation fails"); } pwart_wasi_module_set_wasiargs(n, v); if (pwart_wasi_module_init()) mc_fail("initialisation fails"); a_track = 0;
  if (opt.in != 0 || opt.out != 1 || opt.err != 2) mc_fail("other standard streams"); if (opt.npre != 1 || strcmp(opt.mapped, "/") || strcmp(opt.real, ".")) mc_fail("other directories are opened"); if (opt.argc != n) mc_fail("other arguments are passed to the library"); for (int i = 0; i < n; i++) if (strcmp(opt.args[i], w[i])) mc_fail("another argument is passed to the library");
  strings(cfg, F_ARGS_SIZES, F_ARGS_GET, pc ? 0xc0000008 : 0x101, pc ? 0x201 : 0xd0000000, pt ? 0x90000003 : 0x1000, pb ? 0xb0000007 : 0x3000, w, n); pwart_wasi_module_set_wasiargs(0, NULL); a_track = 1; if (pwart_wasi_module_init()) mc_fail("initialisation fails"); a_track = 0; if (a_blocks != b0) mc_fail("initialising leaves %ld allocations", a_blocks - b0); mc_outcome(o);
}
extern char **environ;
static void b_env(void) {
  static const char *es[] = {"A=1", "B=", "C=x=y", "\xc3\x9c=\xc3\xb6", "NOSIGN", NULL, "PATH=/bin:/usr/bin"}; static char el_[400]; memset(el_, 'v', 399); memcpy(el_, "LONG=", 5); es[5] = el_;
  int n = choose(mc_thorough ? 5 : 4), pt = choose(2), pb = choose(2), pc = choose(2), cfg = choose(2), o = n; char *e[6]; const char *w[6]; int m = 0; for (int i = 0; i < n; i++) { int k = choose(7); o = o * 8 + k; e[i] = (char *)es[k]; if (strchr(e[i], '=')) w[m++] = e[i]; } e[n] = NULL; if (!mc_mine()) return;
  dn = sprintf(dbuf, "environment:"); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " \"%.20s\"", e[i]); mc_describe_cb = describe; mc_predesc(); guest(cfg, F_ENV_GET); guest(cfg, F_ENV_SIZES); char **keep = environ; environ = e; strings(cfg, F_ENV_SIZES, F_ENV_GET, pc ? 0xc0000008 : 0x101, pc ? 0x201 : 0xd0000000, pt ? 0x90000003 : 0x1000, pb ? 0xb0000007 : 0x3000, w, m); environ = keep; mc_outcome(o);
}
/* ---- the memory moves ---- */
static void b_memory(void) { /* calls between which the guest's memory is replaced or moved */
  int n = 3, cfg = choose(2), h[3], f[3]; for (int i = 0; i < n; i++) { h[i] = choose(3); f[i] = choose(3); } if (!mc_mine()) return; static const int fs[] = {25, F_FD_WRITE, F_ARGS_GET}; prepare(cfg); pwart_wasi_module_set_wasiargs(0, NULL); for (int i = 0; i < 3; i++) guest(cfg, fs[i]); prepare(cfg); struct pwart_wasm_memory m2 = fm; m2.bytes = gbase + 0x10000000; dn = sprintf(dbuf, "memory:"); for (int i = 0; i < n; i++) dn += sprintf(dbuf + dn, " %s, %s;", h[i] == 0 ? "stays" : h[i] == 1 ? "another one" : "moves", W[fs[f[i]]].name); mc_describe_cb = describe; mc_predesc(); char *av[] = {"xy", NULL}; pwart_wasi_module_set_wasiargs(1, av); if (pwart_wasi_module_init()) mc_fail("initialisation fails"); uint8_t *base = gbase; struct pwart_wasm_memory *cur = &fm; cur_errno = 0; int moved = 0, o = 0;
  for (int i = 0; i < n; i++) { o = o * 9 + h[i] * 3 + f[i]; if (h[i] == 1) { cur = cur == &fm ? &m2 : &fm; pwart_wasi_module_set_wasimemory(cur); } else if (h[i] == 2) cur->bytes = gbase + 0x20000000 + 0x100000 * ++moved; base = cur->bytes; uint64_t a[10] = {0}; int k = fs[f[i]]; uint32_t vec[2] = {0x5000, 9}; memset(base + 0x100, 0x3c, 64);
    if (k == 25) { a[0] = 5; a[1] = 0x100; call_guest(cfg, k, a); if (ncalls != 1 || got.a[1] != (uintptr_t)(base + 0x100)) mc_fail("fd_tell: the result is put in another memory"); } else if (k == F_FD_WRITE) { memcpy(base + 0x200, vec, 8); a[0] = 5; a[1] = 0x200; a[2] = 1; a[3] = 0x100; call_guest(cfg, k, a); if (ncalls != 1 || got.a[3] != (uintptr_t)(base + 0x100)) mc_fail("fd_write: the result is put in another memory"); if (ngv != 1 || gv[0].buf != base + 0x5000 || gv[0].len != 9) mc_fail("fd_write: the buffer lies in another memory"); } else { a[0] = 0x100; a[1] = 0x110; call_guest(cfg, k, a); uint32_t p; memcpy(&p, base + 0x100, 4); if (p != 0x110 || memcmp(base + 0x110, "xy", 3)) mc_fail("args_get: the strings are put in another memory"); } }
  pwart_wasi_module_set_wasiargs(0, NULL); if (pwart_wasi_module_init()) mc_fail("initialisation fails"); mc_outcome(o);
}
/* ---- life cycle ---- */
static const char *lib[3] = {"libuv", "libffi", "wasi_snapshot_preview1"}; enum { L_INIT, L_FAIL, L_LOAD, L_UNLOAD, L_NEWDEL, L_NS, L_MOD, NL }; static const char *ln[] = {"init", "init fails", "load", "unload", "new and delete the WASI module", "delete the namespace, make another", "define a module of the user"};
static void drop_all(void) { wstack(); for (int c = 0; c < 2; c++) { for (int f = 0; f < NF; f++) if (gst[c][f]) { pwart_free_module_state(gst[c][f]); gst[c][f] = NULL; gfn[c][f] = NULL; } if (ns_[c]) { pwart_namespace_delete(ns_[c]); ns_[c] = NULL; } } }
static void b_life(void) {
  int n = mc_thorough ? 9 : 7, h[10], inited = 0, loaded = 0, hasw = 0, mods = 0; for (int d = 0; d < n; d++) { int en[NL], c = 0; en[c++] = L_INIT; en[c++] = L_FAIL; if (!loaded) en[c++] = L_LOAD; en[c++] = L_UNLOAD; if (!hasw) en[c++] = L_NEWDEL; if (!loaded) en[c++] = L_NS; if (mods < 1) en[c++] = L_MOD; h[d] = en[choose(c)]; switch (h[d]) { case L_INIT: inited = 1; break; case L_FAIL: inited = 0; break; case L_LOAD: loaded = 1; hasw = inited; break; case L_UNLOAD: if (hasw) inited = 0; loaded = hasw = 0; break; case L_NEWDEL: inited = 0; break; case L_NS: mods = 0; break; case L_MOD: mods = 1; break; } }
  if (!mc_mine()) return; dn = sprintf(dbuf, "history:"); for (int d = 0; d < n; d++) dn += sprintf(dbuf + dn, " %s;", ln[h[d]]); mc_describe_cb = describe; mc_predesc(); static int first = 1; if (first) { first = 0; drop_all(); } wstack(); set_cfg(1, 0); init_errno = 0; pwart_wasi_module_set_wasiargs(0, NULL);
  if (ctx_live) pwart_wasi_module_delete(pwart_wasi_module_new()); if (ctx_live) mc_fail("deleting the module leaves the context"); a_track = 1; long b0 = a_blocks, x0 = a_exec; pwart_namespace ns = pwart_namespace_new(); static const char *un[] = {"f"}; static void *us[] = {(void *)un}; struct pwart_host_module *user = NULL; uint64_t o = 0; inited = loaded = hasw = 0;
  for (int d = 0; d < n; d++) { mc_steps(1); o = o * 8 + h[d]; char *e; switch (h[d]) {
    case L_INIT: e = pwart_wasi_module_init(); if (e) mc_fail("initialisation fails: %s", e); inited = 1; break;
    case L_FAIL: init_errno = 52; e = pwart_wasi_module_init(); init_errno = 0; if (!e) mc_fail("a failed initialisation is not reported"); inited = 0; break;
    case L_LOAD: e = pwart_syslib_load(ns); if (e) mc_fail("loading fails: %s", e); loaded = 1; hasw = inited; break;
    case L_UNLOAD: e = pwart_syslib_unload(ns); if (e) mc_fail("unloading fails: %s", e); if (hasw) inited = 0; loaded = hasw = 0; break;
    case L_NEWDEL: { struct pwart_host_module *m = pwart_wasi_module_new(); for (int f = 0; f < NF; f++) { struct pwart_symbol_resolve_request q = {"wasi_snapshot_preview1", W[f].name, PWART_KIND_FUNCTION, NULL}; m->resolve(m, &q); if (!q.result) mc_fail("%s is not found", W[f].name); } struct pwart_symbol_resolve_request q = {"wasi_snapshot_preview1", "nothing", PWART_KIND_FUNCTION, NULL}; m->resolve(m, &q); if (q.result) mc_fail("an unknown name is found"); pwart_wasi_module_delete(m); inited = 0; break; }
    case L_NS: e = pwart_namespace_delete(ns); if (e) mc_fail("%s", e); if (user) pwart_namespace_delete_host_module(user); user = NULL; ns = pwart_namespace_new(); break;
    case L_MOD: user = pwart_namespace_new_host_module2(un, us, 1); pwart_namespace_define_host_module(ns, "user", user); break; }
    if (ctx_live != inited) mc_fail("after step %d a context is %s", d, ctx_live ? "live" : "not live");
    for (int k = 0; k < 3; k++) { struct pwart_named_module *m = pwart_namespace_find_module(ns, lib[k]); int w = k < 2 ? loaded : hasw; if ((m != NULL) != w) mc_fail("after step %d %s is %s the namespace", d, lib[k], m ? "in" : "not in"); if (m) { static const char *fn[] = {"uv_version", "ffi_is_enabled", "fd_close"}; struct pwart_symbol_resolve_request q = {lib[k], fn[k], PWART_KIND_FUNCTION, NULL}; pwart_namespace_resolver(ns)->resolve(pwart_namespace_resolver(ns), &q); if (!q.result) mc_fail("after step %d %s is not found in %s", d, fn[k], lib[k]); if (k == 2) { uint8_t *fp = wstack(); void *sp = fp; pwart_rstack_put_i32(&sp, 9); ncalls = 0; cur_errno = 8; pwart_call_wasm_function(q.result, fp); sp = fp; if (ncalls != 1 || got.fn != F_FD_CLOSE || got.ctx != ctx_ || got.a[0] != 9 || pwart_rstack_get_i32(&sp) != 8) mc_fail("after step %d fd_close does something else", d); } } }
    struct pwart_named_module *m = pwart_namespace_find_module(ns, "user"); if ((user != NULL) != (m != NULL) || (m && m->val.host != user)) mc_fail("after step %d the user's module is not what it was", d); }
  char *e = pwart_syslib_unload(ns); if (e) mc_fail("unloading fails: %s", e); if (ctx_live) pwart_wasi_module_delete(pwart_wasi_module_new()); e = pwart_namespace_delete(ns); if (e) mc_fail("%s", e); if (user) pwart_namespace_delete_host_module(user); a_track = 0; if (ctx_live) mc_fail("a context is left"); if (a_blocks != b0 || a_exec != x0) mc_fail("%ld allocations are left", a_blocks - b0); mc_outcome(o);
}
/* ---- the command that runs a WASI program ---- */
static void b_exec(void) {
  enum { OK_, MISSING, EMPTY, CUT, MAGIC, NONE_ }; int file = choose(6), start = choose(2), entry = choose(2), memo = choose(2), wasi = choose(2), ifail = choose(2), extra = choose(3), order = choose(2), cfg = choose(2); if (file == NONE_ && (start || entry || memo || wasi || extra || order)) { mc_owned = 0; return; } if (!mc_mine()) return;
  dn = sprintf(dbuf, "run a program (%s): start section %d, _start %d, memory %d, imports wasi %d, library fails %d, %d more arguments", file == OK_ ? "complete" : file == MISSING ? "no such file" : file == EMPTY ? "empty file" : file == CUT ? "cut off" : file == MAGIC ? "not wasm" : "not given", start, entry, memo, wasi, ifail, extra); mc_describe_cb = describe; mc_predesc(); set_cfg(cfg, 0);
  static int mark = 0x5000; mark++; mod_reset(&M); int t0 = mod_ft(&M, 0, 0, 0, 0), t1 = mod_ft(&M, 0, 0, 1, (uint8_t[]){I32}), tb = mod_ft(&M, 1, (uint8_t[]){I32}, 1, (uint8_t[]){I32}), tw = mod_ft(&M, 4, (uint8_t[]){I32, I32, I32, I32}, 1, (uint8_t[]){I32}); Imp *p = mod_imp(&M, 0, "libuv", "uv_version"); p->type = t1; int k = 1; if (wasi) { p = mod_imp(&M, 0, "wasi_snapshot_preview1", "proc_raise"); p->type = tb; p = mod_imp(&M, 0, "wasi_snapshot_preview1", "fd_write"); p->type = tw; k = 3; }
  if (memo) { M.mem[M.nmem++] = (Mem){1, 1, 1, 0}; } for (int i = 0; i < 2; i++) { int s = i ^ order; /* s: the start function */ Fn *f = mod_fn(&M, t0); E1(f, CALL, 0); E0(f, DROP); if (!s) { E1(f, CALL, 0); E0(f, DROP); } if (wasi) { E1(f, KI32, s ? 11 : 12); E1(f, CALL, 1); E0(f, DROP); if (memo) { E1(f, KI32, s ? 0x100 : 0x200); E1(f, KI32, mark); emit_mem(f, 0x36, 0, 0); E1(f, KI32, 16); E1(f, KI32, s ? 0x100 : 0x200); emit_mem(f, 0x36, 0, 0); E1(f, KI32, 1); E1(f, KI32, 16); E1(f, KI32, 1); E1(f, KI32, 32); E1(f, CALL, 2); E0(f, DROP); } } if (s && start) M.start = k + i; if (!s && entry) mod_exp(&M, "_start", 0, k + i); } if (memo) mod_exp(&M, "memory", 2, 0); mod_encode(&M, &g_out);
  char path[300]; want_mark = mark; snprintf(path, 300, "%s/w%d.wasm", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", (int)getpid()); unlink(path); if (file != MISSING && file != NONE_) { int fd = open(path, O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd < 0) mc_die("scratch file"); int n = file == EMPTY ? 0 : file == CUT ? g_out.n - 5 : g_out.n; uint8_t *b = g_out.p; if (file == MAGIC) b[3] ^= 0x20; if (write(fd, b, n) != n) mc_die("write"); close(fd); }
  char *av[6] = {"exe", path, "x1", "x2"}; int ac = file == NONE_ ? 1 : 2 + extra; av[ac] = NULL; nev = 0; ev[0] = 0; init_errno = ifail ? 52 : 0; cur_errno = 0; wexec_printed = 0; uint8_t *gb = gbase; uint64_t gs = gsize; gbase = NULL; gsize = ~0ull; mc_steps(1); drop_all(); int r = wasiexec_main(ac, av); want_mark = 0; unlink(path); gbase = gb; gsize = gs; init_errno = 0;
  char log[64]; int nl = 0; for (int i = 0; i < nev; i++) if (ev[i] != 'i' && ev[i] != 'd') log[nl++] = ev[i]; log[nl] = 0; char want[64] = ""; int runs = file == OK_ && !(wasi && ifail); char wp[2] = {'0' + F_PROC_RAISE, 0}, ww[2] = {'0' + F_FD_WRITE, 0};
  if (runs) for (int s = 1; s >= 0; s--) if (s ? start : entry) { strcat(want, s ? "u" : "uu"); if (wasi) { strcat(want, wp); if (memo) strcat(want, ww); } }
  if (strcmp(log, want)) mc_fail("the program called \"%s\", must be \"%s\"", log, want); if (runs && entry && r) mc_fail("running the program returned %d", r); if (!runs && !r) mc_fail("a program that cannot run is not reported"); if (!runs && !wexec_printed) mc_fail("no message"); if (ifail && !wexec_printed) mc_fail("no warning");
  if (file != NONE_ && file != MISSING) { if (opt.argc != ac - 1) mc_fail("the program has %d arguments, must have %d", opt.argc, ac - 1); for (int i = 1; i < ac; i++) if (strcmp(opt.args[i - 1], av[i])) mc_fail("argument %d is \"%s\"", i - 1, opt.args[i - 1]); } if (runs && wasi && memo && (entry || start)) { if (ngv != 1) mc_fail("%d buffers", ngv); }
  if (ctx_live) { pwart_wasi_module_set_wasiargs(0, NULL); pwart_wasi_module_delete(pwart_wasi_module_new()); } pwart_wasi_module_set_wasiargs(0, NULL); mc_outcome(r * 4096 + file * 512 + start * 256 + entry * 128 + memo * 64 + wasi * 32 + ifail * 16 + extra);
}
static struct mc_space sp[] = {
  {"calls", b_calls, "42 functions x every combination of 3 (4) values per argument (addresses up to 4 GiB, lengths, 64-bit values, flags up to the largest) x 3 results of the library x both stack layouts"},
  {"vectors", b_vectors, "the 6 functions that take vectors of buffers x every vector of 0..3 (4) buffers out of 3 places x 3 lengths, and vectors of 16 to 8192 buffers, at two places"},
  {"args", b_args, "every list of 0..3 arguments out of 5 strings x places of the results x initialised once or again"},
  {"environ", b_env, "every environment of 0..3 (4) entries out of 7 x places of the results"},
  {"memory", b_memory, "every sequence of 3 calls with the memory unchanged, replaced or moved before each"},
  {"life-cycle", b_life, "every history of 7 (9) operations: initialise, fail to, load, unload, new and delete, another namespace, a module of the user"},
  {"command", b_exec, "the command that runs a program: 6 kinds of file x start section x _start x memory x imports x library failing x arguments"}};
static const char *as[] = {"the wrapped library libuvwasi is not installed: its functions are a stand-in with the library's prototypes that records every call; its argument and environment blocks are laid out as the library's", "flags are within the width the interface gives them", "the bridge does not check addresses against the size of the memory (no part of pwart does), so addresses here are inside of it", 0};
int main(int c, char **v) { static struct mc_check k = {"P35", "one execution = one call of a guest (or one history): the wrapped function, every argument, every translated address and buffer, the result, the bytes of the guest's memory around all places, allocations; non-trivial = distinct cases", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
