/* P30 the event-loop bridge: threads, locks, conditions and libraries, under every schedule */
#define A_LIST
#include "num.h"
#include "host.h"
#include "conc.h"
#include <pwart_syslib.h>
#include <uv.h>
#include <dlfcn.h>
static char dbuf[4000]; static int dn; static void describe(void) { mc_desc("%s", dbuf); if (sc_tn) mc_desc("  schedule: %s\n", sc_trace); }
enum { U_VER, U_OPEN, U_SYM, U_CLOSE, U_THREAD, U_MI, U_MD, U_ML, U_MU, U_MT, U_CI, U_CD, U_CS, U_CW, NF };
static const char *fname[NF] = {"uv_version", "uv_dlopen", "uv_dlsym", "uv_dlclose", "uv_thread_create", "uv_mutex_init", "uv_mutex_destroy", "uv_mutex_lock", "uv_mutex_unlock", "uv_mutex_trylock", "uv_cond_init", "uv_cond_destroy", "uv_cond_signal", "uv_cond_wait"};
#define R_ XREF
static FT ftype[NF] = {{0, 1, {0}, {I32}}, {1, 2, {R_}, {R_, I32}}, {2, 2, {R_, R_}, {R_, I32}}, {1, 0, {R_}, {0}}, {2, 1, {R_, I64}, {R_}}, {0, 1, {0}, {R_}}, {1, 0, {R_}, {0}}, {1, 0, {R_}, {0}}, {1, 0, {R_}, {0}}, {1, 1, {R_}, {I32}}, {0, 1, {0}, {R_}}, {1, 0, {R_}, {0}}, {1, 0, {R_}, {0}}, {2, 0, {R_, R_}, {0}}};
static void *fn_[NF]; static pwart_namespace ns_; static struct pwart_symbol_resolver *ns_rs; static V res_[4];
static V vref(const void *p) { return mk(XREF, (uintptr_t)p); }
#define P_(v) ((void *)(uintptr_t)(v).b)
/* from the host, on the common stack or on a thread's own */
static void call_(int f, V a, V b) { V v[2] = {a, b}; memset(res_, 0, sizeof res_); V r[4]; call_real(fn_[f], &ftype[f], v, r); memcpy(res_, r, sizeof r); }
static void resolve_all(struct pwart_host_module *m, void **out) { for (int i = 0; i < NF; i++) { struct pwart_symbol_resolve_request q = {"libuv", fname[i], PWART_KIND_FUNCTION, NULL}; m->resolve(m, &q); out[i] = q.result; if (!q.result) mc_fail("%s is not found", fname[i]); } }
/* ---- programs of the threads ---- */
enum { B_LOCK, B_TRY, B_WAIT, B_SET, B_NEST, B_REV, B_SPAWN, NB }; static const char *bn[] = {"lock", "trylock", "wait", "signal", "lock both", "lock both in the other order", "spawn"};
#define NT 3
static struct { int n, b[4]; } prog[NT]; static int nthr; static pwart_module_state st; static uint8_t *mem; static void *tfn[NT]; static uint64_t targ[NT]; static void *mu[2], *cnd;
/* layout of the module's memory: 0 counters of the two mutexes, 16 flag, 64 objects, 128 the threads' functions, 192 their arguments, 256 + 64 * t the results of thread t */
static int who[SC_MAX]; /* thread of the program by coroutine */ static int in_crit[2], crits[2], tryres[NT][8], ntry[NT]; static struct { int op; void *a, *b; int seen, res; } want[SC_MAX];
static void on_log(int op, void *a, void *b, int r) { int t = sc_cur < 0 ? SC_MAX - 1 : sc_cur; if (op == L_CREATE || op == L_INIT || op == L_DESTROY || op == L_CINIT || op == L_CDESTROY) { if (sc_cur < 0) { want[t].op = op; want[t].a = a; want[t].seen++; } return; } for (int i = 0; i < 3; i++) if (a == (i < 2 ? mu[i] : cnd)) { if (want[t].op != op || want[t].a != a || want[t].seen) mc_fail("thread %d performed operation %d on object %d, which is not what it called", t, op, i); if (op == L_WAIT && want[t].b != b) mc_fail("a wait with another mutex"); want[t].seen = 1; want[t].res = r; return; } mc_fail("thread %d performed operation %d on an object which is none of the program's", t, op); }
/* host functions: 0 before an operation (operation, object), 1 behind it (result), 2 inside a critical section (mutex, 0 in 1 out), 3 the thread's first step (its number, its argument) */
static int obj_no(void *p) { return 0; }
static void h_before(void *fp) { void *sp = fp; int op = pwart_rstack_get_i32(&sp), ob = pwart_rstack_get_i32(&sp); want[sc_cur].op = op; want[sc_cur].a = ob < 2 ? mu[ob] : cnd; want[sc_cur].b = mu[0]; want[sc_cur].seen = 0; memset(fp, 0xa5, 64); mc_steps(1); }
static void h_after(void *fp) { void *sp = fp; int r = pwart_rstack_get_i32(&sp); if (!want[sc_cur].seen) mc_fail("thread %d called an operation which did not happen", sc_cur); if (want[sc_cur].op == L_TRY) { int e = want[sc_cur].res ? UV_EBUSY : 0; if (r != e) mc_fail("trylock returned %d, must be %d", r, e); } else if (r != 0x7654321) mc_fail("a value of the caller was changed by an operation"); want[sc_cur].op = 0; memset(fp, 0xa5, 64); }
static void h_crit(void *fp) { void *sp = fp; int m = pwart_rstack_get_i32(&sp), out = pwart_rstack_get_i32(&sp); if (!out) { if (in_crit[m]++) mc_fail("two threads hold mutex %d", m); } else { in_crit[m]--; crits[m]++; } memset(fp, 0xa5, 64); sc_point(); }
static int started[NT];
static void h_start(void *fp) { void *sp = fp; int t = pwart_rstack_get_i32(&sp); uint64_t a = pwart_rstack_get_i64(&sp); if (a != targ[t]) mc_fail("thread %d received the argument 0x%llx, must be 0x%llx", t, (unsigned long long)a, (unsigned long long)targ[t]); if (started[t]++) mc_fail("thread %d was started twice", t); if ((g_cfg.stack_flags & 1) && ((uintptr_t)fp & 7)) mc_fail("frame not aligned"); memset(fp, 0xa5, 64); sc_point(); }
static void *hf[4] = {h_before, h_after, h_crit, h_start};
static void rs_both(struct pwart_symbol_resolver *r, struct pwart_symbol_resolve_request *q) { if (!strcmp(q->import_module, "h")) q->result = pwart_wrap_host_function_c(hf[atoi(q->import_field)]); else ns_rs->resolve(ns_rs, q); }
static struct pwart_symbol_resolver both = {rs_both};
/* function indices of the imports */
enum { I_UV0, I_H = NF, I_REF = NF + 4, NIMP };
static void put_ref(Fn *f, int off) { E1(f, KI32, 0); emit_mem(f, 0x29, off, 0); E1(f, CALL, I_REF); }
static void put_op(Fn *f, int op, int ob, int uf, int resl) { E1(f, KI32, op); E1(f, KI32, ob); E1(f, CALL, I_H); E1(f, KI32, 0x7654321); put_ref(f, 64 + 8 * ob); if (uf == U_CW) put_ref(f, 64); E1(f, CALL, I_UV0 + uf); if (uf == U_MT) { E1(f, LTEE, resl); E1(f, CALL, I_H + 1); E1(f, LSET, resl + 1); } else E1(f, CALL, I_H + 1); }
static void put_crit(Fn *f, int m) { E1(f, KI32, m); E1(f, KI32, 0); E1(f, CALL, I_H + 2); E1(f, KI32, 8 * m); E1(f, KI32, 8 * m); emit_mem(f, 0x29, 0, 0); E1(f, KI64, 1); E0(f, 0x7c); E1(f, KI32, m); E1(f, KI32, 1); E1(f, CALL, I_H + 2); emit_mem(f, 0x37, 0, 0); }
/* the counter is read, other threads may run, then it is written */
static void put_block(Fn *f, int t, int b, int spawn) {
  switch (b) {
  case B_LOCK: put_op(f, L_LOCK, 0, U_ML, 0); put_crit(f, 0); put_op(f, L_UNLOCK, 0, U_MU, 0); break;
  case B_TRY: put_op(f, L_TRY, 0, U_MT, 1); E1(f, LGET, 1); E0(f, 0x45); E1(f, IF, 0x40); put_crit(f, 0); put_op(f, L_UNLOCK, 0, U_MU, 0); E0(f, END); break;
  case B_WAIT: put_op(f, L_LOCK, 0, U_ML, 0); E1(f, LOOP, 0x40); E1(f, KI32, 16); emit_mem(f, 0x28, 0, 0); E0(f, 0x45); E1(f, IF, 0x40); put_op(f, L_WAIT, 2, U_CW, 0); E1(f, BR, 1); E0(f, END); E0(f, END); put_crit(f, 0); put_op(f, L_UNLOCK, 0, U_MU, 0); break;
  case B_SET: put_op(f, L_LOCK, 0, U_ML, 0); E1(f, KI32, 16); E1(f, KI32, 1); emit_mem(f, 0x36, 0, 0); put_op(f, L_SIGNAL, 2, U_CS, 0); put_op(f, L_UNLOCK, 0, U_MU, 0); break;
  case B_NEST: case B_REV: { int a = b == B_REV; put_op(f, L_LOCK, a, U_ML, 0); put_op(f, L_LOCK, !a, U_ML, 0); put_crit(f, 0); put_crit(f, 1); put_op(f, L_UNLOCK, !a, U_MU, 0); put_op(f, L_UNLOCK, a, U_MU, 0); break; }
  case B_SPAWN: put_ref(f, 128 + 8 * spawn); E1(f, KI32, 0); emit_mem(f, 0x29, 192 + 8 * spawn, 0); E1(f, CALL, I_UV0 + U_THREAD); E0(f, 0xd1); E1(f, IF, 0x40); E0(f, UNREACHABLE); E0(f, END); break;
  }
}
static void build(void) {
  mod_reset(&M); int ty[NIMP]; for (int i = 0; i < NF; i++) ty[i] = mod_ft(&M, ftype[i].np, ftype[i].p, ftype[i].nr, ftype[i].r); uint8_t ii[2] = {I32, I32}, il[2] = {I32, I64}, l = I64, x = XREF; int t2 = mod_ft(&M, 2, ii, 0, 0), t1 = mod_ft(&M, 2, ii, 1, ii), tl = mod_ft(&M, 2, il, 0, 0), tr = mod_ft(&M, 1, &l, 1, &x), te = mod_ft(&M, 1, &l, 0, 0); (void)t1; uint8_t one = I32; int t1v = mod_ft(&M, 1, &one, 0, 0);
  for (int i = 0; i < NF; i++) { Imp *p = mod_imp(&M, 0, "libuv", fname[i]); p->type = ty[i]; } static const char *hn[] = {"0", "1", "2", "3"}; int ht[4] = {t2, t1v, t2, tl}; for (int i = 0; i < 4; i++) { Imp *p = mod_imp(&M, 0, "h", hn[i]); p->type = ht[i]; } Imp *p = mod_imp(&M, 0, "pwart_builtin", "ref_from_i64"); p->type = tr;
  M.mem[M.nmem++] = (Mem){1, 1, 1, 0}; mod_exp(&M, "m", 2, 0); static const char *en[] = {"t0", "t1", "t2"}; int spawned = 1;
  for (int t = 0; t < nthr; t++) { Fn *f = mod_fn(&M, te); f->nloc = 5; f->loc[0] = f->loc[1] = I32; f->loc[2] = I64; f->loc[3] = F64; f->loc[4] = I32; E1(f, KI64, 0x1122334455667700 + t); E1(f, LSET, 3); emit_k(f, F64, f64b(2.5 + t)); E1(f, LSET, 4); E1(f, KI32, t); E1(f, LGET, 0); E1(f, CALL, I_H + 3);
    for (int k = 0; k < prog[t].n; k++) put_block(f, t, prog[t].b[k], prog[t].b[k] == B_SPAWN ? spawned++ : 0);
    E1(f, LGET, 3); E1(f, KI64, 0x1122334455667700 + t); E0(f, 0x52); E1(f, IF, 0x40); E0(f, UNREACHABLE); E0(f, END); E1(f, LGET, 4); emit_k(f, F64, f64b(2.5 + t)); E0(f, 0x62); E1(f, IF, 0x40); E0(f, UNREACHABLE); E0(f, END); E1(f, KI32, 256 + 64 * t); E1(f, LGET, 0); emit_mem(f, 0x37, 0, 0); mod_exp(&M, en[t], 0, NIMP + t); }
  char *er; st = real_load(&M, &both, &er); if (!st) mc_fail("module rejected: %s", er); mem = ((struct pwart_wasm_memory *)pwart_get_export_memory(st, "m"))->bytes; for (int t = 0; t < nthr; t++) tfn[t] = pwart_get_export_function(st, en[t]);
}
static void ensure(void) { static int d; if (d) return; d = 1; sc_on = 0; set_cfg(1, 0); struct pwart_host_module *m = pwart_libuv_module_new(); resolve_all(m, fn_); ns_ = pwart_namespace_new(); struct pwart_named_module nm; nm.name = "libuv"; nm.type = PWART_MODULE_TYPE_HOST_MODULE; nm.val.host = m; char *e = pwart_namespace_define_module(ns_, &nm); if (e) mc_die(e); ns_rs = pwart_namespace_resolver(ns_); int n0 = nthr, p0 = prog[0].n; nthr = 1; prog[0].n = 0; build(); call_(U_VER, vref(0), vref(0)); pwart_free_module_state(st); nthr = n0; prog[0].n = p0; pthread_condattr_t ca; pthread_condattr_init(&ca); }
static void begin(int bound, int cfg) { ensure(); set_cfg(cfg, 0); mc_describe_cb = describe; mc_predesc(); sc_reset(bound); sc_log = NULL; memset(want, 0, sizeof want); memset(in_crit, 0, sizeof in_crit); memset(crits, 0, sizeof crits); memset(ntry, 0, sizeof ntry); memset(started, 0, sizeof started); }
static const uint64_t av[] = {0, 1, 0x7fffffffffffffff, 0x8000000000000001, 0xffffffff, 0x100000000};
static void mk_objects(void) { for (int i = 0; i < 2; i++) { call_(U_MI, vref(0), vref(0)); mu[i] = P_(res_[0]); if (!mu[i] || (i && mu[0] == mu[1])) mc_fail("no mutex"); } call_(U_CI, vref(0), vref(0)); cnd = P_(res_[0]); if (!cnd) mc_fail("no condition"); for (int i = 0; i < 3; i++) { uint64_t v = (uintptr_t)(i < 2 ? mu[i] : cnd); memcpy(mem + 64 + 8 * i, &v, 8); } for (int t = 0; t < nthr; t++) { uint64_t v = (uintptr_t)tfn[t]; memcpy(mem + 128 + 8 * t, &v, 8); memcpy(mem + 192 + 8 * t, &targ[t], 8); } }
static int salt;
static void run_threads(int first) { /* the first threads are created by the host, the others by the module */
  sc_log = on_log; for (int t = 0; t < first; t++) { int n0 = sc_n; call_(U_THREAD, vref(tfn[t]), mk(I64, targ[t])); if (sc_n != n0 + 1 || want[SC_MAX - 1].op != L_CREATE) mc_fail("no thread was created"); if (!res_[0].b) mc_fail("no thread handle"); }
  int fin = sc_run(); sc_log = NULL; uint64_t o = fin; int tries = 0;
  if (fin) { uint64_t c; for (int m = 0; m < 2; m++) { memcpy(&c, mem + 8 * m, 8); if (c != crits[m]) mc_fail("%d critical sections left the counter at %d", crits[m], (int)c); o = o * 17 + c; } for (int t = 0; t < nthr; t++) { if (started[t] != 1) mc_fail("thread %d was started %d times", t, started[t]); memcpy(&c, mem + 256 + 64 * t, 8); if (c != targ[t]) mc_fail("thread %d did not finish", t); }
    for (int i = 0; i < 2; i++) call_(U_MD, vref(mu[i]), vref(0)); call_(U_CD, vref(cnd), vref(0)); a_track = 0; if (a_blocks) mc_fail("%ld allocations are left", a_blocks); }
  else { /* nothing can go on: is that so? */ int w = 0; for (int t = 0; t < sc_n; t++) if (!co[t].done) w++; if (!w) mc_fail("no thread is left, but the schedule did not end"); a_track = 0; a_release(); a_blocks = 0; }
  pwart_free_module_state(st); (void)tries; o = o * 8 + salt; for (int t = 0; t < nthr; t++) for (int k = 0; k < prog[t].n; k++) o = o * 9 + prog[t].b[k]; mc_outcome(o);
}
static void text(void) { dn = 0; for (int t = 0; t < nthr; t++) { dn += sprintf(dbuf + dn, "thread %d (argument 0x%llx):", t, (unsigned long long)targ[t]); for (int k = 0; k < prog[t].n; k++) dn += sprintf(dbuf + dn, " %s;", bn[prog[t].b[k]]); dn += sprintf(dbuf + dn, "\n"); } }
static void go(int bound, int first, int cfg) { salt = first; text(); begin(bound, cfg); build(); a_track = 1; a_blocks = 0; mk_objects(); run_threads(first); }
static void b_two(void) { nthr = 2; for (int t = 0; t < 2; t++) { prog[t].n = 1 + choose(2); for (int k = 0; k < prog[t].n; k++) prog[t].b[k] = choose(6); targ[t] = av[(t * 2 + prog[0].n + prog[t].b[0]) % 6]; } int cfg = choose(2); if (!mc_mine()) return; go(mc_thorough ? 4 : 2, 2, cfg); }
static void b_three(void) { nthr = 3; for (int t = 0; t < 3; t++) { prog[t].n = 1; prog[t].b[0] = choose(6); targ[t] = av[(t + prog[0].b[0]) % 6]; } if (!mc_mine()) return; go(mc_thorough ? 4 : 2, 3, 1); }
static void b_spawn(void) { nthr = 3; int how = choose(3), where = choose(3), both_ = how == 2; for (int t = 0; t < 3; t++) { prog[t].n = 1; prog[t].b[0] = choose(4); } int tv = choose(mc_thorough ? 6 : 2); for (int t = 0; t < 3; t++) targ[t] = av[(t * 2 + tv + where) % 6];
  /* 0: thread 0 creates both, 1: thread 0 creates 1 which creates 2, 2: thread 0 creates both behind its own work */
  if (how == 1) { prog[1].b[1] = prog[1].b[0]; prog[1].b[0] = B_SPAWN; prog[1].n = 2; if (where == 1) { prog[1].b[0] = prog[1].b[1]; prog[1].b[1] = B_SPAWN; } prog[0].b[1] = prog[0].b[0]; prog[0].b[0] = B_SPAWN; prog[0].n = 2; } else { int w = prog[0].b[0]; prog[0].n = 3; prog[0].b[0] = prog[0].b[1] = prog[0].b[2] = B_SPAWN; prog[0].b[where] = w; } (void)both_;
  if (how == 2 && where != 2) { mc_owned = 0; return; } if (how == 1 && where == 2) { mc_owned = 0; return; } if (!mc_mine()) return; go(mc_thorough ? 3 : 2, 1, 1); }
/* ---- single-threaded: objects and results ---- */
static void b_objects(void) { /* every sequence of creating, locking, trying, unlocking and destroying up to three mutexes and a condition */
  int n = mc_thorough ? 9 : 7, h[12]; int live[3] = {0}, held[3] = {0}, cl = 0; for (int d = 0; d < n; d++) { int en[16], c = 0; for (int i = 0; i < 3; i++) { if (!live[i]) { if (!i || live[i - 1]) en[c++] = i; } else { if (!held[i]) { en[c++] = 4 + i; en[c++] = 8 + i; } else { en[c++] = 8 + i; en[c++] = 12 + i; } if (!held[i]) en[c++] = 16 + i; } } if (cl) { en[c++] = 21; en[c++] = 22; } else en[c++] = 20; h[d] = en[choose(c)]; int i = h[d] & 3; switch (h[d] >> 2) { case 0: live[i] = 1; held[i] = 0; break; case 1: held[i] = 1; break; case 2: held[i] = 1; break; case 3: held[i] = 0; break; case 4: live[i] = 0; break; default: cl = h[d] != 22; } }
  if (!mc_mine()) return; dn = sprintf(dbuf, "operations:"); static const char *on[] = {"create", "lock", "trylock", "unlock", "destroy", "condition"}; for (int d = 0; d < n; d++) dn += sprintf(dbuf + dn, " %s %d", on[h[d] >> 2], h[d] & 3); sprintf(dbuf + dn, "\n"); begin(0, 1); a_track = 1; a_blocks = 0; sc_log = on_log; void *m[3] = {0}, *c = NULL; memset(held, 0, sizeof held); memset(live, 0, sizeof live); mu[0] = mu[1] = cnd = NULL; uint64_t o = 0;
  for (int d = 0; d < n; d++) { int i = h[d] & 3, op = h[d] >> 2; int T = SC_MAX - 1; want[T].seen = 0; o = o * 23 + h[d]; mc_steps(1); switch (op) {
    case 0: call_(U_MI, vref(0), vref(0)); m[i] = P_(res_[0]); if (!m[i] || want[T].op != L_INIT || want[T].a != m[i]) mc_fail("no mutex was initialised at the returned address"); for (int j = 0; j < 3; j++) if (j != i && live[j] && m[j] == m[i]) mc_fail("two mutexes are the same"); live[i] = 1; break;
    case 1: case 2: case 3: mu[0] = m[i]; want[T].op = op == 1 ? L_LOCK : op == 2 ? L_TRY : L_UNLOCK; want[T].a = m[i]; call_(op == 1 ? U_ML : op == 2 ? U_MT : U_MU, vref(m[i]), vref(0)); if (!want[T].seen) mc_fail("the operation did not happen"); if (op == 2 && (int)res_[0].b != (held[i] ? UV_EBUSY : 0)) mc_fail("trylock of a %s mutex returns %d", held[i] ? "held" : "free", (int)res_[0].b); if (op < 3) held[i] = 1; else held[i] = 0; break;
    case 4: call_(U_MD, vref(m[i]), vref(0)); if (want[T].op != L_DESTROY || want[T].a != m[i] || !want[T].seen) mc_fail("the mutex was not destroyed"); live[i] = 0; break;
    default: if (i == 0) { call_(U_CI, vref(0), vref(0)); c = P_(res_[0]); if (!c || want[T].op != L_CINIT || want[T].a != c) mc_fail("no condition was initialised at the returned address"); } else if (i == 1) { cnd = c; want[T].op = L_SIGNAL; want[T].a = c; call_(U_CS, vref(c), vref(0)); if (!want[T].seen) mc_fail("no signal"); } else { call_(U_CD, vref(c), vref(0)); if (want[T].op != L_CDESTROY || want[T].a != c || !want[T].seen) mc_fail("the condition was not destroyed"); c = NULL; } } }
  sc_log = NULL; for (int i = 0; i < 3; i++) if (live[i]) { if (held[i]) call_(U_MU, vref(m[i]), vref(0)); call_(U_MD, vref(m[i]), vref(0)); } if (c) call_(U_CD, vref(c), vref(0)); a_track = 0; if (a_blocks) mc_fail("%ld allocations are left", a_blocks); mc_outcome(o);
}
static void b_dl(void) { /* every history of opening, looking up and closing two libraries */
  static const char *file[] = {"libm.so.6", "libpwart_nothing.so", "libuv.so.1", ""}, *sym[] = {"cos", "uv_version", "pwart_no_symbol", ""}; int n = mc_thorough ? 5 : 4, h[8], fi[8], op[2] = {0}; for (int d = 0; d < n; d++) { int i = choose(2); h[d] = i; if (!op[i]) { fi[d] = choose(4); op[i] = fi[d] == 1 || fi[d] == 3 ? 2 : 1; } else if (op[i] == 2) { fi[d] = 8; op[i] = 0; } else { fi[d] = 4 + choose(5); if (fi[d] == 8) op[i] = 0; } }
  int cfg = choose(2); if (!mc_mine()) return; dn = sprintf(dbuf, "libraries:"); for (int d = 0; d < n; d++) dn += fi[d] < 4 ? sprintf(dbuf + dn, " open(%d,\"%s\")", h[d], file[fi[d]]) : fi[d] < 8 ? sprintf(dbuf + dn, " symbol(%d,\"%s\")", h[d], sym[fi[d] - 4]) : sprintf(dbuf + dn, " close(%d)", h[d]); sprintf(dbuf + dn, "\n"); begin(0, cfg); sc_on = 0; void *lib[2] = {0}; int lf[2] = {0}; uint64_t o = 0;
  for (int d = 0; d < n; d++) { int i = h[d]; mc_steps(1); o = o * 19 + fi[d] * 2 + i; if (fi[d] < 4) { call_(U_OPEN, vref(file[fi[d]]), vref(0)); lib[i] = P_(res_[0]); int ok = fi[d] == 0 || fi[d] == 2, r = res_[1].b; lf[i] = fi[d]; void *t = dlopen(file[fi[d]], RTLD_LAZY); ok = t != NULL; if (t) dlclose(t); if (ok != (r == 0)) mc_fail("opening \"%s\" returns %d", file[fi[d]], r); if (!lib[i]) mc_fail("no library handle"); if (!ok) { op[i] = 2; } if (lib[0] && lib[0] == lib[1]) mc_fail("two libraries are the same"); }
    else if (fi[d] < 8) { const char *s = sym[fi[d] - 4]; call_(U_SYM, vref(lib[i]), vref(s)); void *t = dlopen(file[lf[i]], RTLD_LAZY), *e = t ? dlsym(t, s) : NULL; if (t) dlclose(t); if (!t) continue; if ((res_[1].b == 0) != (e != NULL)) mc_fail("looking up \"%s\" returns %d", s, (int)res_[1].b); if (P_(res_[0]) != e) mc_fail("\"%s\" is found at another address", s); }
    else { call_(U_CLOSE, vref(lib[i]), vref(0)); lib[i] = NULL; } }
  for (int i = 0; i < 2; i++) if (lib[i]) call_(U_CLOSE, vref(lib[i]), vref(0)); mc_outcome(o);
}
static void b_module(void) { int f = choose(NF), reps = 1 + choose(3), cfg = choose(2); if (!mc_mine()) return; dn = sprintf(dbuf, "%s\n", fname[f]); begin(0, cfg); a_track = 1; a_blocks = 0; for (int i = 0; i < reps; i++) { struct pwart_host_module *m = pwart_libuv_module_new(); void *o[NF]; resolve_all(m, o); if (memcmp(o, fn_, sizeof o)) mc_fail("another module has other functions"); for (int k = 0; k < NF; k++) if (k != f && o[k] == o[f]) mc_fail("%s and %s are the same", fname[k], fname[f]); struct pwart_symbol_resolve_request q = {"libuv", "uv_nothing", PWART_KIND_FUNCTION, NULL}; m->resolve(m, &q); if (q.result) mc_fail("an unknown name is found"); if (f == U_VER) { call_(U_VER, vref(0), vref(0)); if (res_[0].b != uv_version()) mc_fail("another version"); } pwart_libuv_module_delete(m); } a_track = 0; if (a_blocks) mc_fail("%ld allocations are left", a_blocks); mc_outcome(f); }
static struct mc_space sp[] = {
  {"two-threads", b_two, "every pair of programs of 1 or 2 steps out of 6 (lock, trylock, wait for a flag, set it and signal, lock both mutexes in either order), all schedules with up to 2 (4) preemptions"},
  {"three-threads", b_three, "every triple of one-step programs, all schedules with up to 2 (4) preemptions"},
  {"spawning", b_spawn, "threads created by threads in three shapes x 4 steps each x 2 (6) argument assignments, all schedules with up to 2 (3) preemptions"},
  {"objects", b_objects, "every legal sequence of 7 (9) operations on three mutexes and a condition"},
  {"libraries", b_dl, "every history of 4 (5) operations on two library handles: open of present and missing files, look-up of present and missing symbols, close"},
  {"module", b_module, "every function of the module"}};
static const char *as[] = {"the pthread functions below libuv are replaced by the controlled scheduler: exact mutexes, conditions without spurious wake-ups; threads switch at these functions and at calls out of the module", 0};
int main(int c, char **v) { static struct mc_check k = {"P30", "one execution = one program of threads under one schedule (or one history of operations): results, arguments and the primitive operation behind every call compared; mutual exclusion, counters and allocations at the end; non-trivial = distinct final states", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
