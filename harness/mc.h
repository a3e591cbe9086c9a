/* mc.h - a small stateless model-checking engine.
 *
 * A "space" is a body() that asks choose(n) at every point where the driver
 * or the environment has n alternatives, then runs the real code and compares
 * it with a reference model.  The engine enumerates EVERY choice sequence
 * (depth first, no sampling), spread over forked workers; a worker that dies
 * or hangs is a finding for the choice sequence it was running, and the
 * search resumes right behind it.  Every finding is replayed in a fresh
 * process before it is reported.
 */
#ifndef MC_H
#define MC_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <malloc.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>

#ifndef MC_MAXDEPTH
#define MC_MAXDEPTH 512
#endif
#define MC_MAXW 16
#define MC_TXT 3000

struct mc_space { const char *name; void (*body)(void); const char *rule; };

struct mc_rec { int space; int len; uint16_t val[MC_MAXDEPTH]; char msg[MC_TXT]; char key[MC_TXT]; char crash[64]; int w; int baselen; uint16_t baseval[MC_MAXDEPTH]; };

struct mc_slot {
  volatile uint64_t beat;          /* bumped for every execution */
  volatile uint64_t execs, nodes, steps, nontrivial, skipped;
  volatile uint64_t outcomes;      /* distinct outcomes this worker added */
  volatile int done;
  volatile int running;            /* inside an execution */
  int len; uint16_t val[MC_MAXDEPTH], num[MC_MAXDEPTH];
  char desc[MC_TXT]; char key[MC_TXT];
  int baselen; uint16_t baseval[MC_MAXDEPTH];   /* where this worker (re)started */
};
#define MC_MAXV 64
struct mc_shared {
  volatile int stop;
  volatile int nviol;
  volatile int known_hit[256];
  struct mc_rec viol[MC_MAXV];
  struct mc_slot slot[MC_MAXW];
  volatile int nsamples;
  char samples[8][MC_TXT];
};
/* ISO C leaves memcpy of overlapping ranges undefined; the C library's version happens to allow it.  All objects are
 * linked against this one, which copies overlapping ranges in the direction that destroys the source. */
void *__real_memcpy(void *d, const void *s, size_t n);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  uintptr_t a = (uintptr_t)d, b = (uintptr_t)s;
  if (a != b && a < b + n && b < a + n) { volatile uint8_t *p = d; const volatile uint8_t *q = s; if (a > b) for (size_t i = 0; i < n; i++) p[i] = q[i]; else for (size_t i = n; i-- > 0;) p[i] = q[i]; return d; }
  return __real_memcpy(d, s, n);
}
static struct mc_shared *mc_sh;
static uint64_t *mc_hset; /* shared hash set of outcomes */
#define MC_HBITS 22
static struct mc_slot *mc_slot_;
static int mc_w, mc_nw = 8, mc_replaying, mc_thorough, mc_pos, mc_start_len, mc_owned, mc_space_idx;
static int mc_known_depth;  /* choices before this index are a DFS prefix */
static char mc_desc_[MC_TXT];
#define mc_key_ (mc_slot_->key)
static int mc_is_known(const char *key);
static int mc_desc_len;
static jmp_buf mc_jmp;
static const char *mc_prop;
static double mc_t0;
static int mc_timeout_s = 10;
static int mc_preshard_max; /* nodes */

static double mc_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void mc_die(const char *m) { fprintf(stderr, "mc: internal error: %s\n", m); fflush(NULL); _exit(99); }

/* nondeterministic choice in [0,n) */
static int choose(int n) {
  struct mc_slot *s = mc_slot_;
  if (n <= 0) mc_die("choose(0)");
  int p = mc_pos++;
  if (p >= MC_MAXDEPTH) mc_die("choice depth");
  if (p < s->len) {
    if (!mc_replaying && s->num[p] != 0xffff && s->num[p] != n) mc_die("divergence while replaying a choice prefix");
    s->num[p] = n;
    if (s->val[p] >= n) mc_die("choice out of range while replaying");
    return s->val[p];
  }
  s->val[p] = 0; s->num[p] = n; s->len = p + 1;
  if (mc_owned ? 1 : mc_w == 0) s->nodes++;
  return 0;
}
#define choose_from(arr) ((arr)[choose((int)(sizeof(arr) / sizeof((arr)[0])))])

/* Call once per path, after the choices that name the case and before the expensive part. */
static uint64_t mc_shard_ctr;
static int mc_mine(void) {
  if (mc_replaying) { mc_owned = 1; return 1; }
  /* hash of the prefix decides the owner: stable across restarts */
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < mc_pos; i++) { h ^= mc_slot_->val[i] + 1; h *= 1099511628211ull; h ^= h >> 29; }
  h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31;
  mc_owned = (int)(h % mc_nw) == mc_w;
  return mc_owned;
}
static void mc_desc(const char *f, ...) {
  va_list a; va_start(a, f);
  if (mc_desc_len < MC_TXT - 1) {
    int k = vsnprintf(mc_desc_ + mc_desc_len, MC_TXT - mc_desc_len, f, a);
    if (k > 0) mc_desc_len += k;
    if (mc_desc_len > MC_TXT - 1) mc_desc_len = MC_TXT - 1;
  }
  va_end(a);
}
static void (*mc_describe_cb)(void); /* lazily produces the description of the current case */
static void mc_predesc(void) { /* call before code that may kill the process: keeps the description of a replayed case */
  if (mc_replaying && mc_describe_cb) { mc_desc_len = 0; mc_describe_cb(); snprintf(mc_slot_->desc, MC_TXT, "%s", mc_desc_); mc_desc_len = 0; mc_desc_[0] = 0; }
}
static void mc_key(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(mc_key_, MC_TXT, f, a); va_end(a); }
static void mc_outcome(uint64_t h) { /* record one observed outcome; counts distinct ones */
  h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
  if (!h) h = 1;
  uint64_t m = (1ull << MC_HBITS) - 1, i = h & m;
  for (int k = 0; k < 64; k++, i = (i + 1) & m) {
    uint64_t c = __atomic_load_n(&mc_hset[i], __ATOMIC_RELAXED);
    if (c == h) return;
    if (c == 0) {
      uint64_t z = 0;
      if (__atomic_compare_exchange_n(&mc_hset[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { mc_slot_->outcomes++; return; }
      if (z == h) return;
    }
  }
}
static uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
  const uint8_t *b = p; h ^= 0x9E3779B97F4A7C15ull + n;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; h ^= h >> 31; }
  return h;
}
static void mc_steps(uint64_t n) { mc_slot_->steps += n; }
static void mc_nontrivial(void) { mc_slot_->nontrivial++; }
static void mc_skip(void) { mc_slot_->skipped++; longjmp(mc_jmp, 2); }

static void mc_record(const char *crash, const char *msg) {
  if (mc_is_known(mc_key_)) return;
  int i = __atomic_fetch_add(&mc_sh->nviol, 1, __ATOMIC_SEQ_CST);
  if (i >= MC_MAXV) { mc_sh->stop = 1; return; }
  struct mc_rec *r = &mc_sh->viol[i];
  r->space = mc_space_idx;
  r->len = mc_slot_->len;
  memcpy(r->val, mc_slot_->val, sizeof r->val);
  snprintf(r->crash, sizeof r->crash, "%s", crash);
  snprintf(r->msg, MC_TXT, "%s", msg);
  snprintf(r->key, MC_TXT, "%s", mc_key_);
  r->w = (int)(mc_slot_ - mc_sh->slot); r->baselen = mc_slot_->baselen;
  memcpy(r->baseval, mc_slot_->baseval, sizeof r->baseval);
}
/* the property is violated on this execution */
static void mc_fail(const char *f, ...) __attribute__((format(printf, 1, 2), noreturn));
static void mc_fail(const char *f, ...) {
  char b[MC_TXT]; va_list a; va_start(a, f); vsnprintf(b, MC_TXT, f, a); va_end(a);
  mc_slot_->len = mc_pos < mc_slot_->len ? mc_slot_->len : mc_pos;
  if (mc_describe_cb && mc_replaying) mc_describe_cb();
  mc_record("", b);
  longjmp(mc_jmp, 1);
}
#define mc_assert(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)

static int mc_run_one(void (*body)(void)) {
  mc_pos = 0; mc_owned = 0; mc_desc_len = 0; mc_desc_[0] = 0; mc_key_[0] = 0; mc_describe_cb = NULL;
  mc_slot_->running = 1;
  int r = setjmp(mc_jmp);
  if (r == 0) {
    body();
  }
  mc_slot_->running = 0;
  mc_slot_->beat++;
  if (mc_owned) {
    mc_slot_->execs++;
    if (r == 0 && mc_sh->nsamples < 6 && (mc_slot_->execs & (mc_slot_->execs - 1)) == 0 && mc_slot_->execs >= 8) {
      int k = __atomic_fetch_add(&mc_sh->nsamples, 1, __ATOMIC_SEQ_CST);
      if (k < 8) {
        mc_desc_len = 0;
        if (mc_describe_cb) mc_describe_cb();
        if (!mc_desc_len) { mc_desc("choices"); for (int i = 0; i < mc_slot_->len; i++) mc_desc(" %d", mc_slot_->val[i]); }
        snprintf(mc_sh->samples[k], MC_TXT, "%s", mc_desc_);
      } else mc_sh->nsamples = 8;
    }
  }
  return r;
}
static int mc_next(void) {
  struct mc_slot *s = mc_slot_;
  int n = mc_pos < s->len ? mc_pos : s->len;
  while (n > 0 && s->val[n - 1] + 1 >= s->num[n - 1]) n--;
  if (n == 0) return 0;
  s->val[n - 1]++;
  s->len = n;
  return 1;
}
static void mc_limits(void) {
  mallopt(M_PERTURB, 0xa5);
  mallopt(M_MMAP_THRESHOLD, 1 << 22);
  mallopt(M_TRIM_THRESHOLD, 1 << 26);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 0);
  if (!getenv("MC_KEEP_OUT")) { dup2(fd, 1); dup2(fd, 2); }
}
static void (*mc_worker_init)(void);
static struct mc_rec *mc_until; /* stop behind this choice vector */
static void mc_worker(int w, void (*body)(void), int resume) {
  mc_w = w; mc_slot_ = &mc_sh->slot[w];
  mc_limits();
  if (mc_worker_init) mc_worker_init();
  if (resume) {
    mc_pos = mc_slot_->len;
    /* num[] may be unset behind a crash in the middle: those were set by choose() */
    if (!mc_next()) { mc_slot_->done = 1; _exit(0); }
    mc_slot_->baselen = mc_slot_->len;
    memcpy(mc_slot_->baseval, mc_slot_->val, sizeof mc_slot_->val);
  } else mc_slot_->len = mc_slot_->baselen = 0;
  for (;;) {
    if (mc_sh->stop) break;
    mc_run_one(body);
    if (mc_until && mc_slot_->len == mc_until->len && !memcmp(mc_slot_->val, mc_until->val, mc_until->len * 2)) break;
    if (!mc_next()) break;
  }
  mc_slot_->done = 1;
  fflush(NULL);
  _exit(0);
}

/* ---------- known findings ---------- */
static int mc_nknown; static char *mc_known_key[256], *mc_known_what[256];
static void mc_load_known(const char *file) {
  FILE *f = fopen(file, "r"); if (!f) return;
  static char line[8192];
  /* format: one finding per line: property \t key \t what fails */
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    if (line[0] == '#' || !line[0]) continue;
    if (!strncmp(line, "fixed:", 6)) continue;
    char *t1 = strchr(line, '\t'); if (!t1) continue; *t1++ = 0;
    char *t2 = strchr(t1, '\t'); if (!t2) continue; *t2++ = 0;
    if (strcmp(line, mc_prop)) continue;
    if (mc_nknown < 256) { mc_known_key[mc_nknown] = strdup(t1); mc_known_what[mc_nknown++] = strdup(t2); }
  }
  fclose(f);
}
static int mc_is_known(const char *key) {
  if (key[0]) for (int i = 0; i < mc_nknown; i++) if (!strcmp(key, mc_known_key[i])) { mc_sh->known_hit[i] = 1; return 1; }
  return 0;
}

/* run one choice vector in a fresh child; returns 0 ok, 1 violation (rec filled), 2 crash/hang */
static int mc_replay_one(const struct mc_space *sp, int idx, const uint16_t *val, int len, struct mc_rec *out, char *desc, int timeout) {
  struct mc_slot *s = &mc_sh->slot[MC_MAXW - 1];
  int before = mc_sh->nviol; 
  mc_sh->nviol = 0;
  static struct mc_rec keep; keep = mc_sh->viol[0];
  memset(&mc_sh->viol[0], 0, sizeof(struct mc_rec));
  memset(s, 0, sizeof *s);
  s->len = len; memcpy(s->val, val, len * 2);
  for (int i = 0; i < MC_MAXDEPTH; i++) s->num[i] = 0xffff;
  fflush(NULL);
  pid_t p = fork();
  if (!p) {
    mc_slot_ = s; mc_replaying = 1; mc_space_idx = idx;
    mc_limits();
    if (mc_worker_init) mc_worker_init();
    mc_sh->nsamples = 8;
    int r = mc_run_one(sp->body);
    mc_desc_len = 0;
    if (mc_describe_cb) mc_describe_cb();
    snprintf(s->desc, MC_TXT, "%s", mc_desc_);
    fflush(NULL);
    _exit(r == 1 ? 1 : 0);
  }
  int st; double t = mc_now();
  while (waitpid(p, &st, WNOHANG) == 0) {
    if (mc_now() - t > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); st = -1; break; }
    usleep(2000);
  }
  int ret = 0;
  memset(out, 0, sizeof *out);
  if (mc_sh->nviol > 0) { *out = mc_sh->viol[0]; ret = 1; }
  else if (st == -1) { snprintf(out->crash, sizeof out->crash, "hang (> %d s)", timeout); ret = 2; }
  else if (WIFSIGNALED(st)) { snprintf(out->crash, sizeof out->crash, "signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); ret = 2; }
  else if (WEXITSTATUS(st) == 99) { snprintf(out->crash, sizeof out->crash, "engine error"); ret = 99; }
  else if (WEXITSTATUS(st) > 1) { snprintf(out->crash, sizeof out->crash, "host process exited with status %d", WEXITSTATUS(st)); ret = 2; }
  else if (WEXITSTATUS(st) == 1 ) { snprintf(out->crash, sizeof out->crash, "host process exited with status 1"); ret = 2; }
  if (desc) snprintf(desc, MC_TXT, "%s", s->desc);
  mc_sh->viol[0] = keep; mc_sh->nviol = before;
  if (ret == 2) { out->space = idx; out->len = len; memcpy(out->val, val, len * 2); snprintf(out->msg, MC_TXT, "the process running the case died: %.50s", out->crash); }
  return ret;
}
/* a failure that needs the executions before it: rerun everything that worker did since it started */
static int mc_replay_seq(const struct mc_space *sp, int idx, const struct mc_rec *r, struct mc_rec *out) {
  static struct mc_rec keep; static struct mc_slot ks; static struct mc_rec target;
  target = *r;
  int before = mc_sh->nviol, stop = mc_sh->stop; keep = mc_sh->viol[0];
  struct mc_slot *s = &mc_sh->slot[r->w]; ks = *s;
  mc_sh->nviol = 0; mc_sh->stop = 0; memset(s, 0, sizeof *s);
  fflush(NULL);
  pid_t p = fork();
  if (!p) {
    mc_until = &target; mc_space_idx = idx;
    mc_w = r->w; mc_slot_ = s; mc_limits(); if (mc_worker_init) mc_worker_init();
    memcpy(s->val, r->baseval, sizeof s->val); s->len = r->baselen;
    for (int i = 0; i < MC_MAXDEPTH; i++) s->num[i] = 0xffff;
    for (;;) {
      mc_run_one(sp->body);
      if (s->len == target.len && !memcmp(s->val, target.val, target.len * 2)) break;
      if (mc_sh->nviol >= MC_MAXV) break;
      if (!mc_next()) break;
    }
    fflush(NULL); _exit(0);
  }
  int st = 0, ret = 0; double t = mc_now();
  while (waitpid(p, &st, WNOHANG) == 0) {
    if (mc_now() - t > 300) { kill(p, SIGKILL); waitpid(p, &st, 0); st = 0; break; }
    usleep(2000);
  }
  memset(out, 0, sizeof *out);
  if (mc_sh->nviol > 0) { *out = mc_sh->viol[0]; ret = 1; }
  else if (WIFSIGNALED(st)) { *out = *r; snprintf(out->msg, MC_TXT, "the process died: signal %d", WTERMSIG(st)); ret = 2; }
  else if (WEXITSTATUS(st) && WEXITSTATUS(st) != 99) { *out = *r; snprintf(out->msg, MC_TXT, "host process exited with status %d", WEXITSTATUS(st)); ret = 2; }
  mc_sh->viol[0] = keep; mc_sh->nviol = before; mc_sh->stop = stop; *s = ks;
  return ret;
}
static void mc_jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fprintf(f, "\\n");
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
struct mc_check {
  const char *prop, *rule;
  struct mc_space *spaces; int nspaces;
  const char **assumptions;
};

static int mc_main(int argc, char **argv, struct mc_check *ck) {
  mc_prop = ck->prop; mc_t0 = mc_now();
  const char *base = getenv("VERIF_DIR"); if (!base) base = "/verif";
  const char *tier = getenv("VERIF_TIER"); if (!tier || strcmp(tier, "thorough")) tier = "quick";
  mc_thorough = !strcmp(tier, "thorough");
  int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
  double budget = mc_thorough ? 3300 : 600;
  if (getenv("MC_BUDGET")) budget = atof(getenv("MC_BUDGET"));
  if (getenv("MC_WORKERS")) mc_nw = atoi(getenv("MC_WORKERS"));
  const char *only = getenv("MC_ONLY");
  char path[512]; snprintf(path, sizeof path, "%s/known_findings.tsv", base); mc_load_known(path);

  mc_sh = mmap(0, sizeof *mc_sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  mc_hset = mmap(0, 8ull << MC_HBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mc_sh == MAP_FAILED || mc_hset == MAP_FAILED) { perror("mmap"); return 98; }

  if (argc > 2 && !strcmp(argv[1], "--replay")) { /* file with: space <name>\nchoices a b c */
    FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 98; }
    static char line[65536]; char spn[256] = ""; static uint16_t v[MC_MAXDEPTH]; int n = 0;
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "tier: ", 6)) mc_thorough = !strncmp(line + 6, "thorough", 8);
      if (!strncmp(line, "space: ", 7)) { line[strcspn(line, "\n")] = 0; snprintf(spn, sizeof spn, "%s", line + 7); }
      if (!strncmp(line, "choices:", 8)) { char *t = strtok(line + 8, " \n"); while (t) { v[n++] = atoi(t); t = strtok(0, " \n"); } }
    }
    for (int i = 0; i < ck->nspaces; i++) if (!strcmp(spn, ck->spaces[i].name)) {
      static struct mc_rec o; static char desc[MC_TXT];
      int r = mc_replay_one(&ck->spaces[i], i, v, n, &o, desc, 60);
      printf("%s\n%s\n%s\n", desc, r ? o.msg : "(holds)", r ? o.crash : "");
      if (r) { printf("VIOLATION property=%s replay=%s\n", mc_prop, argv[2]); return 1; }
      return 0;
    }
    fprintf(stderr, "no such space\n"); return 98;
  }

  uint64_t tot_exec = 0, tot_nodes = 0, tot_steps = 0, tot_nontriv = 0, tot_skip = 0, tot_out = 0;
  int complete = 1, nreport = 0, ntotal = 0, unrepro = 0, engine_err = 0;
  static char caps[2048]; caps[0] = 0;
  char *spacejson = NULL; size_t sjn = 0; FILE *sj = open_memstream(&spacejson, &sjn);
  for (int si = 0; si < ck->nspaces && nreport < 3; si++) {
    struct mc_space *sp = &ck->spaces[si];
    if (only && strcmp(only, sp->name)) continue;
    mc_space_idx = si;
    double ts = mc_now();
    memset(mc_sh->slot, 0, sizeof mc_sh->slot);
    mc_sh->stop = 0; mc_sh->nviol = 0;
    pid_t pid[MC_MAXW]; uint64_t lastbeat[MC_MAXW]; double lastt[MC_MAXW];
    uint64_t out0 = 0;
    int capped = 0, crashes = 0;
    fflush(NULL);
    for (int w = 0; w < mc_nw; w++) {
      pid[w] = fork();
      if (!pid[w]) mc_worker(w, sp->body, 0);
      lastbeat[w] = 0; lastt[w] = mc_now();
    }
    int alive = mc_nw;
    while (alive > 0) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      double now = mc_now();
      if (p > 0) {
        for (int w = 0; w < mc_nw; w++) if (pid[w] == p) {
          struct mc_slot *s = &mc_sh->slot[w];
          if (s->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; pid[w] = 0; break; }
          if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { engine_err = 1; alive--; pid[w] = 0; mc_sh->stop = 1; break; }
          /* died while running s->val[0..len) */
          char cr[64];
          if (WIFSIGNALED(st)) snprintf(cr, sizeof cr, "signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
          else snprintf(cr, sizeof cr, "host process exited with status %d", WEXITSTATUS(st));
          mc_slot_ = s; mc_record(cr, cr);
          s->execs++; crashes++;
          if (crashes >= 16) mc_sh->stop = 1;
          if (mc_sh->stop) { alive--; pid[w] = 0; break; }
          fflush(NULL);
          pid[w] = fork();
          if (!pid[w]) mc_worker(w, sp->body, 1);
          lastbeat[w] = s->beat; lastt[w] = now;
          break;
        }
        continue;
      }
      if (now - mc_t0 > budget && !mc_sh->stop) { mc_sh->stop = 1; capped = 1; }
      for (int w = 0; w < mc_nw; w++) if (pid[w]) {
        struct mc_slot *s = &mc_sh->slot[w];
        if (s->beat != lastbeat[w]) { lastbeat[w] = s->beat; lastt[w] = now; }
        else if (now - lastt[w] > mc_timeout_s) { kill(pid[w], SIGKILL); lastt[w] = now; }
      }
      usleep(1000);
    }
    uint64_t e = 0, nd = 0, stp = 0, nt = 0, sk = 0, oc = 0;
    for (int w = 0; w < mc_nw; w++) { struct mc_slot *s = &mc_sh->slot[w]; e += s->execs; nd += s->nodes; stp += s->steps; nt += s->nontrivial; sk += s->skipped; oc += s->outcomes; }
    (void)out0;
    tot_exec += e; tot_nodes += nd; tot_steps += stp; tot_nontriv += nt; tot_skip += sk; tot_out += oc;
    if (capped || engine_err) { complete = 0; size_t l = strlen(caps); snprintf(caps + l, sizeof caps - l, "%s ", sp->name); }
    fprintf(sj, "%s{\"space\":\"%s\",\"executions\":%llu,\"choice_tree_nodes\":%llu,\"skipped_outside_domain\":%llu,\"distinct_outcomes\":%llu,\"complete\":%s,\"wall_s\":%.1f,\"what\":", ftell(sj) ? "," : "", sp->name,
            (unsigned long long)e, (unsigned long long)nd, (unsigned long long)sk, (unsigned long long)oc, capped || engine_err || mc_sh->stop ? "false" : "true", mc_now() - ts);
    mc_jstr(sj, sp->rule ? sp->rule : ""); fprintf(sj, "}");
    printf("%s %-28s executions=%llu nodes=%llu steps=%llu outcomes=%llu skipped=%llu %s %.1fs\n", mc_prop, sp->name, (unsigned long long)e, (unsigned long long)nd, (unsigned long long)stp,
           (unsigned long long)oc, (unsigned long long)sk, capped ? "CAPPED" : mc_sh->nviol ? "FAILURES" : "complete", mc_now() - ts);
    fflush(stdout);
    /* replay and report */
    int hangs = 0; int nv = mc_sh->nviol; if (nv > MC_MAXV) nv = MC_MAXV;
    static struct mc_rec recs[MC_MAXV]; memcpy(recs, mc_sh->viol, sizeof(struct mc_rec) * nv);
    for (int i = 0; i < nv && nreport < 3; i++) {
      static struct mc_rec o; static char desc[MC_TXT];
      if (recs[i].key[0] && !recs[i].crash[0] && mc_is_known(recs[i].key)) continue;
      if (hangs && recs[i].crash[0]) continue; /* replaying a hang takes its full timeout: one is enough */
      int r = mc_replay_one(sp, si, recs[i].val, recs[i].len, &o, desc, mc_timeout_s * 2);
      if (r == 99) { engine_err = 1; continue; }
      int seq = 0;
      if (r == 0 && unrepro < 3) { r = mc_replay_seq(sp, si, &recs[i], &o); seq = r != 0; }
      if (r == 0) {
        unrepro++;
        printf("note: not reproduced alone: space=%s %s\n", sp->name, recs[i].msg); 
        if (!recs[i].crash[0]) printf("note:   key %s\n", recs[i].key);
        continue;
      }
      ntotal++; if (r == 2 && strstr(o.crash, "hang")) hangs++;
      if (o.key[0] && mc_is_known(o.key)) continue;
      char rp[600]; snprintf(rp, sizeof rp, "%s/evidence/replay", base); mkdir(rp, 0755);
      snprintf(rp, sizeof rp, "%s/evidence/replay/%s-%s-%d.txt", base, mc_prop, sp->name, i);
      FILE *f = fopen(rp, "w");
      if (f) {
        fprintf(f, "property: %s\ntier: %s\nspace: %s\nchoices:", mc_prop, tier, sp->name);
        for (int k = 0; k < recs[i].len; k++) fprintf(f, " %d", recs[i].val[k]);
        if (seq) fprintf(f, "\nneeds the executions before it: worker %d of %d from its start", recs[i].w, mc_nw);
        fprintf(f, "\nfailure: %s\nkey: %s\ncase:\n%s\n", o.msg, o.key, desc);
        fclose(f);
      }
      printf("VIOLATION property=%s replay=%s\n  %s\n", mc_prop, rp, o.msg);
      if (desc[0]) printf("  case: %.1500s\n", desc);
      else if (o.key[0]) printf("  key: %.1000s\n", o.key);
      fflush(stdout);
      nreport++;
    }
  }
  fclose(sj);
  for (int i = 0; i < mc_nknown; i++) if (mc_sh->known_hit[i]) printf("KNOWN-FINDING: property=%s %s\n", mc_prop, mc_known_what[i]);
  double wall = mc_now() - mc_t0;
  snprintf(path, sizeof path, "%s/evidence", base); mkdir(path, 0755);
  snprintf(path, sizeof path, "%s/evidence/%s.json", base, mc_prop);
  FILE *f = fopen(path, "w");
  if (f) {
    fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\"coverage\":{", mc_prop, tier, seed);
    fprintf(f, "\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,", (unsigned long long)(tot_nodes + tot_exec), (unsigned long long)tot_steps, (unsigned long long)(tot_exec - tot_skip));
    fprintf(f, "\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"skipped_outside_domain\":%llu,\"rule\":", (unsigned long long)tot_exec, (unsigned long long)tot_out, (unsigned long long)tot_skip);
    mc_jstr(f, ck->rule);
    fprintf(f, ",\"exhaustive\":%s,\"capped_spaces\":\"%s\",\"unreproduced\":%d,\"spaces\":[%s],\"samples\":[", complete && !nreport ? "true" : "false", caps, unrepro, spacejson);
    int ns = mc_sh->nsamples > 8 ? 8 : mc_sh->nsamples; int first = 1;
    for (int i = 0; i < ns; i++) if (mc_sh->samples[i][0]) { if (!first) fputc(',', f); first = 0; mc_jstr(f, mc_sh->samples[i]); }
    if (first) mc_jstr(f, "(no sample recorded)");
    fprintf(f, "]},\"assumptions\":[");
    for (int i = 0; ck->assumptions && ck->assumptions[i]; i++) { if (i) fputc(',', f); mc_jstr(f, ck->assumptions[i]); }
    fprintf(f, "],\"wall_s\":%.2f,\"violations\":%d}\n", wall, nreport);
    fclose(f);
  }
  printf("%s %s: %llu executions, %llu choice-tree nodes, %llu model steps, %llu distinct outcomes, %.1fs%s\n", mc_prop, tier, (unsigned long long)tot_exec, (unsigned long long)tot_nodes,
         (unsigned long long)tot_steps, (unsigned long long)tot_out, wall, complete ? "" : " (CAPPED)");
  if (nreport) return 1;
  if (engine_err) { printf("engine error\n"); return 97; }
  return 0;
}
#endif
