/* regex.h - an independent reference for the regular-expression compiler: its own parser of the documented syntax and a
 * matcher by set propagation (position -> highest id) over the syntax tree.  No code is shared with regexJIT.c. */
#ifndef REGEX_H
#define REGEX_H
#include "alloc.h"
#include <regexJIT.h>
#include <sljitLir.h>
#define XMAX 400 /* longest subject */
enum { N_EMPTY, N_SET, N_CAT, N_ALT, N_ITER, N_ID };
typedef struct { int k, a, b, lo, hi; uint64_t set[4]; } XN; /* hi -1: no limit */
static XN xn[6000]; static int nxn; static int xok; static const unsigned char *xp; static int xpos, xlen, xflags;
static int x_new(int k, int a, int b) { if (nxn >= 6000) mc_die("too many nodes"); memset(&xn[nxn], 0, sizeof(XN)); xn[nxn].k = k; xn[nxn].a = a; xn[nxn].b = b; return nxn++; }
static void x_add(int n, int c) { xn[n].set[(c & 255) >> 6] |= 1ull << (c & 63); }
static int x_cat(int a, int b) { return a < 0 ? b : x_new(N_CAT, a, b); }
static int x_num(int *p, int *v) { int q = *p, n = 0; while (q < xlen && xp[q] >= '0' && xp[q] <= '9') n = n * 10 + xp[q++] - '0'; if (q == *p) return 0; *p = q; *v = n; return 1; }
/* {..} at xpos: 0 it is a literal brace, 1 an id, 2 an iteration */
static int x_brace(int first, int *lo, int *hi) {
  int q = xpos + 1, v; if (q >= xlen) return 0;
  if (xp[q] == ',') { *lo = 0; q++; } else { if (!x_num(&q, &v) || q >= xlen) return 0; *lo = v; if (xp[q] == '}') { *hi = v; if (first) return 0; xpos = q + 1; return 2; } if (xp[q] == '!' && q + 1 < xlen && xp[q + 1] == '}') { xpos = q + 2; return 1; } if (xp[q] != ',') return 0; q++; }
  if (first || q >= xlen) return 0; if (xp[q] == '}') { *hi = -1; xpos = q + 1; return 2; } if (!x_num(&q, &v) || q >= xlen || xp[q] != '}' || v < *lo) return 0; *hi = v; xpos = q + 1; return 2;
}
static int x_class(void) { /* behind the [ */
  int n = x_new(N_SET, 0, 0), inv = 0, q = xpos, one; if (q < xlen && xp[q] == '^') { inv = 1; q++; } if (q < xlen && xp[q] == ']') { x_add(n, ']'); q++; }
  for (;;) { if (q >= xlen) return -1; if (xp[q] == ']') break; if (xp[q] == '\\') { if (++q >= xlen) return -1; } int a = xp[q++], b = a; if (q + 2 < xlen && xp[q] == '-' && xp[q + 1] != ']') { q++; if (xp[q] == '\\') { if (++q >= xlen) return -1; } b = xp[q++]; } if (a > b) { one = a; a = b; b = one; } for (int c = a; c <= b; c++) x_add(n, c); }
  if (inv) for (int i = 0; i < 4; i++) xn[n].set[i] = ~xn[n].set[i]; xpos = q + 1; return n;
}
static int x_alt(int depth) {
  int alt = -1, cat = -1, term = -1; /* cat: what precedes the current term */
  for (;;) {
    int c = xpos < xlen ? xp[xpos] : -1;
    if (c < 0 || c == ')' || c == '|') { if (c < 0 && depth) { xok = 0; return 0; } if (c == ')' && !depth) { xok = 0; return 0; } if (term >= 0) cat = x_cat(cat, term); if (cat < 0) cat = x_new(N_EMPTY, 0, 0); alt = alt < 0 ? cat : x_new(N_ALT, alt, cat); cat = term = -1; if (c == '|') { xpos++; continue; } return alt; }
    if (c == '*' || c == '+' || c == '?') { if (term < 0) { xok = 0; return 0; } term = x_new(N_ITER, term, 0); xn[term].lo = c == '+'; xn[term].hi = c == '?' ? 1 : -1; xpos++; continue; }
    if (c == '{') { int lo = 0, hi = 0, k = x_brace(term < 0, &lo, &hi); if (k == 1) { int i = x_new(N_ID, 0, 0); xn[i].lo = lo; if (term < 0) cat = x_cat(cat, i); else term = x_cat(term, i); continue; } if (k == 2) { if (hi == 0) term = x_new(N_EMPTY, 0, 0); else { term = x_new(N_ITER, term, 0); xn[term].lo = lo; xn[term].hi = hi; } continue; } }
    if (c == '$' && xpos + 1 == xlen) { xflags |= REGEX_MATCH_END; xpos++; continue; }
    if (term >= 0) cat = x_cat(cat, term); xpos++;
    if (c == '(') { term = x_alt(depth + 1); if (!xok) return 0; xpos++; continue; }
    if (c == '[') { term = x_class(); if (term < 0) { xok = 0; return 0; } continue; }
    term = x_new(N_SET, 0, 0); if (c == '.') { memset(xn[term].set, 255, 32); if (xflags & REGEX_NEWLINE) xn[term].set[0] &= ~(1ull << 10 | 1ull << 13); continue; }
    if (c == '\\') { if (xpos >= xlen) { xok = 0; return 0; } c = xp[xpos++]; } x_add(term, c);
  }
}
static int xroot; static int x_parse(const char *p, int n, int flags) { nxn = 0; xok = 1; xp = (const unsigned char *)p; xlen = n; xpos = 0; xflags = flags; if (n && *p == '^') { xflags |= REGEX_MATCH_BEGIN; xpos = 1; } xroot = x_alt(0); return xok; }
static const unsigned char *xs; static int xsn; static uint64_t xwork;
static void x_run(int n, const int *in, int *out) { /* in and out may be the same */
  XN *t = &xn[n]; xwork++; switch (t->k) {
  case N_EMPTY: if (out != in) memcpy(out, in, (xsn + 1) * sizeof(int)); return;
  case N_ID: for (int i = 0; i <= xsn; i++) out[i] = in[i] < 0 ? -1 : in[i] > t->lo ? in[i] : t->lo; return;
  case N_SET: for (int i = xsn; i > 0; i--) out[i] = in[i - 1] >= 0 && (t->set[xs[i - 1] >> 6] >> (xs[i - 1] & 63) & 1) ? in[i - 1] : -1; out[0] = -1; return;
  case N_CAT: x_run(t->a, in, out); x_run(t->b, out, out); return;
  case N_ALT: { int u[XMAX + 1]; x_run(t->a, in, u); x_run(t->b, in, out); for (int i = 0; i <= xsn; i++) if (u[i] > out[i]) out[i] = u[i]; return; }
  default: { int u[XMAX + 1], acc[XMAX + 1]; memcpy(u, in, (xsn + 1) * sizeof(int)); for (int k = 0; k < t->lo; k++) x_run(t->a, u, u); memcpy(acc, u, (xsn + 1) * sizeof(int));
    for (int k = t->lo; t->hi < 0 || k < t->hi; k++) { int ch = 0; x_run(t->a, t->hi < 0 ? acc : u, u); for (int i = 0; i <= xsn; i++) if (u[i] > acc[i]) { acc[i] = u[i]; ch = 1; } if (!ch && t->hi < 0) break; if (t->hi >= 0) { int any = 0; for (int i = 0; i <= xsn; i++) any |= u[i] >= 0; if (!any) break; } }
    memcpy(out, acc, (xsn + 1) * sizeof(int)); } }
}
/* all matches of a subject: highest id for (begin, end), -1 none */
static int xm[40][40]; static int x_nl(int c) { return c == '\n' || c == '\r'; }
static void x_all(const void *s, int n) { if (n >= 40) mc_die("subject too long"); xs = s; xsn = n; for (int b = 0; b <= n; b++) { int v[XMAX + 1]; for (int i = 0; i <= n; i++) v[i] = i == b ? 0 : -1; x_run(xroot, v, v); memcpy(xm[b], v, (n + 1) * sizeof(int)); } }
typedef struct { int b, e, id; } XR;
static int x_begin_ok(const unsigned char *s, int b) { return !(xflags & REGEX_MATCH_BEGIN) || b == 0 || (xflags & REGEX_NEWLINE && x_nl(s[b - 1])); }
static int x_end_ok(const unsigned char *s, int e, int n) { return !(xflags & REGEX_MATCH_END) || e == n || (xflags & REGEX_NEWLINE && x_nl(s[e])); }
/* the match in the first n characters */
static XR x_best(const void *sv, int n) { const unsigned char *s = sv; for (int b = 0; b <= n; b++) if (x_begin_ok(s, b)) { int best = -1; for (int e = b; e <= n; e++) if (xm[b][e] >= 0 && x_end_ok(s, e, n)) { best = e; if (xflags & REGEX_MATCH_NON_GREEDY) break; } if (best >= 0) return (XR){b, best, xm[b][best]}; } return (XR){-1, 0, 0}; }
/* printable form */
static const char *x_str(const void *p, int n) { static char o[4][1800]; static int k; char *q = o[k++ & 3], *r = q; for (int i = 0; i < n && r - q < 1700; i++) { unsigned char c = ((const unsigned char *)p)[i]; if (c >= 32 && c < 127) *r++ = c; else r += sprintf(r, "\\x%02x", c); } *r = 0; return q; }
/* bytes that end at an inaccessible page */
static char *x_guard(int which, const void *p, int n) { static char *pg[4]; if (!pg[which]) { pg[which] = (char *)syscall(SYS_mmap, NULL, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(pg[which] + 4096, 4096, PROT_NONE); } char *q = pg[which] + 4096 - n; memcpy(q, p, n); return q; }
static char xpat[4200]; static int xpatn, xfl; static const char *xsub; static int xsubn;
static void x_describe(void) { char f[100] = ""; if (xfl & 1) strcat(f, " BEGIN"); if (xfl & 2) strcat(f, " END"); if (xfl & 4) strcat(f, " NEWLINE"); if (xfl & 8) strcat(f, " NON_GREEDY"); mc_desc("pattern '%s' flags%s, subject '%s'\n", x_str(xpat, xpatn), *f ? f : " none", xsub ? x_str(xsub, xsubn) : "(none)"); }
/* compile the pattern in xpat with xfl; NULL when it is refused (rightly) */
static struct regex_machine *x_compile(void) {
  int err = 77, ok = x_parse(xpat, xpatn, xfl); char *p = x_guard(0, xpat, xpatn); struct regex_machine *m = regex_compile(p, xpatn, xfl, &err); memset(p, 0xee, xpatn);
  if (!ok) { if (m || err != REGEX_INVALID_REGEX) mc_fail("an invalid pattern was %s (error %d)", m ? "accepted" : "refused with another error", err); return NULL; }
  if (!m || err) mc_fail("a valid pattern was refused (error %d)", err); return m;
}
static int x_cmp(struct regex_match *t, XR w, int exact) { int e = -7, id = -7, b = regex_get_result(t, &e, &id); if (b != w.b || (b >= 0 && (e != w.e || id != w.id))) mc_fail("the match is %d..%d id %d, must be %d..%d id %d", b, e, id, w.b, w.e, w.id); return b; }
#endif
