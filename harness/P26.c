/* P26 the regular-expression compiler against the reference matcher of regex.h */
#include "regex.h"
static uint64_t hh; static long nexec;
static struct regex_machine *mach;
static void one(const char *s, int n) { /* xm holds the matches of a subject that starts with these n characters */
  xsub = s; xsubn = n; XR w = x_best(s, n); struct regex_match *t = regex_begin_match(mach); if (!t) mc_fail("no match object"); char *g = x_guard(1, s, n);
  regex_continue_match(t, g, n); memset(g, 0xee, n); x_cmp(t, w, 0); regex_free_match(t); nexec++; hh = mc_hash(hh, &w, sizeof w);
}
/* all subjects of up to n characters over an alphabet */
static void subjects(const char *al, int na, int n) {
  static char s[40]; int d[40] = {0}; one("", 0 * (xsn = 0, x_all("", 0), 0));
  for (;;) { for (int i = 0; i < n; i++) s[i] = al[d[i]]; x_all(s, n); for (int m = 1; m <= n; m++) { int rest = 0; for (int i = m; i < n; i++) rest |= d[i]; if (!rest) one(s, m); } int i = n - 1; while (i >= 0 && ++d[i] == na) d[i--] = 0; if (i < 0) break; }
}
static int body_pat(const char *al, int na, int n) { /* compile and match all */
  mc_describe_cb = x_describe; mc_predesc(); xsub = NULL; a_track = 1; ASnap s0 = a_snap(); mach = x_compile(); hh = 1; nexec = 1;
  if (mach) { subjects(al, na, n); regex_free_machine(mach); mach = NULL; } a_track = 0; if (a_snap().blocks != s0.blocks) mc_fail("%ld blocks of memory were lost", a_snap().blocks - s0.blocks); sljit_free_unused_memory_exec();
  mc_steps(nexec); mc_outcome(hh); return 1;
}
static void tok(const char *const *t, int nt, int max) { xpatn = 0; int n = choose(max + 1); for (int i = 0; i < n; i++) { const char *s = t[choose(nt)]; strcpy(xpat + xpatn, s); xpatn += strlen(s); } }
static void raw(const char *al, int max) { int n = choose(max + 1), na = strlen(al); for (int i = 0; i < n; i++) xpat[xpatn++] = al[choose(na)]; }
#define A(x) x, sizeof x / sizeof *x
static const int F8[] = {0, 1, 2, 8, 3, 10, 9, 11};
static void b_struct(void) { xpatn = 0; raw("ab()|*+?", mc_thorough ? 6 : 5); xfl = choose_from(F8); if (!mc_mine()) return; body_pat("ab", 2, 5); }
static void b_ids(void) { static const char *t[] = {"a", "b", "(", ")", "|", "*", "?", "{1!}", "{2!}"}; tok(A(t), mc_thorough ? 6 : 5); xfl = choose_from(F8); if (!mc_mine()) return; body_pat("ab", 2, 4); }
static void b_iter(void) { static const char *pre[] = {"", "a", "(ab|b)", "a*", "({1!}a|b{2!})"}, *suf[] = {"", "b"}; int p = choose(5), s = choose(2); strcpy(xpat, pre[p]); xpatn = strlen(xpat); xpat[xpatn++] = '{'; raw("012,}!a*{", 4); if (s) xpat[xpatn++] = 'b'; static const int f[] = {0, 3, 11}; xfl = choose_from(f); if (!mc_mine()) return; body_pat("ab{", 3, 4); }
static void b_iter2(void) { static const char *t[] = {"a", "b", "(", ")", "|", "*", "+", "{2}", "{0}", "{,2}", "{2,}", "{1,3}", "{1!}", "{3!}", "{,}"}; tok(A(t), mc_thorough ? 5 : 4); static const int f[] = {0, 3, 11}; xfl = choose_from(f); if (!mc_mine()) return; body_pat("ab", 2, 6); }
static void b_class(void) { static const char *e[] = {"", "]", "]+", "]]"}; xpatn = 0; xpat[xpatn++] = '['; raw("abcd-][^\\", mc_thorough ? 6 : 5); int k = choose(4); strcpy(xpat + xpatn, e[k]); xpatn += strlen(e[k]); static const int f[] = {0, 3}; xfl = choose_from(f); if (!mc_mine()) return; body_pat("abcde-][^\\", 10, mc_thorough ? 2 : 1); }
static void b_lines(void) { static const char *t[] = {"a", ".", "^", "$", "[^a]", "\n", "(", ")", "|", "*", "+", "b"}; tok(A(t), mc_thorough ? 5 : 4); xfl = choose(16); if (!mc_mine()) return; body_pat("ab\n", 3, 4); }
static void b_lines2(void) { static const char *t[] = {"a", "a*", "[^b]*", "[^b]+", "b", ".", ".*", "(a|ab)", "\r", "{1!}", "(b{2!})?"}; xpatn = 0; int c = choose(2); if (c) xpat[xpatn++] = '^'; int n = choose(4); for (int i = 0; i < n; i++) { const char *s = t[choose(11)]; strcpy(xpat + xpatn, s); xpatn += strlen(s); } if (choose(2)) xpat[xpatn++] = '$'; xfl = 4 + 8 * choose(2); if (!mc_mine()) return; body_pat("ab\r\n", 4, 5); }
static void b_bytes(void) { /* every byte in every role */
  int c = choose(256), form = choose(12), d = choose(mc_thorough ? 256 : 9); static const int ds[] = {0, 1, 'a', 127, 128, 129, 200, 254, 255}; int e = mc_thorough ? d : ds[d]; xfl = choose(2) * 4; xpatn = 0;
#define P(x) xpat[xpatn++] = (char)(x)
  static const char meta[] = "\\.()|*?+{[]^$-"; int m = c && strchr(meta, c) != NULL;
  switch (form) { case 0: P(c); break; case 1: P('\\'); P(c); break; case 2: P('['); P(c); P(']'); break; case 3: P('['); P('\\'); P(c); P(']'); break; case 4: P('['); P('^'); P('\\'); P(c); P(']'); break; case 5: P('['); P('\\'); P(c); P('-'); P('\\'); P(e); P(']'); break; case 6: P('['); P('^'); P('\\'); P(c); P('-'); P('\\'); P(e); P(']'); break; case 7: P('x'); P('\\'); P(c); P('\\'); P(e); break; case 8: P('.'); P('\\'); P(c); break; case 9: P('['); P('\\'); P(c); P('\\'); P(e); P(']'); P('+'); break; case 10: P('['); P('\\'); P(c); P('-'); P('\\'); P(e); P('\\'); P(3); P('-'); P('\\'); P('Q'); P(']'); break; default: P('\\'); P(c); P('|'); P('['); P('\\'); P(e); P('-'); P('\\'); P(c); P(']'); P('\\'); P(e); }
  if (!mc_mine()) return; mc_describe_cb = x_describe; mc_predesc(); xsub = NULL; mach = x_compile(); if (mach) { for (int i = 0; i < 256; i++) { char s[2] = {i, c}; x_all(s, 2); one(s, 1); one(s, 2); char u[3] = {'x', c, i}; x_all(u, 3); one(u, 3); } regex_free_machine(mach); sljit_free_unused_memory_exec(); } mc_steps(nexec); nexec = 0; mc_outcome(hh); hh = 0; (void)m;
}
/* long patterns and subjects: the parser's stack is kept in fragments */

static XR best_long(const unsigned char *s, int n) { xs = s; xsn = n; for (int b = 0; b <= n; b++) if (x_begin_ok(s, b)) { static int v[XMAX + 1]; for (int i = 0; i <= n; i++) v[i] = i == b ? 0 : -1; x_run(xroot, v, v); int best = -1; for (int e = b; e <= n; e++) if (v[e] >= 0 && x_end_ok(s, e, n)) { best = e; if (xflags & 8) break; } if (best >= 0) return (XR){b, best, v[best]}; } return (XR){-1, 0, 0}; }
static void b_long(void) {
  int form = choose(12), n = 1 + choose(mc_thorough ? 200 : 140), fl = choose(3); xfl = fl == 0 ? 0 : fl == 1 ? 3 : 8; if (!mc_mine()) return; xpatn = 0; char *p = xpat; static char s[XMAX]; int sn = 0;
  switch (form) { case 0: for (int i = 0; i < n; i++) p += sprintf(p, "%c", 'a' + i % 3); break; case 1: p += sprintf(p, "a{%d}", n); break; case 2: p += sprintf(p, "(ab?){%d,%d}", n / 2, n); break; case 3: for (int i = 0; i < n; i++) *p++ = '('; *p++ = 'a'; for (int i = 0; i < n; i++) { *p++ = ')'; if (i % 7 == 3) *p++ = '*'; } break; case 4: for (int i = 0; i < n; i++) p += sprintf(p, "%s%c%c", i ? "|" : "", 'a' + i % 26, 'a' + i / 26 % 26); break; case 5: *p++ = '['; for (int i = 0; i < n; i++) { *p++ = '\\'; *p++ = 'a' + i * 5 % 26; } *p++ = ']'; break;
    case 6: for (int i = 0; i < n; i++) p += sprintf(p, "a?"); for (int i = 0; i < n / 2; i++) p += sprintf(p, "a"); break; case 7: for (int i = 0; i < n; i++) p += sprintf(p, "x"); p += sprintf(p, "(a|b{%d!}){%d}", n, n % 9 + 1); break; case 8: for (int i = 0; i < n; i++) p += sprintf(p, "x?"); p += sprintf(p, "((a{3!})+|b){2,%d}c*", n % 6 + 2); break; case 9: p += sprintf(p, "((a|b){%d}c){%d}", n % 13 + 1, n / 13 + 1); break; case 10: for (int i = 0; i < n % 60; i++) p += sprintf(p, "("); p += sprintf(p, "a{%d!}", n); for (int i = 0; i < n % 60; i++) p += sprintf(p, "|b)"); p += sprintf(p, "+"); break; default: p += sprintf(p, "(a{,%d}b){2}", n); }
  xpatn = p - xpat; if (xpatn > 4000) { mc_owned = 0; return; } mc_describe_cb = x_describe; mc_predesc(); xsub = NULL; mach = x_compile(); if (!mach) mc_fail("refused");
  for (int k = 0; k < 8; k++) { sn = 0; int want = n + k - 4; if (want < 0) continue; if (want > 220) want = 220;
    switch (form) { case 0: for (int i = 0; i < want; i++) s[sn++] = 'a' + i % 3; break; case 1: case 6: for (int i = 0; i < want; i++) s[sn++] = 'a'; break; case 2: for (int i = 0; i < want; i++) { s[sn++] = 'a'; if (i % 3 == k % 3) s[sn++] = 'b'; } break; case 3: for (int i = 0; i < k; i++) s[sn++] = 'a'; break; case 4: s[sn++] = 'z'; { int i = want < 0 ? 0 : want; s[sn++] = 'a' + i % 26; s[sn++] = 'a' + i / 26 % 26; } break; case 5: for (int i = 0; i < 26; i++) s[sn++] = 'a' + (i + k * 3) % 26; break; case 7: case 8: for (int i = 0; i < (form == 7 ? n : k); i++) s[sn++] = 'x'; for (int i = 0; i < k + 2; i++) s[sn++] = "aabab"[(i + k) % 5]; break; case 9: for (int j = 0; j <= n / 13; j++) { for (int i = 0; i < n % 13 + 1 + (k == 2 && j == 1); i++) s[sn++] = 'a' + (i * k & 1); s[sn++] = 'c'; } if (k == 3) s[sn - 1] = 'd'; break; case 10: for (int i = 0; i < k; i++) s[sn++] = "ab"[i * 3 / 2 & 1]; break; default: for (int j = 0; j < 2 + k % 2; j++) { for (int i = 0; i < want / (1 + (k > 4)) && i < 120; i++) s[sn++] = 'a'; s[sn++] = 'b'; } }
    xsub = s; xsubn = sn; XR w = best_long((unsigned char *)s, sn); struct regex_match *t = regex_begin_match(mach); if (!t) mc_fail("no match object"); regex_continue_match(t, x_guard(1, s, sn), sn); x_cmp(t, w, 0); regex_free_match(t); nexec++; hh = mc_hash(hh, &w, sizeof w); }
  regex_free_machine(mach); sljit_free_unused_memory_exec(); mc_steps(nexec); nexec = 0; mc_outcome(hh); hh = 0;
}
static void b_nomem(void) {
  static const char *pt[] = {"a", "^(ab|c)*?d+(es)?$", "[a-c]{2,5}x", "(a{1!}|b{2!}){3}", "a{0}b", "((((a{70}){2}", "a{150}", "(((((a)))){0}b){3,}", "[]abc]|.{4}", "(a|b{30}|c{2,40}){2}"}; int k = choose(15), at = choose(60), fl = choose(2) * 12; int pre = k >= 10 ? choose(24) + 48 : 0; if (!mc_mine()) return; xfl = fl; if (k >= 10) { static const char *tl[] = {"a{,2}", "a{2,3}", "(a){2,}", "a{3}", "(a|b){2}{0}c"}; memset(xpat, 'x', pre); strcpy(xpat + pre, tl[k - 10]); xpatn = pre + strlen(tl[k - 10]); } else { xpatn = strlen(pt[k]); memcpy(xpat, pt[k], xpatn); } xsub = NULL; mc_describe_cb = x_describe; mc_predesc();
  int ok = x_parse(xpat, xpatn, xfl), err = 77; ASnap s = a_snap(); a_track = 1; a_fail_at = at; struct regex_machine *m = regex_compile(xpat, xpatn, xfl, &err); int hit = a_fail_at < 0; a_fail_at = -1;
  if (hit ? m != NULL : !m != !ok) mc_fail("compiled with %s and the result is %s", hit ? "an allocation failing" : "all memory", m ? "a machine" : "no machine"); if (!m && err != (ok || 0 ? REGEX_MEMORY_ERROR : err) ) mc_fail("the error is %d", err); if (!m && err == REGEX_NO_ERROR) mc_fail("no error is reported"); if (m && err) mc_fail("a machine and error %d", err);
  if (m) { a_fail_at = 0; struct regex_match *t = regex_begin_match(m); a_fail_at = -1; if (t) mc_fail("a match object without memory"); regex_free_machine(m); } a_track = 0; if (a_snap().blocks != s.blocks) mc_fail("%ld blocks of memory were lost", a_snap().blocks - s.blocks); sljit_free_unused_memory_exec(); mc_steps(1); mc_outcome(k * 1000 + hit * 100 + err);
}
static struct mc_space sp[] = {{"structure", b_struct, "every string of up to 5 (6) of a b ( ) | * + ? x 8 flag sets x every subject of up to 5 of a, b"}, {"ids", b_ids, "every sequence of up to 5 (6) of a b ( ) | * ? {1!} {2!} x 8 flag sets x every subject of up to 4"}, {"braces", b_iter, "5 prefixes, then { and every string of up to 4 of 0 1 2 , } ! a * {, x 2 tails x 3 flag sets"}, {"iterations", b_iter2, "every sequence of up to 4 (5) of 15 tokens with bounded and unbounded iterations and ids x every subject of up to 6"}, {"classes", b_class, "[ and every string of up to 5 (6) of a b c d - ] [ ^ \\ x 4 tails"}, {"lines", b_lines, "every sequence of up to 4 (5) of 12 tokens with anchors and newlines x all 16 flag sets x every subject of up to 4 of a, b, newline"}, {"lines-2", b_lines2, "optional ^, up to 3 of 11 pieces, optional $, line mode, greedy or not, every subject of up to 5 of a b CR LF"}, {"bytes", b_bytes, "every byte in 12 roles x 9 (256) partners x line mode, every subject byte"}, {"long", b_long, "12 families of patterns of 1..140 (200) parts around the parser's stack fragments"}, {"no-memory", b_nomem, "each allocation failing in 10 patterns and in 5 iterations at every distance from the end of a fragment"}};
static const char *as[] = {"8-bit characters", 0};
int main(int c, char **v) { static struct mc_check k = {"P26", "one execution = one pattern compiled with one flag set and matched with every subject of its space; steps = matches compared with the reference; non-trivial = distinct vectors of results", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
