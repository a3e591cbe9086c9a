/* P27 incremental regular-expression matching: histories of feeding, resetting and asking, against the reference */
#include "regex.h"
static uint64_t hh; static long nexec;
static struct regex_machine *mach;
static const char *al; static int na, L; /* subjects: up to L characters of al */
static XR *tab; static char *fin; static int tabn; /* reference result of every subject, by number */
static char hist[600]; static int hn;
static void describe(void) { x_describe(); mc_desc("%s\n", hist); }
/* subjects are numbered: the empty one is 0, the children of i are na*i+1 .. na*i+na */
static void table(void) {
  int n = 1, w = 1; for (int i = 0; i < L; i++) { w *= na; n += w; } if (n > tabn) { tab = realloc(tab, n * sizeof *tab); fin = realloc(fin, n); tabn = n; }
  static char s[40]; int d[40] = {0}; for (;;) { for (int i = 0; i < L; i++) s[i] = al[d[i]]; x_all(s, L); int id = 0; tab[0] = x_best(s, 0); for (int m = 1; m <= L; m++) { id = id * na + 1 + d[m - 1]; int rest = 0; for (int i = m; i < L; i++) rest |= d[i]; if (!rest) tab[id] = x_best(s, m); } int i = L - 1; while (i >= 0 && ++d[i] == na) d[i--] = 0; if (i < 0) break; }
  /* final: no subject that continues this one has another result */
  int leaf = n - w; for (int i = n - 1; i >= 0; i--) { fin[i] = 1; if (i < leaf) for (int c = 1; c <= na; c++) { XR *a = &tab[i], *b = &tab[i * na + c]; if (!fin[i * na + c] || a->b != b->b || (a->b >= 0 && (a->e != b->e || a->id != b->id))) fin[i] = 0; } }
}
static void state(struct regex_match *t, int id, int *was) {
  x_cmp(t, tab[id], 0); int f = regex_is_match_finished(t); if (f && !fin[id]) mc_fail("the match is reported as finished, but more input changes it"); if (*was && !f) mc_fail("a finished match is no longer finished"); *was = f; hh = hh * 31 + tab[id].b + 7 * tab[id].e + f; nexec++; }
static void feed(struct regex_match *t, const char *s, int n, int which) { char *g = x_guard(1 + which, s, n); regex_continue_match(t, g, n); memset(g, 0xee, n); }
static int number(const char *s, int n) { int id = 0; for (int i = 0; i < n; i++) id = id * na + 1 + (strchr(al, s[i]) - al); return id; }
/* every split of every subject, with an optional empty piece before every piece */
static void splits(void) {
  static char s[40]; int d[40] = {0}; struct regex_match *t = regex_begin_match(mach); if (!t) mc_fail("no match object");
  for (;;) { for (int i = 0; i < L; i++) s[i] = al[d[i]]; xsub = s; xsubn = L;
    for (int cut = 0; cut < 1 << (L - 1); cut++) for (int em = 0; em < 3; em++) { sprintf(hist, "cut %x, empty pieces %d", cut, em); int was = 0; regex_reset_match(t); if (em) feed(t, "", 0, 0); state(t, 0, &was); int from = 0; for (int i = 1; i <= L; i++) if (i == L || cut >> (i - 1) & 1) { feed(t, s + from, i - from, 0); from = i; state(t, number(s, i), &was); if (em == 2) { feed(t, "", 0, 0); state(t, number(s, i), &was); } } }
    int i = L - 1; while (i >= 0 && ++d[i] == na) d[i--] = 0; if (i < 0) break; }
  regex_free_match(t);
}
/* every history of feeding pieces and resetting, two match objects of one machine */
static const char *piece[] = {"", "a", "b", "ab", "ba", "bb", "aab"};
static int hops, hdepth; static struct regex_match *ht[2];
static void hrun(int n, const int *op) {
  char s[2][40]; int sn[2] = {0, 0}, was[2] = {0, 0}, bad = 0; for (int k = 0; k < 2; k++) { if (op[0] == -2) ; ht[k] = regex_begin_match(mach); if (!ht[k]) mc_fail("no match object"); }
  for (int i = 0; i < n && !bad; i++) { int k = op[i] / hops, o = op[i] % hops; if (o == hops - 1) { regex_reset_match(ht[k]); sn[k] = was[k] = 0; } else { int l = strlen(piece[o]); if (sn[k] + l > L) { bad = 1; break; } memcpy(s[k] + sn[k], piece[o], l); sn[k] += l; feed(ht[k], piece[o], l, k); } if (i == n - 1) { xsub = s[k]; xsubn = sn[k]; hn = 0; for (int q = 0; q < n; q++) hn += sprintf(hist + hn, " %c:%s", '0' + op[q] / hops, op[q] % hops == hops - 1 ? "reset" : *piece[op[q] % hops] ? piece[op[q] % hops] : "empty"); for (int q = 0; q < 2; q++) { int ok = 0; xsub = s[q]; xsubn = sn[q]; (void)ok; state(ht[q], number(s[q], sn[q]), &was[q]); } } }
  for (int k = 0; k < 2; k++) regex_free_match(ht[k]);
}
static void histories(int depth) { int op[8] = {0}; hops = 8; /* the last op decides what is new; the first always uses object 0 */
  for (int n = 1; n <= depth; n++) { memset(op, 0, sizeof op); for (;;) { hrun(n, op); int i = n - 1; while (i >= 0 && ++op[i] == (i == 0 ? hops : 2 * hops)) op[i--] = 0; if (i < 0) break; } } }
/* resets: one subject, reset, another */
static void resets(void) { struct regex_match *t = regex_begin_match(mach); if (!t) mc_fail("no match object"); int n = 1, w = 1; for (int i = 0; i < L; i++) { w *= na; n += w; }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { char s[2][40]; int sn[2]; for (int k = 0; k < 2; k++) { int id = k ? j : i, m = 0; char r[40]; while (id) { r[m++] = al[(id - 1) % na]; id = (id - 1) / na; } sn[k] = m; for (int q = 0; q < m; q++) s[k][q] = r[m - 1 - q]; } int was = 0; sprintf(hist, "'%s' and a reset, then this", x_str(s[0], sn[0])); xsub = s[1]; xsubn = sn[1]; feed(t, s[0], sn[0], 0); regex_reset_match(t); if (!j || sn[1] > 1) state(t, 0, &was); feed(t, s[1], sn[1], 0); state(t, j, &was); regex_reset_match(t); }
  regex_free_match(t); }
static void body(int what) {
  *hist = 0; mc_describe_cb = describe; mc_predesc(); xsub = NULL; hh = 1; nexec = 1; mach = x_compile(); if (mach) { table(); if (what == 0) splits(); else if (what == 1) histories(mc_thorough ? 4 : 3); else resets(); regex_free_machine(mach); mach = NULL; } sljit_free_unused_memory_exec(); mc_steps(nexec); mc_outcome(hh); }
#define A(x) x, sizeof x / sizeof *x
static void tok(const char *const *t, int nt, int max) { xpatn = 0; int n = choose(max + 1); for (int i = 0; i < n; i++) { const char *s = t[choose(nt)]; strcpy(xpat + xpatn, s); xpatn += strlen(s); } }
static const char *T1[] = {"a", "b", "(", ")", "|", "*", "{2}", "{1!}", "."}, *T2[] = {"a", "b", ".", "[^a]", "a*", "(a|ab)", "[^b]+", "(b{2!})?", "{1!}", "(aa|b)*"}, *T3[] = {"a", "b", "ab", "a+", "(a|bb)", "b*", "{3!}", ".", "[ab]{2}", "(ab)*"};
static const int F8[] = {0, 1, 2, 8, 3, 10, 9, 11};
static void b_split(void) { tok(A(T1), mc_thorough ? 5 : 4); xfl = choose_from(F8); if (!mc_mine()) return; al = "ab"; na = 2; L = 5; body(0); }
static void lines(const char **t, int nt) { xpatn = 0; if (choose(2)) xpat[xpatn++] = '^'; int n = choose(4); for (int i = 0; i < n; i++) { const char *s = t[choose(nt)]; strcpy(xpat + xpatn, s); xpatn += strlen(s); } if (choose(2)) xpat[xpatn++] = '$'; xfl = (choose(2) ? 4 : 0) + (choose(2) ? 8 : 0); }
static void b_lines(void) { lines(T2, 10); if (!mc_mine()) return; al = "ab\n"; na = 3; L = mc_thorough ? 5 : 4; body(0); }
static void b_hist(void) { lines(T3, 10); if (xfl & 4) { mc_owned = 0; return; } if (!mc_mine()) return; al = "ab"; na = 2; L = mc_thorough ? 8 : 7; body(1); }
static void b_reset(void) { lines(T2, 10); if (!mc_mine()) return; al = "ab\n"; na = 3; L = 3; body(2); }
static void b_reset2(void) { tok(A(T1), mc_thorough ? 5 : 4); xfl = choose_from(F8); if (!mc_mine()) return; al = "ab"; na = 2; L = 4; body(2); }
static struct mc_space sp[] = {{"splits", b_split, "every sequence of up to 4 (5) of 9 tokens x 8 flag sets x every subject of 5 of a, b x every split, three ways of empty pieces"}, {"splits-lines", b_lines, "^? up to 3 of 10 pieces $? x line mode x greedy or not x every subject of 4 (5) of a, b, newline x every split"}, {"histories", b_hist, "^? up to 3 of 10 pieces $? x greedy or not x every history of 3 (4) of: feed one of 7 pieces or reset, on two match objects of one machine"}, {"resets", b_reset, "as splits-lines: every pair of subjects of up to 3 with a reset between"}, {"resets-2", b_reset2, "as splits: every pair of subjects of up to 4 with a reset between"}};
static const char *as[] = {"8-bit characters", "finished is judged against all continuations up to the length bound", 0};
int main(int c, char **v) { static struct mc_check k = {"P27", "one execution = one pattern with one flag set and all its subjects, splits or histories; steps = states of match objects compared with the reference on what was fed; non-trivial = distinct vectors of results", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
