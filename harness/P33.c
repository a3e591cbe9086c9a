/* P33 modules of any size: every count, index and length that the format allows keeps its value wherever the library stores it.
 * Each module is written straight into bytes by this file (no decoded program, no limits of the other harnesses) around one
 * quantity of size N; what it must do follows from N alone. */
#include "num.h"
#include "host.h"
#include "alloc.h"
static char dbuf[300]; static void describe(void) { mc_desc("%s", dbuf); }
/* ---- bytes ---- */
typedef struct { uint8_t *p; size_t n; } B; static uint8_t pool_[3][4 << 20]; static B sec, out, body;
static void w8(B *b, int v) { if (b->n >= sizeof pool_[0]) mc_die("module too large"); b->p[b->n++] = v; }
static void wu(B *b, uint64_t v) { do { int c = v & 127; v >>= 7; w8(b, c | (v ? 128 : 0)); } while (v); }
static void ws(B *b, int64_t v) { for (;;) { int c = v & 127; v >>= 7; if ((v == 0 && !(c & 64)) || (v == -1 && (c & 64))) { w8(b, c); return; } w8(b, c | 128); } }
static void wn(B *b, const void *p, size_t n) { for (size_t i = 0; i < n; i++) w8(b, ((const uint8_t *)p)[i]); }
static void wstr(B *b, const char *s) { wu(b, strlen(s)); wn(b, s, strlen(s)); }
static void start(void) { sec.p = pool_[0]; out.p = pool_[1]; body.p = pool_[2]; sec.n = out.n = body.n = 0; wn(&out, "\0asm\1\0\0\0", 8); }
static void flush(int id) { w8(&out, id); wu(&out, sec.n); wn(&out, sec.p, sec.n); sec.n = 0; }
static void endbody(void) { w8(&body, 0x0b); wu(&sec, body.n); wn(&sec, body.p, body.n); body.n = 0; }
static void wty(const char *p, const char *r) { w8(&sec, 0x60); for (int k = 0; k < 2; k++) { const char *s = k ? r : p; wu(&sec, strlen(s)); for (; *s; s++) w8(&sec, *s == 'i' ? I32 : *s == 'l' ? I64 : *s == 'd' ? F64 : *s == 'f' ? F32 : *s == 'F' ? FREF : XREF); } }
static void wfexp(const char *nm, int kind, uint32_t i) { wstr(&sec, nm); w8(&sec, kind); wu(&sec, i); }
static void k32(B *b, int32_t v) { w8(b, 0x41); ws(b, v); }
static void op1(B *b, int o, uint64_t a) { w8(b, o); wu(b, a); }
/* types used by most modules: 0 ()->i32, 1 (i32)->i32, 2 ()->() */
static void types3(void) { wu(&sec, 3); wty("", "i"); wty("i", "i"); wty("", ""); flush(1); }
enum { K_TYPES, K_FIMP, K_FUNC, K_GLOB, K_GIMP, K_EXP, K_ELEMS, K_ELEM, K_DATAS, K_DATA, K_TABS, K_MEMS, K_TIMP, K_MIMP, K_LOCALS, K_GROUPS, K_PARAMS, K_BRTAB, K_BODY, K_BLOCKS, K_NEST, K_LOOPS, K_CUSTOM, K_CUSTOMS, K_START, K_PARAML, K_CONSTS, K_IFS, K_EXPNAME, K_IMPNAME, K_STACK, NK };
static char *lfill(char *o, uint32_t n, int last) { for (uint32_t i = 0; i < n; i++) o[i] = 'a' + i % 26; o[n - 1] = last; o[n] = 0; return o; }
/* ---- things to import ---- */
#define NG 140000
static uint32_t slots[NG]; static struct pwart_wasm_table tb_any, tb_last; static struct pwart_wasm_memory mm_any, mm_last; static uint8_t mbytes[2][65536]; static void *tents[2][4];
static void hf_mid(void *fp) { *(int32_t *)fp = 901; } static void hf_last(void *fp) { *(int32_t *)fp = 902; } static void hf_add(void *fp) { *(int32_t *)fp += 120; } static void hf_any(void *fp) { *(int32_t *)fp = 900; }
static uint32_t N; static int g_kind; static void *hw[4]; static uint32_t asked;
static void resolve(struct pwart_symbol_resolver *rs, struct pwart_symbol_resolve_request *q) {
  uint32_t i = strtoul(q->import_field + 1, 0, 10); (void)rs; asked++; if (g_kind == K_TYPES) { q->result = hw[3]; return; } if (g_kind == K_IMPNAME) { static char w[200000]; int k = asked == 1 ? !strcmp(q->import_field, "a") && !strcmp(q->import_module, lfill(w, N, 'x')) ? 1 : 0 : asked == 2 ? !strcmp(q->import_module, "env2") && !strcmp(q->import_field, lfill(w, N, 'y')) ? 2 : 0 : !strcmp(q->import_module, lfill(w, N, 'z')) && !strcmp(q->import_field, lfill(w, N, 'w')) ? 3 : 0; q->result = k ? hw[k - 1] : NULL; return; } if (strcmp(q->import_module, "env")) return;
  switch (q->kind) { case 0: q->result = hw[i == N - 1 ? 2 : i == N / 2 ? 1 : 0]; break; case 1: q->result = i == N - 1 ? &tb_last : &tb_any; break; case 2: q->result = i == N - 1 ? &mm_last : &mm_any; break; case 3: q->result = &slots[i]; break; }
}
static struct pwart_symbol_resolver xrs = {resolve};
static void imp(char c, uint32_t i) { char b[20]; sprintf(b, "%c%u", c, i); wstr(&sec, "env"); wstr(&sec, b); }
/* ---- calling ---- */
static pwart_module_state S; static uint8_t *big; 
static uint64_t callp(void *fn, const char *what, int np, uint32_t a, uint32_t b) { if (!fn) mc_fail("'%s' is not exported", what); FT t = {np, 1, {I32, I32}, {I32}}; V v[2] = {mk(I32, a), mk(I32, b)}, r; call_real(fn, &t, v, &r); return (uint32_t)r.b; }
static uint64_t calln(const char *nm, int np, uint32_t a) { return callp(pwart_get_export_function(S, nm), nm, np, a, 0); }
#define WANT(got, want, ...) do { uint64_t g_ = (got), w_ = (want); if (g_ != w_) { char m_[200]; snprintf(m_, 200, __VA_ARGS__); mc_fail("%s is %llu, must be %llu", m_, (unsigned long long)g_, (unsigned long long)w_); } } while (0)
static const char *kn[NK] = {"types", "imported functions", "functions", "globals", "imported globals", "exports", "element segments", "functions in an element segment", "data segments", "bytes in a data segment", "tables", "memories", "imported tables", "imported memories", "locals", "groups of locals", "i32 parameters", "branch table labels", "instructions in a row", "blocks in a row", "nested blocks", "nested loops", "bytes in a custom section", "custom sections", "functions before the start function", "mixed parameters", "distinct constants", "nested if/else", "bytes in an export name", "bytes in an import name", "values on the operand stack"};
static const uint32_t spots_[] = {0, 1, 2, 3, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 4095, 4096, 8191, 8192, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537};
/* indices looked at one by one: all of a small count, otherwise the ends and the neighbourhood of every power of two */
static int nspots(void) { return N <= 300 ? N : sizeof spots_ / sizeof *spots_ + 4; }
static uint32_t spot(int j) { if (N <= 300) return j; if (j < 4) return j == 0 ? N - 1 : j == 1 ? N - 2 : j == 2 ? N / 2 : N / 3; uint32_t s = spots_[j - 4]; return s < N ? s : N - 1; }
static void lname(char *o, uint32_t n, int last) { static char b[200000]; wstr(&sec, lfill(b, n, last)); (void)o; }
/* one function that compares its argument with constants would hide errors: each query has a function of its own */
static int pk(int kind, uint32_t i) { return kind == K_PARAMS ? I32 : i % 5 == 2 || i % 7 == 3 ? I64 : i % 11 == 5 ? F64 : I32; }
static int glong(uint32_t i) { return i % 3 == 1 && i != N - 1 && i != N / 2; } /* 64-bit globals */
static void write_(int kind) {
  start();
  switch (kind) {
  case K_TYPES: wu(&sec, N + 1); for (uint32_t i = 0; i < N - 1; i++) { static const char *p[4] = {"", "i", "l", "di"}, *r[4] = {"", "", "l", "d"}; wty(p[i & 3], r[i >> 2 & 3]); } wty("ii", "i"); wty("i", "i"); flush(1); wu(&sec, 1); imp('h', 0); w8(&sec, 0); wu(&sec, N); flush(2); wu(&sec, 3); wu(&sec, N - 1); wu(&sec, N); wu(&sec, N - 1); flush(3); wu(&sec, 1); w8(&sec, FREF); w8(&sec, 0); wu(&sec, 2); flush(4); wu(&sec, 2); wfexp("f", 0, 1); wfexp("g", 0, 3); flush(7); wu(&sec, 1); wu(&sec, 0); k32(&sec, 0); w8(&sec, 0x0b); wu(&sec, 2); wu(&sec, 1); wu(&sec, 2); flush(9);
    wu(&sec, 3); wu(&body, 0); op1(&body, 0x20, 0); op1(&body, 0x20, 1); w8(&body, 0x6b); endbody(); wu(&body, 0); op1(&body, 0x20, 0); k32(&body, 7); w8(&body, 0x6a); endbody(); wu(&body, 0); op1(&body, 0x20, 0); op1(&body, 0x10, 0); op1(&body, 0x20, 1); k32(&body, 0); op1(&body, 0x11, N - 1); w8(&body, 0); k32(&body, 1); op1(&body, 0x11, N); w8(&body, 0); endbody(); flush(10); break;
  case K_FIMP: types3(); wu(&sec, N); for (uint32_t i = 0; i < N; i++) { imp('f', i); w8(&sec, 0); wu(&sec, 0); } flush(2); wu(&sec, 3); for (int i = 0; i < 3; i++) wu(&sec, i == 2 ? 1 : 0); flush(3); wu(&sec, 1); w8(&sec, FREF); w8(&sec, 0); wu(&sec, 4); flush(4); wu(&sec, 5); wfexp("l", 0, N); wfexp("m", 0, N + 1); wfexp("x", 0, N - 1); wfexp("c", 0, N + 2); wfexp("t", 1, 0); flush(7); wu(&sec, 1); wu(&sec, 0); k32(&sec, 0); w8(&sec, 0x0b); wu(&sec, 3); wu(&sec, N - 1); wu(&sec, N / 2); wu(&sec, N + 1); flush(9);
    wu(&sec, 3); wu(&body, 0); op1(&body, 0x10, N - 1); endbody(); wu(&body, 0); op1(&body, 0x10, N / 2); k32(&body, 0); w8(&body, 0x6a); endbody(); wu(&body, 0); op1(&body, 0x20, 0); op1(&body, 0x11, 0); w8(&body, 0); endbody(); flush(10); break;
  case K_FUNC: case K_START: types3(); wu(&sec, N + 4); for (uint32_t i = 0; i < N + 4; i++) wu(&sec, i == N + 2 ? 2 : i >= N ? 1 : 0); flush(3); wu(&sec, 1); w8(&sec, FREF); w8(&sec, 0); wu(&sec, 4); flush(4); wu(&sec, 1); w8(&sec, I32); w8(&sec, 1); k32(&sec, 5); w8(&sec, 0x0b); flush(6); wu(&sec, 5 + nspots()); wfexp("call", 0, N); wfexp("ind", 0, N + 1); wfexp("t", 1, 0); wfexp("g", 3, 0); wfexp("st", 0, N + 2); for (int j = 0; j < nspots(); j++) { char b[20]; sprintf(b, "s%d", j); wfexp(b, 0, spot(j)); } flush(7); if (kind == K_START) { wu(&sec, N + 2); flush(8); }
    wu(&sec, 1); wu(&sec, 0); k32(&sec, 0); w8(&sec, 0x0b); wu(&sec, 4); wu(&sec, N - 1); wu(&sec, 0); wu(&sec, N / 2); wu(&sec, N > 1 ? N - 2 : 0); flush(9);
    wu(&sec, N + 4); for (uint32_t i = 0; i < N; i++) { wu(&body, 0); k32(&body, i); endbody(); } wu(&body, 0); op1(&body, 0x10, N - 1); op1(&body, 0x10, 0); w8(&body, 0x6a); op1(&body, 0x10, N / 2); w8(&body, 0x6a); endbody(); wu(&body, 0); op1(&body, 0x20, 0); op1(&body, 0x11, 0); w8(&body, 0); endbody(); wu(&body, 0); op1(&body, 0x10, N - 1); op1(&body, 0x24, 0); endbody(); wu(&body, 0); op1(&body, 0x20, 0); endbody(); flush(10); break;
  case K_GLOB: case K_GIMP: types3(); if (kind == K_GIMP) { wu(&sec, N); for (uint32_t i = 0; i < N; i++) { imp('g', i); w8(&sec, 3); w8(&sec, I32); w8(&sec, 1); } flush(2); } wu(&sec, 3); wu(&sec, 0); wu(&sec, 0); wu(&sec, 1); flush(3); if (kind == K_GLOB) { wu(&sec, N); for (uint32_t i = 0; i < N; i++) { int l = glong(i); w8(&sec, l ? I64 : I32); w8(&sec, 1); if (!l && i > 1 && i % 2) { uint32_t j = glong(i - 1) ? i - 2 : i - 1; op1(&sec, 0x23, j); w8(&sec, 0x41); ws(&sec, (i - j) * 3); w8(&sec, 0x6a); } else { w8(&sec, l ? 0x42 : 0x41); ws(&sec, i * 3 + 1); } w8(&sec, 0x0b); } } else { wu(&sec, 1); w8(&sec, I32); w8(&sec, 0); op1(&sec, 0x23, N - 1); w8(&sec, 0x0b); } flush(6); wu(&sec, 3 + nspots() + (kind == K_GIMP)); wfexp("l", 0, 0); wfexp("m", 0, 1); wfexp("set", 0, 2); for (int j = 0; j < nspots(); j++) { char b[20]; sprintf(b, "s%d", j); wfexp(b, 3, spot(j)); } if (kind == K_GIMP) wfexp("own", 3, N); flush(7);
    wu(&sec, 3); wu(&body, 0); op1(&body, 0x23, N - 1); endbody(); wu(&body, 0); op1(&body, 0x23, N / 2); endbody(); wu(&body, 0); op1(&body, 0x20, 0); op1(&body, 0x24, N - 1); op1(&body, 0x23, N - 1); endbody(); flush(10); break;
  case K_EXP: types3(); wu(&sec, 3); for (int i = 0; i < 3; i++) wu(&sec, 0); flush(3); wu(&sec, 2); for (int i = 0; i < 2; i++) { w8(&sec, I32); w8(&sec, 0); k32(&sec, 70 + i); w8(&sec, 0x0b); } flush(6); wu(&sec, N); for (uint32_t i = 0; i < N; i++) { char b[20]; sprintf(b, "e%u", i); if (i % 5 == 4) wfexp(b, 3, i % 2); else wfexp(b, 0, i % 3); } flush(7); wu(&sec, 3); for (int i = 0; i < 3; i++) { wu(&body, 0); k32(&body, 60 + i); endbody(); } flush(10); break;
  case K_ELEMS: case K_ELEM: types3(); wu(&sec, 4); for (int i = 0; i < 3; i++) wu(&sec, 0); wu(&sec, 1); flush(3); wu(&sec, 1); w8(&sec, FREF); w8(&sec, 0); wu(&sec, kind == K_ELEM ? 3 * N + 1 : N + 1); flush(4); wu(&sec, 5); wfexp("t", 1, 0); wfexp("a", 0, 0); wfexp("b", 0, 1); wfexp("c", 0, 2); wfexp("ind", 0, 3); flush(7); if (kind == K_ELEMS) { wu(&sec, N); for (uint32_t i = 0; i < N; i++) { wu(&sec, 0); k32(&sec, i); w8(&sec, 0x0b); wu(&sec, 1); wu(&sec, i % 3); } } else { wu(&sec, 3); for (uint32_t s = 0; s < 3; s++) { wu(&sec, 0); k32(&sec, 1 + s * N); w8(&sec, 0x0b); wu(&sec, N); for (uint32_t i = 0; i < N; i++) wu(&sec, (i + s) % 3); } } flush(9); wu(&sec, 4); for (int i = 0; i < 3; i++) { wu(&body, 0); k32(&body, 60 + i); endbody(); } wu(&body, 0); op1(&body, 0x20, 0); op1(&body, 0x11, 0); w8(&body, 0); endbody(); flush(10); break;
  case K_DATAS: case K_DATA: types3(); wu(&sec, 1); wu(&sec, 1); flush(3); wu(&sec, 1); w8(&sec, 0); wu(&sec, 7); flush(5); wu(&sec, 2); wfexp("m", 2, 0); wfexp("ld", 0, 0); flush(7); wu(&sec, 1); wu(&body, 0); op1(&body, 0x20, 0); w8(&body, 0x2d); wu(&body, 0); wu(&body, 0); endbody(); flush(10); if (kind == K_DATAS) { wu(&sec, N); for (uint32_t i = 0; i < N; i++) { wu(&sec, 0); k32(&sec, i); w8(&sec, 0x0b); wu(&sec, 1); w8(&sec, i % 251 + 1); } } else { wu(&sec, 3); for (uint32_t s = 0; s < 3; s++) { wu(&sec, 0); k32(&sec, 3 + s * N); w8(&sec, 0x0b); wu(&sec, N); for (uint32_t i = 0; i < N; i++) w8(&sec, (i + s * 7) % 251 + 1); } } flush(11); break;
  case K_TABS: case K_TIMP: types3(); if (kind == K_TIMP) { wu(&sec, N); for (uint32_t i = 0; i < N; i++) { imp('t', i); w8(&sec, 1); w8(&sec, FREF); w8(&sec, 0); wu(&sec, 1); } flush(2); } wu(&sec, 4); wu(&sec, 0); for (int i = 0; i < 3; i++) wu(&sec, i == 2 ? 1 : 0); flush(3); if (kind == K_TABS) { wu(&sec, N); for (uint32_t i = 0; i < N; i++) { w8(&sec, FREF); w8(&sec, 0); wu(&sec, i == N - 1 ? 4 : i % 3); } flush(4); } wu(&sec, 4); wfexp("last", 1, N - 1); wfexp("size", 0, 1); wfexp("msize", 0, 2); wfexp("ind", 0, 3); flush(7); wu(&sec, 1); wu(&sec, 2); wu(&sec, N - 1); k32(&sec, 1); w8(&sec, 0x0b); w8(&sec, 0); wu(&sec, 2); wu(&sec, 0); wu(&sec, 1); flush(9);
    wu(&sec, 4); wu(&body, 0); k32(&body, 61); endbody(); wu(&body, 0); w8(&body, 0xfc); wu(&body, 16); wu(&body, N - 1); endbody(); wu(&body, 0); w8(&body, 0xfc); wu(&body, 16); wu(&body, N / 2); endbody(); wu(&body, 0); op1(&body, 0x20, 0); op1(&body, 0x11, 0); wu(&body, N - 1); endbody(); flush(10); break;
  case K_MEMS: case K_MIMP: types3(); if (kind == K_MIMP) { wu(&sec, N); for (uint32_t i = 0; i < N; i++) { imp('m', i); w8(&sec, 2); w8(&sec, 0); wu(&sec, 0); } flush(2); } wu(&sec, 4); wu(&sec, 1); wu(&sec, 0); wu(&sec, 0); wu(&sec, 1); flush(3); if (kind == K_MEMS) { wu(&sec, N); for (uint32_t i = 0; i < N; i++) { w8(&sec, 0); wu(&sec, i == N - 1 || i == N / 2 ? 1 + (i & 1) : 0); } flush(5); } wu(&sec, 5); wfexp("last", 2, N - 1); wfexp("st", 0, 3); wfexp("ld", 0, 0); wfexp("size", 0, 1); wfexp("msize", 0, 2); flush(7);
    wu(&sec, 4); wu(&body, 0); op1(&body, 0x20, 0); w8(&body, 0x2d); wu(&body, N > 1 ? 0x40 : 0); if (N > 1) wu(&body, N - 1); wu(&body, 1); endbody(); wu(&body, 0); w8(&body, 0x3f); wu(&body, N - 1); endbody(); wu(&body, 0); w8(&body, 0x3f); wu(&body, N / 2); endbody();
    /* store, fill and copy */ wu(&body, 0); op1(&body, 0x20, 0); k32(&body, 0x5a); w8(&body, 0x3a); wu(&body, N > 1 ? 0x40 : 0); if (N > 1) wu(&body, N - 1); wu(&body, 1); op1(&body, 0x20, 0); k32(&body, 2); w8(&body, 0x6a); k32(&body, 0x33); k32(&body, 1); w8(&body, 0xfc); wu(&body, 0x0b); wu(&body, N - 1); op1(&body, 0x20, 0); k32(&body, 4); w8(&body, 0x6a); op1(&body, 0x20, 0); k32(&body, 1); w8(&body, 0x6a); k32(&body, 2); w8(&body, 0xfc); wu(&body, 0x0a); wu(&body, N - 1); wu(&body, N - 1); op1(&body, 0x20, 0); endbody(); flush(10); wu(&sec, 1); wu(&sec, 2); wu(&sec, N - 1); k32(&sec, 9); w8(&sec, 0x0b); wu(&sec, 3); wn(&sec, "xyz", 3); flush(11); break;
  case K_LOCALS: case K_GROUPS: types3(); wu(&sec, 2); wu(&sec, 1); wu(&sec, 1); flush(3); wu(&sec, 1); wfexp("f", 0, 0); flush(7); wu(&sec, 2); { uint32_t last, mid; if (kind == K_LOCALS) { wu(&body, 2); wu(&body, N - N / 2); w8(&body, I64); wu(&body, N / 2 + 1); w8(&body, I32); last = 1 + N; mid = 1 + N - N / 2; } else { uint32_t c = 1; wu(&body, N + 1); for (uint32_t i = 0; i < N; i++) { int one = i % (N / 100 + 1) == 0; wu(&body, one); w8(&body, i % 2 ? I64 : F64); c += one; } wu(&body, 1); w8(&body, I32); last = c; mid = c; }
    op1(&body, 0x20, 0); op1(&body, 0x21, last); op1(&body, 0x20, 0); k32(&body, 3); w8(&body, 0x6c); op1(&body, 0x20, last); op1(&body, 0x10, 1); w8(&body, 0x6a); op1(&body, 0x20, last); w8(&body, 0x6a); if (kind == K_LOCALS && N > 2) { op1(&body, 0x20, 1); w8(&body, 0xa7); w8(&body, 0x6a); if (mid != last) { op1(&body, 0x20, mid); w8(&body, 0x6a); } } op1(&body, 0x20, 0); w8(&body, 0x6a); endbody(); wu(&body, 0); op1(&body, 0x20, 0); k32(&body, 5); w8(&body, 0x6a); endbody(); } flush(10); break;
  case K_PARAMS: case K_PARAML: wu(&sec, 2); w8(&sec, 0x60); wu(&sec, N + 3); for (uint32_t i = 0; i < N + 3; i++) w8(&sec, i >= N ? I32 : pk(kind, i)); wu(&sec, 1); w8(&sec, I32); wty("i", "i"); flush(1); wu(&sec, 2); wu(&sec, 0); wu(&sec, 1); flush(3); wu(&sec, 1); w8(&sec, 0); wu(&sec, 1); flush(5); wu(&sec, 2); wfexp("f", 0, 0); wfexp("m", 2, 0); flush(7);
    /* ((p[0] as i32)*3 + g(p[N+2])) + p[N] + local, with values alive across the call; then the first parameters again */
    wu(&sec, 2); wu(&body, 1); wu(&body, 2); w8(&body, I32); op1(&body, 0x20, N + 1); op1(&body, 0x21, N + 4); op1(&body, 0x20, N); k32(&body, 3); w8(&body, 0x6c); op1(&body, 0x20, N + 1); k32(&body, 7); w8(&body, 0x6c); op1(&body, 0x20, N + 2); op1(&body, 0x10, 1); w8(&body, 0x6a); w8(&body, 0x6a); op1(&body, 0x20, N + 4); w8(&body, 0x6a); op1(&body, 0x20, N + 3); w8(&body, 0x6a); op1(&body, 0x20, N / 2 > 2 && pk(kind, N / 2) == I32 ? N / 2 : N); w8(&body, 0x6a); op1(&body, 0x20, 0); w8(&body, 0x6a); if (N > 1) { op1(&body, 0x20, 1); w8(&body, 0x6a); } k32(&body, 12); w8(&body, 0x2d); wu(&body, 0); wu(&body, 0); w8(&body, 0x6a); endbody(); wu(&body, 0); op1(&body, 0x20, 0); k32(&body, 5); w8(&body, 0x6a); endbody(); flush(10); break;
  case K_BRTAB: case K_BODY: case K_BLOCKS: case K_NEST: case K_LOOPS: case K_CONSTS: case K_IFS: case K_STACK: types3(); wu(&sec, 1); wu(&sec, 1); flush(3); wu(&sec, 1); wfexp("f", 0, 0); flush(7); wu(&sec, 1); wu(&body, 1); wu(&body, 1); w8(&body, I32);
    if (kind == K_BRTAB) { for (int i = 0; i < 4; i++) { w8(&body, 0x02); w8(&body, 0x40); } op1(&body, 0x20, 0); w8(&body, 0x0e); wu(&body, N); for (uint32_t i = 0; i < N; i++) wu(&body, i * 7 / 3 % 3); wu(&body, 3); for (int i = 0; i < 4; i++) { w8(&body, 0x0b); k32(&body, 40 + i); w8(&body, 0x0f); } k32(&body, 0); }
    else if (kind == K_BODY) { for (uint32_t i = 0; i < N; i++) { op1(&body, 0x20, 0); k32(&body, 3); w8(&body, 0x6a); op1(&body, 0x21, 0); } op1(&body, 0x20, 0); }
    else if (kind == K_CONSTS) { for (uint32_t i = 0; i < N; i++) { op1(&body, 0x20, 1); k32(&body, i * 40503u); w8(&body, 0x73); op1(&body, 0x21, 1); } op1(&body, 0x20, 1); op1(&body, 0x20, 0); w8(&body, 0x6a); }
    else if (kind == K_BLOCKS) { for (uint32_t i = 0; i < N; i++) { w8(&body, i & 1 ? 0x03 : 0x02); w8(&body, 0x40); op1(&body, 0x20, 0); k32(&body, i); w8(&body, 0x46); if (!(i & 1)) op1(&body, 0x0d, 0); else { w8(&body, 0x04); w8(&body, 0x40); op1(&body, 0x0c, 1 + 0); w8(&body, 0x0b); } op1(&body, 0x20, 1); k32(&body, 1); w8(&body, 0x6a); op1(&body, 0x21, 1); w8(&body, 0x0b); } op1(&body, 0x20, 1); }
    else if (kind == K_NEST) { for (uint32_t i = 0; i < N; i++) { w8(&body, 0x02); w8(&body, 0x40); } op1(&body, 0x20, 0); op1(&body, 0x0d, N - 1); op1(&body, 0x20, 0); k32(&body, 1); w8(&body, 0x6a); op1(&body, 0x21, 0); for (uint32_t i = 0; i < N; i++) { op1(&body, 0x20, 1); k32(&body, 1); w8(&body, 0x6a); op1(&body, 0x21, 1); w8(&body, 0x0b); } op1(&body, 0x20, 1); op1(&body, 0x20, 0); w8(&body, 0x6a); }
    else if (kind == K_LOOPS) { for (uint32_t i = 0; i < N; i++) { w8(&body, 0x03); w8(&body, 0x40); op1(&body, 0x20, 1); k32(&body, 1); w8(&body, 0x6a); op1(&body, 0x21, 1); } op1(&body, 0x20, 0); w8(&body, 0x04); w8(&body, 0x40); op1(&body, 0x20, 0); k32(&body, 1); w8(&body, 0x6b); op1(&body, 0x21, 0); op1(&body, 0x0c, N); w8(&body, 0x0b); for (uint32_t i = 0; i < N; i++) w8(&body, 0x0b); op1(&body, 0x20, 1); }
    else if (kind == K_STACK) { for (uint32_t i = 0; i < N; i++) { op1(&body, 0x20, 0); k32(&body, i); w8(&body, 0x6c); } for (uint32_t i = 1; i < N; i++) w8(&body, 0x6a); }
    else { for (uint32_t i = 0; i < N; i++) { op1(&body, 0x20, 0); k32(&body, i); w8(&body, 0x46); w8(&body, 0x04); w8(&body, I32); k32(&body, i * 2 + 5); w8(&body, 0x05); } k32(&body, 1); for (uint32_t i = 0; i < N; i++) w8(&body, 0x0b); }
    endbody(); flush(10); break;
  case K_EXPNAME: types3(); wu(&sec, 2); wu(&sec, 1); wu(&sec, 1); flush(3); wu(&sec, 3); lname(NULL, N, 'x'); w8(&sec, 0); wu(&sec, 0); lname(NULL, N, 'y'); w8(&sec, 0); wu(&sec, 1); wfexp("f", 0, 0); flush(7); wu(&sec, 2); for (int i = 0; i < 2; i++) { wu(&body, 0); op1(&body, 0x20, 0); k32(&body, 5 + i); w8(&body, 0x6a); endbody(); } flush(10); break;
  case K_IMPNAME: types3(); wu(&sec, 3); lname(NULL, N, 'x'); wstr(&sec, "a"); w8(&sec, 0); wu(&sec, 0); wstr(&sec, "env2"); lname(NULL, N, 'y'); w8(&sec, 0); wu(&sec, 0); lname(NULL, N, 'z'); lname(NULL, N, 'w'); w8(&sec, 0); wu(&sec, 0); flush(2); wu(&sec, 1); wu(&sec, 0); flush(3); wu(&sec, 1); wfexp("f", 0, 3); flush(7); wu(&sec, 1); wu(&body, 0); op1(&body, 0x10, 0); k32(&body, 3); w8(&body, 0x6c); op1(&body, 0x10, 1); w8(&body, 0x6a); k32(&body, 5); w8(&body, 0x6c); op1(&body, 0x10, 2); w8(&body, 0x6a); endbody(); flush(10); break;
  case K_CUSTOM: case K_CUSTOMS: if (kind == K_CUSTOM) { wstr(&sec, "q"); for (uint32_t i = 0; i < N; i++) w8(&sec, i * 5); flush(0); } else for (uint32_t i = 0; i < N; i++) { wstr(&sec, i & 1 ? "name" : ""); flush(0); } types3(); wu(&sec, 1); wu(&sec, 1); flush(3); if (kind == K_CUSTOM) { wstr(&sec, "name"); for (uint32_t i = 0; i < N; i++) w8(&sec, 0x80 | i); flush(0); } wu(&sec, 1); wfexp("f", 0, 0); flush(7); wu(&sec, 1); wu(&body, 0); op1(&body, 0x20, 0); k32(&body, 5); w8(&body, 0x6a); endbody(); flush(10); wstr(&sec, ""); for (uint32_t i = 0; kind == K_CUSTOM && i < N; i++) w8(&sec, i); flush(0); break;
  }
}
static char lbuf[200000];
static uint32_t pval(int kind, uint32_t i) { return kind == K_PARAMS || pk(kind, i) == I32 ? i * 2654435761u + 12345 : 0; }
static void verify(int kind) {
  static const char *en[3] = {"a", "b", "c"}; char b[20];
  switch (kind) {
  case K_TYPES: WANT(callp(pwart_get_export_function(S, "f"), "f", 2, 1000, 58), 942, "the function of the last but one type"); WANT(callp(pwart_get_export_function(S, "g"), "g", 2, 1000, 58), 1069, "the result through the last types"); break;
  case K_FIMP: WANT(asked, N, "the number of symbols asked for"); WANT(calln("l", 0, 0), 902, "the last imported function"); WANT(calln("m", 0, 0), N == 1 ? 902 : N / 2 == N - 1 ? 902 : 901, "the middle imported function"); if (pwart_get_export_function(S, "x") != hw[2]) mc_fail("the last imported function is exported as another one"); for (int i = 0; i < 3; i++) WANT(calln("c", 1, i), i == 0 || N / 2 == N - 1 ? 902 : 901, "the function in table entry %d", i); break;
  case K_FUNC: case K_START: for (int j = 0; j < nspots(); j++) { sprintf(b, "s%d", j); WANT(calln(b, 0, 0), spot(j), "function %u", spot(j)); } WANT(calln("call", 1, 0), (N - 1) + N / 2, "the sum of the first, middle and last function"); for (int i = 0; i < 4; i++) WANT(calln("ind", 1, i), i == 0 ? N - 1 : i == 1 ? 0 : i == 2 ? N / 2 : N > 1 ? N - 2 : 0, "the function in table entry %d", i);
    if (kind == K_START) { pwart_wasm_function f = pwart_get_start_function(S); if (!f || f != pwart_get_export_function(S, "st")) mc_fail("the start function is another function"); FT t = {0, 0, {0}, {0}}; call_real(f, &t, 0, 0); WANT(*(uint32_t *)pwart_get_export_global(S, "g"), N - 1, "the global after the start function"); } else if (pwart_get_start_function(S)) mc_fail("a start function is reported"); break;
  case K_GLOB: for (int j = 0; j < nspots(); j++) { sprintf(b, "s%d", j); uint32_t *g = pwart_get_export_global(S, b); if (!g) mc_fail("global %u is not found", spot(j)); WANT(*g, spot(j) * 3 + 1, "global %u", spot(j)); } WANT(calln("l", 0, 0), (N - 1) * 3 + 1, "the last global"); WANT(calln("m", 0, 0), N / 2 * 3 + 1, "the middle global"); WANT(calln("set", 1, 77), 77, "the last global after storing"); for (int j = 0; j < nspots(); j++) { sprintf(b, "s%d", j); WANT(*(uint32_t *)pwart_get_export_global(S, b), spot(j) == N - 1 ? 77 : spot(j) * 3 + 1, "global %u after storing to the last", spot(j)); } break;
  case K_GIMP: WANT(asked, N, "the number of symbols asked for"); for (int j = 0; j < nspots(); j++) { sprintf(b, "s%d", j); if (pwart_get_export_global(S, b) != &slots[spot(j)]) mc_fail("imported global %u is another cell", spot(j)); } WANT(calln("l", 0, 0), (N - 1) * 5 + 2, "the last global"); WANT(calln("m", 0, 0), N / 2 * 5 + 2, "the middle global"); WANT(*(uint32_t *)pwart_get_export_global(S, "own"), (N - 1) * 5 + 2, "the global initialised from the last"); WANT(calln("set", 1, 78), 78, "the last global after storing"); for (uint32_t i = 0; i < N; i++) WANT(slots[i], i == N - 1 ? 78 : i * 5 + 2, "imported global %u after storing to the last", i); break;
  case K_EXP: for (int j = 0; j < nspots(); j++) { uint32_t i = spot(j); sprintf(b, "e%u", i); void *f = pwart_get_export_function(S, b); uint32_t *g = pwart_get_export_global(S, b); if (i % 5 == 4) { if (f || !g) mc_fail("export %u is not found as a global", i); WANT(*g, 70 + i % 2, "exported global %u", i); } else { if (g) mc_fail("export %u is found as a global", i); WANT(callp(f, b, 0, 0, 0), 60 + i % 3, "exported function %u", i); } } sprintf(b, "e%u", N); if (pwart_get_export_function(S, b) || pwart_get_export_global(S, b)) mc_fail("an export that does not exist is found"); break;
  case K_ELEMS: case K_ELEM: { struct pwart_wasm_table *t = pwart_get_export_table(S, "t"); int o = kind == K_ELEM; WANT(t->size, o ? 3 * N + 1 : N + 1, "the table's size"); void *w[3]; for (int i = 0; i < 3; i++) w[i] = pwart_get_export_function(S, en[i]); for (uint32_t i = 0; i <= (o ? 3 * N : N); i++) if (t->entries[i] != (o ? i == 0 ? NULL : w[((i - 1) % N + (i - 1) / N) % 3] : i == N ? NULL : w[i % 3])) mc_fail("table entry %u is another function", i); WANT(calln("ind", 1, N - 1 + o), 60 + (N - 1) % 3, "the last table entry"); break; }
  case K_DATAS: case K_DATA: { struct pwart_wasm_memory *m = pwart_get_export_memory(S, "m"); uint32_t o = kind == K_DATA ? 3 : 0; for (uint32_t i = 0; i < 7 * 65536; i++) WANT(m->bytes[i], i < o ? 0 : o == 0 ? i < N ? i % 251 + 1 : 0 : (i - o) / N < 3 ? ((i - o) % N + (i - o) / N * 7) % 251 + 1 : 0, "byte %u", i); WANT(calln("ld", 1, N - 1 + o), (N - 1) % 251 + 1, "the last byte"); break; }
  case K_TABS: case K_TIMP: { struct pwart_wasm_table *t = pwart_get_export_table(S, "last"); if (kind == K_TIMP && t != &tb_last) mc_fail("the last table is another one"); WANT(t->size, 4, "the last table's size"); if (t->entries[0] || !t->entries[1] || !t->entries[2] || t->entries[3]) mc_fail("the last table holds other entries"); WANT(calln("size", 0, 0), 4, "table.size of the last"); WANT(calln("msize", 0, 0), kind == K_TIMP ? (N / 2 == N - 1 ? 4 : 2) : N / 2 == N - 1 ? 4 : N / 2 % 3, "table.size of the middle table"); WANT(calln("ind", 1, 1), 61, "a call through the last table"); WANT(calln("ind", 1, 2), 4, "a call through the last table"); if (kind == K_TIMP) WANT(asked, N, "the number of symbols asked for"); break; }
  case K_MEMS: case K_MIMP: { struct pwart_wasm_memory *m = pwart_get_export_memory(S, "last"); uint32_t p = kind == K_MIMP ? 1 : 1 + ((N - 1) & 1); if (kind == K_MIMP && m != &mm_last) mc_fail("the last memory is another one"); if (!m || m->pages != p || memcmp(m->bytes + 9, "xyz", 3)) mc_fail("the last memory holds other bytes"); WANT(calln("ld", 1, 9), 'y', "a load from the last memory"); WANT(calln("size", 0, 0), p, "memory.size of the last"); WANT(calln("msize", 0, 0), kind == K_MIMP ? 1 : 1 + (N / 2 & 1), "memory.size of the middle memory"); WANT(calln("st", 1, 20), 20, "store, fill and copy in the last memory"); if (memcmp(m->bytes + 20, "\0\x5a\x33\0\x5a\x33", 7)) mc_fail("store, fill and copy in the last memory left other bytes"); if (kind == K_MIMP && N > 1) for (int i = 0; i < 64; i++) if (mbytes[0][i]) mc_fail("another memory was written"); break; }
  case K_LOCALS: case K_GROUPS: for (int i = 0; i < 3; i++) { uint32_t x = i * 1000 + 9; WANT(calln("f", 1, x), 3 * x + x + 5 + x + x + (kind == K_LOCALS && N == 1 ? 0 : 0), "the result for %u", x); } break;
  case K_PARAMS: case K_PARAML: { static uint64_t raw[400000]; uint8_t *fp = (uint8_t *)raw + 8192; memset(raw, WPOISON, sizeof raw); size_t o = 0; uint32_t *at[2] = {0}; (void)at; for (uint32_t i = 0; i < N + 3; i++) { int t = i >= N ? I32 : pk(kind, i), s = tsize(t); if ((g_cfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN) && s == 8) o = (o + 7) & ~7ul; uint64_t v = i >= N ? 1000 * (i - N + 1) : pval(kind, i); if (o + 20000 > sizeof raw) mc_die("frame"); memcpy(fp + o, &v, s); o += s; }
    uint32_t w = 3 * 1000 + 7 * 2000 + 3005 + 2000 + 0 + (N / 2 > 2 && pk(kind, N / 2) == I32 ? pval(kind, N / 2) : 1000) + pval(kind, 0) + (N > 1 ? pval(kind, 1) : 0); pwart_wasm_function f = pwart_get_export_function(S, "f"); if (!f) mc_fail("'f' is not exported"); call_real_on(fp, f); WANT(*(uint32_t *)fp, w, "the result"); for (int i = 1; i <= 4096; i++) if (fp[-i] != WPOISON) mc_fail("bytes below the frame were overwritten (offset -%d)", i); break; }
  case K_BRTAB: for (int j = 0; j < nspots(); j++) { uint32_t i = spot(j); WANT(calln("f", 1, i), 40 + i * 7 / 3 % 3, "the target of label %u", i); } WANT(calln("f", 1, N), 43, "the default target"); WANT(calln("f", 1, N + 1), 43, "the default target"); WANT(calln("f", 1, N + 65536), 43, "the default target"); WANT(calln("f", 1, -1), 43, "the default target"); break;
  case K_BODY: for (int i = 0; i < 3; i++) WANT(calln("f", 1, i * 77), i * 77 + 3 * N, "the result"); break;
  case K_CONSTS: { uint32_t w = 0; for (uint32_t i = 0; i < N; i++) w ^= i * 40503u; WANT(calln("f", 1, 9), (uint32_t)(w + 9), "the result"); break; }
  case K_BLOCKS: for (int j = 0; j < nspots() && j < 60; j++) { uint32_t i = spot(j); if (!(i & 1)) WANT(calln("f", 1, i), N - 1, "the number of blocks run to their end when %u is left early", i); } WANT(calln("f", 1, N), N, "the number of blocks run to their end"); break;
  case K_NEST: WANT(calln("f", 1, 0), N + 1, "the result when no branch is taken"); WANT(calln("f", 1, 5), 5, "the result when the outermost block is left"); break;
  case K_LOOPS: WANT(calln("f", 1, 0), N, "the result when no branch is taken"); WANT(calln("f", 1, 3), 4 * (uint64_t)N, "the result when the outermost loop is repeated 3 times"); break;
  case K_IFS: for (int j = 0; j < nspots(); j++) { uint32_t i = spot(j); WANT(calln("f", 1, i), i * 2 + 5, "the branch for %u", i); } WANT(calln("f", 1, N), 1, "the innermost branch"); break;
  case K_EXPNAME: for (int i = 0; i < 2; i++) WANT(callp(pwart_get_export_function(S, lfill(lbuf, N, 'x' + i)), "the long name", 1, 9, 0), 14 + i, "the function of name %d", i); if (pwart_get_export_function(S, lfill(lbuf, N, 'z')) || (N > 1 && pwart_get_export_function(S, lfill(lbuf, N - 1, 'x'))) || pwart_get_export_function(S, strcat(lfill(lbuf, N, 'x'), "x"))) mc_fail("a similar name is found"); WANT(calln("f", 1, 9), 14, "the result"); break;
  case K_IMPNAME: WANT(asked, 3, "the number of symbols asked for"); WANT(calln("f", 0, 0), (900 * 3 + 901) * 5 + 902, "the result"); break;
  case K_STACK: { uint32_t w = 0; for (uint32_t i = 0; i < N; i++) w += 7 * i; WANT(calln("f", 1, 7), w, "the sum"); break; }
  case K_CUSTOM: case K_CUSTOMS: WANT(calln("f", 1, 9), 14, "the result"); break;
  }
}
static void ensure(void) { static int d; if (d) return; d = 1; mallopt(M_PERTURB, 0); hw[0] = pwart_wrap_host_function_c(hf_any); hw[1] = pwart_wrap_host_function_c(hf_mid); hw[2] = pwart_wrap_host_function_c(hf_last); hw[3] = pwart_wrap_host_function_c(hf_add); int nb; pwart_get_builtin_symbols(&nb); FT t = {0, 1, {0}, {I32}}; V r; call_real(hw[0], &t, 0, &r); }
static void one(int kind, uint32_t n, int cfg) {
  static const int cf[4][2] = {{0, 2}, {1, 3}, {1, 2}, {0, 3}}; ensure(); sprintf(dbuf, "%u %s, configuration %d, %d\n", n, kn[kind], cf[cfg][0], cf[cfg][1]); mc_describe_cb = describe; mc_predesc(); set_cfg(cf[cfg][0], cf[cfg][1]); N = n; g_kind = kind; asked = 0;
  for (uint32_t i = 0; i < N; i++) slots[i] = i * 5 + 2; memset(mbytes, 0, sizeof mbytes); memset(tents, 0, sizeof tents); tb_any = (struct pwart_wasm_table){FREF, 2, 2, 2, tents[0]}; tb_last = (struct pwart_wasm_table){FREF, 4, 4, 4, tents[1]}; mm_any = (struct pwart_wasm_memory){1, 1, 1, mbytes[0], 1}; mm_last = (struct pwart_wasm_memory){1, 1, 1, mbytes[1], 1};
  write_(kind); static uint8_t *end_; static size_t cap = 4 << 20; if (!end_) { uint8_t *r = mmap(0, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (r == MAP_FAILED || mprotect(r + cap, 4096, PROT_NONE)) mc_die("mmap"); end_ = r + cap; } uint8_t *c = end_ - out.n; memcpy(c, out.p, out.n);
  sljit_free_unused_memory_exec(); ASnap s0 = a_snap(); a_track = 1; pwart_module_compiler mc = pwart_new_module_compiler(); pwart_set_symbol_resolver(mc, &xrs); char *e = pwart_compile(mc, (char *)c, out.n); S = e ? NULL : pwart_get_module_state(mc);
  /* a refusal with a message is allowed where the library documents a limit of its own */
  int limit = (kind == K_EXPNAME && N > 250) || (kind == K_IMPNAME && N > 245) || (kind == K_STACK && N > 25) || (kind == K_LOCALS && N > 4000) || ((kind == K_NEST || kind == K_LOOPS || kind == K_IFS) && N > 1000) || ((kind == K_PARAMS || kind == K_PARAML) && N + 3 > 255); if (e && !limit) mc_fail("rejected: %s", e); int refused = e != NULL; if (refused && !*e) mc_fail("refused without a message"); pwart_free_module_compiler(mc); a_track = 0; memset(c, 0xee, out.n);
  if (!refused) { verify(kind); pwart_free_module_state(S); } S = NULL;
  sljit_free_unused_memory_exec(); ASnap s1 = a_snap(); if (s1.blocks != s0.blocks || s1.bytes != s0.bytes || s1.exec != s0.exec) mc_fail("%ld allocations (%ld bytes), %ld bytes of code are still held after the module was freed", s1.blocks - s0.blocks, s1.bytes - s0.bytes, s1.exec - s0.exec);
  mc_outcome(((uint64_t)kind * 200000 + n) * 2 + refused);
}
static void b_small(void) { int kind = choose(NK), n = 1 + choose(mc_thorough ? 1400 : 300), cfg = choose(mc_thorough ? 4 : 2); if (!mc_mine()) return; one(kind, n, cfg); }
static void b_bounds(void) {
  static const uint32_t ns[] = {511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4000, 4093, 4094, 4095, 4096, 4097, 5000, 8185, 8189, 8190, 8191, 8192, 8193, 10000, 16382, 16383, 16384, 16385, 20000, 32766, 32767, 32768, 32769, 40000, 65533, 65534, 65535, 65536, 65537, 70000, 100000, 131071, 131072, 131073}; int kind = choose(NK), n = choose_from(ns), cfg = choose(2); if (!mc_mine()) return; one(kind, n, cfg);
}
static struct mc_space sp[] = {
  {"every-size", b_small, "31 quantities x every size 1..300 (1..1400) x 2 (4) configurations"},
  {"boundaries", b_bounds, "31 quantities x 44 sizes around the powers of two up to 131073 x 2 configurations"}};
static const char *as[] = {"more than 4000 locals, 255 parameters, 250 bytes of an export name, 490 bytes of an import's names, 25 operands or 1000 nested blocks may be refused with a message, not compiled wrongly", 0};
int main(int c, char **v) { static struct mc_check k = {"P33", "one execution = one module built around one quantity of one size: loaded, every stored copy of the quantity read back through calls, exports, tables and memories, and freed with the allocation balance compared; non-trivial = distinct (quantity, size, accepted or refused)", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
