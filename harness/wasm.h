/* wasm.h - module IR, binary encoder, printer, boring reference interpreter
 * and the differential runner against the real library (public API only). */
#ifndef WASM_H
#define WASM_H
#include "mc.h"
#include "execguard.h"
#include <math.h>
#include <pwart.h>

enum { I32 = 0x7f, I64 = 0x7e, F32 = 0x7d, F64 = 0x7c, FREF = 0x70, XREF = 0x6f };
#define OPFC(n) (0xfc00 | (n))
enum {
  UNREACHABLE = 0, NOP = 1, BLOCK = 2, LOOP = 3, IF = 4, ELSE = 5, END = 0x0b, BR = 0x0c, BR_IF = 0x0d, BR_TABLE = 0x0e, RETURN = 0x0f,
  CALL = 0x10, CALL_IND = 0x11, RCALL = 0x12, RCALL_IND = 0x13, DROP = 0x1a, SELECT = 0x1b, SELECT_T = 0x1c,
  LGET = 0x20, LSET = 0x21, LTEE = 0x22, GGET = 0x23, GSET = 0x24, TGET = 0x25, TSET = 0x26,
  MSIZE = 0x3f, MGROW = 0x40, KI32 = 0x41, KI64 = 0x42, KF32 = 0x43, KF64 = 0x44, REFNULL = 0xd0, REFISNULL = 0xd1, REFFUNC = 0xd2,
  MCOPY = OPFC(10), MFILL = OPFC(11), TCOPY = OPFC(14), TGROW = OPFC(15), TSIZE = OPFC(16), TFILL = OPFC(17)
};

typedef struct { uint64_t b; uint8_t t; uint8_t nan; } V; /* nan: an arithmetic NaN, payload unspecified */
typedef struct { uint16_t op; uint8_t al; uint8_t padn; int64_t a, b; uint32_t *vec; int nvec; } Ins;

#define MAXBODY 4000
typedef struct { int np, nr; uint8_t p[64], r[64]; } FT;
typedef struct { int type; int nloc; uint8_t loc[1200]; int nins; Ins ins[MAXBODY]; } Fn;
typedef struct { uint8_t kind; const char *mod, *field; int type; uint8_t vt, mut; uint32_t min, max; int hasmax, is64; } Imp;
typedef struct { uint8_t et; uint32_t min, max; int hasmax; } Tab;
typedef struct { uint32_t min, max; int hasmax, is64; } Mem;
typedef struct { uint8_t vt, mut; int nins; Ins ins[40]; } Glob;
typedef struct { const char *name; uint8_t kind; uint32_t idx; } Exp;
typedef struct { int flags; uint32_t tab; int noff; Ins off[6]; int n; int32_t fidx[16]; uint8_t et; } Elem; /* fidx<0: ref.null (expr forms) */
typedef struct { int flags; uint32_t mem; int noff; Ins off[6]; int n; uint8_t bytes[64]; } Data;
typedef struct {
  int nft, nimp, nfn, ntab, nmem, nglob, nexp, nelem, ndata; int64_t start; int datacount;
  FT ft[32]; Imp imp[28]; Fn fn[16]; Tab tab[12]; Mem mem[12]; Glob glob[14]; Exp exp[40]; Elem elem[6]; Data data[6];
  uint32_t vecpool[256]; int nvecpool;
  int leb_pad;         /* bytes every padded LEB is stretched to; 0: minimal */
  uint32_t pad_mask;   /* which kinds of LEB are padded */
  int custom_at;       /* -1, or section slot before which a custom section goes (bit mask) */
  uint32_t custom_mask;
  uint32_t empty_mask; /* sections written although they have no entries */
  int locals_mode;     /* 0: run-length groups, 1: one group per local, 2: empty groups interleaved */
} Mod;

static void mod_reset(Mod *m) {
  m->nft = m->nimp = m->nfn = m->ntab = m->nmem = m->nglob = m->nexp = m->nelem = m->ndata = m->nvecpool = 0;
  m->start = -1; m->leb_pad = 0; m->pad_mask = 0; m->custom_mask = 0; m->empty_mask = 0; m->locals_mode = 0; m->datacount = 0;
}
static int mod_ft(Mod *m, int np, const uint8_t *p, int nr, const uint8_t *r) {
  FT *f = &m->ft[m->nft]; f->np = np; f->nr = nr; memcpy(f->p, p, np); memcpy(f->r, r, nr); return m->nft++;
}
static Fn *mod_fn(Mod *m, int type) { Fn *f = &m->fn[m->nfn++]; f->type = type; f->nloc = 0; f->nins = 0; return f; }
static void mod_exp(Mod *m, const char *n, int kind, int idx) { Exp *e = &m->exp[m->nexp++]; e->name = n; e->kind = kind; e->idx = idx; }
static int mod_nimpk(Mod *m, int kind) { int k = 0; for (int i = 0; i < m->nimp; i++) k += m->imp[i].kind == kind; return k; }
static Imp *mod_imp(Mod *m, int kind, const char *mod, const char *field) { Imp *i = &m->imp[m->nimp++]; memset(i, 0, sizeof *i); i->kind = kind; i->mod = mod; i->field = field; return i; }

static Ins *emit(Fn *f, int op, int64_t a, int64_t b) {
  if (f->nins >= MAXBODY) mc_die("body too long");
  Ins *i = &f->ins[f->nins++]; i->op = op; i->a = a; i->b = b; i->al = 0; i->padn = 0; i->vec = 0; i->nvec = 0; return i;
}
#define E0(f, op) emit(f, op, 0, 0)
#define E1(f, op, a) emit(f, op, a, 0)
#define E2(f, op, a, b) emit(f, op, a, b)
static uint64_t f32b(float x) { uint32_t u; memcpy(&u, &x, 4); return u; }
static uint64_t f64b(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
static float bf32(uint64_t u) { uint32_t x = u; float f; memcpy(&f, &x, 4); return f; }
static double bf64(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
static int kop(int t) { return t == I32 ? KI32 : t == I64 ? KI64 : t == F32 ? KF32 : KF64; }
static void emit_k(Fn *f, int t, uint64_t bits) {
  if (t == FREF || t == XREF) { E1(f, REFNULL, t); return; }
  E1(f, kop(t), t == I32 ? (int64_t)(int32_t)bits : (int64_t)bits);
}
static int is_load(int op) { return op >= 0x28 && op <= 0x35; }
static int is_store(int op) { return op >= 0x36 && op <= 0x3e; }
static int mem_width(int op) {
  static const uint8_t w[] = {4, 8, 4, 8, 1, 1, 2, 2, 1, 1, 2, 2, 4, 4, 4, 8, 4, 8, 1, 2, 1, 2, 4};
  return w[op - 0x28];
}
static int natalign(int op) { int w = mem_width(op); return w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3; }
static Ins *emit_mem(Fn *f, int op, uint64_t off, int midx) { Ins *i = emit(f, op, off, midx); i->al = natalign(op); return i; }

/* ---------- encoder ---------- */
typedef struct { uint8_t *p; int n, cap; } Buf;
static void bb(Buf *b, int x) { if (b->n >= b->cap) { b->cap = b->cap ? b->cap * 2 : 256; b->p = realloc(b->p, b->cap); } b->p[b->n++] = x; }
static void bbytes(Buf *b, const void *p, int n) { for (int i = 0; i < n; i++) bb(b, ((const uint8_t *)p)[i]); }
static int g_pad; /* current padding length */
static int g_leb_n, g_leb_one = -1, g_leb_two = -1, g_leb_onepad; /* every LEB has a number; up to two single ones may be padded */
static int g_custom_kind; /* what custom sections contain */
static void uleb(Buf *b, uint64_t v, int max) {
  int k = 0, me = g_leb_n++; if (me == g_leb_one || me == g_leb_two) g_pad = g_leb_onepad;
  do { int c = v & 0x7f; v >>= 7; k++; int more = v != 0 || (g_pad && k < g_pad && k < max); bb(b, c | (more ? 0x80 : 0)); if (!more) break; } while (1);
}
static void sleb(Buf *b, int64_t v, int max) {
  int k = 0, me = g_leb_n++; if (me == g_leb_one || me == g_leb_two) g_pad = g_leb_onepad;
  for (;;) {
    int c = v & 0x7f; v >>= 7; k++;
    int done = (v == 0 && !(c & 0x40)) || (v == -1 && (c & 0x40));
    if (g_pad && k < g_pad && k < max) done = 0;
    bb(b, c | (done ? 0 : 0x80));
    if (done) break;
  }
}
enum { PK_SECLEN = 1, PK_COUNT = 2, PK_IDX = 4, PK_CONST = 8, PK_MEMARG = 16, PK_LIMITS = 32, PK_NAME = 64, PK_BODYLEN = 128, PK_LOCALS = 256, PK_OPC = 512, PK_ALIGN = 1024, PK_ALL = 2047 };
static Mod *g_em;
static void U(Buf *b, uint64_t v, int kind) { g_pad = (g_em->pad_mask & kind) ? g_em->leb_pad : 0; uleb(b, v, kind == PK_MEMARG && v >> 32 ? 10 : 5); g_pad = 0; }
static void enc_ins(Buf *b, Ins *i) {
  if (i->op >= 0xfc00) { bb(b, 0xfc); U(b, i->op & 0xff, PK_OPC); } else bb(b, i->op);
  switch (i->op) {
  case BLOCK: case LOOP: case IF: if (i->b) sleb(b, i->a, 5); else bb(b, (int)i->a); break; /* b=1: type index */
  case BR: case BR_IF: case CALL: case RCALL: case LGET: case LSET: case LTEE: case GGET: case GSET: case TGET: case TSET: case REFFUNC: U(b, i->a, PK_IDX); break;
  case BR_TABLE: U(b, i->nvec - 1, PK_COUNT); for (int k = 0; k < i->nvec; k++) U(b, i->vec[k], PK_IDX); break;
  case CALL_IND: case RCALL_IND: U(b, i->a, PK_IDX); U(b, i->b, PK_IDX); break;
  case SELECT_T: U(b, 1, PK_COUNT); bb(b, (int)i->a); break;
  case MSIZE: case MGROW: U(b, i->a, PK_IDX); break;
  case KI32: g_pad = (g_em->pad_mask & PK_CONST) ? g_em->leb_pad : 0; sleb(b, (int32_t)i->a, 5); g_pad = 0; break;
  case KI64: g_pad = (g_em->pad_mask & PK_CONST) ? g_em->leb_pad : 0; sleb(b, i->a, 10); g_pad = 0; break;
  case KF32: { uint32_t u = (uint32_t)i->a; bbytes(b, &u, 4); break; }
  case KF64: bbytes(b, &i->a, 8); break;
  case REFNULL: bb(b, (int)i->a); break;
  case MCOPY: U(b, i->a, PK_IDX); U(b, i->b, PK_IDX); break;
  case MFILL: U(b, i->a, PK_IDX); break;
  case TCOPY: U(b, i->a, PK_IDX); U(b, i->b, PK_IDX); break;
  case TGROW: case TSIZE: case TFILL: U(b, i->a, PK_IDX); break;
  default:
    if (is_load(i->op) || is_store(i->op)) {
      U(b, i->al | (i->b ? 0x40 : 0), PK_ALIGN);
      if (i->b) U(b, i->b, PK_IDX);
      U(b, (uint64_t)i->a, PK_MEMARG);
    }
  }
}
static void enc_name(Buf *b, const char *s) { int n = strlen(s); U(b, n, PK_NAME); bbytes(b, s, n); }
static void enc_limits(Buf *b, int hasmax, int is64, uint32_t min, uint32_t max) { bb(b, (hasmax ? 1 : 0) | (is64 ? 4 : 0)); U(b, min, PK_LIMITS); if (hasmax) U(b, max, PK_LIMITS); }
static void enc_custom(Buf *b, int n) {
  static Buf q; q.n = 0; int keep = g_leb_n; static char lng[1200]; if (!lng[0]) memset(lng, 'n', 1199);
  switch (g_custom_kind) {
  case 0: g_pad = 0; enc_name(&q, "note"); for (int i = 0; i < n; i++) bb(&q, 0x01 + i); break;
  case 1: enc_name(&q, ""); break;                                       /* empty name, no content */
  case 2: enc_name(&q, "dylink"); break;                                 /* known name, no content */
  case 3: enc_name(&q, "dylink"); for (int i = 0; i < 3; i++) bb(&q, 0xff); break; /* known name, unfinished number */
  case 4: { int l = n == 0 ? 498 : n == 1 ? 499 : n == 2 ? 512 : 1199; uleb(&q, l, 5); bbytes(&q, lng, l); break; } /* long names */
  case 5: enc_name(&q, "name"); bbytes(&q, "\x0a\x04\x01\x02\0\x0b\0asm\1\0\0\0", 14); break; /* content that looks like sections */
  case 6: uleb(&q, 4, 5); bbytes(&q, "a\0b\xff", 4); for (int i = 0; i < 300 * n; i++) bb(&q, i * 7); break; /* odd bytes in the name, long content */
  }
  g_leb_n = keep;
  bb(b, 0); U(b, q.n, PK_SECLEN); bbytes(b, q.p, q.n);
}
static void enc_sec(Buf *out, int id, Buf *s, Mod *m) {
  if (m->custom_mask & (1u << id)) enc_custom(out, id % 4);
  bb(out, id); U(out, s->n, PK_SECLEN); bbytes(out, s->p, s->n); s->n = 0;
}
static Buf g_out, g_s, g_t;
static void mod_encode(Mod *m, Buf *o) {
  Buf *s = &g_s, *t = &g_t; g_em = m; g_leb_n = 0; o->n = 0; s->n = 0;
  bbytes(o, "\0asm\1\0\0\0", 8);
  if (m->nft || m->empty_mask >> 1 & 1) {
    U(s, m->nft, PK_COUNT);
    for (int i = 0; i < m->nft; i++) { bb(s, 0x60); U(s, m->ft[i].np, PK_COUNT); bbytes(s, m->ft[i].p, m->ft[i].np); U(s, m->ft[i].nr, PK_COUNT); bbytes(s, m->ft[i].r, m->ft[i].nr); }
    enc_sec(o, 1, s, m);
  }
  if (m->nimp || m->empty_mask >> 2 & 1) {
    U(s, m->nimp, PK_COUNT);
    for (int i = 0; i < m->nimp; i++) {
      Imp *p = &m->imp[i]; enc_name(s, p->mod); enc_name(s, p->field); bb(s, p->kind);
      if (p->kind == 0) U(s, p->type, PK_IDX);
      else if (p->kind == 1) { bb(s, p->vt); enc_limits(s, p->hasmax, 0, p->min, p->max); }
      else if (p->kind == 2) enc_limits(s, p->hasmax, p->is64, p->min, p->max);
      else { bb(s, p->vt); bb(s, p->mut); }
    }
    enc_sec(o, 2, s, m);
  }
  if (m->nfn || m->empty_mask >> 3 & 1) { U(s, m->nfn, PK_COUNT); for (int i = 0; i < m->nfn; i++) U(s, m->fn[i].type, PK_IDX); enc_sec(o, 3, s, m); }
  if (m->ntab || m->empty_mask >> 4 & 1) { U(s, m->ntab, PK_COUNT); for (int i = 0; i < m->ntab; i++) { bb(s, m->tab[i].et); enc_limits(s, m->tab[i].hasmax, 0, m->tab[i].min, m->tab[i].max); } enc_sec(o, 4, s, m); }
  if (m->nmem || m->empty_mask >> 5 & 1) { U(s, m->nmem, PK_COUNT); for (int i = 0; i < m->nmem; i++) enc_limits(s, m->mem[i].hasmax, m->mem[i].is64, m->mem[i].min, m->mem[i].max); enc_sec(o, 5, s, m); }
  if (m->nglob || m->empty_mask >> 6 & 1) {
    U(s, m->nglob, PK_COUNT);
    for (int i = 0; i < m->nglob; i++) { Glob *g = &m->glob[i]; bb(s, g->vt); bb(s, g->mut); for (int k = 0; k < g->nins; k++) enc_ins(s, &g->ins[k]); bb(s, 0x0b); }
    enc_sec(o, 6, s, m);
  }
  if (m->nexp || m->empty_mask >> 7 & 1) { U(s, m->nexp, PK_COUNT); for (int i = 0; i < m->nexp; i++) { enc_name(s, m->exp[i].name); bb(s, m->exp[i].kind); U(s, m->exp[i].idx, PK_IDX); } enc_sec(o, 7, s, m); }
  if (m->start >= 0) { U(s, m->start, PK_IDX); enc_sec(o, 8, s, m); }
  if (m->nelem || m->empty_mask >> 9 & 1) {
    U(s, m->nelem, PK_COUNT);
    for (int i = 0; i < m->nelem; i++) {
      Elem *e = &m->elem[i]; U(s, e->flags, PK_COUNT);
      if (!(e->flags & 1)) { if (e->flags & 2) U(s, e->tab, PK_IDX); for (int k = 0; k < e->noff; k++) enc_ins(s, &e->off[k]); bb(s, 0x0b); }
      if (e->flags & 3) bb(s, (e->flags & 4) ? e->et : 0);
      U(s, e->n, PK_COUNT);
      for (int k = 0; k < e->n; k++) {
        if (e->flags & 4) { if (e->fidx[k] <= -2) { bb(s, GGET); U(s, -2 - e->fidx[k], PK_IDX); } else if (e->fidx[k] < 0) { bb(s, REFNULL); bb(s, e->et); } else { bb(s, REFFUNC); U(s, e->fidx[k], PK_IDX); } bb(s, 0x0b); }
        else U(s, e->fidx[k], PK_IDX);
      }
    }
    enc_sec(o, 9, s, m);
  }
  if (m->datacount) { U(s, m->ndata, PK_COUNT); enc_sec(o, 12, s, m); }
  if (m->nfn || m->empty_mask >> 10 & 1) {
    U(s, m->nfn, PK_COUNT);
    for (int i = 0; i < m->nfn; i++) {
      Fn *f = &m->fn[i]; t->n = 0;
      if (m->locals_mode == 1) { U(t, f->nloc, PK_LOCALS); for (int k = 0; k < f->nloc; k++) { U(t, 1, PK_LOCALS); bb(t, f->loc[k]); } }
      else {
        int g = 0; for (int k = 0; k < f->nloc; k++) if (!k || f->loc[k] != f->loc[k - 1]) g++;
        U(t, m->locals_mode == 2 ? 2 * g + 1 : g, PK_LOCALS);
        for (int k = 0; k < f->nloc;) { int e = k; while (e < f->nloc && f->loc[e] == f->loc[k]) e++; if (m->locals_mode == 2) { U(t, 0, PK_LOCALS); bb(t, F64); } U(t, e - k, PK_LOCALS); bb(t, f->loc[k]); k = e; }
        if (m->locals_mode == 2) { U(t, 0, PK_LOCALS); bb(t, I64); }
      }
      for (int k = 0; k < f->nins; k++) enc_ins(t, &f->ins[k]);
      bb(t, 0x0b);
      U(s, t->n, PK_BODYLEN); bbytes(s, t->p, t->n);
    }
    enc_sec(o, 10, s, m);
  }
  if (m->ndata || m->empty_mask >> 11 & 1) {
    U(s, m->ndata, PK_COUNT);
    for (int i = 0; i < m->ndata; i++) {
      Data *d = &m->data[i]; U(s, d->flags, PK_COUNT);
      if (d->flags != 1) { if (d->flags == 2) U(s, d->mem, PK_IDX); for (int k = 0; k < d->noff; k++) enc_ins(s, &d->off[k]); bb(s, 0x0b); }
      U(s, d->n, PK_COUNT); bbytes(s, d->bytes, d->n);
    }
    enc_sec(o, 11, s, m);
  }
  if (m->custom_mask & 1) enc_custom(o, 3);
}

/* ---------- printer ---------- */
static const char *tname(int t) { return t == I32 ? "i32" : t == I64 ? "i64" : t == F32 ? "f32" : t == F64 ? "f64" : t == FREF ? "funcref" : t == XREF ? "externref" : t == 0x40 ? "void" : "?"; }
static const char *opname(int op) {
  static const char *n[256]; static int init;
  if (!init) {
    init = 1;
    n[0] = "unreachable"; n[1] = "nop"; n[2] = "block"; n[3] = "loop"; n[4] = "if"; n[5] = "else"; n[0xb] = "end"; n[0xc] = "br"; n[0xd] = "br_if"; n[0xe] = "br_table"; n[0xf] = "return"; n[0x10] = "call"; n[0x11] = "call_indirect"; n[0x12] = "return_call"; n[0x13] = "return_call_indirect"; n[0x1a] = "drop"; n[0x1b] = "select"; n[0x1c] = "select_t";
    n[0x20] = "local.get"; n[0x21] = "local.set"; n[0x22] = "local.tee"; n[0x23] = "global.get"; n[0x24] = "global.set"; n[0x25] = "table.get"; n[0x26] = "table.set";
    static const char *ls[] = {"i32.load", "i64.load", "f32.load", "f64.load", "i32.load8_s", "i32.load8_u", "i32.load16_s", "i32.load16_u", "i64.load8_s", "i64.load8_u", "i64.load16_s", "i64.load16_u", "i64.load32_s", "i64.load32_u", "i32.store", "i64.store", "f32.store", "f64.store", "i32.store8", "i32.store16", "i64.store8", "i64.store16", "i64.store32", "memory.size", "memory.grow", "i32.const", "i64.const", "f32.const", "f64.const"};
    for (int i = 0; i < 29; i++) n[0x28 + i] = ls[i];
    static const char *nm[] = {"i32.eqz", "i32.eq", "i32.ne", "i32.lt_s", "i32.lt_u", "i32.gt_s", "i32.gt_u", "i32.le_s", "i32.le_u", "i32.ge_s", "i32.ge_u", "i64.eqz", "i64.eq", "i64.ne", "i64.lt_s", "i64.lt_u", "i64.gt_s", "i64.gt_u", "i64.le_s", "i64.le_u", "i64.ge_s", "i64.ge_u", "f32.eq", "f32.ne", "f32.lt", "f32.gt", "f32.le", "f32.ge", "f64.eq", "f64.ne", "f64.lt", "f64.gt", "f64.le", "f64.ge",
      "i32.clz", "i32.ctz", "i32.popcnt", "i32.add", "i32.sub", "i32.mul", "i32.div_s", "i32.div_u", "i32.rem_s", "i32.rem_u", "i32.and", "i32.or", "i32.xor", "i32.shl", "i32.shr_s", "i32.shr_u", "i32.rotl", "i32.rotr",
      "i64.clz", "i64.ctz", "i64.popcnt", "i64.add", "i64.sub", "i64.mul", "i64.div_s", "i64.div_u", "i64.rem_s", "i64.rem_u", "i64.and", "i64.or", "i64.xor", "i64.shl", "i64.shr_s", "i64.shr_u", "i64.rotl", "i64.rotr",
      "f32.abs", "f32.neg", "f32.ceil", "f32.floor", "f32.trunc", "f32.nearest", "f32.sqrt", "f32.add", "f32.sub", "f32.mul", "f32.div", "f32.min", "f32.max", "f32.copysign",
      "f64.abs", "f64.neg", "f64.ceil", "f64.floor", "f64.trunc", "f64.nearest", "f64.sqrt", "f64.add", "f64.sub", "f64.mul", "f64.div", "f64.min", "f64.max", "f64.copysign",
      "i32.wrap_i64", "i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s", "i32.trunc_f64_u", "i64.extend_i32_s", "i64.extend_i32_u", "i64.trunc_f32_s", "i64.trunc_f32_u", "i64.trunc_f64_s", "i64.trunc_f64_u",
      "f32.convert_i32_s", "f32.convert_i32_u", "f32.convert_i64_s", "f32.convert_i64_u", "f32.demote_f64", "f64.convert_i32_s", "f64.convert_i32_u", "f64.convert_i64_s", "f64.convert_i64_u", "f64.promote_f32",
      "i32.reinterpret_f32", "i64.reinterpret_f64", "f32.reinterpret_i32", "f64.reinterpret_i64", "i32.extend8_s", "i32.extend16_s", "i64.extend8_s", "i64.extend16_s", "i64.extend32_s"};
    for (int i = 0; i < (int)(sizeof nm / sizeof *nm); i++) n[0x45 + i] = nm[i];
    n[0xd0] = "ref.null"; n[0xd1] = "ref.is_null"; n[0xd2] = "ref.func";
  }
  static const char *fc[] = {"i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s", "i32.trunc_sat_f64_u", "i64.trunc_sat_f32_s", "i64.trunc_sat_f32_u", "i64.trunc_sat_f64_s", "i64.trunc_sat_f64_u", "memory.init", "data.drop", "memory.copy", "memory.fill", "table.init", "elem.drop", "table.copy", "table.grow", "table.size", "table.fill"};
  if (op >= 0xfc00 && op < 0xfc12) return fc[op & 0xff];
  return op < 256 && n[op] ? n[op] : "?";
}
static void pr_ins(char *o, int cap, Ins *i) {
  switch (i->op) {
  case BLOCK: case LOOP: case IF: snprintf(o, cap, i->b ? "%s type%d" : "%s(%s)", opname(i->op), i->b ? (int)i->a : 0); if (!i->b) snprintf(o, cap, "%s%s%s", opname(i->op), i->a == 0x40 ? "" : ":", i->a == 0x40 ? "" : tname((int)i->a)); break;
  case KF32: snprintf(o, cap, "f32.const[%08x]", (uint32_t)i->a); break;
  case KF64: snprintf(o, cap, "f64.const[%016llx]", (unsigned long long)i->a); break;
  case KI32: case KI64: snprintf(o, cap, "%s %lld", opname(i->op), (long long)i->a); break;
  case BR_TABLE: { int n = snprintf(o, cap, "br_table"); for (int k = 0; k < i->nvec; k++) n += snprintf(o + n, cap - n, " %u", i->vec[k]); break; }
  case REFNULL: snprintf(o, cap, "ref.null %s", tname((int)i->a)); break;
  case MCOPY: case TCOPY: case CALL_IND: case RCALL_IND: snprintf(o, cap, "%s %lld %lld", opname(i->op), (long long)i->a, (long long)i->b); break;
  case BR: case BR_IF: case CALL: case RCALL: case LGET: case LSET: case LTEE: case GGET: case GSET: case TGET: case TSET: case REFFUNC: case MSIZE: case MGROW: case MFILL: case TGROW: case TSIZE: case TFILL:
    snprintf(o, cap, "%s %lld", opname(i->op), (long long)i->a); break;
  default:
    if (is_load(i->op) || is_store(i->op)) { if (i->b) snprintf(o, cap, "%s mem%lld off=%llu", opname(i->op), (long long)i->b, (unsigned long long)i->a); else snprintf(o, cap, "%s off=%llu", opname(i->op), (unsigned long long)i->a); }
    else snprintf(o, cap, "%s", opname(i->op));
  }
}
static void pr_fn(Mod *m, int k) {
  Fn *f = &m->fn[k]; FT *t = &m->ft[f->type];
  mc_desc("func%d(", k + mod_nimpk(m, 0)); for (int i = 0; i < t->np; i++) mc_desc("%s%s", i ? " " : "", tname(t->p[i]));
  mc_desc(")->("); for (int i = 0; i < t->nr; i++) mc_desc("%s%s", i ? " " : "", tname(t->r[i])); mc_desc(")");
  if (f->nloc) { mc_desc(" locals("); for (int i = 0; i < f->nloc; i++) mc_desc("%s%s", i ? " " : "", tname(f->loc[i])); mc_desc(")"); }
  mc_desc(" {"); char b[200]; for (int i = 0; i < f->nins; i++) { pr_ins(b, sizeof b, &f->ins[i]); mc_desc(" %s;", b); } mc_desc(" }\n");
}
static void pr_mod(Mod *m) {
  for (int i = 0; i < m->nglob; i++) { Glob *g = &m->glob[i]; int z = g->nins == 1 && g->ins[0].a == 0; if (z) continue; mc_desc("global%d %s%s =", i + mod_nimpk(m, 3), g->mut ? "mut " : "", tname(g->vt)); char b[200]; for (int k = 0; k < g->nins; k++) { pr_ins(b, sizeof b, &g->ins[k]); mc_desc(" %s;", b); } mc_desc("\n"); }
  for (int i = 0; i < m->nfn; i++) pr_fn(m, i); }

/* ---------- reference interpreter ---------- */
typedef struct RInst RInst;
typedef struct { int host; int hid; RInst *in; int idx; } RFunc; /* host!=0: host function hid */
typedef struct { uint8_t *b; uint32_t pages, max; int is64; uint32_t alloc_pages; } RMem;
typedef struct { uint64_t *e; uint32_t size, max; } RTab; /* funcref: pointer to RFunc; externref: opaque */
struct RInst { Mod *m; RFunc *f[24]; RFunc own[24]; RMem *mem[14]; RTab *tab[14]; V *glob[18]; RMem omem[12]; RTab otab[12]; V oglob[14]; };

static const char *r_trap; static uint64_t r_steps; static uint64_t r_fuel = 2000000, r_fuel_max = 200000; static jmp_buf r_jmp;
static void rtrap(const char *w) { r_trap = w; longjmp(r_jmp, 1); }
typedef void (*HostModel)(int hid, V *args, V *res);
static HostModel r_hostmodel;

static V mk(int t, uint64_t b) { V v = {t == I32 || t == F32 ? (uint32_t)b : b, t, 0}; return v; }
static int r_nan; /* an arithmetic NaN (payload unspecified) was produced in this run */
static V mkf(int t, double x) { r_nan |= isnan(x) != 0; V v; v.t = t; v.nan = 0; if (t == F32) { float f = (float)x; v.b = f32b(f); v.nan = isnan(f) != 0; } else { v.b = f64b(x); v.nan = isnan(x) != 0; } return v; }
static int visnan(V v) { return v.t == F32 ? isnan(bf32(v.b)) : isnan(bf64(v.b)); }
static double r_nearest(double x) { return nearbyint(x); }
static V r_minmax(int t, V a, V b, int mx) {
  if (visnan(a) || visnan(b)) { V v = mk(t, t == F32 ? 0x7fc00000u : 0x7ff8000000000000ull); v.nan = 1; r_nan = 1; return v; }
  double x = t == F32 ? bf32(a.b) : bf64(a.b), y = t == F32 ? bf32(b.b) : bf64(b.b);
  if (x == 0 && y == 0) return mk(t, mx ? (a.b & b.b) : (a.b | b.b));
  return mx ? (x > y ? a : b) : (x < y ? a : b);
}
static int clz_(uint64_t x, int w) { int n = 0; for (int i = w - 1; i >= 0 && !((x >> i) & 1); i--) n++; return n; }
static int ctz_(uint64_t x, int w) { int n = 0; for (int i = 0; i < w && !((x >> i) & 1); i++) n++; return n; }
static int pop_(uint64_t x) { int n = 0; while (x) { n += x & 1; x >>= 1; } return n; }
static uint64_t r_trunc(V v, int to, int sgn, int sat) {
  double x = v.t == F32 ? bf32(v.b) : bf64(v.b);
  double lo, hi; /* valid: lo < x < hi after truncation (exclusive bounds on trunc(x)) */
  int w = to == I32 ? 32 : 64;
  if (isnan(x)) { if (sat) return 0; rtrap("trunc nan"); }
  double t = trunc(x);
  if (sgn) { lo = -ldexp(1, w - 1); hi = ldexp(1, w - 1); } else { lo = 0; hi = ldexp(1, w); }
  if (t < lo) { if (!sat) rtrap("trunc overflow"); return sgn ? (w == 32 ? 0x80000000ull : 0x8000000000000000ull) : 0; }
  if (t >= hi) { if (!sat) rtrap("trunc overflow"); return sgn ? (w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull) : (w == 32 ? 0xffffffffull : ~0ull); }
  if (sgn) return (uint64_t)(int64_t)t;
  return (uint64_t)t;
}
static float cvt_u64_f32(uint64_t u) { return (float)u; }

/* arity of plain numeric ops 0x45..0xc4 and sat truncs */
static int num_sig(int op, int *a, int *r) { /* returns operand count; *a operand type */
  if (op >= OPFC(0) && op <= OPFC(7)) { int k = op & 7; *a = (k & 2) ? F64 : F32; *r = k < 4 ? I32 : I64; return 1; }
  if (op == 0x45) { *a = I32; *r = I32; return 1; }
  if (op >= 0x46 && op <= 0x4f) { *a = I32; *r = I32; return 2; }
  if (op == 0x50) { *a = I64; *r = I32; return 1; }
  if (op >= 0x51 && op <= 0x5a) { *a = I64; *r = I32; return 2; }
  if (op >= 0x5b && op <= 0x60) { *a = F32; *r = I32; return 2; }
  if (op >= 0x61 && op <= 0x66) { *a = F64; *r = I32; return 2; }
  if (op >= 0x67 && op <= 0x69) { *a = *r = I32; return 1; }
  if (op >= 0x6a && op <= 0x78) { *a = *r = I32; return 2; }
  if (op >= 0x79 && op <= 0x7b) { *a = *r = I64; return 1; }
  if (op >= 0x7c && op <= 0x8a) { *a = *r = I64; return 2; }
  if (op >= 0x8b && op <= 0x91) { *a = *r = F32; return 1; }
  if (op >= 0x92 && op <= 0x98) { *a = *r = F32; return 2; }
  if (op >= 0x99 && op <= 0x9f) { *a = *r = F64; return 1; }
  if (op >= 0xa0 && op <= 0xa6) { *a = *r = F64; return 2; }
  static const uint8_t ca[] = {I64, F32, F32, F64, F64, I32, I32, F32, F32, F64, F64, I32, I32, I64, I64, F64, I32, I32, I64, I64, F32, F32, F64, I32, I64, I32, I32, I64, I64, I64};
  static const uint8_t cr[] = {I32, I32, I32, I32, I32, I64, I64, I64, I64, I64, I64, F32, F32, F32, F32, F32, F64, F64, F64, F64, F64, I32, I64, F32, F64, I32, I32, I64, I64, I64};
  if (op >= 0xa7 && op <= 0xc4) { *a = ca[op - 0xa7]; *r = cr[op - 0xa7]; return 1; }
  return 0;
}
static int r_nan_skip; /* programs that look at the sign or payload of a computed NaN are outside the domain */
static V r_num(int op, V x, V y) {
  if (r_nan_skip && ((x.nan && (op == 0xbc || op == 0xbd)) || (y.nan && (op == 0x98 || op == 0xa6)))) rtrap("NaN bits");
  uint32_t a = (uint32_t)x.b, b = (uint32_t)y.b; uint64_t A = x.b, B = y.b;
  float fa = bf32(x.b), fb = bf32(y.b); double da = bf64(x.b), db = bf64(y.b);
#define RI(v) return mk(I32, (uint32_t)(v))
#define RL(v) return mk(I64, (uint64_t)(v))
  switch (op) {
  case 0x45: RI(a == 0); case 0x46: RI(a == b); case 0x47: RI(a != b); case 0x48: RI((int32_t)a < (int32_t)b); case 0x49: RI(a < b); case 0x4a: RI((int32_t)a > (int32_t)b); case 0x4b: RI(a > b);
  case 0x4c: RI((int32_t)a <= (int32_t)b); case 0x4d: RI(a <= b); case 0x4e: RI((int32_t)a >= (int32_t)b); case 0x4f: RI(a >= b);
  case 0x50: RI(A == 0); case 0x51: RI(A == B); case 0x52: RI(A != B); case 0x53: RI((int64_t)A < (int64_t)B); case 0x54: RI(A < B); case 0x55: RI((int64_t)A > (int64_t)B); case 0x56: RI(A > B);
  case 0x57: RI((int64_t)A <= (int64_t)B); case 0x58: RI(A <= B); case 0x59: RI((int64_t)A >= (int64_t)B); case 0x5a: RI(A >= B);
  case 0x5b: RI(fa == fb); case 0x5c: RI(fa != fb); case 0x5d: RI(fa < fb); case 0x5e: RI(fa > fb); case 0x5f: RI(fa <= fb); case 0x60: RI(fa >= fb);
  case 0x61: RI(da == db); case 0x62: RI(da != db); case 0x63: RI(da < db); case 0x64: RI(da > db); case 0x65: RI(da <= db); case 0x66: RI(da >= db);
  case 0x67: RI(clz_(a, 32)); case 0x68: RI(ctz_(a, 32)); case 0x69: RI(pop_(a));
  case 0x6a: RI(a + b); case 0x6b: RI(a - b); case 0x6c: RI(a * b);
  case 0x6d: if (!b || (a == 0x80000000u && b == ~0u)) rtrap("div"); RI((int32_t)a / (int32_t)b);
  case 0x6e: if (!b) rtrap("div"); RI(a / b);
  case 0x6f: if (!b) rtrap("div"); if (b == ~0u) RI(0); RI((int32_t)a % (int32_t)b);
  case 0x70: if (!b) rtrap("div"); RI(a % b);
  case 0x71: RI(a & b); case 0x72: RI(a | b); case 0x73: RI(a ^ b); case 0x74: RI(a << (b & 31)); case 0x75: RI((int32_t)a >> (b & 31)); case 0x76: RI(a >> (b & 31));
  case 0x77: b &= 31; RI(b ? (a << b) | (a >> (32 - b)) : a); case 0x78: b &= 31; RI(b ? (a >> b) | (a << (32 - b)) : a);
  case 0x79: RL(clz_(A, 64)); case 0x7a: RL(ctz_(A, 64)); case 0x7b: RL(pop_(A));
  case 0x7c: RL(A + B); case 0x7d: RL(A - B); case 0x7e: RL(A * B);
  case 0x7f: if (!B || (A == 1ull << 63 && B == ~0ull)) rtrap("div"); RL((int64_t)A / (int64_t)B);
  case 0x80: if (!B) rtrap("div"); RL(A / B);
  case 0x81: if (!B) rtrap("div"); if (B == ~0ull) RL(0); RL((int64_t)A % (int64_t)B);
  case 0x82: if (!B) rtrap("div"); RL(A % B);
  case 0x83: RL(A & B); case 0x84: RL(A | B); case 0x85: RL(A ^ B); case 0x86: RL(A << (B & 63)); case 0x87: RL((int64_t)A >> (B & 63)); case 0x88: RL(A >> (B & 63));
  case 0x89: B &= 63; RL(B ? (A << B) | (A >> (64 - B)) : A); case 0x8a: B &= 63; RL(B ? (A >> B) | (A << (64 - B)) : A);
  case 0x8b: { V v = x; v.b &= 0x7fffffffu; return v; } case 0x8c: { V v = x; v.b = (v.b ^ 0x80000000u) & 0xffffffffu; return v; }
  case 0x8d: return mkf(F32, ceilf(fa)); case 0x8e: return mkf(F32, floorf(fa)); case 0x8f: return mkf(F32, truncf(fa)); case 0x90: return mkf(F32, nearbyintf(fa)); case 0x91: return mkf(F32, sqrtf(fa));
  case 0x92: { volatile float r = fa + fb; return mkf(F32, r); } case 0x93: { volatile float r = fa - fb; return mkf(F32, r); } case 0x94: { volatile float r = fa * fb; return mkf(F32, r); } case 0x95: { volatile float r = fa / fb; return mkf(F32, r); }
  case 0x96: return r_minmax(F32, x, y, 0); case 0x97: return r_minmax(F32, x, y, 1);
  case 0x98: { V v = x; v.b = (x.b & 0x7fffffffu) | (y.b & 0x80000000u); v.nan = x.nan; return v; }
  case 0x99: { V v = x; v.b &= ~(1ull << 63); return v; } case 0x9a: { V v = x; v.b ^= 1ull << 63; return v; }
  case 0x9b: return mkf(F64, ceil(da)); case 0x9c: return mkf(F64, floor(da)); case 0x9d: return mkf(F64, trunc(da)); case 0x9e: return mkf(F64, r_nearest(da)); case 0x9f: return mkf(F64, sqrt(da));
  case 0xa0: return mkf(F64, da + db); case 0xa1: return mkf(F64, da - db); case 0xa2: return mkf(F64, da * db); case 0xa3: return mkf(F64, da / db);
  case 0xa4: return r_minmax(F64, x, y, 0); case 0xa5: return r_minmax(F64, x, y, 1);
  case 0xa6: { V v = x; v.b = (x.b & ~(1ull << 63)) | (y.b & (1ull << 63)); v.nan = x.nan; return v; }
  case 0xa7: RI(A);
  case 0xa8: RI(r_trunc(x, I32, 1, 0)); case 0xa9: RI(r_trunc(x, I32, 0, 0)); case 0xaa: RI(r_trunc(x, I32, 1, 0)); case 0xab: RI(r_trunc(x, I32, 0, 0));
  case 0xac: RL((int64_t)(int32_t)a); case 0xad: RL(a);
  case 0xae: RL(r_trunc(x, I64, 1, 0)); case 0xaf: RL(r_trunc(x, I64, 0, 0)); case 0xb0: RL(r_trunc(x, I64, 1, 0)); case 0xb1: RL(r_trunc(x, I64, 0, 0));
  case 0xb2: return mk(F32, f32b((float)(int32_t)a)); case 0xb3: return mk(F32, f32b((float)a)); case 0xb4: return mk(F32, f32b((float)(int64_t)A)); case 0xb5: return mk(F32, f32b(cvt_u64_f32(A)));
  case 0xb6: return mkf(F32, da);
  case 0xb7: return mk(F64, f64b((double)(int32_t)a)); case 0xb8: return mk(F64, f64b((double)a)); case 0xb9: return mk(F64, f64b((double)(int64_t)A)); case 0xba: return mk(F64, f64b((double)A));
  case 0xbb: return mkf(F64, fa);
  case 0xbc: return mk(I32, A); case 0xbd: return mk(I64, A); case 0xbe: return mk(F32, A); case 0xbf: return mk(F64, A);
  case 0xc0: RI((int8_t)a); case 0xc1: RI((int16_t)a); case 0xc2: RL((int64_t)(int8_t)A); case 0xc3: RL((int64_t)(int16_t)A); case 0xc4: RL((int64_t)(int32_t)A);
  case OPFC(0): case OPFC(2): RI(r_trunc(x, I32, 1, 0)); case OPFC(1): case OPFC(3): RI(r_trunc(x, I32, 0, 0));
  case OPFC(4): case OPFC(6): RL(r_trunc(x, I64, 1, 0)); case OPFC(5): case OPFC(7): RL(r_trunc(x, I64, 0, 0));
  }
  mc_die("r_num op");
  return x;
}
static int r_match(Fn *f, int pc, int *els) { /* index of matching end (nins: function end) */
  int d = 0; *els = -1;
  for (int i = pc + 1; i < f->nins; i++) {
    int op = f->ins[i].op;
    if (op == BLOCK || op == LOOP || op == IF) d++;
    else if (op == ELSE && d == 0) *els = i;
    else if (op == END) { if (d == 0) return i; d--; }
  }
  return f->nins;
}
static void r_btype(Mod *m, Ins *i, int *np, int *nr, int loop) { (void)loop; if (i->b) { *np = m->ft[i->a].np; *nr = m->ft[i->a].nr; } else { *np = 0; *nr = i->a == 0x40 ? 0 : 1; } }
typedef struct { int pc_cont; int height; int arity; int is_loop; } Lab;
static int r_depth;
static void r_call(RFunc *rf, V *args, V *res);
static uint64_t r_off(Ins *k, int nk, RInst *in, V *out) { /* const expr */
  V st[40]; int sp = 0;
  for (int i = 0; i < nk; i++) switch (k[i].op) {
    case KI32: st[sp++] = mk(I32, (uint32_t)k[i].a); break; case KI64: st[sp++] = mk(I64, k[i].a); break; case KF32: st[sp++] = mk(F32, (uint32_t)k[i].a); break; case KF64: st[sp++] = mk(F64, k[i].a); break;
    case GGET: st[sp++] = *in->glob[k[i].a]; break; case REFNULL: st[sp++] = mk((int)k[i].a, 0); break; case REFFUNC: st[sp++] = mk(FREF, (uint64_t)(uintptr_t)in->f[k[i].a]); break;
    default: sp--; st[sp - 1] = r_num(k[i].op, st[sp - 1], st[sp]); break;
  }
  if (out) *out = st[0];
  return st[0].b;
}
#define RPAGE 65536ull
static uint8_t *r_ea(RInst *in, Ins *i, V idx, int w) {
  RMem *m = in->mem[i->b]; uint64_t ea = (m->is64 ? idx.b : (uint32_t)idx.b) + (uint64_t)i->a;
  if (ea < (uint64_t)i->a || ea + w > m->pages * RPAGE || ea + w < ea) rtrap("oob");
  return m->b + ea;
}
static void r_exec(RInst *in, int fi, V *args, V *res) {
  Mod *m = in->m; Fn *f = &m->fn[fi]; FT *t = &m->ft[f->type];
  if (r_depth > 200) rtrap("stack depth");
  r_depth++;
  V *loc = malloc(sizeof(V) * (t->np + f->nloc + 1)); V *st = malloc(sizeof(V) * (f->nins + t->nr + 80)); Lab lab[64]; int nl = 0, sp = 0, pc = 0;
  for (int i = 0; i < t->np; i++) loc[i] = args[i];
  for (int i = 0; i < f->nloc; i++) loc[t->np + i] = mk(f->loc[i], 0);
  lab[nl++] = (Lab){f->nins, 0, t->nr, 0};
  int d; /* branch depth */
  while (pc < f->nins) {
    Ins *i = &f->ins[pc]; r_steps++;
    if (r_fuel-- == 0) rtrap("fuel");
    switch (i->op) {
    case UNREACHABLE: rtrap("unreachable");
    case NOP: pc++; break;
    case BLOCK: case LOOP: case IF: {
      int els, e = r_match(f, pc, &els), np, nr; r_btype(m, i, &np, &nr, 0);
      if (i->op == IF) {
        V c = st[--sp];
        if ((uint32_t)c.b) { lab[nl++] = (Lab){e + 1, sp - np, nr, 0}; pc++; }
        else if (els >= 0) { lab[nl++] = (Lab){e + 1, sp - np, nr, 0}; pc = els + 1; }
        else pc = e + 1;
      } else if (i->op == LOOP) { lab[nl++] = (Lab){pc + 1, sp - np, np, 1}; pc++; }
      else { lab[nl++] = (Lab){e + 1, sp - np, nr, 0}; pc++; }
      break;
    }
    case ELSE: { pc = lab[nl - 1].pc_cont; nl--; break; }
    case END: nl--; pc++; break;
    case BR_IF: if (!(uint32_t)st[--sp].b) { pc++; break; } d = (int)i->a; goto branch;
    case BR_TABLE: { uint32_t k = (uint32_t)st[--sp].b; d = i->vec[k < (uint32_t)(i->nvec - 1) ? k : (uint32_t)(i->nvec - 1)]; goto branch; }
    case BR: d = (int)i->a;
    branch: {
      Lab *l = &lab[nl - 1 - d];
      memmove(&st[l->height], &st[sp - l->arity], sizeof(V) * l->arity); sp = l->height + l->arity;
      pc = l->pc_cont; nl -= l->is_loop ? d : d + 1;
      if (nl <= 0) pc = f->nins;
      break;
    }
    case RETURN: memmove(&st[0], &st[sp - t->nr], sizeof(V) * t->nr); sp = t->nr; pc = f->nins; break;
    case CALL: case RCALL: case CALL_IND: case RCALL_IND: {
      RFunc *rf; FT *ct;
      if (i->op == CALL || i->op == RCALL) { rf = in->f[i->a]; }
      else { RTab *tb = in->tab[i->b]; uint32_t k = (uint32_t)st[--sp].b; if (k >= tb->size) rtrap("table oob"); rf = (RFunc *)(uintptr_t)tb->e[k]; if (!rf) rtrap("null elem"); }
      int ti;
      if (i->op == CALL || i->op == RCALL) { int nif = mod_nimpk(m, 0); if (i->a < nif) { int k = -1, c = 0; for (int q = 0; q < m->nimp; q++) if (m->imp[q].kind == 0) { if (c++ == i->a) k = q; } ti = m->imp[k].type; } else ti = m->fn[i->a - nif].type; } else ti = (int)i->a;
      ct = &m->ft[ti];
      V r[64]; sp -= ct->np; r_call(rf, &st[sp], r); memcpy(&st[sp], r, sizeof(V) * ct->nr); sp += ct->nr;
      if (i->op == RCALL || i->op == RCALL_IND) { memmove(&st[0], &st[sp - t->nr], sizeof(V) * t->nr); sp = t->nr; pc = f->nins; } else pc++;
      break;
    }
    case DROP: sp--; pc++; break;
    case SELECT: case SELECT_T: { V c = st[--sp], y = st[--sp]; if (!(uint32_t)c.b) st[sp - 1] = y; pc++; break; }
    case LGET: st[sp++] = loc[i->a]; pc++; break;
    case LSET: loc[i->a] = st[--sp]; pc++; break;
    case LTEE: loc[i->a] = st[sp - 1]; pc++; break;
    case GGET: st[sp++] = *in->glob[i->a]; pc++; break;
    case GSET: *in->glob[i->a] = st[--sp]; pc++; break;
    case TGET: { RTab *tb = in->tab[i->a]; uint32_t k = (uint32_t)st[sp - 1].b; if (k >= tb->size) rtrap("table oob"); st[sp - 1] = mk(FREF, tb->e[k]); pc++; break; }
    case TSET: { RTab *tb = in->tab[i->a]; V v = st[--sp]; uint32_t k = (uint32_t)st[--sp].b; if (k >= tb->size) rtrap("table oob"); tb->e[k] = v.b; pc++; break; }
    case TSIZE: st[sp++] = mk(I32, in->tab[i->a]->size); pc++; break;
    case TGROW: { RTab *tb = in->tab[i->a]; uint32_t n = (uint32_t)st[--sp].b; V v = st[sp - 1]; uint32_t o = tb->size; if ((uint64_t)o + n > tb->max) { st[sp - 1] = mk(I32, ~0u); } else { tb->e = realloc(tb->e, 8 * (o + n + 1)); for (uint32_t k = 0; k < n; k++) tb->e[o + k] = v.b; tb->size = o + n; st[sp - 1] = mk(I32, o); } pc++; break; }
    case TFILL: { RTab *tb = in->tab[i->a]; uint32_t n = (uint32_t)st[--sp].b; V v = st[--sp]; uint32_t k = (uint32_t)st[--sp].b; if ((uint64_t)k + n > tb->size) rtrap("table oob"); while (n--) tb->e[k++] = v.b; pc++; break; }
    case TCOPY: { RTab *td = in->tab[i->a], *ts = in->tab[i->b]; uint32_t n = (uint32_t)st[--sp].b, s = (uint32_t)st[--sp].b, dd = (uint32_t)st[--sp].b; if ((uint64_t)s + n > ts->size || (uint64_t)dd + n > td->size) rtrap("table oob"); memmove(td->e + dd, ts->e + s, 8ull * n); pc++; break; }
    case MSIZE: { RMem *mm = in->mem[i->a]; st[sp++] = mk(mm->is64 ? I64 : I32, mm->pages); pc++; break; }
    case MGROW: { RMem *mm = in->mem[i->a]; uint64_t n = mm->is64 ? st[sp - 1].b : (uint32_t)st[sp - 1].b; uint32_t o = mm->pages; if (n > mm->max || o + n > mm->max) st[sp - 1] = mk(mm->is64 ? I64 : I32, ~0ull); else { if (o + n > mm->alloc_pages) rtrap("model memory"); mm->pages = o + n; st[sp - 1] = mk(mm->is64 ? I64 : I32, o); } pc++; break; }
    case MFILL: { RMem *mm = in->mem[i->a]; uint64_t n = st[--sp].b; uint8_t v = (uint8_t)st[--sp].b; uint64_t dd = st[--sp].b; if (dd + n > mm->pages * RPAGE || dd + n < n) rtrap("oob"); memset(mm->b + dd, v, n); pc++; break; }
    case MCOPY: { RMem *md = in->mem[i->a], *ms = in->mem[i->b]; uint64_t n = st[--sp].b, s = st[--sp].b, dd = st[--sp].b; if (s + n > ms->pages * RPAGE || dd + n > md->pages * RPAGE || s + n < n || dd + n < n) rtrap("oob"); memmove(md->b + dd, ms->b + s, n); pc++; break; }
    case KI32: st[sp++] = mk(I32, (uint32_t)i->a); pc++; break;
    case KI64: st[sp++] = mk(I64, i->a); pc++; break;
    case KF32: st[sp++] = mk(F32, (uint32_t)i->a); pc++; break;
    case KF64: st[sp++] = mk(F64, i->a); pc++; break;
    case REFNULL: st[sp++] = mk((int)i->a, 0); pc++; break;
    case REFISNULL: st[sp - 1] = mk(I32, st[sp - 1].b == 0); pc++; break;
    case REFFUNC: st[sp++] = mk(FREF, (uint64_t)(uintptr_t)in->f[i->a]); pc++; break;
    default:
      if (is_load(i->op)) {
        int w = mem_width(i->op); uint8_t *p = r_ea(in, i, st[sp - 1], w); uint64_t v = 0; memcpy(&v, p, w);
        switch (i->op) {
        case 0x28: st[sp - 1] = mk(I32, v); break; case 0x29: st[sp - 1] = mk(I64, v); break; case 0x2a: st[sp - 1] = mk(F32, v); break; case 0x2b: st[sp - 1] = mk(F64, v); break;
        case 0x2c: st[sp - 1] = mk(I32, (uint32_t)(int8_t)v); break; case 0x2d: st[sp - 1] = mk(I32, v); break; case 0x2e: st[sp - 1] = mk(I32, (uint32_t)(int16_t)v); break; case 0x2f: st[sp - 1] = mk(I32, v); break;
        case 0x30: st[sp - 1] = mk(I64, (int64_t)(int8_t)v); break; case 0x31: st[sp - 1] = mk(I64, v); break; case 0x32: st[sp - 1] = mk(I64, (int64_t)(int16_t)v); break; case 0x33: st[sp - 1] = mk(I64, v); break; case 0x34: st[sp - 1] = mk(I64, (int64_t)(int32_t)v); break; case 0x35: st[sp - 1] = mk(I64, v); break;
        }
        pc++; break;
      }
      if (is_store(i->op)) { V v = st[--sp]; if (r_nan_skip && v.nan) rtrap("NaN bits"); int w = mem_width(i->op); uint8_t *p = r_ea(in, i, st[--sp], w); memcpy(p, &v.b, w); pc++; break; }
      { int a, r, n = num_sig(i->op, &a, &r); if (!n) mc_die("interpreter: unknown op");
        if (n == 1) st[sp - 1] = r_num(i->op, st[sp - 1], st[sp - 1]); else { sp--; st[sp - 1] = r_num(i->op, st[sp - 1], st[sp]); }
        pc++; break; }
    }
  }
  for (int i = 0; i < t->nr; i++) res[i] = st[sp - t->nr + i];
  r_depth--;
  free(loc); free(st);
}
static void r_call(RFunc *rf, V *args, V *res) {
  if (rf->host) { r_hostmodel(rf->hid, args, res); return; }
  V a[64]; if (args) memcpy(a, args, sizeof a); /* args may alias the caller's stack */
  r_exec(rf->in, rf->idx, a, res);
}
/* instantiate m in the model.  imports[] gives what each import resolves to (RFunc*, RTab*, RMem*, V*). */
static void r_inst(RInst *in, Mod *m, void **imports) {
  int nf = 0, nm = 0, nt = 0, ng = 0; in->m = m;
  for (int i = 0; i < m->nimp; i++) switch (m->imp[i].kind) { case 0: in->f[nf++] = imports[i]; break; case 1: in->tab[nt++] = imports[i]; break; case 2: in->mem[nm++] = imports[i]; break; default: in->glob[ng++] = imports[i]; }
  for (int i = 0; i < m->nfn; i++) { in->own[i] = (RFunc){0, 0, in, i}; in->f[nf++] = &in->own[i]; }
  for (int i = 0; i < m->ntab; i++) { in->otab[i] = (RTab){calloc(m->tab[i].min + 1, 8), m->tab[i].min, m->tab[i].hasmax ? m->tab[i].max : m->tab[i].min}; in->tab[nt++] = &in->otab[i]; }
  for (int i = 0; i < m->nmem; i++) { Mem *x = &m->mem[i]; uint32_t al = x->hasmax ? x->max : x->min + 4; if (al > 64) al = 64; in->omem[i] = (RMem){calloc(al + 1, 65536), x->min, x->hasmax ? x->max : 32768, x->is64, al}; in->mem[nm++] = &in->omem[i]; }
  for (int i = 0; i < m->nglob; i++) { V v; r_off(m->glob[i].ins, m->glob[i].nins, in, &v); in->oglob[i] = v; in->oglob[i].t = m->glob[i].vt; in->glob[ng++] = &in->oglob[i]; }
  for (int i = 0; i < m->nelem; i++) { Elem *e = &m->elem[i]; if (e->flags & 1) continue; uint32_t o = (uint32_t)r_off(e->off, e->noff, in, 0); for (int k = 0; k < e->n; k++) in->tab[(e->flags & 2) ? e->tab : 0]->e[o + k] = e->fidx[k] <= -2 ? in->glob[-2 - e->fidx[k]]->b : e->fidx[k] < 0 ? 0 : (uint64_t)(uintptr_t)in->f[e->fidx[k]]; }
  for (int i = 0; i < m->ndata; i++) { Data *d = &m->data[i]; if (d->flags == 1) continue; uint64_t o = r_off(d->off, d->noff, in, 0); memcpy(in->mem[d->flags == 2 ? d->mem : 0]->b + o, d->bytes, d->n); }
}
static void r_free(RInst *in) { for (int i = 0; i < in->m->ntab; i++) free(in->otab[i].e); for (int i = 0; i < in->m->nmem; i++) free(in->omem[i].b); }

/* run f in the model; returns 0, or 1 if the model trapped (outside the claimed domain) */
static int r_run(RFunc *f, V *args, V *res) { r_trap = 0; r_nan = 0; r_fuel = r_fuel_max; r_depth = 0; if (setjmp(r_jmp)) return 1; uint64_t s = r_steps; r_call(f, args, res); mc_steps(r_steps - s); return 0; }

/* ---------- the real thing ---------- */
static struct pwart_global_compile_config g_cfg; /* what the current case runs under */
static void set_cfg(int stack, int misc) { g_cfg.stack_flags = stack; g_cfg.misc_flags = misc; pwart_set_global_compile_config(&g_cfg); }
static int tsize(int t) { return t == I32 || t == F32 ? 4 : 8; }
/* byte offsets of values on the stack, per the documented layout */
static int layout(const uint8_t *ts, int n, int *off) { int p = 0; for (int i = 0; i < n; i++) { int s = tsize(ts[i]); if ((g_cfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN) && s == 8) p = (p + 7) & ~7; off[i] = p; p += s; } return p; }
static void put_vals(uint8_t *fp, const uint8_t *ts, int n, V *v) { int o[64]; layout(ts, n, o); for (int i = 0; i < n; i++) memcpy(fp + o[i], &v[i].b, tsize(ts[i])); }
static void get_vals(uint8_t *fp, const uint8_t *ts, int n, V *v) { int o[64]; layout(ts, n, o); for (int i = 0; i < n; i++) { v[i].t = ts[i]; v[i].nan = 0; v[i].b = 0; memcpy(&v[i].b, fp + o[i], tsize(ts[i])); } }

/* call through a trampoline that fills every register with junk first and checks what the ABI promises */
static uint64_t tr_save[16]; static uint64_t tr_out[8];
static void (*tr_target)(void *, void *);
__attribute__((naked, noinline)) static void tr_call(void *a, void *b) {
  __asm__ volatile(
      "push %%rbx\n push %%rbp\n push %%r12\n push %%r13\n push %%r14\n push %%r15\n sub $8,%%rsp\n"
      "mov %%rsp, tr_save_rsp(%%rip)\n"
      "movabs $0xb1b1b1b1b1b1b1b1,%%rbx\n movabs $0xb2b2b2b2b2b2b2b2,%%rbp\n movabs $0xb3b3b3b3b3b3b3b3,%%r12\n movabs $0xb4b4b4b4b4b4b4b4,%%r13\n movabs $0xb5b5b5b5b5b5b5b5,%%r14\n movabs $0xb6b6b6b6b6b6b6b6,%%r15\n"
      "movabs $0xc1c1c1c1c1c1c1c1,%%rax\n mov %%rax,%%rcx\n mov %%rax,%%rdx\n mov %%rax,%%r8\n mov %%rax,%%r9\n mov %%rax,%%r10\n"
      "movq %%rax,%%xmm0\n movddup %%xmm0,%%xmm0\n movaps %%xmm0,%%xmm1\n movaps %%xmm0,%%xmm2\n movaps %%xmm0,%%xmm3\n movaps %%xmm0,%%xmm4\n movaps %%xmm0,%%xmm5\n movaps %%xmm0,%%xmm6\n movaps %%xmm0,%%xmm7\n"
      "movaps %%xmm0,%%xmm8\n movaps %%xmm0,%%xmm9\n movaps %%xmm0,%%xmm10\n movaps %%xmm0,%%xmm11\n movaps %%xmm0,%%xmm12\n movaps %%xmm0,%%xmm13\n movaps %%xmm0,%%xmm14\n movaps %%xmm0,%%xmm15\n"
      "call *tr_target_(%%rip)\n"
      "mov %%rbx, tr_out_(%%rip)\n mov %%rbp, 8+tr_out_(%%rip)\n mov %%r12, 16+tr_out_(%%rip)\n mov %%r13, 24+tr_out_(%%rip)\n mov %%r14, 32+tr_out_(%%rip)\n mov %%r15, 40+tr_out_(%%rip)\n mov %%rsp, 48+tr_out_(%%rip)\n"
      "mov tr_save_rsp(%%rip),%%rsp\n"
      "add $8,%%rsp\n pop %%r15\n pop %%r14\n pop %%r13\n pop %%r12\n pop %%rbp\n pop %%rbx\n cld\n ret\n"
      ::);
}
uint64_t tr_save_rsp, tr_out_[8]; void (*tr_target_)(void *, void *);
__attribute__((noinline)) static void dirty_stack(void) { volatile uint64_t a[600]; for (int i = 0; i < 600; i++) a[i] = 0xdededededededededull; __asm__ volatile("" ::"r"(a) : "memory"); }
#define WSTK (1 << 16)
static uint8_t *w_stack_raw, *w_stack; static int w_base_off; /* stack frame base */
#define WPOISON 0xd7
static int w_poison_len = 2048;
static uint8_t *wstack(void) { if (!w_stack_raw) { w_stack_raw = aligned_alloc(4096, WSTK + 8192); w_stack = w_stack_raw + 4096; memset(w_stack_raw, WPOISON, WSTK + 8192); } return w_stack; }
static void call_real_on(uint8_t *fp, pwart_wasm_function fn) {
  tr_target_ = (void *)pwart_call_wasm_function; memset(tr_out_, 0, sizeof tr_out_);
  dirty_stack();
  tr_call(fn, fp);
  static const uint64_t want[6] = {0xb1b1b1b1b1b1b1b1ull, 0xb2b2b2b2b2b2b2b2ull, 0xb3b3b3b3b3b3b3b3ull, 0xb4b4b4b4b4b4b4b4ull, 0xb5b5b5b5b5b5b5b5ull, 0xb6b6b6b6b6b6b6b6ull};
  static const char *rn[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
  for (int i = 0; i < 6; i++) if (tr_out_[i] != want[i]) mc_fail("compiled code returned with %s changed (the host's callee-saved register)", rn[i]);
  if (tr_out_[6] != tr_save_rsp) mc_fail("compiled code returned with a moved native stack pointer");
}
static void call_real(pwart_wasm_function fn, FT *t, V *args, V *res) {
  uint8_t *fp = wstack();
  memset(fp - 64, WPOISON, w_poison_len);
  put_vals(fp, t->p, t->np, args);
  call_real_on(fp, fn);
  get_vals(fp, t->r, t->nr, res);
  for (int i = 1; i <= 64; i++) if (fp[-i] != WPOISON) mc_fail("bytes below the frame were overwritten (offset -%d)", i);
}
static int v_eq(V want, V got) { if ((want.nan || (r_nan && (want.t == F32 || want.t == F64))) && visnan(want)) { V g = got; g.t = want.t; return visnan(g); } return want.b == got.b; }
static void pr_v(char *o, int cap, V v) { snprintf(o, cap, "%s:0x%llx%s", tname(v.t), (unsigned long long)v.b, v.nan ? "(nan)" : ""); }
/* ---- one-module convenience ---- */
static Mod M; static RInst R; static pwart_module_state g_st; static char *g_err;
static struct { pwart_module_state st[16]; int n; } g_live;
static void *g_last_code; 
static pwart_module_state real_load_bytes(const void *bytes, int n, struct pwart_symbol_resolver *rs, char **err);
static pwart_module_state real_load(Mod *m, struct pwart_symbol_resolver *rs, char **err) {
  mod_encode(m, &g_out);
  return real_load_bytes(g_out.p, g_out.n, rs, err);
}
#include <sys/mman.h>
static uint8_t *g_guard_end; static size_t g_guard_cap;
static int g_guard_ro; /* also forbid writing to the bytes while they are compiled */
/* hand the library a private copy that ends at an inaccessible page, and destroy it afterwards */
static uint8_t *guard_copy(const void *p, int n) {
  if (!g_guard_end) { g_guard_cap = 1 << 20; uint8_t *r = mmap(0, g_guard_cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (r == MAP_FAILED || mprotect(r + g_guard_cap, 4096, PROT_NONE)) mc_die("mmap"); g_guard_end = r + g_guard_cap; }
  if ((size_t)n > g_guard_cap) mc_die("module too large");
  memcpy(g_guard_end - n, p, n); if (n < 4000) memset(g_guard_end - n - 64, 0xff, 64);
  return g_guard_end - n;
}
static pwart_module_state real_load_bytes(const void *bytes, int n, struct pwart_symbol_resolver *rs, char **err) {
  char *copy = (char *)guard_copy(bytes, n); size_t plen = (n + 4095) & ~4095u;
  if (g_guard_ro && mprotect(g_guard_end - plen, plen, PROT_READ)) mc_die("mprotect");
  pwart_module_compiler c = pwart_new_module_compiler();
  if (rs) pwart_set_symbol_resolver(c, rs);
  char *e = pwart_compile(c, copy, n);
  pwart_module_state st = NULL;
  if (!e) st = pwart_get_module_state(c);
  *err = e;
  pwart_free_module_compiler(c);
  if (g_guard_ro && mprotect(g_guard_end - plen, plen, PROT_READ | PROT_WRITE)) mc_die("mprotect");
  memset(copy, 0xee, n); /* the caller need not keep the bytes */
  return st;
}
static void describe_M(void) { mc_desc("stack_flags=%d misc_flags=%d\n", g_cfg.stack_flags, g_cfg.misc_flags); pr_mod(&M); }
static V d_args[64]; static int d_nargs;
static void cmp_results(FT *t, V *want, V *got, const char *what) {
  for (int i = 0; i < t->nr; i++) {
    if (t->r[i] == FREF) { if ((want[i].b == 0) != (got[i].b == 0)) mc_fail("%s: result %d is %s, must be %s", what, i, got[i].b ? "a reference" : "null", want[i].b ? "a reference" : "null"); continue; }
    want[i].t = t->r[i];
    if (!v_eq(want[i], got[i])) { char a[80], b[80], c[600]; int n = 0; c[0] = 0; pr_v(a, 80, want[i]); pr_v(b, 80, got[i]); for (int k = 0; k < t->np && n < 500; k++) { char q[80]; pr_v(q, 80, d_args[k]); n += snprintf(c + n, 600 - n, " %s", q); } mc_fail("%s(%s): result %d is %s, must be %s", what, c, i, b, a); }
  }
}
static uint64_t g_outh;
/* call function index fi of the already instantiated pair (R, g_st) and compare results */
static int diff_call(const char *name, int fi, V *args) {
  FT *t = &M.ft[M.fn[fi].type]; V want[64], got[64]; memset(want, 0, sizeof want);
  d_nargs = t->np; for (int i = 0; i < t->np; i++) d_args[i] = args[i];
  if (r_run(&R.own[fi], args, want)) return 1;
  pwart_wasm_function fn = pwart_get_export_function(g_st, name);
  if (!fn) mc_fail("export %s not found", name);
  call_real(fn, t, args, got);
  cmp_results(t, want, got, name);
  for (int i = 0; i < t->nr; i++) g_outh = mc_hash(g_outh, &want[i].b, 8);
  return 0;
}
static void cmp_memory(int k, const char *exp) {
  struct pwart_wasm_memory *pm = pwart_get_export_memory(g_st, exp);
  if (!pm) mc_fail("exported memory %s not found", exp);
  RMem *rm = R.mem[k];
  if (pm->pages != rm->pages) mc_fail("memory %s has %u pages, must have %u", exp, pm->pages, rm->pages);
  if (memcmp(pm->bytes, rm->b, rm->pages * RPAGE)) { size_t i = 0; while (pm->bytes[i] == rm->b[i]) i++; mc_fail("memory %s byte %zu is 0x%02x, must be 0x%02x", exp, i, pm->bytes[i], rm->b[i]); }
}
static void inst_both(struct pwart_symbol_resolver *rs, void **imports) {
  mc_describe_cb = describe_M; mc_predesc();
  g_st = real_load(&M, rs, &g_err);
  if (!g_st) mc_fail("a valid module was rejected: %s", g_err ? g_err : "(no message)");
  r_inst(&R, &M, imports);
}
static void free_both(void) { r_free(&R); pwart_free_module_state(g_st); g_st = NULL; }
/* whole life of a module with one exported function "f" and one call */
static int diff_once(V *args) {
  inst_both(NULL, NULL);
  int t = diff_call("f", M.nfn - 1, args);
  free_both();
  mc_outcome(g_outh);
  return t;
}
#endif
