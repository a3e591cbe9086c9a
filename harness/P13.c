/* P13 every legal encoding of a module means the same.  The reference is the interpreter run on the decoded program,
 * which never sees an encoding.  The bytes end at an inaccessible page, may not be written, and are destroyed after loading. */
#include "num.h"
#include "host.h"
static const char *mname;
static RTab h_tab; static RMem h_mem; static V h_gl; static struct pwart_wasm_table r_tab; static struct pwart_wasm_memory r_mem; static uint64_t r_gl; static uint8_t r_membytes[2 * 65536], m_membytes[2 * 65536]; static void *r_ent[8]; static uint64_t m_ent[8];
static void *res_x(const char *mod, const char *field, int kind) {
  if (strcmp(mod, "env")) return NULL;
  if (kind == PWART_KIND_TABLE && !strcmp(field, "t")) return &r_tab;
  if (kind == PWART_KIND_MEMORY && !strcmp(field, "m")) return &r_mem;
  if (kind == PWART_KIND_GLOBAL && !strcmp(field, "g")) return &r_gl;
  return NULL;
}
static void *imps[16]; static int segform, dseg; static int has_mem[2];
static void gi(Glob *g, int op, int64_t a) { Ins *i = &g->ins[g->nins++]; memset(i, 0, sizeof *i); i->op = op; i->a = a; }
static Elem *elem(int form, int tab, int off, int n, ...) { Elem *e = &M.elem[M.nelem++]; memset(e, 0, sizeof *e); e->flags = form == 0 ? (tab ? 2 : 0) : form == 1 ? 2 : form == 2 ? (tab ? 6 : 4) : 6; e->tab = tab; e->noff = 1; e->off[0].op = KI32; e->off[0].a = off; e->et = FREF; e->n = n; va_list ap; va_start(ap, n); for (int i = 0; i < n; i++) e->fidx[i] = va_arg(ap, int); va_end(ap); return e; }
static Data *data(int mem, int off, const char *s, int n) { Data *d = &M.data[M.ndata++]; memset(d, 0, sizeof *d); d->flags = mem || dseg ? 2 : 0; d->mem = mem; d->noff = 1; d->off[0].op = KI32; d->off[0].a = off; d->n = n; memcpy(d->bytes, s, n); return d; }
static void brtab(Fn *f, int n, ...) { Ins *i = E0(f, BR_TABLE); va_list ap; va_start(ap, n); i->vec = &M.vecpool[M.nvecpool]; i->nvec = n; for (int k = 0; k < n; k++) M.vecpool[M.nvecpool++] = va_arg(ap, int); va_end(ap); }
#define T(...) (uint8_t[]){__VA_ARGS__}
static int build(int which) { /* returns number of parameters of the exported function "f" (always i32 each) */
  mod_reset(&M); host_reset(); host_res_more = res_x; memset(imps, 0, sizeof imps); has_mem[0] = has_mem[1] = 0;
  int v, ii, f1; Fn *f;
  switch (which) {
  case 0: /* control flow, calls, tables */
    mname = "control";
    ii = mod_ft(&M, 1, T(I32), 1, T(I32)); v = mod_ft(&M, 0, 0, 0, 0); f1 = mod_ft(&M, 1, T(I32), 2, T(I32, I64)); (void)v;
    M.tab[M.ntab++] = (Tab){FREF, 6, 9, 1};
    f = mod_fn(&M, ii); E1(f, LGET, 0); E1(f, KI32, 3); E0(f, 0x6c); 
    f = mod_fn(&M, ii); add_local(f, I32); E1(f, BLOCK, 0x40); E1(f, BLOCK, 0x40); E1(f, BLOCK, 0x40); E1(f, LGET, 0); brtab(f, 3, 0, 1, 2); E0(f, END); E1(f, KI32, 10); E1(f, LSET, 1); E1(f, BR, 1); E0(f, END); E1(f, KI32, 200); E1(f, LSET, 1); E0(f, END); E1(f, LGET, 1); E1(f, LGET, 0); E0(f, 0x6a);
    f = mod_fn(&M, ii); E1(f, LGET, 0); E1(f, RCALL, 1);
    f = mod_fn(&M, ii); E1(f, LGET, 0); E1(f, LGET, 0); E1(f, KI32, 3); E0(f, 0x71); E2(f, RCALL_IND, ii, 0);
    f = mod_fn(&M, f1); for (int i = 0; i < 3; i++) add_local(f, I32); add_local(f, I64); add_local(f, F64); add_local(f, F64);
    E1(f, LGET, 0); E1(f, LGET, 0); E1(f, KI32, 3); E0(f, 0x71); E2(f, CALL_IND, ii, 0); E1(f, LTEE, 1); E1(f, LSET, 2);
    E1(f, LOOP, 0x40); E1(f, LGET, 3); E1(f, LGET, 2); E0(f, 0x6a); E1(f, LSET, 3); E1(f, LGET, 2); E1(f, KI32, 1); E0(f, 0x76); E1(f, LTEE, 2); E1(f, BR_IF, 0); E0(f, END);
    E1(f, LGET, 0); E1(f, IF, I32); E1(f, LGET, 3); E1(f, CALL, 0); E0(f, ELSE); E1(f, LGET, 3); E1(f, CALL, 3); E0(f, END); E1(f, LSET, 1);
    E1(f, LGET, 1); E1(f, LGET, 3); E1(f, LGET, 0); E1(f, SELECT_T, I32); E1(f, LGET, 3); E0(f, 0xac); E1(f, LGET, 0); E1(f, BR_IF, 0); E0(f, RETURN);
    mod_exp(&M, "f", 0, 4); mod_exp(&M, "tab", 1, 0);
    elem(segform, 0, 0, 3, 0, 1, 2); elem(segform, 0, 2, 2, 2, 3); elem(segform, 0, 3, 1, 0);
    return 1;
  case 1: /* two memories and data */
    mname = "memory";
    f1 = mod_ft(&M, 1, T(I32), 3, T(I32, I64, F32));
    M.mem[0] = (Mem){1, 3, 1, 0}; M.mem[1] = (Mem){1, 2, 1, 0}; M.nmem = 2; has_mem[0] = has_mem[1] = 1;
    f = mod_fn(&M, f1); add_local(f, F32); add_local(f, I64); add_local(f, I64);
    E1(f, LGET, 0); E1(f, LGET, 0); emit_mem(f, 0x2d, 300, 0); emit_mem(f, 0x36, 1000, 0);
    E1(f, LGET, 0); E1(f, KI64, 0x123456789abcdef0ll); emit_mem(f, 0x37, 40000, 1);
    E1(f, KI32, 8192); E1(f, KI32, 256); E1(f, KI32, 70); E1(f, MCOPY, 0); E1(f, KI32, 20000); E1(f, KI32, 300); E1(f, KI32, 33); E2(f, MCOPY, 1, 0); E1(f, KI32, 9); E1(f, KI32, 0x7e); E1(f, KI32, 5); E1(f, MFILL, 1);
    E1(f, MSIZE, 0); E1(f, MSIZE, 1); E0(f, 0x6a); E1(f, LGET, 0); emit_mem(f, 0x28, 1000, 0); E0(f, 0x6a);
    E1(f, LGET, 0); emit_mem(f, 0x29, 40000, 1); E1(f, KI32, 260); emit_mem(f, 0x2a, 1, 0);
    /* unreachable code whose immediates look like block ends */
    E1(f, BLOCK, 0x40); E1(f, BR, 0);
    for (int mi = 0; mi < 2; mi++) { E1(f, KI32, 11); emit_mem(f, 0x28, 11, mi); E0(f, DROP); E1(f, KI32, 5); E1(f, KI64, 11); emit_mem(f, 0x37, 0x0b0b, mi); E1(f, KI32, 5); E1(f, KI32, 4); E1(f, KI32, 3); E2(f, MCOPY, mi, 1); E1(f, KI32, 0); E1(f, MGROW, mi); E0(f, DROP); E1(f, MSIZE, mi); E0(f, DROP); E1(f, KI32, 5); E1(f, KI32, 4); E1(f, KI32, 3); E1(f, MFILL, mi); }
    E1(f, KF32, 0x0b050b05); E0(f, DROP); E1(f, KF64, 0x0b050b050b050b05ll); E0(f, DROP); E1(f, BLOCK, I32); E1(f, KI32, 0x0b); E1(f, KI32, 0); brtab(f, 3, 0, 0, 0); E0(f, END); E1(f, KI32, 1); E1(f, IF, 0x40); E1(f, LGET, 0); E1(f, LTEE, 0); E0(f, DROP); E0(f, ELSE); E1(f, REFNULL, FREF); E0(f, REFISNULL); E0(f, DROP); E0(f, END); E1(f, KI32, 1); E1(f, KI32, 2); E1(f, KI32, 3); E1(f, SELECT_T, I32); E0(f, DROP); E0(f, END);
    mod_exp(&M, "f", 0, 0); mod_exp(&M, "mem", 2, 0); mod_exp(&M, "mem2", 2, 1);
    data(0, 256, "hello, world\0\x01\x80\xff", 16); data(0, 300, "ABCDEFGHIJ", 10); data(1, 20001, "zz", 2); data(0, 303, "xy", 2); data(0, 65530, "last!!", 6); data(0, 65536, "", 0);
    return 1;
  case 2: /* numbers and globals */
    mname = "numbers";
    f1 = mod_ft(&M, 1, T(I32), 10, T(I32, I32, I64, I64, F32, F64, I32, I64, F32, F64));
    { Glob *g = &M.glob[M.nglob++]; g->vt = I32; g->mut = 1; g->nins = 0; gi(g, KI32, -64); gi(g, KI32, 128); gi(g, 0x6c, 0);
      g = &M.glob[M.nglob++]; g->vt = I64; g->mut = 0; g->nins = 0; gi(g, KI64, -8193); gi(g, KI64, 0x7fffffffffffffffll); gi(g, 0x7d, 0);
      g = &M.glob[M.nglob++]; g->vt = F32; g->mut = 1; g->nins = 0; gi(g, KF32, f32b(-0.0f)); g = &M.glob[M.nglob++]; g->vt = F64; g->mut = 1; g->nins = 0; gi(g, KF64, 0x7ff0000000000001ll); }
    f = mod_fn(&M, f1); for (int i = 0; i < 5; i++) add_local(f, all_t[i & 3]); add_local(f, I64); add_local(f, I64); add_local(f, F32);
    E1(f, LGET, 0); E1(f, KI32, 63); E0(f, 0x6a); E1(f, KI32, (int32_t)0x80000000); E0(f, 0x73);
    E1(f, LGET, 0); E1(f, KI32, -65); E0(f, 0x71);
    E1(f, KI64, 64); E1(f, LGET, 0); E0(f, 0xac); E0(f, 0x7c); E1(f, KI64, -0x4000000000000001ll); E1(f, LGET, 0); E0(f, 0xad); E0(f, 0x85);
    E1(f, KF32, f32b(1.25f)); E1(f, LGET, 0); E0(f, 0xb2); E0(f, 0x92); E1(f, KF64, f64b(-3.5)); E1(f, LGET, 0); E0(f, 0xb7); E0(f, 0xa2);
    E1(f, GGET, 0); E1(f, LGET, 0); E0(f, 0x6a); E1(f, GSET, 0); E1(f, GGET, 0); E1(f, GGET, 1); E1(f, GGET, 2); E1(f, KF32, f32b(2)); E1(f, GSET, 2); E1(f, GGET, 3);
    mod_exp(&M, "f", 0, 0); mod_exp(&M, "g", 3, 1);
    return 1;
  case 3: /* reference tables */
    mname = "tables";
    ii = mod_ft(&M, 1, T(I32), 1, T(I32)); f1 = mod_ft(&M, 2, T(I32, I32), 6, T(I32, I32, I32, I32, I32, I32));
    M.tab[M.ntab++] = (Tab){FREF, 5, 5, 1}; M.tab[M.ntab++] = (Tab){FREF, 6, 0, 0};
    f = mod_fn(&M, ii); E1(f, LGET, 0); E1(f, KI32, 1); E0(f, 0x6a); f = mod_fn(&M, ii); E1(f, LGET, 0); E1(f, KI32, 2); E0(f, 0x6c);
    f = mod_fn(&M, f1); add_local(f, FREF); add_local(f, XREF);
    E1(f, KI32, 0); E1(f, TGET, 1); E1(f, LSET, 2); E1(f, KI32, 1); E1(f, LGET, 2); E1(f, TSET, 0); E1(f, KI32, 3); E1(f, REFFUNC, 1); E1(f, KI32, 2); E1(f, TFILL, 0); E1(f, KI32, 2); E1(f, KI32, 0); E1(f, KI32, 3); E2(f, TCOPY, 1, 0);
    E1(f, LGET, 0); E1(f, KI32, 1); E2(f, CALL_IND, ii, 0); E1(f, LGET, 0); E1(f, KI32, 4); E2(f, CALL_IND, ii, 0); E1(f, KI32, 2); E1(f, TGET, 1); E0(f, REFISNULL); E1(f, KI32, 3); E1(f, TGET, 1); E0(f, REFISNULL);
    E1(f, TSIZE, 0); E1(f, TSIZE, 1);
    mod_exp(&M, "f", 0, 2); mod_exp(&M, "tab", 1, 0);
    elem(segform, 1, 0, 2, 0, 1); elem(segform, 0, 4, 1, 0); if (segform >= 2) elem(segform, 1, 4, 2, -1, 0);
    return 2;
  case 5: mname = "nothing"; return 0;
  case 6: mname = "only a function"; f1 = mod_ft(&M, 1, T(I32), 1, T(I32)); f = mod_fn(&M, f1); E1(f, LGET, 0); mod_exp(&M, "f", 0, 0); return 1;
  default: /* imports of every kind, start function */
    mname = "imports";
    v = mod_ft(&M, 0, 0, 0, 0); ii = mod_ft(&M, 2, T(I32, I64), 1, T(I64)); f1 = mod_ft(&M, 1, T(I32), 2, T(I64, I32));
    memset(r_membytes, 0, sizeof r_membytes); memset(m_membytes, 0, sizeof m_membytes); r_mem = (struct pwart_wasm_memory){0}; r_mem.bytes = r_membytes; r_mem.pages = r_mem.initial = 2; r_mem.maximum = 2; r_mem.fixed = 1; h_mem = (RMem){m_membytes, 2, 2, 0, 2};
    memset(r_ent, 0, sizeof r_ent); memset(m_ent, 0, sizeof m_ent); memset(&r_tab, 0, sizeof r_tab); r_tab.elem_type = FREF; r_tab.entries = r_ent; r_tab.size = r_tab.initial = r_tab.maximum = 8; h_tab = (RTab){m_ent, 8, 8};
    r_gl = 5; h_gl = mk(I32, 5);
    { Imp *p = mod_imp(&M, 3, "env", "g"); p->vt = I32; p->mut = 1; imps[0] = &h_gl; }
    imp_host(3, ii, imps);
    { Imp *p = mod_imp(&M, 2, "env", "m"); p->min = 1; p->max = 2; p->hasmax = 1; imps[2] = &h_mem; p = mod_imp(&M, 1, "env", "t"); p->vt = FREF; p->min = 3; imps[3] = &h_tab; }
    imp_host(6, v, imps);
    f = mod_fn(&M, v); E1(f, CALL, 1); f->nins = 0; E1(f, GGET, 0); E1(f, KI32, 1); E0(f, 0x6a); E1(f, GSET, 0);
    f = mod_fn(&M, f1); E1(f, KI32, 7); E1(f, LGET, 0); emit_mem(f, 0x36, 128, 0); E1(f, LGET, 0); E1(f, KI64, -1); E1(f, CALL, 0); E1(f, CALL, 1); E1(f, LGET, 0); E1(f, KI64, 5); E1(f, KI32, 6); E2(f, CALL_IND, ii, 0); E0(f, 0x85); E1(f, KI32, 5); E2(f, CALL_IND, v, 0); E1(f, GGET, 0);
    mod_exp(&M, "f", 0, 3); mod_exp(&M, "mem", 2, 0); mod_exp(&M, "st", 0, 2); M.start = 2; has_mem[0] = 1;
    { Elem *e = elem(segform, 0, 5, 2, 2, 0); (void)e; if (segform & 1) { e->off[0].op = GGET; e->off[0].a = 0; } } data(0, 100, "import", 6); if (dseg) { Data *d = data(0, 0, "at5", 3); d->off[0].op = GGET; d->off[0].a = 0; }
    return 1;
  }
}
static void describe(void) { mc_desc("module '%s': pad_mask=0x%x leb_pad=%d single=%d,%d+%d custom_mask=0x%x kind=%d locals=%d segform=%d dseg=%d datacount=%d\n", mname, M.pad_mask, M.leb_pad, g_leb_one, g_leb_two, g_leb_onepad, M.custom_mask, g_custom_kind, M.locals_mode, segform, dseg, M.datacount); describe_M(); }
static void run(int np) {
  g_guard_ro = 1; mc_describe_cb = describe; mc_predesc();
  g_st = real_load(&M, &host_rs, &g_err); if (!g_st) mc_fail("a legal encoding was rejected: %s", g_err ? g_err : "(no message)");
  r_inst(&R, &M, imps); g_outh = M.nfn;
  pwart_wasm_function s = pwart_get_start_function(g_st);
  if ((s != NULL) != (M.start >= 0) || (s && s != pwart_get_export_function(g_st, "st"))) mc_fail("start function misreported");
  for (int c = 0; c < 3 && M.nfn; c++) { V a[2] = {mk(I32, c * 3 - 1 + (c == 0 ? 2 : 0)), mk(I32, 7)}; (void)np; if (diff_call("f", M.nfn - 1, a)) mc_die(r_trap); if (has_mem[0]) cmp_memory(0, "mem"); if (has_mem[1]) cmp_memory(1, "mem2"); }
  if (M.start >= 0 && (uint32_t)r_gl != (uint32_t)h_gl.b) mc_fail("imported global differs");
  if (hn_m != hn_r || hlog_m != hlog_r) mc_fail("imported functions received other calls");
  free_both(); mc_outcome(g_outh);
}
static void b_masks(void) {
  static const int pl[] = {2, 3, 5, 10}; int which = choose(5), mask = choose(2048), p = choose_from(pl), lm = choose(3);
  if (!mc_mine()) return; set_cfg(1, 3); segform = 0; dseg = 0; g_custom_kind = 0; g_leb_one = g_leb_two = -1;
  int np = build(which); M.pad_mask = mask; M.leb_pad = p; M.locals_mode = lm; run(np);
}
static void single_(int two) {
  static const int pl[] = {2, 3, 4, 5, 6, 9, 10}; int which = choose(5), sf = choose(4), ds = choose(2); if (which != 3 && which != 4 && which != 0 && sf) { mc_owned = 0; return; }
  segform = sf; dseg = ds; set_cfg(1, 3); g_leb_one = g_leb_two = -1; g_custom_kind = 0; int np = build(which); mod_encode(&M, &g_out); int n = g_leb_n; /* a pure function of the choices so far */
  int a = choose(n), b = -1; if (two) { b = choose(n); if (b <= a) { mc_owned = 0; return; } } int p = two ? 5 : choose_from(pl);
  if (!mc_mine()) return; g_leb_one = a; g_leb_two = b; g_leb_onepad = p; run(np); g_leb_one = g_leb_two = -1;
}
static void b_single(void) { single_(0); }
static void b_pairs(void) { single_(1); }
static void b_custom(void) {
  int which = choose(5), kind = choose(7), mask = choose(4096), pad = mc_thorough ? choose(3) : 0;
  if (!mc_mine()) return; set_cfg(1, 3); segform = 0; dseg = 0; g_custom_kind = kind; g_leb_one = g_leb_two = -1;
  int np = build(which); M.custom_mask = mask; M.leb_pad = 5; M.pad_mask = pad == 0 ? 0 : pad == 1 ? PK_SECLEN | PK_NAME : PK_ALL; run(np); g_custom_kind = 0;
}
static void b_forms(void) {
  static const int pl[] = {0, 5}; int which = choose(5), lm = choose(3), cfg = choose(2), misc = choose(2), p = choose_from(pl), ck = choose(7), dc = choose(2), all = choose(2); segform = choose(4); dseg = choose(2);
  if (!mc_mine()) return; set_cfg(cfg, misc ? 3 : 2); g_leb_one = g_leb_two = -1; g_custom_kind = ck;
  int np = build(which); M.leb_pad = p; M.pad_mask = PK_ALL; M.locals_mode = lm; M.datacount = dc; M.custom_mask = all ? 0xfff : 1 << 10 | 1; run(np); g_custom_kind = 0;
}
static void b_empty(void) { /* sections that are present but have no entries */
  int which = choose(7), em = choose(2048), pad = choose(2), ck = choose(3), d = choose(2); if (em & 1 || em >> 8 & 1) { mc_owned = 0; return; }
  if (!mc_mine()) return; set_cfg(1, 3); segform = dseg = 0; g_leb_one = g_leb_two = -1; g_custom_kind = ck == 2 ? 4 : 0;
  int np = build(which); M.leb_pad = 5; M.pad_mask = pad ? PK_ALL : 0; M.empty_mask = em | (d ? 1 << 11 : 0); M.custom_mask = ck ? 0xfff : 0; run(np); g_custom_kind = 0;
}
static struct mc_space sp[] = {
  {"field-kinds", b_masks, "5 modules x every subset of the 11 kinds of variable-length integer padded to 2, 3, 5 or 10 bytes x 3 local groupings"},
  {"single-fields", b_single, "each single variable-length integer of each module and segment form padded by every amount"},
  {"pairs-of-fields", b_pairs, "every pair of fields padded to 5 bytes"},
  {"custom-sections", b_custom, "5 modules x every subset of the 12 gaps between sections holding a custom section of 7 kinds (empty, known names, unfinished numbers, long names, section-like content)"},
  {"empty-sections", b_empty, "7 modules x every subset of the sections without entries written as empty sections x paddings x custom sections"},
  {"forms", b_forms, "segment forms x local groupings x data count section x paddings x custom sections x layouts"}};
static const char *as[] = {"value types are single bytes", 0};
int main(int c, char **v) { r_nan_skip = 1; static struct mc_check k = {"P13", "one execution = one encoded module loaded from read-only bytes that end at an inaccessible page, its functions, memories and globals compared with the interpreter; non-trivial = distinct result vectors", sp, sizeof sp / sizeof *sp, as}; return mc_main(c, v, &k); }
