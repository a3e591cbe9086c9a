/* shared generator for operand forms */
#include "wasm.h"
/* Every way a value can reach an operator: the code generator keeps pending
 * operands in different places depending on where they come from. */
enum { FO_CONST, FO_PARAM, FO_LOCAL, FO_TEMP, FO_MEM, FO_GLOBAL, FO_CALL, FO_SELECT, FO_TEE, FO_BLOCK, FO_XCLASS, FO_MANY, FO_WRAP, NFORM, FO_CMP = NFORM };
static const char *form_name[] = {"const", "param", "local", "temp", "mem", "global", "call", "select", "tee", "block", "reinterpreted", "10th local", "wrapped", "flags"};
static int g_nparam_extra;
/* layout used by the op harness: params 0..1 hold the operands (types t0,t1); locals declared after */
typedef struct { int np; uint8_t pt[4]; V pv[4]; int idfn[4]; int floc[4]; } Opnds;
static int st_op(int t) { return t == I32 ? 0x36 : t == I64 ? 0x37 : t == F32 ? 0x38 : 0x39; }
static int ld_op(int t) { return t == I32 ? 0x28 : t == I64 ? 0x29 : t == F32 ? 0x2a : 0x2b; }
static int add_local(Fn *f, int t) { FT *ft = &M.ft[f->type]; f->loc[f->nloc] = t; return ft->np + f->nloc++; }
static int neg_op(int t) { return t == F32 ? 0x8c : 0x9a; }
static int other(int t) { return t == I32 ? F32 : t == I64 ? F64 : t == F32 ? I32 : I64; }
static int rein(int to) { return to == I32 ? 0xbc : to == I64 ? 0xbd : to == F32 ? 0xbe : 0xbf; }
/* prologue for operand k in form */
static void form_prologue(Fn *f, int form, int t, int k, int *aux) {
  switch (form) {
  case FO_LOCAL: *aux = add_local(f, t); E1(f, LGET, k); E1(f, LSET, *aux); break;
  case FO_MANY: for (int i = 0; i < 9; i++) add_local(f, t); *aux = add_local(f, t); E1(f, LGET, k); E1(f, LSET, *aux); break;
  case FO_TEE: *aux = add_local(f, t); break;
  case FO_MEM: E1(f, KI32, 16 + 8 * k); E1(f, LGET, k); emit_mem(f, st_op(t), 0, 0); break;
  case FO_GLOBAL: E1(f, LGET, k); E1(f, GSET, t == I32 ? 0 + k : t == I64 ? 2 + k : t == F32 ? 4 + k : 6 + k); break;
  }
}
static void form_push(Fn *f, int form, int t, int k, uint64_t bits, int aux) {
  switch (form) {
  case FO_CONST: emit_k(f, t, bits); break;
  case FO_PARAM: E1(f, LGET, k); break;
  case FO_LOCAL: case FO_MANY: E1(f, LGET, aux); break;
  case FO_TEMP:
    E1(f, LGET, k);
    if (t == I32) { E1(f, KI32, 0); E0(f, 0x72); } else if (t == I64) { E1(f, KI64, 0); E0(f, 0x84); } else { E0(f, neg_op(t)); E0(f, neg_op(t)); }
    break;
  case FO_MEM: E1(f, KI32, 16 + 8 * k); emit_mem(f, ld_op(t), 0, 0); break;
  case FO_GLOBAL: E1(f, GGET, t == I32 ? 0 + k : t == I64 ? 2 + k : t == F32 ? 4 + k : 6 + k); break;
  case FO_CALL: E1(f, LGET, k); E1(f, CALL, t == I32 ? 0 : t == I64 ? 1 : t == F32 ? 2 : 3); break;
  case FO_SELECT: E1(f, LGET, k); emit_k(f, t, 0x55); E1(f, KI32, 1); E0(f, SELECT); break;
  case FO_TEE: E1(f, LGET, k); E1(f, LTEE, aux); break;
  case FO_BLOCK: E1(f, BLOCK, t); E1(f, LGET, k); E0(f, END); break;
  case FO_XCLASS: E1(f, LGET, k); E0(f, rein(other(t))); E0(f, rein(t)); break;
  case FO_WRAP: /* narrowed: whatever holds the wide value has other upper bits */
    E1(f, LGET, k);
    if (t == I32) { E0(f, 0xad); E1(f, KI64, 0x1234567900000000ll); E0(f, 0x84); E0(f, 0xa7); }
    else if (t == I64) { emit_k(f, I64, 0x8000000000000001ull); E0(f, 0x85); emit_k(f, I64, 0x8000000000000001ull); E0(f, 0x85); }
    else { E0(f, neg_op(t)); E0(f, rein(other(t))); E0(f, rein(t)); E0(f, neg_op(t)); }
    break;
  case FO_CMP: E1(f, LGET, k); E1(f, KI32, 0); E0(f, 0x47); break;
  }
}
static const uint8_t all_t[4] = {I32, I64, F32, F64};
/* module skeleton: identity functions 0..3, globals 0..7, memory 1 page; returns main function with params (t0,t1) -> res */
static Fn *skeleton(int np, const uint8_t *pt, int nr, const uint8_t *rt) {
  mod_reset(&M);
  for (int i = 0; i < 4; i++) { mod_ft(&M, 1, &all_t[i], 1, &all_t[i]); Fn *f = mod_fn(&M, i); E1(f, LGET, 0); }
  for (int i = 0; i < 8; i++) { Glob *g = &M.glob[M.nglob++]; g->vt = all_t[i / 2]; g->mut = 1; g->nins = 1; memset(&g->ins[0], 0, sizeof(Ins)); g->ins[0].op = kop(g->vt); }
  M.mem[0] = (Mem){1, 1, 1, 0}; M.nmem = 1;
  int ty = mod_ft(&M, np, pt, nr, rt);
  Fn *f = mod_fn(&M, ty);
  mod_exp(&M, "f", 0, 4);
  return f;
}
