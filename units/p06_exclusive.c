//@file prop=P06 unwind=6 bunwind=6 sources=context_restriction.c,context.c,context_util.c,util.c
#include "model.h"
#include "log_stub.h"
#include "rlist.h"
#ifndef TY
#define TY 0
#endif
/* a config keyval whose mold keyval has any list of restrictions of the kinds its type admits */
static char TX[K][4]; static char S[4]; static int64_t I; static double D;
static const enum disir_value_type ty = TY == 0 ? DISIR_VALUE_TYPE_INTEGER : TY == 1 ? DISIR_VALUE_TYPE_FLOAT : DISIR_VALUE_TYPE_ENUM;
static void list(void)
{
  vt_world(); w.ckv.kv_mold_equiv = &w.mkvc; w.mkv.kv_value.dv_type = w.ckv.kv_value.dv_type = ty; w.cfg.cf_version = vt_nd_ver();
  rlist_links(&w.mkvc, &w.moldc, &w.mkv.kv_restrictions_queue);
  for (size_t i = 0; i < K; i++) {
    int t = nd_int(); ASSUME(t == DISIR_RESTRICTION_INC_ENTRY_MIN || t == DISIR_RESTRICTION_INC_ENTRY_MAX || (TY < 2 ? t == DISIR_RESTRICTION_EXC_VALUE_RANGE || t == DISIR_RESTRICTION_EXC_VALUE_NUMERIC : t == DISIR_RESTRICTION_EXC_VALUE_ENUM));
    R[i].re_type = t; R[i].re_introduced = vt_nd_ver(); R[i].re_deprecated = vt_nd_ver();
    R[i].re_value_min = nd_double(); R[i].re_value_max = nd_double(); R[i].re_value_numeric = nd_double();
    if (TY == 2 && nd_bool()) { nd_str(TX[i], 3); R[i].re_value_string = TX[i]; }
  }
  I = nd_i64(); D = nd_double(); nd_str(S, 3);
}
static _Bool active(int i)
{
  uint64_t v = vt_key(&w.cfg.cf_version), d = vt_key(&R[i].re_deprecated);
  return R[i].re_type != DISIR_RESTRICTION_INC_ENTRY_MIN && R[i].re_type != DISIR_RESTRICTION_INC_ENTRY_MAX && vt_key(&R[i].re_introduced) <= v && (d == 0 || v < d);
}
static _Bool same(const char *a, const char *b) { for (int i = 0; i < 4; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
static _Bool allows(int i, const char *s)
{
  double x = TY == 0 ? (double)I : D;
  if (TY == 2) return s && R[i].re_value_string && same(s, R[i].re_value_string);
  return R[i].re_type == DISIR_RESTRICTION_EXC_VALUE_RANGE ? x >= R[i].re_value_min && x <= R[i].re_value_max : x == R[i].re_value_numeric;
}
static const char *SV;
static _Bool accepted(void)
{
  int n = 0; _Bool ok = 0;
  for (int i = 0; i < K; i++) if (on[i] && active(i)) { n++; if (allows(i, SV)) ok = 1; }
  return ok || (n == 0 && TY != 2);
}
#if ELIDE
struct disir_restriction *vt_ex_havoc(int *f, int *c, int *aw) { *f = nd_int(); *c = nd_int(); *aw = nd_int(); return rlist_any(); }
_Bool vt_ex_inv(struct disir_restriction *e, int f, int c, int aw)
{
  int p = rlist_at(e); _Bool act = 0, ok = 0;
  for (int j = 0; j < K; j++) if (on[j] && pos[j] < p && active(j)) { act = 1; if (allows(j, SV)) ok = 1; }
  return rlist_known(e) && c >= 0 && c <= p && (c < p) == act && f == (ok ? 1 : 0) && aw >= 0 && aw <= 4096 && aw != 1;
}
#endif
//@assume exclusive_*: the list of restrictions is a chain of explicit nodes with any number of elided nodes between them (a list of any length below 2^31, DESIGN.md)
//@assume exclusive_*: formatting the list of allowed values is under the contract of snprintf (any length, only the given buffer is written); its text is not looked at
//@unit name=exclusive_integer harness=h_ex model=dx_context_type_check_log_error cuts=exclusive_check bound=4_restrictions defs=TY=0
//@unit name=exclusive_float harness=h_ex model=dx_context_type_check_log_error cuts=exclusive_check bound=4_restrictions defs=TY=1
//@unit name=exclusive_enum harness=h_ex model=dx_context_type_check_log_error kind=bounded cuts=exclusive_check bound=texts_of_3_bytes defs=TY=2
void h_ex(void)
{
  list(); _Bool null = nd_bool(); const char *s = SV = TY == 2 && !null ? S : NULL; vt_any_format = 1 << 20;
  enum disir_status st = dx_restriction_exclusive_value_check(&w.ckvc, TY == 0 ? I : 0, TY == 1 ? D : 0, s);
  CHECK(st == (accepted() ? DISIR_STATUS_OK : DISIR_STATUS_RESTRICTION_VIOLATED), "a value is accepted exactly when an active restriction allows it, or none is active and the type needs none");
  CHECK(dx_restriction_exclusive_value_check(&w.mkvc, TY == 0 ? I : 0, TY == 1 ? D : 0, s) == DISIR_STATUS_OK, "values of a mold are not restricted");
  REACH("exclusive");
}
