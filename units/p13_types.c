//@file prop=P13 unwind=10 bunwind=10 sources=context_util.c kind=proved
#include "model.h"
#include "log_stub.h"
/* the check that all guards rely on, for every kind and lists of up to five kinds (callers name at most five) */
static struct disir_context c; static int L[5];
static enum disir_status st(int n)
{
  switch (n) { case 0: return dx_context_type_check_log_error(&c, 0); case 1: return dx_context_type_check_log_error(&c, L[0], 0); case 2: return dx_context_type_check_log_error(&c, L[0], L[1], 0); case 3: return dx_context_type_check_log_error(&c, L[0], L[1], L[2], 0); case 4: return dx_context_type_check_log_error(&c, L[0], L[1], L[2], L[3], 0); default: return dx_context_type_check_log_error(&c, L[0], L[1], L[2], L[3], L[4], 0); }
}
static void check(int n)
{
  int k = nd_int(); vt_ctx(&c, k, NULL, &c); _Bool known = k > 0 && k < DISIR_CONTEXT_UNKNOWN, listed = 0; vt_any_format = 64;
  for (int i = 0; i < 5; i++) { L[i] = nd_int(); ASSUME(L[i] > 0 && L[i] <= DISIR_CONTEXT_UNKNOWN); if (i < n && L[i] == k) listed = 1; }
  CHECK(st(n) == (!known ? DISIR_STATUS_INVALID_CONTEXT : n == 0 ? DISIR_STATUS_TOO_FEW_ARGUMENTS : listed ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_CONTEXT), "a context passes exactly when its kind is listed");
  CHECK(c.cx_type == k && c.cx_refcount == 1 && c.cx_state == 0, "the context is untouched");
}
//@unit name=type_check harness=h_type_check
void h_type_check(void) { switch (nd_int()) { case 0: check(0); break; case 1: check(1); break; case 2: check(2); break; case 3: check(3); break; case 4: check(4); break; default: check(5); } REACH("checked"); }
//@unit name=state_check harness=h_state_check
void h_state_check(void)
{
  int k = nd_int(); vt_ctx(&c, k, NULL, &c); c.cx_state = nd_u32(); struct disir_context *p = nd_bool() ? &c : NULL; _Bool known = k > 0 && k < DISIR_CONTEXT_UNKNOWN; uint32_t s = c.cx_state;
  enum disir_status want = !p ? DISIR_STATUS_INVALID_ARGUMENT : c.CONTEXT_STATE_DESTROYED ? DISIR_STATUS_DESTROYED_CONTEXT : known ? DISIR_STATUS_OK : DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
  CHECK(dx_context_sp_full_check_log_error(p, "f") == want && dx_context_dp_full_check_log_error(&p, "f") == want, "only a living context of a known kind passes");
  CHECK(dx_context_dp_full_check_log_error(NULL, "f") == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  CHECK(c.cx_state == s && c.cx_type == k && c.cx_refcount == 1, "the context is untouched"); REACH("checked");
}
/* ---- kinds, types and their names ---- */
static _Bool eq(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
//@unit name=kind_names harness=h_names unwind=24 bunwind=24
void h_names(void)
{
  static const char *const kn[] = { "CONFIG", "MOLD", "SECTION", "KEYVAL", "DOCUMENTATION", "DEFAULT", "RESTRICTION", "UNKNOWN" }, *const vn[] = { "STRING", "INTEGER", "FLOAT", "BOOLEAN", "ENUM", "UNKNOWN" };
  vt_world(); int k = nd_int(), v = nd_int(); _Bool kok = k > 0 && k < DISIR_CONTEXT_UNKNOWN, vok = v > 0 && v < DISIR_VALUE_TYPE_UNKNOWN; vt_ctx(&c, k, NULL, &c);
  CHECK(dc_context_type(&c) == (kok ? k : DISIR_CONTEXT_UNKNOWN) && dx_context_type_sanify(k) == (kok ? k : DISIR_CONTEXT_UNKNOWN), "any other kind is unknown");
  CHECK(eq(dc_context_type_string(&c), kn[kok ? k - 1 : 7]) && eq(dx_context_type_string(k), kn[kok ? k - 1 : 7]) && eq(dc_context_type_string(NULL), "UNKNOWN"), "every kind has its name");
  CHECK(dx_value_type_sanify(v) == (vok ? v : DISIR_VALUE_TYPE_UNKNOWN) && eq(dx_value_type_string(v), vn[vok ? v - 1 : 5]), "every type has its name");
  CHECK(dx_context_type_is_toplevel(k) == (k == DISIR_CONTEXT_CONFIG || k == DISIR_CONTEXT_MOLD), "configs and molds are top-level");
  w.mkv.kv_value.dv_type = v; w.def.de_value.dv_type = v; enum disir_value_type t = 77;
  struct disir_context *x = nd_bool() ? &w.mkvc : &w.defc;
  CHECK(dc_value_type(x) == (vok ? v : DISIR_VALUE_TYPE_UNKNOWN) && eq(dc_value_type_string(x), vn[vok ? v - 1 : 5]), "a keyval and a default have their value's type");
  CHECK(dc_get_value_type(x, &t) == DISIR_STATUS_OK && t == v, "and report it"); CHECK(dc_value_type(&w.moldc) == DISIR_VALUE_TYPE_UNKNOWN && dc_value_type(&w.cfgc) == DISIR_VALUE_TYPE_UNKNOWN, "others have none");
  _Bool inmold = nd_bool(); x = inmold ? &w.mkvc : &w.ckvc; w.mkv.kv_value.dv_type = w.ckv.kv_value.dv_type = DISIR_VALUE_TYPE_FLOAT;
  enum disir_status s = dc_set_value_type(x, v);
  CHECK(s == (!vok ? DISIR_STATUS_INVALID_ARGUMENT : inmold ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_CONTEXT), "the type of a mold keyval can be any known type");
  CHECK(x->cx_keyval->kv_value.dv_type == (s == DISIR_STATUS_OK ? v : DISIR_VALUE_TYPE_FLOAT), "and is set exactly then"); REACH("names");
}
