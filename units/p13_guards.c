//@file prop=P13 unwind=10 bunwind=10 model=dx_context_type_check_log_error kind=proved
#include <stdarg.h>
#include "model.h"
#include "collection.h"
#include "log_stub.h"
/* one context of every kind, a mold with its default, documentation and restriction below it */
static struct disir_context CT[8], BAD; static struct disir_section se; static struct disir_documentation doc; static struct disir_restriction re; static struct disir_version VER; static struct disir_context *c;
static void world(_Bool inconfig)
{
  vt_world(); struct disir_context *root = inconfig ? &CT[DISIR_CONTEXT_CONFIG] : &CT[DISIR_CONTEXT_MOLD];
  for (int t = 1; t < 8; t++) vt_ctx(&CT[t], t, t == DISIR_CONTEXT_CONFIG || t == DISIR_CONTEXT_MOLD ? NULL : root, t == DISIR_CONTEXT_CONFIG || t == DISIR_CONTEXT_MOLD ? &CT[t] : root);
  CT[DISIR_CONTEXT_CONFIG].cx_config = &w.cfg; w.cfg.cf_context = &CT[DISIR_CONTEXT_CONFIG]; CT[DISIR_CONTEXT_MOLD].cx_mold = &w.mold; w.mold.mo_context = &CT[DISIR_CONTEXT_MOLD];
  CT[DISIR_CONTEXT_SECTION].cx_section = &se; se.se_context = &CT[DISIR_CONTEXT_SECTION]; CT[DISIR_CONTEXT_KEYVAL].cx_keyval = &w.mkv; w.mkv.kv_context = &CT[DISIR_CONTEXT_KEYVAL]; w.mkv.kv_value.dv_type = DISIR_VALUE_TYPE_INTEGER;
  CT[DISIR_CONTEXT_DOCUMENTATION].cx_documentation = &doc; doc.dd_context = &CT[DISIR_CONTEXT_DOCUMENTATION]; CT[DISIR_CONTEXT_DEFAULT].cx_default = &w.def; w.def.de_context = &CT[DISIR_CONTEXT_DEFAULT]; w.def.de_value.dv_type = DISIR_VALUE_TYPE_INTEGER;
  CT[DISIR_CONTEXT_RESTRICTION].cx_restriction = &re; re.re_context = &CT[DISIR_CONTEXT_RESTRICTION];
  CT[DISIR_CONTEXT_DOCUMENTATION].cx_parent_context = CT[DISIR_CONTEXT_DEFAULT].cx_parent_context = CT[DISIR_CONTEXT_RESTRICTION].cx_parent_context = &CT[DISIR_CONTEXT_KEYVAL];
}
static void unchanged(void)
{
  for (int t = 1; t < 8; t++) CHECK(CT[t].cx_type == t && CT[t].cx_refcount == 1 && CT[t].cx_state == 0, "a refused call changes no context");
  CHECK(vt_alloc_live == 0, "a refused call leaves nothing allocated");
}
/* no context; a destroyed one; one of no known kind */
#define DEAD(t, CALL) { vt_ctx(&BAD, t, NULL, &BAD); BAD.CONTEXT_STATE_DESTROYED = 1; c = &BAD; CHECK((CALL) == DISIR_STATUS_DESTROYED_CONTEXT, "a destroyed context is refused"); }
#define NOKIND(t, CALL) { vt_ctx(&BAD, t, NULL, &BAD); c = &BAD; CHECK((CALL) == DISIR_STATUS_CONTEXT_IN_WRONG_STATE, "a context of no known kind is refused"); }
#define BASE(CALL) { c = NULL; CHECK((CALL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); DEAD(DISIR_CONTEXT_KEYVAL, CALL) DEAD(DISIR_CONTEXT_SECTION, CALL) DEAD(DISIR_CONTEXT_MOLD, CALL) NOKIND(0, CALL) NOKIND(DISIR_CONTEXT_UNKNOWN, CALL) NOKIND(-3, CALL) }
#define ONE(t, ok, st, CALL) if (!(ok)) { c = &CT[t]; CHECK((CALL) == (st), "a context of the wrong kind is refused"); c = &CT[t]; }
#define CF DISIR_CONTEXT_CONFIG
#define MO DISIR_CONTEXT_MOLD
#define SE DISIR_CONTEXT_SECTION
#define KV DISIR_CONTEXT_KEYVAL
#define DO DISIR_CONTEXT_DOCUMENTATION
#define DE DISIR_CONTEXT_DEFAULT
#define RE DISIR_CONTEXT_RESTRICTION
#define B(t) (1 << (t))
#define KINDS(ok, st, CALL) ONE(CF, (ok) & B(CF), st, CALL) ONE(MO, (ok) & B(MO), st, CALL) ONE(SE, (ok) & B(SE), st, CALL) ONE(KV, (ok) & B(KV), st, CALL) ONE(DO, (ok) & B(DO), st, CALL) ONE(DE, (ok) & B(DE), st, CALL) ONE(RE, (ok) & B(RE), st, CALL)
#define G(ok, CALL) { BASE(CALL) KINDS(ok, DISIR_STATUS_WRONG_CONTEXT, CALL) break; }
#define GN(ok, st, CALL) { BASE(CALL) KINDS(ok, st, CALL) break; }
#define NULLARG(t, CALL) { c = &CT[t]; CHECK((CALL) == DISIR_STATUS_INVALID_ARGUMENT, "a NULL argument is refused"); unchanged(); break; }
static enum disir_status get_default(void) { char b[4]; return dc_get_default(c, &VER, 4, b, NULL); }
static enum disir_status get_value(void) { char b[4]; return dc_get_value(c, 4, b, NULL); }
static struct disir_context *out; static struct disir_collection *col; static const char *txt; static int32_t n32; static int i32; static int64_t i64; static double f64, g64; static uint8_t u8; static enum disir_value_type vtp; static enum disir_restriction_type rt; static char *nm; static struct disir_mold *mold; static struct disir_config *cfg;
static enum disir_status fatal(const char *m, ...) { va_list ap; va_start(ap, m); enum disir_status st = dc_fatal_error_va(c, m, ap); va_end(ap); return st; }
//@unit name=guards_lifecycle harness=h_lifecycle sources=context.c,context_util.c,context_mold.c,context_config.c,context_section.c,context_keyval.c,context_default.c,context_documentation.c,context_restriction.c,util.c never=dx_validate_context,dx_config_destroy,dx_mold_destroy,dx_section_destroy,dx_keyval_destroy,dx_default_destroy,dx_restriction_destroy,dx_documentation_destroy
void h_lifecycle(void)
{
  world(nd_bool());
  switch (nd_int()) {
  case 0: G(B(CF) | B(MO) | B(SE), dc_begin(c, KV, &out)) case 1: G(B(CF) | B(MO) | B(SE), dc_begin(c, SE, &out)) case 2: G(B(KV), dc_begin(c, DE, &out)) case 3: G(B(KV) | B(SE), dc_begin(c, RE, &out))
  case 4: GN(B(MO) | B(KV) | B(SE) | B(RE), DISIR_STATUS_NO_CAN_DO, dc_begin(c, DO, &out)) case 5: GN(0, DISIR_STATUS_WRONG_CONTEXT, dc_begin(c, CF, &out)) case 6: GN(0, DISIR_STATUS_WRONG_CONTEXT, dc_begin(c, MO, &out))
  case 7: GN(0, DISIR_STATUS_INVALID_ARGUMENT, dc_begin(c, 0, &out)) case 8: GN(0, DISIR_STATUS_INVALID_ARGUMENT, dc_begin(c, DISIR_CONTEXT_UNKNOWN, &out)) case 9: NULLARG(MO, dc_begin(c, KV, NULL))
  case 10: GN(~(B(CF) | B(MO)), DISIR_STATUS_WRONG_CONTEXT, dc_finalize(&c)) case 11: G(B(MO), dc_mold_finalize(&c, &mold)) case 12: G(B(CF), dc_config_finalize(&c, &cfg))
  case 13: NULLARG(MO, dc_mold_finalize(&c, NULL)) case 14: NULLARG(CF, dc_config_finalize(&c, NULL)) case 15: NULLARG(MO, dc_finalize(NULL)) case 16: NULLARG(MO, dc_mold_finalize(NULL, &mold)) case 17: NULLARG(MO, dc_config_finalize(NULL, &cfg))
  case 18: NULLARG(MO, dc_destroy(NULL)) case 19: NULLARG(MO, dc_putcontext(NULL)) case 20: NULLARG(MO, (c = NULL, dc_destroy(&c))) case 21: NULLARG(MO, (c = NULL, dc_putcontext(&c)))
  case 22: NOKIND(0, dc_destroy(&c)) NOKIND(99, dc_putcontext(&c)) break;
  case 23: BASE(dc_context_valid(c)) c = &CT[KV]; break; case 24: NULLARG(MO, dc_mold_begin(NULL)) case 25: NULLARG(MO, dc_config_begin(NULL, &out)) case 26: NULLARG(MO, dc_config_begin(&w.mold, NULL))
  case 27: NULLARG(KV, dc_fatal_error(NULL, "x")) case 28: NULLARG(KV, dc_fatal_error(c, NULL)) case 29: NULLARG(KV, fatal(NULL))
  default: CHECK(dc_mold_getcontext(NULL) == NULL && dc_config_getcontext(NULL) == NULL && dc_context_error(NULL) == NULL, "NULL has none");
  }
  unchanged(); CHECK(out == NULL && mold == NULL && cfg == NULL, "nothing is given out"); REACH("lifecycle");
}
//@unit name=guards_elements harness=h_elements sources=context.c,context_util.c,context_mold.c,context_config.c,context_section.c,context_keyval.c,context_default.c,context_documentation.c,context_restriction.c,util.c,query.c,generate.c never=dx_value_set_string,dx_default_get_active,dx_restriction_entries_value,query_resolve_name_to_context,generate_config_from_mold_recursive_step
void h_elements(void)
{
  world(nd_bool()); memset(&VER, 1, sizeof VER); _Bool inconfig = CT[KV].cx_root_context == &CT[CF]; int k = nd_int();
  switch (k) {
  case 0: G(B(KV) | B(SE), dc_set_name(c, "n", 1)) case 1: G(B(KV) | B(SE), dc_get_name(c, &txt, &n32)) case 2: NULLARG(KV, dc_get_name(c, NULL, &n32)) case 3: NULLARG(SE, dc_set_name(c, NULL, 1)) case 39: NULLARG(KV, dc_set_name(c, "n", 0)) case 40: NULLARG(KV, dc_set_name(c, "n", -1))
  case 4: G(inconfig ? 0 : B(KV) | B(SE) | B(DE) | B(RE) | B(DO), dc_add_introduced(c, &VER)) case 5: G(inconfig ? B(DE) : B(KV) | B(SE) | B(RE) | B(DE), dc_add_deprecated(c, &VER))
  case 6: NULLARG(KV, dc_add_introduced(c, NULL)) case 7: NULLARG(KV, dc_add_deprecated(c, NULL))
  case 8: G(B(CF) | B(MO), dc_get_version(c, &VER)) case 9: G(B(CF) | B(MO), dc_set_version(c, &VER)) case 10: NULLARG(MO, dc_get_version(c, NULL)) case 11: NULLARG(MO, dc_set_version(c, NULL))
  case 12: G(B(MO) | B(CF) | B(KV) | B(SE) | B(RE), dc_get_documentation(c, &VER, &txt, &n32)) case 13: NULLARG(KV, dc_get_documentation(c, &VER, NULL, &n32))
  case 14: GN(B(MO) | B(KV) | B(SE) | B(RE), DISIR_STATUS_NO_CAN_DO, dc_add_documentation(c, "d", 1)) case 15: NULLARG(KV, dc_add_documentation(c, NULL, 1))
  case 16: G(B(KV), dc_add_default(c, "5", 1, NULL)) case 17: G(B(KV), dc_add_default_integer(c, 5, NULL)) case 18: G(B(KV), dc_add_default_string(c, "d", 1, NULL)) case 19: G(B(KV), dc_add_default_float(c, 5, NULL)) case 20: G(B(KV), dc_add_default_boolean(c, 1, NULL)) case 21: NULLARG(KV, dc_add_default(c, NULL, 1, NULL))
  case 22: G(B(KV) | B(DE), get_default()) case 23: G(inconfig ? 0 : B(KV), dc_get_default_contexts(c, &col)) case 24: NULLARG(KV, dc_get_default_contexts(c, NULL)) case 25: NULLARG(KV, dc_get_default(c, NULL, 5, NULL, NULL))
  case 26: G(inconfig ? B(KV) : 0, dc_keyval_set_default(c, NULL)) case 27: G(inconfig ? B(CF) | B(SE) : B(CF), dc_generate_from_config_root(c)) case 28: G(B(CF) | B(MO) | B(SE), dc_query_resolve_context(c, "x", &out))
  case 29: G(B(CF) | B(MO) | B(SE), dc_add_keyval_string(c, "n", "d", "d", NULL, &out)) case 30: G(B(CF) | B(MO) | B(SE), dc_add_keyval_enum(c, "n", "d", "d", NULL, &out)) case 31: G(B(CF) | B(MO) | B(SE), dc_add_keyval_integer(c, "n", 1, "d", NULL, &out)) case 32: G(B(CF) | B(MO) | B(SE), dc_add_keyval_float(c, "n", 1, "d", NULL, &out)) case 33: G(B(CF) | B(MO) | B(SE), dc_add_keyval_boolean(c, "n", 1, "d", NULL, &out))
  case 34: NULLARG(MO, dc_add_keyval_string(c, NULL, "d", "d", NULL, &out)) case 35: NULLARG(MO, dc_add_keyval_string(c, "n", NULL, "d", NULL, &out)) case 36: NULLARG(MO, dc_add_keyval_enum(c, "n", NULL, "d", NULL, &out)) case 37: NULLARG(MO, dc_add_keyval_integer(c, "n", 1, NULL, NULL, &out)) default: NULLARG(MO, dc_add_keyval_float(c, NULL, 1, "d", NULL, &out))
  }
  unchanged(); CHECK(out == NULL && txt == NULL && col == NULL, "nothing is given out"); REACH("elements");
}
//@unit name=guards_values harness=h_values sources=context.c,context_util.c,context_value.c,context_restriction.c,util.c,context_keyval.c,context_section.c,context_documentation.c
void h_values(void)
{
  world(nd_bool()); _Bool inconfig = CT[KV].cx_root_context == &CT[CF];
  switch (nd_int()) {
  case 0: G(B(KV), dc_set_value(c, "5", 1)) case 1: G(B(KV) | B(DE) | B(DO), dc_set_value_string(c, "s", 1)) case 2: G(B(KV) | B(DE) | B(DO), dc_set_value_enum(c, "s", 1)) case 3: G(B(KV) | B(DE) | B(DO), dc_set_value_integer(c, 5)) case 4: G(B(KV) | B(DE) | B(DO), dc_set_value_float(c, 5)) case 5: G(B(KV) | B(DE) | B(DO), dc_set_value_boolean(c, 1))
  case 45: c = &CT[DO]; doc.dd_value.dv_type = DISIR_VALUE_TYPE_STRING; CHECK(dc_set_value_integer(c, 5) == DISIR_STATUS_WRONG_VALUE_TYPE && dc_set_value_float(c, 5) == DISIR_STATUS_WRONG_VALUE_TYPE && dc_set_value_boolean(c, 1) == DISIR_STATUS_WRONG_VALUE_TYPE, "documentation is text"); break;
  case 6: G(B(KV), get_value()) case 7: G(B(KV) | B(DE) | B(DO), dc_get_value_string(c, &txt, &n32)) case 8: G(B(KV) | B(DE), dc_get_value_enum(c, &txt, &n32)) case 9: G(B(KV) | B(DE), dc_get_value_integer(c, &i64)) case 10: G(B(KV) | B(DE), dc_get_value_float(c, &f64)) case 11: G(B(KV) | B(DE), dc_get_value_boolean(c, &u8))
  case 12: NULLARG(KV, dc_get_value_string(c, NULL, &n32)) case 13: NULLARG(DE, dc_get_value_integer(c, NULL)) case 14: NULLARG(DE, (w.def.de_value.dv_type = DISIR_VALUE_TYPE_FLOAT, dc_get_value_float(c, NULL))) case 15: NULLARG(DE, (w.def.de_value.dv_type = DISIR_VALUE_TYPE_BOOLEAN, dc_get_value_boolean(c, NULL))) case 16: NULLARG(KV, dc_get_value(c, 5, NULL, NULL))
  case 17: G(B(KV) | B(DE), dc_get_value_type(c, &vtp)) case 18: NULLARG(KV, dc_get_value_type(c, NULL)) case 19: G(inconfig ? 0 : B(KV), dc_set_value_type(c, DISIR_VALUE_TYPE_FLOAT)) case 20: NULLARG(KV, dc_set_value_type(c, 0)) case 21: NULLARG(KV, dc_set_value_type(c, DISIR_VALUE_TYPE_UNKNOWN)) case 22: NULLARG(KV, dc_set_value_type(c, -4))
  case 23: G(B(RE), dc_get_restriction_type(c, &rt)) case 24: G(B(RE), dc_set_restriction_type(c, DISIR_RESTRICTION_INC_ENTRY_MIN)) case 25: G(B(RE), dc_restriction_get_string(c, &txt)) case 26: G(B(RE), dc_restriction_set_string(c, "s")) case 27: G(B(RE), dc_restriction_get_range(c, &f64, &g64)) case 28: G(B(RE), dc_restriction_set_range(c, 1, 2)) case 29: G(B(RE), dc_restriction_get_numeric(c, &f64)) case 30: G(B(RE), dc_restriction_set_numeric(c, 1))
  case 31: G(B(KV) | B(SE), dc_restriction_entries_minimum(c, &i32)) case 32: G(B(KV) | B(SE), dc_restriction_entries_maximum(c, &i32)) case 33: G(B(KV) | B(SE), dc_restriction_collection(c, &col)) case 34: NULLARG(KV, dc_restriction_collection(c, NULL)) case 35: NULLARG(RE, dc_get_restriction_type(c, NULL)) case 36: NULLARG(RE, dc_restriction_get_string(c, NULL)) case 37: NULLARG(RE, dc_restriction_get_numeric(c, NULL)) case 38: NULLARG(RE, dc_restriction_set_string(c, NULL))
  case 39: G(B(KV) | B(SE), dc_add_restriction_value_numeric(c, 1, "d", NULL, &out)) case 40: G(B(KV) | B(SE), dc_add_restriction_value_range(c, 1, 2, "d", NULL, &out)) case 41: G(B(KV) | B(SE), dc_add_restriction_value_enum(c, "e", "d", NULL, &out)) case 42: G(B(KV) | B(SE), dc_add_restriction_entries_min(c, 1, NULL)) case 43: G(B(KV) | B(SE), dc_add_restriction_entries_max(c, 1, NULL))
  default: c = &CT[KV]; CHECK(dc_value_type(NULL) == DISIR_VALUE_TYPE_UNKNOWN && dc_context_type(NULL) == DISIR_CONTEXT_UNKNOWN, "NULL is of no known kind");
  }
  unchanged(); CHECK(out == NULL && txt == NULL && col == NULL, "nothing is given out"); CHECK(w.mkv.kv_value.dv_type == DISIR_VALUE_TYPE_INTEGER && w.mkv.kv_value.dv_integer == 0 && w.def.de_value.dv_integer == 0 && re.re_type == 0, "values and types are untouched"); REACH("values");
}
