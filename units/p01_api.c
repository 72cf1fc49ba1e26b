//@file prop=P01 sources=util.c,context_util.c,context_value.c unwind=12
//@assume dx_restriction_exclusive_value_check is replaced by its contract: answers OK or RESTRICTION_VIOLATED and writes nothing (verified under P06)
#include "model.h"
#include "log_stub.h"

#if !defined VT_NATIVE && !defined VT_BOUNDED
enum disir_status dx_restriction_exclusive_value_check (struct disir_context *context, int64_t integer_value, double float_value, const char *string_value)
{ return DISIR_STATUS_OK; }
#endif

/* a finalized, valid config keyval of any type T holding any content */
static void finalized_keyval(void)
{
  vt_world();
  w.mkv.kv_value.dv_type = vt_nd_type();
  w.ckv.kv_mold_equiv = &w.mkvc;
  w.ckv.kv_value.dv_type = w.mkv.kv_value.dv_type;
  w.ckv.kv_name.dv_type = DISIR_VALUE_TYPE_STRING; w.ckv.kv_name.dv_string = "k"; w.ckv.kv_name.dv_size = 1;
  w.ckvc.CONTEXT_STATE_FINALIZED = 1;
  vt_nd_content(&w.ckv.kv_value, 2);
}
#define SAME(a, b) ((a).dv_type == (b).dv_type && (a).dv_integer == (b).dv_integer && (a).dv_size == (b).dv_size)

#define API(NAME, T, FIELD, TYPE, EQ, ND) \
void h_api_##NAME(void) { \
  finalized_keyval(); struct disir_value v0 = w.ckv.kv_value; T x = ND(), y = ND(), y0 = y; \
  enum disir_status st = dc_set_value_##NAME(&w.ckvc, x); \
  CHECK(st == (v0.dv_type == TYPE ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_VALUE_TYPE), "set " #NAME " on a keyval: status follows its type"); \
  CHECK(w.ckv.kv_value.dv_type == v0.dv_type && w.ckv.kv_value.dv_size == v0.dv_size, "type kept"); \
  if (st != DISIR_STATUS_OK) CHECK(SAME(w.ckv.kv_value, v0), "refused set " #NAME " leaves the stored value"); \
  enum disir_status gt = dc_get_value_##NAME(&w.ckvc, &y); \
  CHECK(gt == st, "get " #NAME " accepts exactly the type set accepts"); \
  CHECK(gt != DISIR_STATUS_OK || EQ(x, y), "get " #NAME " returns what set stored"); \
  CHECK(gt == DISIR_STATUS_OK || EQ(y, y0), "refused get " #NAME " leaves the output"); \
  CHECK(dc_get_value_##NAME(&w.ckvc, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL output refused"); \
  CHECK(dc_set_value_##NAME(NULL, x) == DISIR_STATUS_INVALID_ARGUMENT && dc_get_value_##NAME(NULL, &y) == DISIR_STATUS_INVALID_ARGUMENT, "NULL context refused"); \
  CHECK(dc_set_value_##NAME(&w.cfgc, x) == DISIR_STATUS_WRONG_CONTEXT && dc_get_value_##NAME(&w.cfgc, &y) == DISIR_STATUS_WRONG_CONTEXT, "config holds no value"); \
  CHECK(dc_set_value_##NAME(&w.mkvc, x) == DISIR_STATUS_WRONG_CONTEXT && dc_get_value_##NAME(&w.mkvc, &y) == DISIR_STATUS_WRONG_CONTEXT, "a mold keyval holds no value"); \
  REACH("api " #NAME); }
#define EQI(a, b) ((a) == (b))

//@unit name=api_integer harness=h_api_integer model=dx_restriction_exclusive_value_check
API(integer, int64_t, dv_integer, DISIR_VALUE_TYPE_INTEGER, EQI, nd_i64)
//@unit name=api_float harness=h_api_float model=dx_restriction_exclusive_value_check
API(float, double, dv_float, DISIR_VALUE_TYPE_FLOAT, vt_deq, nd_double)
//@unit name=api_boolean harness=h_api_boolean model=dx_restriction_exclusive_value_check
API(boolean, uint8_t, dv_boolean, DISIR_VALUE_TYPE_BOOLEAN, EQI, nd_u8)

#define API_STR(NAME, TYPE) \
void h_api_##NAME(void) { \
  finalized_keyval(); struct disir_value v0 = w.ckv.kv_value; char in[4]; size_t n = nd_str(in, 3); \
  const char *out = in; int32_t osz = -7; \
  enum disir_status st = dc_set_value_##NAME(&w.ckvc, in, (int32_t)n); \
  CHECK(st == (v0.dv_type == TYPE ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_VALUE_TYPE), "set " #NAME " on a keyval: status follows its type"); \
  CHECK(w.ckv.kv_value.dv_type == v0.dv_type, "type kept"); \
  if (st != DISIR_STATUS_OK) CHECK(SAME(w.ckv.kv_value, v0), "refused set " #NAME " leaves the stored value"); \
  enum disir_status gt = dc_get_value_##NAME(&w.ckvc, &out, &osz); \
  CHECK(st != DISIR_STATUS_OK || gt == DISIR_STATUS_OK, "a set " #NAME " can be read"); \
  if (st == DISIR_STATUS_OK) { CHECK(osz == (int32_t)n && out != in && strcmp(out, in) == 0, "get " #NAME " returns what set stored, as its own copy"); \
    in[0] ^= 1; CHECK(n == 0 || out[0] != in[0], "stored text is independent of the caller's buffer"); } \
  CHECK(!(v0.dv_type != DISIR_VALUE_TYPE_STRING && v0.dv_type != DISIR_VALUE_TYPE_ENUM) || gt == DISIR_STATUS_WRONG_VALUE_TYPE, "a scalar is never read as text"); \
  CHECK(gt == DISIR_STATUS_OK || out == in, "refused get leaves the output"); \
  CHECK(dc_get_value_##NAME(&w.ckvc, NULL, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL output refused"); \
  REACH("api " #NAME); }
//@unit name=api_string harness=h_api_string model=dx_restriction_exclusive_value_check kind=bounded bound=text_of_at_most_3_bytes
API_STR(string, DISIR_VALUE_TYPE_STRING)
//@unit name=api_enum harness=h_api_enum model=dx_restriction_exclusive_value_check kind=bounded bound=text_of_at_most_3_bytes
API_STR(enum, DISIR_VALUE_TYPE_ENUM)

/* a keyval under construction may be given values of any type in any order: memory stays sound,
 * the last accepted value is what is stored */
static enum disir_status set_any(int k, int64_t i, double d, uint8_t b, char *s, int32_t n)
{
  switch (k) {
  case 0: return dc_set_value_integer(&w.ckvc, i);
  case 1: return dc_set_value_float(&w.ckvc, d);
  case 2: return dc_set_value_boolean(&w.ckvc, b);
  case 3: return dc_set_value_enum(&w.ckvc, s, n);
  default: return dc_set_value_string(&w.ckvc, s, n);
  }
}
static const enum disir_value_type kind_type[5] = { DISIR_VALUE_TYPE_INTEGER, DISIR_VALUE_TYPE_FLOAT, DISIR_VALUE_TYPE_BOOLEAN, DISIR_VALUE_TYPE_ENUM, DISIR_VALUE_TYPE_STRING };
//@unit name=api_construct_sequence harness=h_seq model=dx_restriction_exclusive_value_check kind=bounded bound=3_sets,text_of_at_most_2_bytes
void h_seq(void)
{
  vt_world();
  w.mkv.kv_value.dv_type = vt_nd_type();
  _Bool has_mold = nd_bool();
  w.ckv.kv_mold_equiv = has_mold ? &w.mkvc : NULL;
  if (has_mold) w.ckv.kv_value.dv_type = w.mkv.kv_value.dv_type;
  w.ckv.kv_name.dv_type = DISIR_VALUE_TYPE_STRING; w.ckv.kv_name.dv_string = "k"; w.ckv.kv_name.dv_size = 1;
  w.ckvc.CONTEXT_STATE_CONSTRUCTING = 1;
  if (!has_mold) w.ckvc.CONTEXT_STATE_INVALID = 1;
  char s[3]; size_t n = nd_str(s, 2);
  int64_t i = nd_i64(); double d = nd_double(); uint8_t b = nd_u8();
  for (int k = 0; k < 3; k++) {
    int op = nd_int(); ASSUME(op >= 0 && op < 5);
    enum disir_status st = set_any(op, i, d, b, s, (int32_t)n);
    struct disir_value *v = &w.ckv.kv_value;
    CHECK(st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT, "a keyval under construction accepts any typed value");
    CHECK((st == DISIR_STATUS_OK) == (has_mold && w.mkv.kv_value.dv_type == kind_type[op]), "OK exactly when the mold has this type");
    CHECK(v->dv_type == kind_type[op], "the stored value has the type that was set");
    CHECK(op != 0 || v->dv_integer == i, "integer stored");
    CHECK(op != 1 || vt_deq(v->dv_float, d), "float stored");
    CHECK(op != 2 || v->dv_boolean == b, "boolean stored");
    CHECK(op < 3 || (v->dv_size == (int64_t)n && strcmp(v->dv_string, s) == 0), "text stored");
    CHECK(vt_alloc_live == (op >= 3 ? 1 : 0), "no text storage is lost");
  }
  REACH("sequence");
}

/* re-setting a text from the text read back (aliasing) */
//@unit name=api_string_alias harness=h_alias model=dx_restriction_exclusive_value_check kind=bounded bound=text_of_at_most_3_bytes
void h_alias(void)
{
  finalized_keyval(); ASSUME(w.ckv.kv_value.dv_type == DISIR_VALUE_TYPE_STRING);
  char in[4]; size_t n = nd_str(in, 3); const char *out; int32_t sz;
  ASSUME(dc_set_value_string(&w.ckvc, in, (int32_t)n) == DISIR_STATUS_OK);
  ASSUME(dc_get_value_string(&w.ckvc, &out, &sz) == DISIR_STATUS_OK);
  size_t off = nd_size(); ASSUME(off <= n);
  CHECK(dc_set_value_string(&w.ckvc, out + off, sz - (int32_t)off) == DISIR_STATUS_OK, "text read back can be set");
  CHECK(dc_get_value_string(&w.ckvc, &out, &sz) == DISIR_STATUS_OK && sz == (int32_t)(n - off) && strcmp(out, in + off) == 0, "setting a value from its own text");
  REACH("alias");
}

/* defaults hold values too */
//@unit name=api_default harness=h_default model=dx_restriction_exclusive_value_check
void h_default(void)
{
  vt_world();
  w.def.de_value.dv_type = vt_nd_type(); vt_nd_content(&w.def.de_value, 2);
  struct disir_value v0 = w.def.de_value; int64_t x = nd_i64(), y = nd_i64(); double d = nd_double(), e = nd_double(); uint8_t b = nd_u8(), c = nd_u8();
  int op = nd_int(); ASSUME(op >= 0 && op < 3);
  enum disir_status st = op == 0 ? dc_set_value_integer(&w.defc, x) : op == 1 ? dc_set_value_float(&w.defc, d) : dc_set_value_boolean(&w.defc, b);
  _Bool match = v0.dv_type == kind_type[op];
  CHECK(st == (match ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_VALUE_TYPE), "set on a default follows its type");
  if (!match) CHECK(SAME(w.def.de_value, v0), "refused set leaves the default");
  else {
    enum disir_status gt = op == 0 ? dc_get_value_integer(&w.defc, &y) : op == 1 ? dc_get_value_float(&w.defc, &e) : dc_get_value_boolean(&w.defc, &c);
    CHECK(gt == DISIR_STATUS_OK && (op == 0 ? x == y : op == 1 ? vt_deq(d, e) : b == c), "default value round trip");
  }
  REACH("default");
}
