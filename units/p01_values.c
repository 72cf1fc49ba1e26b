//@file prop=P01 sources=util.c,context_util.c
#include <disir/disir.h>
#include "value.h"
#include "vt.h"
#include "log_stub.h"

#define IS_STR(t) ((t) == DISIR_VALUE_TYPE_STRING || (t) == DISIR_VALUE_TYPE_ENUM)

/* a value of any type with any content; string storage absent (string values: harnesses below) */
static struct disir_value nd_value(void)
{
  struct disir_value v;
  v.dv_type = nd_int();
  v.dv_integer = nd_i64();
  v.dv_size = nd_i64();
  return v;
}
static _Bool same(const struct disir_value *a, const struct disir_value *b)
{ return a->dv_type == b->dv_type && a->dv_integer == b->dv_integer && a->dv_size == b->dv_size; }

#ifndef VT_NATIVE
#define SCALAR_CONTRACT(NAME, T, FIELD, TYPE) \
enum disir_status ct_value_set_##NAME(struct disir_value *value, T in) \
__CPROVER_requires(value == NULL || __CPROVER_rw_ok(value, sizeof *value)) \
__CPROVER_assigns(value != NULL && value->dv_type == TYPE: value->FIELD) \
__CPROVER_ensures(__CPROVER_return_value == (value == NULL ? DISIR_STATUS_INVALID_ARGUMENT : \
                  value->dv_type != TYPE ? DISIR_STATUS_WRONG_VALUE_TYPE : DISIR_STATUS_OK)) \
; \
enum disir_status ct_value_get_##NAME(struct disir_value *value, T *out) \
__CPROVER_requires((value == NULL || __CPROVER_r_ok(value, sizeof *value)) && (out == NULL || __CPROVER_rw_ok(out, sizeof *out))) \
__CPROVER_assigns(value != NULL && out != NULL && value->dv_type == TYPE: *out) \
__CPROVER_ensures(__CPROVER_return_value == (value == NULL || out == NULL ? DISIR_STATUS_INVALID_ARGUMENT : \
                  value->dv_type != TYPE ? DISIR_STATUS_WRONG_VALUE_TYPE : DISIR_STATUS_OK)) \
;
SCALAR_CONTRACT(integer, int64_t, dv_integer, DISIR_VALUE_TYPE_INTEGER)
SCALAR_CONTRACT(float, double, dv_float, DISIR_VALUE_TYPE_FLOAT)
SCALAR_CONTRACT(boolean, uint8_t, dv_boolean, DISIR_VALUE_TYPE_BOOLEAN)
#endif

static _Bool deq(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y || (a != a && b != b); }
#define EQ_integer(a, b) ((a) == (b))
#define EQ_float(a, b) deq(a, b)
#define EQ_boolean(a, b) ((a) == (b))
#define ND_integer nd_i64
#define ND_float nd_double
#define ND_boolean nd_u8

#define SCALAR(NAME, T, FIELD, TYPE) \
void h_set_##NAME(void) { \
  struct disir_value v = nd_value(), v0 = v; T x = ND_##NAME(); _Bool nul = nd_bool(); \
  enum disir_status st = dx_value_set_##NAME(nul ? NULL : &v, x); \
  CHECK(st == (nul ? DISIR_STATUS_INVALID_ARGUMENT : v0.dv_type != TYPE ? DISIR_STATUS_WRONG_VALUE_TYPE : DISIR_STATUS_OK), "status of set " #NAME); \
  if (st == DISIR_STATUS_OK) CHECK(EQ_##NAME(v.FIELD, x) && v.dv_type == v0.dv_type && v.dv_size == v0.dv_size, "the value set is the value stored (" #NAME ")"); \
  else CHECK(same(&v, &v0), "a refused set changes nothing (" #NAME ")"); \
  REACH("set " #NAME); } \
void h_get_##NAME(void) { \
  struct disir_value v = nd_value(), v0 = v; T x = ND_##NAME(), x0 = x; _Bool nul = nd_bool(), nulo = nd_bool(); \
  enum disir_status st = dx_value_get_##NAME(nul ? NULL : &v, nulo ? NULL : &x); \
  CHECK(st == (nul || nulo ? DISIR_STATUS_INVALID_ARGUMENT : v0.dv_type != TYPE ? DISIR_STATUS_WRONG_VALUE_TYPE : DISIR_STATUS_OK), "status of get " #NAME); \
  if (st == DISIR_STATUS_OK) CHECK(EQ_##NAME(v0.FIELD, x), "the value stored is the value returned (" #NAME ")"); \
  else CHECK(EQ_##NAME(x, x0), "a refused get leaves the output alone (" #NAME ")"); \
  CHECK(same(&v, &v0), "get does not modify the value (" #NAME ")"); \
  REACH("get " #NAME); }

//@unit name=value_set_integer harness=h_set_integer enforce=dx_value_set_integer/ct_value_set_integer unwind=2
//@unit name=value_get_integer harness=h_get_integer enforce=dx_value_get_integer/ct_value_get_integer unwind=2
SCALAR(integer, int64_t, dv_integer, DISIR_VALUE_TYPE_INTEGER)
//@unit name=value_set_float harness=h_set_float enforce=dx_value_set_float/ct_value_set_float unwind=2
//@unit name=value_get_float harness=h_get_float enforce=dx_value_get_float/ct_value_get_float unwind=2
SCALAR(float, double, dv_float, DISIR_VALUE_TYPE_FLOAT)
//@unit name=value_set_boolean harness=h_set_boolean enforce=dx_value_set_boolean/ct_value_set_boolean unwind=2
//@unit name=value_get_boolean harness=h_get_boolean enforce=dx_value_get_boolean/ct_value_get_boolean unwind=2
SCALAR(boolean, uint8_t, dv_boolean, DISIR_VALUE_TYPE_BOOLEAN)

/* ---- strings: representation invariant of string values ----
 * no text: dv_string NULL, dv_size 0;  otherwise a block of at least dv_size+1 bytes with a NUL at dv_size */
#ifdef VT_NATIVE
#define OBJ_SIZE(p) SIZE_MAX
#else
#define OBJ_SIZE(p) __CPROVER_OBJECT_SIZE(p)
#endif
static _Bool str_ok(const struct disir_value *v)
{
  if (v->dv_string == NULL) return v->dv_size == 0;
  return v->dv_size >= 0 && (uint64_t)v->dv_size < OBJ_SIZE(v->dv_string) && v->dv_string[v->dv_size] == 0;
}
static void nd_string_value(struct disir_value *v, size_t max)
{
  v->dv_type = nd_bool() ? DISIR_VALUE_TYPE_STRING : DISIR_VALUE_TYPE_ENUM;
  v->dv_string = NULL; v->dv_size = 0;
  if (nd_bool()) {
    size_t cap = nd_size(), sz = nd_size(); ASSUME(cap <= max && sz <= cap);
    v->dv_string = malloc(cap + 1); ASSUME(v->dv_string != NULL);
    v->dv_string[sz] = 0; v->dv_size = (int64_t)sz;
  }
}

#ifndef MAXS
#define MAXS 0x7ffffffe
#endif
#ifndef VT_NATIVE
enum disir_status ct_value_set_string(struct disir_value *value, const char *input, int32_t size)
__CPROVER_requires(value == NULL || __CPROVER_rw_ok(value, sizeof *value))
__CPROVER_requires(input == NULL || __CPROVER_r_ok(input, size < 0 ? 0 : size))
__CPROVER_assigns(vt_alloc_live, vt_alloc_fail_at; value != NULL && IS_STR(value->dv_type): value->dv_string, value->dv_size;
                  value != NULL && IS_STR(value->dv_type) && value->dv_string != NULL: __CPROVER_object_whole(value->dv_string))
__CPROVER_frees(value != NULL && IS_STR(value->dv_type): value->dv_string)
__CPROVER_ensures(__CPROVER_return_value != DISIR_STATUS_OK || str_ok(value))
;
#endif
//@unit name=value_set_string harness=h_set_string enforce=dx_value_set_string/ct_value_set_string unwind=2
void h_set_string(void)
{
  struct disir_value v; nd_string_value(&v, MAXS);
  int32_t size = nd_int(); ASSUME(size >= 0 && size <= MAXS);
  char *in = malloc((size_t)size + 1); ASSUME(in != NULL);
  size_t w = nd_size(); ASSUME(w < (size_t)size || size == 0);
  if (size) in[w] = nd_char();
  _Bool nulv = nd_bool(), nuli = nd_bool(), other = nd_bool();
  enum disir_value_type t = nd_int();
  if (other) { ASSUME(!IS_STR(t)); v.dv_type = t; v.dv_string = NULL; v.dv_size = 0; }
  vt_alloc_fail_at = 0; vt_realloc_lazy = 0; vt_alloc_live = 2; vt_alloc_may_fail = nd_bool();
  enum disir_status st = dx_value_set_string(nulv ? NULL : &v, nuli ? NULL : in, size);
  if (nulv) CHECK(st == DISIR_STATUS_INVALID_ARGUMENT, "NULL value refused");
  else if (other) CHECK(st == DISIR_STATUS_WRONG_VALUE_TYPE && v.dv_type == t && v.dv_string == NULL && v.dv_size == 0, "wrong type refused, value unchanged");
  else if (nuli) CHECK(st == DISIR_STATUS_OK && v.dv_string == NULL && v.dv_size == 0, "NULL text clears the value");
  else if (st == DISIR_STATUS_OK) {
    CHECK(v.dv_size == size, "size stored");
    CHECK(str_ok(&v), "the stored text is terminated inside its storage");
    CHECK(size == 0 || v.dv_string[w] == in[w], "every byte stored");
    CHECK(v.dv_string != in, "the text is copied");
  } else {
    CHECK(vt_alloc_may_fail && st == DISIR_STATUS_NO_MEMORY, "only an allocation failure can refuse a text");
    CHECK(str_ok(&v), "after an allocation failure the value is still well formed");
  }
  REACH("set_string");
}
