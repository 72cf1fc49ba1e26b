//@file prop=P02 sources=util.c unwind=10
#include "model.h"
#include "log_stub.h"
static int sgn(int x) { return (x > 0) - (x < 0); }
static _Bool isnum(enum disir_value_type t) { return t == DISIR_VALUE_TYPE_INTEGER || t == DISIR_VALUE_TYPE_FLOAT || t == DISIR_VALUE_TYPE_BOOLEAN; }

#ifndef VT_NATIVE
int ct_value_compare(struct disir_value *v1, struct disir_value *v2)
__CPROVER_requires(__CPROVER_r_ok(v1, sizeof *v1) && __CPROVER_r_ok(v2, sizeof *v2))
__CPROVER_requires(v1->dv_size >= 0 && v2->dv_size >= 0)
__CPROVER_assigns()
__CPROVER_ensures(v1->dv_type == v2->dv_type || __CPROVER_return_value != 0)
__CPROVER_ensures(!(v1->dv_type == DISIR_VALUE_TYPE_INTEGER && v2->dv_type == DISIR_VALUE_TYPE_INTEGER) ||
  sgn(__CPROVER_return_value) == (v1->dv_integer > v2->dv_integer) - (v1->dv_integer < v2->dv_integer))
__CPROVER_ensures(!(v1->dv_type == DISIR_VALUE_TYPE_FLOAT && v2->dv_type == DISIR_VALUE_TYPE_FLOAT) ||
  sgn(__CPROVER_return_value) == (v1->dv_float > v2->dv_float) - (v1->dv_float < v2->dv_float))
__CPROVER_ensures(!(v1->dv_type == DISIR_VALUE_TYPE_BOOLEAN && v2->dv_type == DISIR_VALUE_TYPE_BOOLEAN) ||
  sgn(__CPROVER_return_value) == (v1->dv_boolean > v2->dv_boolean) - (v1->dv_boolean < v2->dv_boolean))
;
#endif
static void nd_scalar(struct disir_value *v)
{
  v->dv_type = vt_nd_type(); ASSUME(isnum(v->dv_type)); vt_nd_content(v, 0);
  if (v->dv_type == DISIR_VALUE_TYPE_FLOAT) ASSUME(v->dv_float == v->dv_float);
}
static int spec(const struct disir_value *a, const struct disir_value *b)
{
  if (a->dv_type == DISIR_VALUE_TYPE_INTEGER) return (a->dv_integer > b->dv_integer) - (a->dv_integer < b->dv_integer);
  if (a->dv_type == DISIR_VALUE_TYPE_FLOAT) return (a->dv_float > b->dv_float) - (a->dv_float < b->dv_float);
  return (a->dv_boolean > b->dv_boolean) - (a->dv_boolean < b->dv_boolean);
}
//@unit name=compare_scalars harness=h_scalars enforce=dx_value_compare/ct_value_compare
void h_scalars(void)
{
  struct disir_value a, b; nd_scalar(&a); nd_scalar(&b);
  int r = dx_value_compare(&a, &b);
  CHECK(a.dv_type == b.dv_type || r != 0, "values of different type are never equal");
  CHECK(a.dv_type != b.dv_type || sgn(r) == spec(&a, &b), "numbers compare by their numerical order over the whole range");
  REACH("scalars");
}
#define L 6
//@unit name=compare_text harness=h_text kind=bounded bound=texts_of_at_most_6_bytes
void h_text(void)
{
  struct disir_value a, b, c;
  a.dv_type = vt_nd_type(); b.dv_type = vt_nd_type(); c.dv_type = a.dv_type;
  ASSUME(VT_IS_STR(a.dv_type) && VT_IS_STR(b.dv_type));
  vt_nd_content(&a, L); vt_nd_content(&b, L); vt_nd_content(&c, L);
  int ab = dx_value_compare(&a, &b), ba = dx_value_compare(&b, &a), bc = dx_value_compare(&b, &c), ac = dx_value_compare(&a, &c);
  _Bool eq = a.dv_type == b.dv_type && a.dv_size == b.dv_size && (a.dv_size == 0 || memcmp(a.dv_string, b.dv_string, (size_t)a.dv_size) == 0);
  CHECK((ab == 0) == eq, "texts are equal exactly when type, length and bytes are equal");
  if (a.dv_type == b.dv_type) {
    CHECK(sgn(ab) == -sgn(ba), "antisymmetric");
    CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "transitive");
  }
  REACH("text");
}
//@unit name=copy_equal harness=h_copy kind=bounded bound=texts_of_at_most_6_bytes
void h_copy(void)
{
  struct disir_value s, d; s.dv_type = vt_nd_type(); d.dv_type = vt_nd_type(); vt_nd_content(&s, L); vt_nd_content(&d, L);
  if (s.dv_type == DISIR_VALUE_TYPE_FLOAT) ASSUME(s.dv_float == s.dv_float);
  struct disir_value s0 = s, d0 = d;
  _Bool fits = s.dv_type == d.dv_type || (VT_IS_STR(s.dv_type) && VT_IS_STR(d.dv_type));
  enum disir_status st = dx_value_copy(&d, &s);
  CHECK(s.dv_type == s0.dv_type && s.dv_size == s0.dv_size && s.dv_integer == s0.dv_integer, "the source is unchanged");
  CHECK(d.dv_type == d0.dv_type, "the destination keeps its type");
  CHECK(st == (fits ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_VALUE_TYPE), "copy succeeds exactly between compatible types");
  if (fits) {
    d.dv_type = s.dv_type;
    CHECK(dx_value_compare(&d, &s) == 0, "a copy is equal to its source");
    CHECK(!VT_IS_STR(s.dv_type) || s.dv_string == NULL || d.dv_string != s.dv_string, "copied text has its own storage");
  } else CHECK(d.dv_size == d0.dv_size && d.dv_integer == d0.dv_integer, "a refused copy changes nothing");
  REACH("copy");
}
/* texts of any length (witness byte) */
static void big(struct disir_value *v, size_t at)
{
  v->dv_type = nd_bool() ? DISIR_VALUE_TYPE_STRING : DISIR_VALUE_TYPE_ENUM; v->dv_string = NULL; v->dv_size = 0;
  if (nd_bool()) { size_t n = nd_size(); ASSUME(n < 0x7fffffff && at <= n); v->dv_string = malloc(n + 1); ASSUME(v->dv_string != NULL); v->dv_string[at] = nd_char(); v->dv_string[n] = 0; v->dv_size = (int64_t)n; }
}
//@unit name=copy_text_any harness=h_copy_any unwind=2
void h_copy_any(void)
{
  struct disir_value s, d; size_t at = nd_size();
  big(&s, at); big(&d, 0);
  int64_t n = s.dv_size; char *from = s.dv_string;
  CHECK(dx_value_copy(&d, &s) == DISIR_STATUS_OK, "text copies into text");
  CHECK(d.dv_size == n && s.dv_size == n && s.dv_string == from, "the copy has the length of the source, which is unchanged");
  CHECK(n == 0 || d.dv_string != NULL, "the copy has a text");
  if (n > 0) {
    CHECK(at >= (size_t)n || d.dv_string[at] == s.dv_string[at], "the copy has the bytes of the source");
    CHECK(d.dv_string[n] == 0 && d.dv_string != s.dv_string, "the copy is terminated and has its own storage");
  }
  REACH("copy any");
}
