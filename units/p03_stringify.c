//@file prop=P03 sources=util.c,context_util.c,context_value.c unwind=26
//@assume the text snprintf prints for a double is any text of 1 to 12 printable characters (c/stubs.c)
#include "model.h"
#include "log_stub.h"
#define B 24
static size_t declen(int64_t v)
{
  uint64_t u = v < 0 ? 0 - (uint64_t)v : (uint64_t)v; size_t n = v < 0 ? 2 : 1;
  for (int i = 0; i < 19; i++) if (u >= 10) { u /= 10; n++; }
  return n;
}
static size_t text_len(const struct disir_value *v)
{
  if (VT_IS_STR(v->dv_type)) return (size_t)v->dv_size;
  if (v->dv_type == DISIR_VALUE_TYPE_BOOLEAN) return v->dv_boolean ? 4 : 5;
  return declen(v->dv_integer);
}
static void kv(enum disir_value_type t, size_t maxlen)
{
  vt_world(); w.mkv.kv_value.dv_type = t; w.ckv.kv_value.dv_type = t; w.ckv.kv_mold_equiv = &w.mkvc; w.ckvc.CONTEXT_STATE_FINALIZED = 1;
  vt_nd_content(&w.ckv.kv_value, maxlen);
}
/* every byte of the buffer outside [0,n) keeps its content, the text is terminated, a too small buffer
 * holds the longest prefix and the reported size is that of the whole text */
static void run(_Bool sized)
{
  struct disir_value v0 = w.ckv.kv_value;
  char buf[B + 1]; size_t at = nd_size(); ASSUME(at <= B); buf[at] = 'C';
  int32_t n = nd_int(); ASSUME(n >= 1 && n <= B);
  int32_t out = -5; _Bool want = nd_bool();
  enum disir_status st = dc_get_value(&w.ckvc, n, buf, want ? &out : NULL);
  CHECK(st == DISIR_STATUS_OK, "any value has a text");
  CHECK((int32_t)at < n || buf[at] == 'C', "nothing is written beyond the given buffer size");
  size_t len = 0; while (len < (size_t)n && buf[len]) len++;
  CHECK(len < (size_t)n, "the text is terminated inside the buffer");
  CHECK(w.ckv.kv_value.dv_type == v0.dv_type && w.ckv.kv_value.dv_integer == v0.dv_integer && w.ckv.kv_value.dv_size == v0.dv_size, "the value is not modified");
  if (sized) {
    size_t full = text_len(&v0);
    CHECK(!want || out == (int32_t)full, "the size of the whole text is reported");
    CHECK(VT_IS_STR(v0.dv_type) || len == (full < (size_t)n ? full : (size_t)n - 1), "as much of the text as fits is written");
    if (VT_IS_STR(v0.dv_type)) {
      size_t k = nd_size(); ASSUME(k < full && k + 1 < (size_t)n);
      CHECK(buf[k] == v0.dv_string[k], "the text written is the stored text");
    } else if (v0.dv_type == DISIR_VALUE_TYPE_BOOLEAN)
      CHECK(memcmp(buf, v0.dv_boolean ? "True" : "False", len) == 0, "boolean text");
  } else CHECK(!want || (out >= 1 && (len == (size_t)n - 1 || out == (int32_t)len)), "the size of the whole text is reported");
}
//@unit name=stringify_text harness=h_text kind=bounded bound=texts_of_at_most_8_bytes,buffer_of_at_most_24_bytes
void h_text(void) { kv(nd_bool() ? DISIR_VALUE_TYPE_STRING : DISIR_VALUE_TYPE_ENUM, 8); run(1); REACH("text"); }
//@unit name=stringify_integer harness=h_integer kind=bounded bound=buffer_of_at_most_24_bytes
void h_integer(void) { kv(DISIR_VALUE_TYPE_INTEGER, 0); run(1); REACH("integer"); }
//@unit name=stringify_boolean harness=h_boolean kind=bounded bound=buffer_of_at_most_24_bytes
void h_boolean(void) { kv(DISIR_VALUE_TYPE_BOOLEAN, 0); run(1); REACH("boolean"); }
//@unit name=stringify_float harness=h_float kind=bounded bound=buffer_of_at_most_24_bytes
void h_float(void) { kv(DISIR_VALUE_TYPE_FLOAT, 0); run(0); REACH("float"); }

/* text of any length into a buffer of any size */
//@unit name=stringify_text_any harness=h_any unwind=3
static void any(enum disir_value_type t)
{
  struct disir_value v; v.dv_type = t;
  size_t len = nd_size(); ASSUME(len < 0x7fffffff);
  v.dv_size = (int64_t)len; v.dv_string = malloc(len + 1); ASSUME(v.dv_string != NULL);
  int32_t n = nd_int(); ASSUME(n >= 1); char *out = malloc((size_t)n); ASSUME(out != NULL);
  size_t k = nd_size(); ASSUME(k <= len); v.dv_string[k] = nd_char();
  int32_t got = -1;
  size_t tail = nd_size(); ASSUME(tail < (size_t)n); out[tail] = 'C';
  enum disir_status st = dx_value_stringify(&v, n, out, &got);
  CHECK(st == DISIR_STATUS_OK && got == (int32_t)len, "the size of the whole text is reported");
  CHECK(out[len < (size_t)n ? len : (size_t)n - 1] == 0, "the text is terminated");
  CHECK(tail <= len || out[tail] == 'C', "nothing beyond the terminator is written");
  CHECK(k >= len || k + 1 >= (size_t)n || out[k] == v.dv_string[k], "every byte that fits is written");
}
void h_any(void) { if (nd_bool()) any(DISIR_VALUE_TYPE_STRING); else any(DISIR_VALUE_TYPE_ENUM); REACH("any"); }

/* text -> value: dc_set_value */
//@unit name=parse_boolean harness=h_pbool kind=bounded bound=texts_of_at_most_3_bytes
void h_pbool(void)
{
  kv(DISIR_VALUE_TYPE_BOOLEAN, 0); w.ckv.kv_name.dv_size = 1; struct disir_value v0 = w.ckv.kv_value;
  char s[4]; size_t n = nd_str(s, 3);
  enum disir_status st = dc_set_value(&w.ckvc, s, (int32_t)n);
  _Bool t = s[0] == '1' || s[0] == 't' || s[0] == 'T', f = s[0] == '0' || s[0] == 'f' || s[0] == 'F';
  CHECK(st == (t || f ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_ARGUMENT), "a boolean text starts with 0, 1, t, T, f or F");
  CHECK(w.ckv.kv_value.dv_boolean == (t ? 1 : f ? 0 : v0.dv_boolean), "boolean stored, or left alone");
  CHECK(dc_set_value(&w.ckvc, NULL, 0) == DISIR_STATUS_INVALID_ARGUMENT, "NULL text refused");
  REACH("parse boolean");
}
