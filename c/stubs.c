/* CBMC side of the harness API, and assumed contracts on the externals that the verified
 * functions call (libc formatting, logging). Every function here is part of the trusted base. */
#include <stdarg.h>
#include <errno.h>
#include "vt.h"

#define ND(T, n) T nd_##n(void) { T vt_in; T vt_logged = vt_in; return vt_logged; }
ND(uint8_t, u8)
ND(uint32_t, u32)
ND(uint64_t, u64)
ND(int, int)
ND(int64_t, i64)
#ifdef VT_SMALL /* only when looking for a failing input of readable size */
size_t nd_size(void) { size_t vt_in; size_t vt_logged = vt_in; __CPROVER_assume(vt_logged <= 64); return vt_logged; }
#else
ND(size_t, size)
#endif
ND(double, double)
ND(char, char)
_Bool nd_bool(void) { uint8_t vt_in; uint8_t vt_logged = vt_in & 1; return vt_logged; }

size_t nd_str(char *buf, size_t cap)
{
  size_t len = nd_size();
  ASSUME(len <= cap);
  for (size_t i = 0; i < cap; i++) {
    char c = nd_char();
    ASSUME(c != 0);
    buf[i] = i < len ? c : 0;
  }
  buf[cap] = 0;
  return len;
}

int vt_alloc_may_fail;
int vt_realloc_lazy; /* the content of reallocated blocks is arbitrary (over-approximation) */
unsigned long vt_alloc_live;

/* plain malloc/calloc may return NULL in CBMC 6: failure is under the harness's control here */
#define GOT(p) __CPROVER_assume((p) != NULL)
int vt_alloc_fail_at; /* 0, or: the k-th allocation from now on fails (it and no other) */
#define VT_FAILS (vt_alloc_fail_at ? --vt_alloc_fail_at == 0 : vt_alloc_may_fail && nd_bool())
void *vt_calloc(size_t n, size_t s) { if (VT_FAILS) return NULL; void *p = calloc(n, s); GOT(p); vt_alloc_live++; return p; }
void *vt_malloc(size_t s) { if (VT_FAILS) return NULL; void *p = malloc(s); GOT(p); vt_alloc_live++; return p; }
void vt_free(void *p) { if (p) vt_alloc_live--; free(p); }
void *vt_realloc(void *p, size_t s) { if (VT_FAILS) return NULL; void *q; if (vt_realloc_lazy) { q = malloc(s); GOT(q); free(p); } else q = realloc(p, s); GOT(q); if (!p) vt_alloc_live++; return q; }
char *vt_strdup(const char *s) { if (VT_FAILS) return NULL;
  size_t n = strlen(s); char *p = malloc(n + 1); GOT(p); vt_alloc_live++; memcpy(p, s, n + 1); return p; }
char *vt_strndup(const char *s, size_t m) { if (VT_FAILS) return NULL;
  size_t n = strlen(s); if (n > m) n = m; char *p = malloc(n + 1); GOT(p); vt_alloc_live++; memcpy(p, s, n); p[n] = 0; return p; }

/* ---- formatted output: %s %c %d %i %u %ld %lu %lf %f %x %p, flags/width ignored -------------
 * %f/%lf and %p produce an arbitrary printable text (assumed: at least 1, at most 12 characters). */
struct vt_out { char *buf; size_t size; size_t n; };
static void vt_put(struct vt_out *o, char c)
{
  if (o->size > 0 && o->n < o->size - 1) o->buf[o->n] = c;
  o->n++;
}
/* Decimal digits: chosen by the verifier so that they sum up to the value (the decomposition is unique),
 * which is what snprintf prints.  Unlogged nondeterminism: the native run uses the real snprintf. */
static void vt_put_u(struct vt_out *o, uint64_t v);
extern int vt_token_mode;
static void vt_put_num(struct vt_out *o, uint64_t v)
{
  if (vt_token_mode) { vt_put_u(o, v); return; }
  unsigned char d[20]; int k; unsigned __int128 sum = 0, pow = 1; int top = 0;
  for (k = 0; k < 20; k++) { __CPROVER_assume(d[k] <= 9); sum += pow * d[k]; pow *= 10; if (d[k]) top = k; }
  __CPROVER_assume(sum == v);
  for (k = 19; k >= 0; k--) if (k <= top) vt_put(o, (char)('0' + d[k]));
}
static void vt_put_u(struct vt_out *o, uint64_t v);
extern int vt_token_mode;
static void vt_put_num32(struct vt_out *o, uint32_t v)
{
  if (vt_token_mode) { vt_put_u(o, v); return; }
  if (v < 10) { vt_put(o, (char)('0' + v)); return; }
  unsigned char d[10]; int k; uint64_t sum = 0, pow = 1; int top = 0;
  for (k = 0; k < 10; k++) { __CPROVER_assume(d[k] <= 9); sum += pow * d[k]; pow *= 10; if (d[k]) top = k; }
  __CPROVER_assume(sum == v);
  for (k = 9; k >= 0; k--) if (k <= top) vt_put(o, (char)('0' + d[k]));
}
static void vt_put_any(struct vt_out *o)
{
  size_t len; char c[12];
  __CPROVER_assume(len >= 1 && len <= 12);
  for (size_t i = 0; i < 12; i++) if (i < len) { __CPROVER_assume(c[i] >= ' '); vt_put(o, c[i]); }
}
/* token mode: a whole number is one opaque character 0x80+k whose value is vt_tok[k] (see vt.h) */
int vt_token_mode; uint64_t vt_tok[VT_NTOK]; int vt_ntok;
static void vt_put_u(struct vt_out *o, uint64_t v)
{
  if (vt_token_mode == 2) { vt_put(o, '#'); return; }   /* harnesses that do not look at printed numbers */
  __CPROVER_assert(vt_ntok < VT_NTOK, "token table large enough");
  vt_tok[vt_ntok] = v; vt_put(o, (char)(0x80 + vt_ntok)); vt_ntok++;
}
static void vt_put_str(struct vt_out *o, const char *s)
{
  if (s == NULL) s = "(null)";
  while (*s) vt_put(o, *s++);
}
static void vt_put_nstr(struct vt_out *o, const char *s, int max)
{
  while (max-- > 0 && *s) vt_put(o, *s++);
}
/* formatting of the one text vt_msg of any length (vt_msg_len), used as argument of the format vt_msg_fmt "%s" */
int vt_any_format;
const char *vt_msg, *vt_msg_fmt; size_t vt_msg_len, vt_msg_at;
/* number of characters outside of directives */
static int vt_literals(const char *fmt)
{
  int k = 0;
  for (int i = 0; fmt[i]; i++) { if (fmt[i] != '%') k++; else { i++; if (fmt[i] == '.') i += 2; while (fmt[i] == 'l' || fmt[i] == 'z') i++; if (!fmt[i]) break; } }
  return k;
}
int vt_vsnprintf(char *buf, size_t size, const char *fmt, va_list ap)
{
  if (vt_msg_fmt && fmt == vt_msg_fmt) {
    size_t k = vt_msg_len < size ? vt_msg_len : size ? size - 1 : 0;
    /* contract on one arbitrary byte vt_msg_at of the text; the others are not looked at */
    __CPROVER_assert(size == 0 || __CPROVER_w_ok(buf, k + 1), "formatted output fits its buffer");
    if (vt_msg_at < k) buf[vt_msg_at] = vt_msg[vt_msg_at];
    if (size) buf[k] = 0;
    return (int)vt_msg_len;
  }
  if (vt_any_format) {
    int n; __CPROVER_assume(n >= vt_literals(fmt) && n <= vt_any_format);
    __CPROVER_assert(size == 0 || __CPROVER_w_ok(buf, size), "formatted output fits its buffer");
    return n;
  }
  struct vt_out o; o.buf = buf; o.size = size; o.n = 0;
  size_t i = 0;
  while (fmt[i]) {
    if (fmt[i] != '%') { vt_put(&o, fmt[i++]); continue; }
    i++;
    int lng = 0, prec = -1;
    while (fmt[i] == '0' || fmt[i] == '-' || (fmt[i] >= '1' && fmt[i] <= '9')) i++;
    if (fmt[i] == '.') { i++; if (fmt[i] == '*') { prec = va_arg(ap, int); i++; } else while (fmt[i] >= '0' && fmt[i] <= '9') i++; }
    while (fmt[i] == 'l' || fmt[i] == 'z') { lng = 1; i++; }
    char c = fmt[i++];
    if (c == 's') { const char *s = va_arg(ap, const char *); if (prec >= 0) vt_put_nstr(&o, s, prec); else vt_put_str(&o, s); }
    else if (c == 'd' || c == 'i') {
      if (!lng) { int w = va_arg(ap, int); if (w < 0) { vt_put(&o, '-'); vt_put_num32(&o, 0 - (uint32_t)w); } else vt_put_num32(&o, (uint32_t)w); continue; }
      int64_t v = va_arg(ap, long);
      if (v < 0) { vt_put(&o, '-'); vt_put_num(&o, 0 - (uint64_t)v); } else vt_put_num(&o, (uint64_t)v);
    }
    else if (c == 'u' || c == 'x') { if (lng) vt_put_num(&o, va_arg(ap, unsigned long)); else vt_put_num32(&o, va_arg(ap, unsigned int)); }
    else if (c == 'c') { int v = va_arg(ap, int); vt_put(&o, (char)v); }
    else if (c == 'f') { double v = va_arg(ap, double); vt_put_any(&o); }
    else if (c == 'p') { void *v = va_arg(ap, void *); vt_put_any(&o); }
    else if (c == '%') vt_put(&o, '%');
    else { __CPROVER_assert(0, "format directive outside the model"); break; }
  }
  if (size > 0) buf[o.n < size ? o.n : size - 1] = 0;
  return (int)o.n;
}
int vt_snprintf(char *buf, size_t size, const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); int r = vt_vsnprintf(buf, size, fmt, ap); va_end(ap); return r; }
int vt_sprintf(char *buf, const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); int r = vt_vsnprintf(buf, SIZE_MAX, fmt, ap); va_end(ap); return r; }

/* ISO C strtol/strtoul, base 10 */
static int vt_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static uint64_t vt_scan(const char *s, const char **end, int *neg, int *ovf)
{
  const char *p = s; int any = 0; uint64_t v = 0; *neg = 0; *ovf = 0;
  while (vt_space(*p)) p++;
  if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if (vt_token_mode) {
    unsigned char c = (unsigned char)*p;
    if (c >= 0x80) { __CPROVER_assert(c - 0x80 < vt_ntok, "token is defined"); v = vt_tok[c - 0x80]; p++; any = 1; }
  } else while (*p >= '0' && *p <= '9') {
    any = 1;
    if (v > (UINT64_MAX - (uint64_t)(*p - '0')) / 10) *ovf = 1; else v = v * 10 + (uint64_t)(*p - '0');
    p++;
  }
  *end = any ? p : s;
  return v;
}
long vt_strtol(const char *s, char **end, int base)
{
  const char *e; int neg, ovf; uint64_t v = vt_scan(s, &e, &neg, &ovf);
  if (end) *end = (char *)e;
  if (ovf || v > (uint64_t)LONG_MAX + (neg ? 1 : 0)) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? (long)(0 - v) : (long)v;
}
unsigned long vt_strtoul(const char *s, char **end, int base)
{
  const char *e; int neg, ovf; uint64_t v = vt_scan(s, &e, &neg, &ovf);
  if (end) *end = (char *)e;
  if (ovf) { errno = ERANGE; return ULONG_MAX; }
  return neg ? 0 - v : v;
}
/* strtod: reads any value from any prefix (assumed; the native run uses the real one) */
double vt_strtod(const char *s, char **end)
{ double v; size_t k; __CPROVER_assume(k <= strlen(s)); if (end) *end = (char *)s + k; return v; }
/* strcmp has its address taken by the hash map */
int vt_strcmp(const char *a, const char *b)
{ while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
void vt_render(const char *sym, char *out, size_t cap) { size_t i; for (i = 0; sym[i]; i++) out[i] = sym[i]; out[i] = 0; }

/* ---- logging ---- (log.c is verified on its own; elsewhere it is assumed to have no effect) */
int vt_log_calls;
