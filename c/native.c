/* Native side of the harness API: replays recorded counterexample values on the real code. */
#include <stdarg.h>
#include <inttypes.h>
#define VT_NATIVE 1
#include "vt.h"

static uint64_t *vals; static size_t nvals, pos;
static void load(void)
{
  const char *f = getenv("VT_VALUES");
  if (vals || !f) return;
  FILE *fp = fopen(f, "r");
  if (!fp) exit(78);
  vals = calloc(100000, sizeof *vals);
  while (nvals < 100000 && fscanf(fp, "%" SCNx64, &vals[nvals]) == 1) nvals++;
  fclose(fp);
}
static uint64_t pop(void) { load(); if (pos >= nvals) return 0; return vals[pos++]; }
uint8_t nd_u8(void) { return (uint8_t)pop(); }
uint32_t nd_u32(void) { return (uint32_t)pop(); }
uint64_t nd_u64(void) { return pop(); }
int nd_int(void) { return (int)pop(); }
int64_t nd_i64(void) { return (int64_t)pop(); }
size_t nd_size(void) { return pop(); }
_Bool nd_bool(void) { return pop() & 1; }
char nd_char(void) { return (char)pop(); }
double nd_double(void) { uint64_t b = pop(); double d; memcpy(&d, &b, 8); return d; }

size_t nd_str(char *buf, size_t cap)
{
  size_t len = nd_size();
  ASSUME(len <= cap);
  for (size_t i = 0; i < cap; i++) {
    char c = nd_char();
    ASSUME(c != 0);
    buf[i] = i < len ? c : 0;
  }
  buf[cap] = 0;
  return len;
}
void vt_assume(int c, const char *what) { if (!c) { fprintf(stderr, "VT-ASSUMPTION-UNMET: %s\n", what); exit(77); } }
void vt_check(int c, const char *what) { if (!c) { fprintf(stderr, "VT-CHECK-FAILED: %s\n", what); exit(99); } }

int vt_alloc_may_fail, vt_realloc_lazy; unsigned long vt_alloc_live;
int vt_alloc_fail_at; /* 0, or: the k-th allocation from now on fails (it and no other) */
#define VT_FAILS (vt_alloc_fail_at ? --vt_alloc_fail_at == 0 : vt_alloc_may_fail && nd_bool())
void *vt_calloc(size_t n, size_t s) { if (VT_FAILS) return NULL; void *p = calloc(n, s); if (p) vt_alloc_live++; return p; }
void *vt_malloc(size_t s) { if (VT_FAILS) return NULL; void *p = malloc(s); if (p) vt_alloc_live++; return p; }
void vt_free(void *p) { if (p) vt_alloc_live--; free(p); }
void *vt_realloc(void *p, size_t s) { if (VT_FAILS) return NULL; void *q = realloc(p, s); if (q && !p) vt_alloc_live++; return q; }
char *vt_strdup(const char *s) { if (VT_FAILS) return NULL; vt_alloc_live++; return strdup(s); }
char *vt_strndup(const char *s, size_t m) { if (VT_FAILS) return NULL; vt_alloc_live++; return strndup(s, m); }
#include <stdarg.h>
int vt_vsnprintf(char *b, size_t n, const char *f, va_list a) { return vsnprintf(b, n, f, a); }
int vt_snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int vt_sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vsprintf(b, f, a); va_end(a); return r; }
long vt_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long vt_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
double vt_strtod(const char *s, char **e) { return strtod(s, e); }
int vt_strcmp(const char *a, const char *b) { return strcmp(a, b); }
int vt_any_format; const char *vt_msg, *vt_msg_fmt; size_t vt_msg_len, vt_msg_at;
int vt_token_mode; uint64_t vt_tok[VT_NTOK]; int vt_ntok;
void vt_render(const char *sym, char *out, size_t cap)
{
  size_t n = 0;
  for (; *sym; sym++) {
    unsigned char c = (unsigned char)*sym;
    if (c >= 0x80 && c - 0x80 < VT_NTOK) n += (size_t)snprintf(out + n, cap - n, "%lu", (unsigned long)vt_tok[c - 0x80]);
    else out[n++] = *sym;
  }
  out[n] = 0;
}
extern int runtime_loglevel __attribute__((weak));
void VT_ENTRY(void);
int main(void) { if (&runtime_loglevel) runtime_loglevel = 0; VT_ENTRY(); fprintf(stderr, "VT-COMPLETED\n"); return 0; }
