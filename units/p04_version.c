//@file prop=P04 sources=util.c
//@assume dc_version_string/dc_version_convert: libc snprintf/strtol as modelled in c/stubs.c
#include <disir/disir.h>
#include "vt.h"
#include "log_stub.h"

static uint64_t key(const struct disir_version *v) { return ((uint64_t)v->sv_major << 32) | v->sv_minor; }
static int sgn(int x) { return (x > 0) - (x < 0); }
static int ksgn(uint64_t a, uint64_t b) { return (a > b) - (a < b); }
static struct disir_version nd_ver(void) { struct disir_version v; v.sv_major = nd_u32(); v.sv_minor = nd_u32(); return v; }

#ifndef VT_NATIVE
int ct_version_compare(struct disir_version *s1, struct disir_version *s2)
__CPROVER_requires(__CPROVER_r_ok(s1, sizeof *s1) && __CPROVER_r_ok(s2, sizeof *s2))
__CPROVER_assigns()
__CPROVER_ensures(sgn(__CPROVER_return_value) == ksgn(key(s1), key(s2)))
;
void ct_version_set(struct disir_version *d, struct disir_version *s)
__CPROVER_requires((d == NULL || __CPROVER_rw_ok(d, sizeof *d)) && (s == NULL || __CPROVER_r_ok(s, sizeof *s)))
__CPROVER_assigns(d != NULL: *d)
__CPROVER_ensures(d == NULL || s == NULL || key(d) == key(s))
;
#endif

//@unit name=version_compare harness=h_compare enforce=dc_version_compare/ct_version_compare unwind=2
void h_compare(void)
{
  struct disir_version a = nd_ver(), b = nd_ver();
  int r = dc_version_compare(&a, &b);
  CHECK(sgn(r) == ksgn(key(&a), key(&b)), "compare agrees with the lexicographic order on (major,minor)");
  REACH("compare");
}

//@unit name=version_order_lemma harness=h_order unwind=2
void h_order(void)
{
  struct disir_version a = nd_ver(), b = nd_ver(), c = nd_ver();
  int ab = dc_version_compare(&a, &b), ba = dc_version_compare(&b, &a), bc = dc_version_compare(&b, &c), ac = dc_version_compare(&a, &c);
  CHECK(sgn(ab) == -sgn(ba), "antisymmetric");
  CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, "transitive");
  CHECK((ab == 0) == (a.sv_major == b.sv_major && a.sv_minor == b.sv_minor), "equal exactly when both components are equal");
  REACH("order");
}

//@unit name=version_set harness=h_set enforce=dc_version_set/ct_version_set unwind=2
void h_set(void)
{
  struct disir_version a = nd_ver(), b = nd_ver(), a0 = a, b0 = b;
  _Bool da = nd_bool(), db = nd_bool();
  dc_version_set(da ? &a : NULL, db ? &b : NULL);
  CHECK(key(&b) == key(&b0), "source unchanged");
  CHECK(key(&a) == (da && db ? key(&b0) : key(&a0)), "destination is the source, or unchanged on NULL");
  REACH("set");
}

//@unit name=version_roundtrip harness=h_roundtrip unwind=8
void h_roundtrip(void)
{
  struct disir_version a = nd_ver(), b = nd_ver();
  char buf[32];
  vt_token_mode = 1;
  char *r = dc_version_string(buf, 32, &a);
  CHECK(r == buf, "a 32 byte buffer is always sufficient");
  CHECK(dc_version_convert(buf, &b) == DISIR_STATUS_OK, "text of a version converts");
  CHECK(key(&a) == key(&b), "version -> text -> version is the identity");
  REACH("roundtrip");
}

//@unit name=version_string_bounds harness=h_string unwind=24
static int digits(uint32_t x)
{
  return 1 + (x >= 10) + (x >= 100) + (x >= 1000) + (x >= 10000) + (x >= 100000) + (x >= 1000000) + (x >= 10000000)
    + (x >= 100000000) + (x >= 1000000000);
}
void h_string(void)
{
  struct disir_version a = nd_ver();
  int32_t n = nd_int(); ASSUME(n >= 0 && n <= 24);
  char buf[25]; size_t w = nd_size(); ASSUME(w < 25);
  buf[w] = 'C';
  _Bool nb = nd_bool(), nv = nd_bool();
  char *r = dc_version_string(nb ? NULL : buf, n, nv ? NULL : &a);
  if (nb || nv) CHECK(r == NULL, "NULL arguments give NULL");
  else {
    int need = digits(a.sv_major) + 1 + digits(a.sv_minor) + 1;
    CHECK((r != NULL) == (n >= need), "NULL exactly when the buffer is too small");
    CHECK(r == NULL || r == buf, "returns the buffer");
    CHECK(r == NULL || buf[need - 1] == 0, "terminated");
  }
  CHECK((int)w < n || buf[w] == 'C', "nothing is written beyond the given size");
  REACH("string");
}

/* Texts of up to TL symbols, a symbol being any character or a whole number of any value. */
#define TL 5
#define ISNUM(c) ((unsigned char)(c) >= 0x80)
//@unit name=version_convert_text harness=h_convert unwind=7 kind=proved
void h_convert(void)
{
  char sym[TL + 1], s[TL * 24 + 1]; nd_str(sym, TL);
  for (int i = 0; i < VT_NTOK; i++) vt_tok[i] = nd_u64();
  vt_ntok = VT_NTOK; vt_token_mode = 1;
  for (int i = 0; i < TL; i++) {
    ASSUME(!(sym[i] >= '0' && sym[i] <= '9'));
    ASSUME(!ISNUM(sym[i]) || ((unsigned char)sym[i] < 0x80 + VT_NTOK && !ISNUM(sym[i + 1])));
    /* blanks and an explicit plus before a number: the documentation does not say */
    ASSUME(!(sym[i] == ' ' || sym[i] == '+' || (sym[i] >= '\t' && sym[i] <= '\r')));
  }
  for (int i = 0; i < TL; i++)   /* "-0" */
    ASSUME(!(sym[i] == '-' && ISNUM(sym[i + 1]) && vt_tok[(unsigned char)sym[i + 1] - 0x80] == 0));
  vt_render(sym, s, sizeof s);
  struct disir_version v = nd_ver();
  enum disir_status st = dc_version_convert(s, &v);
  uint64_t ma = 0, mi = 0;
  _Bool ok = ISNUM(sym[0]) && sym[1] == '.' && ISNUM(sym[2]);
  if (ok) { ma = vt_tok[(unsigned char)sym[0] - 0x80]; mi = vt_tok[(unsigned char)sym[2] - 0x80]; }
  if (ma > UINT32_MAX || mi > UINT32_MAX) ok = 0;
  CHECK((st == DISIR_STATUS_OK) == ok, "exactly the texts that start with number.number (each below 2^32) convert");
  CHECK(!ok || (v.sv_major == ma && v.sv_minor == mi), "the numbers read are the numbers stored");
  CHECK(st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_ARGUMENT, "status");
  CHECK(dc_version_convert(NULL, &v) == DISIR_STATUS_INVALID_ARGUMENT && dc_version_convert(s, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL refused");
  REACH("convert");
}
