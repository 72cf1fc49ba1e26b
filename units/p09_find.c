//@file prop=P09 unwind=8 bunwind=8 sources=context.c,context_util.c
#include "model.h"
#include "collection.h"
#include "element_storage.h"
#include "log_stub.h"
static struct disir_context sec, par; static struct disir_section se; static char ST[4]; 
/* ---- contracts of what is called (verified in p09_storage.c and p08_collection.c) ---- */
static struct disir_element_storage *asked; static const char *asked_name; static struct disir_collection *given; static enum disir_status ANS; static int calls;
#ifdef M_dx_element_storage_get
enum disir_status dx_element_storage_get(struct disir_element_storage *s, const char *const n, struct disir_collection **c)
{ asked = s; asked_name = n; calls++; if (!s || !n || !c) return DISIR_STATUS_INVALID_ARGUMENT; if (ANS == DISIR_STATUS_OK) *c = given; return ANS; }
#endif
#ifdef M_dx_element_storage_get_all
enum disir_status dx_element_storage_get_all(struct disir_element_storage *s, struct disir_collection **c)
{ asked = s; calls++; if (!s || !c) return DISIR_STATUS_INVALID_ARGUMENT; if (ANS == DISIR_STATUS_OK) *c = given; return ANS; }
#endif
static struct disir_context *any(struct disir_element_storage **s)
{
  vt_world(); vt_ctx(&sec, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); sec.cx_section = &se; se.se_context = &sec;
  w.mold.mo_elements = (void *)&ST[0]; w.cfg.cf_elements = (void *)&ST[1]; se.se_elements = (void *)&ST[2]; given = (void *)&ST[3];
  switch (nd_int()) { case 0: *s = (void *)&ST[0]; return &w.moldc; case 1: *s = (void *)&ST[1]; return &w.cfgc; case 2: *s = (void *)&ST[2]; return &sec; default: *s = NULL; return nd_bool() ? NULL : nd_bool() ? &w.ckvc : &w.defc; }
}
//@unit name=find_elements harness=h_find_elements kind=proved model=dx_element_storage_get,dx_element_storage_get_all keep=1
void h_find_elements(void)
{
  struct disir_element_storage *s; struct disir_context *c = any(&s); struct disir_collection *out = NULL; const char *name = nd_bool() ? "x" : NULL; int a = nd_int(); _Bool all = nd_bool(), noout = nd_bool();
  ANS = a == 0 ? DISIR_STATUS_NOT_EXIST : a == 1 ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_OK;
  enum disir_status st = all ? dc_get_elements(c, noout ? NULL : &out) : dc_find_elements(c, name, noout ? NULL : &out);
  if (s == NULL) CHECK(st == (c == NULL ? DISIR_STATUS_INVALID_ARGUMENT : DISIR_STATUS_WRONG_CONTEXT) || (noout && st == DISIR_STATUS_INVALID_ARGUMENT), "only a config, mold or section holds elements");
  else if (noout || (!all && name == NULL)) CHECK(st == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  else CHECK(st == ANS && calls == 1 && asked == s && (all || asked_name == name) && out == (ANS == DISIR_STATUS_OK ? given : NULL), "the elements of exactly this config, mold or section are asked for");
  if (s == NULL || noout) CHECK(out == NULL && calls == 0, "nothing is given out"); REACH("find elements");
}
/* ---- one element by its index: any number of elements with this name ---- */
static uint32_t SIZE, AT, POS; static int64_t REFS; static struct disir_context WANTED, OTHER; static _Bool finished;
#ifdef M_dc_find_elements
enum disir_status dc_find_elements(struct disir_context *c, const char *n, struct disir_collection **col) { if (!n) return DISIR_STATUS_INVALID_ARGUMENT; if (ANS == DISIR_STATUS_OK) *col = given; calls++; return ANS; }
#endif
#ifdef M_dc_collection_size
int32_t dc_collection_size(struct disir_collection *c) { return (int32_t)SIZE; }
#endif
#ifdef M_dc_collection_next
enum disir_status dc_collection_next(struct disir_collection *c, struct disir_context **out)
{ CHECK(c == given && !finished, "the collection is in use"); if (POS >= SIZE) { *out = NULL; return DISIR_STATUS_EXHAUSTED; } *out = POS == AT ? &WANTED : &OTHER; POS++; REFS++; return DISIR_STATUS_OK; }
#endif
#ifdef M_dc_collection_finished
enum disir_status dc_collection_finished(struct disir_collection **c) { CHECK(*c == given && !finished, "the collection is given up once"); finished = 1; *c = NULL; return DISIR_STATUS_OK; }
#endif
#ifdef M_dc_putcontext
enum disir_status dc_putcontext(struct disir_context **c) { CHECK(*c == &WANTED || *c == &OTHER, "a reference that was given is released"); REFS--; *c = NULL; return DISIR_STATUS_OK; }
#endif
#ifdef VT_BOUNDED
#define MAXN 4
#else
#define MAXN INT32_MAX
#endif
unsigned int vt_fe_havoc(enum disir_status *st) { *st = DISIR_STATUS_OK; POS = nd_u32(); REFS = 0; return POS; }
_Bool vt_fe_inv(unsigned int i, unsigned int index) { return i == POS && REFS == 0 && i <= index; }
//@unit name=find_element harness=h_find_element kind=proved model=dc_find_elements,dc_collection_size,dc_collection_next,dc_collection_finished,dc_putcontext keep=1 cuts=find_element
void h_find_element(void)
{
  struct disir_context *out = &w.ckvc; const char *name = nd_bool() ? "x" : NULL; int a = nd_int(); _Bool noout = nd_bool(); given = (void *)&ST[3]; vt_world();
  ANS = a == 0 ? DISIR_STATUS_NOT_EXIST : a == 1 ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_OK; SIZE = nd_u32(); AT = nd_u32(); ASSUME(SIZE >= 1 && SIZE <= MAXN); 
  enum disir_status st = dc_find_element(&w.cfgc, name, AT, noout ? NULL : &out);
  if (noout || name == NULL) CHECK(st == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  else if (ANS != DISIR_STATUS_OK) CHECK(st == ANS, "no element of this name");
  else CHECK(st == (AT < SIZE ? DISIR_STATUS_OK : DISIR_STATUS_NOT_EXIST), "an element is found exactly when there are more than index of this name");
  if (st == DISIR_STATUS_OK) { CHECK(out == &WANTED && REFS == 1, "the one with this index, with a reference"); REACH("found"); } else { CHECK(out == &w.ckvc && REFS == 0, "nothing is given out otherwise"); REACH("not found"); }
  CHECK(noout || !calls || ANS != DISIR_STATUS_OK || finished, "the collection is given up");
}
