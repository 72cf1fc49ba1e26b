//@file prop=P09 unwind=18 bunwind=18 sources=element_storage.c,multimap.c,list.c,list_iterator.c,collection.c,context_util.c kind=bounded bound=up_to_4_elements_with_names_of_up_to_2_bytes
/* the elements of a config, mold or section: map and list together, real text of all of them */
#include "model.h"
#include "collection.h"
#include "element_storage.h"
#include "log_stub.h"
#define K 5
static struct disir_context C[K + 1]; static const char *NM[K + 1]; static _Bool in[K + 1]; static int N; static struct disir_element_storage *S;
/* the elements 0..n-1 with these names ("aB" and "b!" have the same hash) */
static void world(const char *a, const char *b, const char *c, const char *d)
{
  const char *names[4]; names[0] = a; names[1] = b; names[2] = c; names[3] = d;
  S = dx_element_storage_create(); ASSUME(S != NULL); N = 0;
  for (int i = 0; i <= K; i++) { vt_ctx(&C[i], DISIR_CONTEXT_KEYVAL, &w.moldc, &w.moldc); }
  for (int i = 0; i < 4; i++) if (names[i]) { NM[N] = names[i]; in[N] = 1; CHECK(dx_element_storage_add(S, names[i], &C[N]) == DISIR_STATUS_OK, "an element can be added"); N++; }
}
static _Bool same(const char *a, const char *b) { for (; *a && *a == *b; a++) b++; return *a == *b; }
static int count(void) { int n = 0; for (int i = 0; i <= K; i++) n += in[i]; return n; }
static void holds(struct disir_collection *c, const char *name)
{
  int k = 0; for (int i = 0; i <= K; i++) if (in[i] && (name == NULL || same(NM[i], name))) { CHECK(k < c->cc_numentries && c->cc_collection[k] == &C[i], "exactly these elements, in the order they were added"); k++; }
  CHECK(c->cc_numentries == k && c->cc_iterator_index == 0, "and no others");
}
static void find(const char *name)
{
  struct disir_collection *c = NULL; struct disir_context *x = &C[K]; int first = -1; unsigned long live = vt_alloc_live;
  for (int i = K; i >= 0; i--) if (in[i] && same(NM[i], name)) first = i;
  enum disir_status st = dx_element_storage_get(S, name, &c);
  CHECK(st == (first < 0 ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK), "a name is found exactly when an element has it");
  if (st == DISIR_STATUS_OK) { holds(c, name); dc_collection_finished(&c); } else CHECK(c == NULL, "nothing is given out otherwise");
  st = dx_element_storage_get_first(S, name, &x);
  CHECK(st == (first < 0 ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK) && x == (first < 0 ? &C[K] : &C[first]), "the first element with this name");
  CHECK(vt_alloc_live == live, "nothing is left allocated");
}
static void all(void)
{
  struct disir_collection *c = NULL; unsigned long live = vt_alloc_live; CHECK(dx_element_storage_numentries(S) == count(), "the number of elements");
  CHECK(dx_element_storage_get_all(S, &c) == DISIR_STATUS_OK && c != NULL, "all elements can be listed"); if (c) { holds(c, NULL); dc_collection_finished(&c); }
  for (int i = 0; i <= K; i++) CHECK(C[i].cx_refcount == 1 + in[i], "one reference on each element that is held");
  CHECK(vt_alloc_live == live, "nothing is left allocated");
}
static void is(void) { all(); find("aB"); find("b!"); find("x"); find("q"); find(""); }
#define CFG(F) switch (nd_int()) { case 0: world(NULL, NULL, NULL, NULL); F; break; case 1: world("x", NULL, NULL, NULL); F; break; case 2: world("aB", "b!", NULL, NULL); F; break; \
  case 3: world("aB", "x", "b!", NULL); F; break; case 4: world("x", "aB", "x", "aB"); F; break; default: world("b!", "b!", "aB", "x"); F; }
//@unit name=storage_get harness=h_get
void h_get(void) { CFG(is()) REACH("get"); }
/* the k-th allocation fails (0: none does) */
static void add2(const char *name, int k)
{
  unsigned long live = vt_alloc_live; vt_alloc_fail_at = k; enum disir_status st = dx_element_storage_add(S, name, &C[K]); k = vt_alloc_fail_at > 0 ? 0 : k; vt_alloc_fail_at = 0;
  CHECK(st == DISIR_STATUS_OK || (k > 0 && (st == DISIR_STATUS_NO_MEMORY || st == DISIR_STATUS_INTERNAL_ERROR)), "an element can be added unless memory runs out");
  if (st == DISIR_STATUS_OK) { in[K] = 1; NM[K] = name; if (k == 0) REACH("added"); } else CHECK(vt_alloc_live == live, "lack of memory leaves nothing behind");
  all(); find(name); find("aB"); find("b!");
}
#define FAILAT(F, ...) switch (nd_int()) { case 0: F(__VA_ARGS__ 0); break; case 1: F(__VA_ARGS__ 1); break; case 2: F(__VA_ARGS__ 2); break; case 3: F(__VA_ARGS__ 3); break; default: F(__VA_ARGS__ 4); }
static void add(const char *name) { add2(name, 0); }
//@unit name=storage_add harness=h_add
void h_add(void) { CFG(switch (nd_int()) { case 0: add("x"); break; case 1: add("aB"); break; case 2: add("b!"); break; default: add("q"); }) }
static void addf(const char *name) { FAILAT(add2, name,) }
//@unit name=storage_add_memory harness=h_addf
void h_addf(void)
{
  switch (nd_int()) { case 0: world(NULL, NULL, NULL, NULL); addf("x"); break; case 1: world("aB", "x", NULL, NULL); addf("b!"); break; default: world("aB", "b!", NULL, NULL); addf("b!"); }
}
static void again(int i)
{
  if (i >= N) return; unsigned long live = vt_alloc_live;
  CHECK(dx_element_storage_add(S, NM[i], &C[i]) == DISIR_STATUS_EXISTS, "an element is held once"); CHECK(vt_alloc_live == live, "nothing is left allocated"); all(); find(NM[i]);
}
//@unit name=storage_add_again harness=h_again
void h_again(void)
{
  CFG(switch (nd_int()) { case 0: again(0); break; case 1: again(1); break; case 2: again(2); break; default: again(3); })
  CHECK(dx_element_storage_add(NULL, "x", &C[K]) == DISIR_STATUS_INVALID_ARGUMENT && dx_element_storage_add(S, NULL, &C[K]) == DISIR_STATUS_INVALID_ARGUMENT && dx_element_storage_add(S, "x", NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  struct disir_collection *c; CHECK(dx_element_storage_get(NULL, "x", &c) == DISIR_STATUS_INVALID_ARGUMENT && dx_element_storage_get(S, NULL, &c) == DISIR_STATUS_INVALID_ARGUMENT && dx_element_storage_get(S, "x", NULL) == DISIR_STATUS_INVALID_ARGUMENT && dx_element_storage_get_all(NULL, &c) == DISIR_STATUS_INVALID_ARGUMENT && dx_element_storage_get_all(S, NULL) == DISIR_STATUS_INVALID_ARGUMENT && dx_element_storage_numentries(NULL) == -1, "NULL is refused");
  REACH("again");
}
static void rem(int i)
{
  if (i < N) { CHECK(dx_element_storage_remove(S, NM[i], &C[i]) == DISIR_STATUS_OK, "an element can be removed"); in[i] = 0; all(); find(NM[i]); find("aB"); find("b!"); }
  else { CHECK(dx_element_storage_remove(S, "x", &C[K]) == DISIR_STATUS_OK, "an unknown element is ignored"); all(); find("x"); }
}
//@unit name=storage_remove harness=h_remove
void h_remove(void) { CFG(switch (nd_int()) { case 0: rem(0); break; case 1: rem(1); break; case 2: rem(2); break; case 3: rem(3); break; default: rem(4); }) REACH("removed"); }
static void fail2(int what, int k)
{
  struct disir_collection *c = NULL; unsigned long live = vt_alloc_live;
  vt_alloc_fail_at = k; enum disir_status st = what ? dx_element_storage_get(S, "aB", &c) : dx_element_storage_get_all(S, &c); k = vt_alloc_fail_at > 0 ? 0 : k; vt_alloc_fail_at = 0;
  CHECK(st == DISIR_STATUS_OK || (k > 0 && st == DISIR_STATUS_NO_MEMORY) || (what && st == DISIR_STATUS_NOT_EXIST), "lack of memory is reported");
  if (st == DISIR_STATUS_OK) { holds(c, what ? "aB" : NULL); dc_collection_finished(&c); } else { CHECK(c == NULL, "nothing is given out"); REACH("no memory"); }
  CHECK(vt_alloc_live == live, "nothing is left allocated"); all();
}
static void fail(void) { if (nd_bool()) { FAILAT(fail2, 0,) } else { FAILAT(fail2, 1,) } }
//@unit name=storage_get_memory harness=h_fail
void h_fail(void) { CFG(fail()) }
static void create(int k)
{
  vt_alloc_fail_at = k; S = dx_element_storage_create(); k = vt_alloc_fail_at > 0 ? 0 : k; vt_alloc_fail_at = 0;
  CHECK((S == NULL) == (k > 0), "a storage is created unless memory runs out");
  if (S) { all(); find("x"); REACH("created"); CHECK(dx_element_storage_destroy(&S) == DISIR_STATUS_OK && S == NULL, "an empty storage can be destroyed"); }
  CHECK(vt_alloc_live == 0, "nothing is left allocated");
}
//@unit name=storage_create harness=h_create unwindset=delete_buckets.0:66,delete_buckets.1:66,delete_buckets.2:66 never=dc_destroy
void h_create(void)
{
  for (int i = 0; i <= K; i++) { vt_ctx(&C[i], DISIR_CONTEXT_KEYVAL, &w.moldc, &w.moldc); }
  FAILAT(create,) CHECK(dx_element_storage_destroy(NULL) == DISIR_STATUS_INVALID_ARGUMENT && dx_element_storage_destroy(&S) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
}
