//@file prop=P08 unwind=7 sources=collection.c,context_util.c kind=bounded bound=collections_of_up_to_4_entries
#include "model.h"
#include "collection.h"
#include "log_stub.h"
#define K 4
static struct disir_context C[K + 1]; static struct disir_collection col; static _Bool dead[K]; static int N, IT;
static int alive(int upto) { int n = 0; for (int i = 0; i < K; i++) if (i < upto && !dead[i]) n++; return n; }
/* n entries, any of them destroyed meanwhile, iterator anywhere, capacity full or not */
static void world(int n, int cap)
{
  N = n; col.cc_numentries = n; col.cc_capacity = cap; col.cc_collection = vt_malloc((size_t)cap * sizeof(void *));
  for (int i = 0; i <= K; i++) { vt_ctx(&C[i], DISIR_CONTEXT_KEYVAL, &w.moldc, &w.moldc); C[i].cx_refcount = 2; }
  for (int i = 0; i < n; i++) { dead[i] = nd_bool(); C[i].CONTEXT_STATE_DESTROYED = dead[i]; col.cc_collection[i] = &C[i]; }
  IT = nd_int(); ASSUME(IT >= 0 && IT <= n); col.cc_iterator_index = IT;
}
/* entries: the living ones in their order, then extra; iterator at it */
static void is(int it, struct disir_context *extra)
{
  int k = 0;
  for (int i = 0; i < K; i++) if (i < N && !dead[i]) { CHECK(k < col.cc_numentries && col.cc_collection[k] == &C[i], "living entries keep their order"); k++; }
  if (extra) { CHECK(k < col.cc_numentries && col.cc_collection[k] == extra, "the pushed entry comes last"); k++; }
#ifndef VT_NATIVE
  CHECK(__CPROVER_OBJECT_SIZE(col.cc_collection) >= (size_t)col.cc_capacity * sizeof(void *), "the capacity is really allocated");
#endif
  CHECK(col.cc_numentries == k && col.cc_numentries <= col.cc_capacity, "nothing else is in the collection");
  CHECK(col.cc_iterator_index == it, "the iterator stays in front of the first entry it has not returned");
  for (int i = 0; i < K; i++) if (i < N && dead[i]) CHECK(C[i].cx_refcount == 1, "the reference on a destroyed entry is released once");
}
#define SWITCHN(F) switch (nd_int()) { case 0: F(0); break; case 1: F(1); break; case 2: F(2); break; case 3: F(3); break; default: F(4); }
static void refs(int i0, int more) { for (int i = 0; i < K; i++) if (i < N && !dead[i]) CHECK(C[i].cx_refcount == 2 + (i == i0 ? more : 0), "other references are untouched"); }
static void size(int n) { world(n, K); CHECK(dc_collection_size(&col) == alive(n), "the size is the number of living entries"); is(alive(IT), NULL); refs(-1, 0); }
//@unit name=size harness=h_size
void h_size(void) { SWITCHN(size); CHECK(dc_collection_size(NULL) == 0, "no collection has no entries"); REACH("size"); }
static void next(int n)
{
  world(n, K); struct disir_context *x = &C[K]; int it = alive(IT), tot = alive(n), want = -1;
  for (int i = K - 1; i >= 0; i--) if (i < n && i >= IT && !dead[i]) want = i;
  enum disir_status st = dc_collection_next(&col, &x);
  if (want < 0) { CHECK(st == DISIR_STATUS_EXHAUSTED && x == NULL, "exhausted exactly when every living entry was returned"); is(it, NULL); refs(-1, 0); }
  else { CHECK(st == DISIR_STATUS_OK && x == &C[want], "the next living entry is returned"); is(it + 1, NULL); refs(want, 1); }
}
//@unit name=next harness=h_next
void h_next(void)
{
  SWITCHN(next); struct disir_context *x = NULL;
  CHECK(dc_collection_next(NULL, &x) == DISIR_STATUS_INVALID_ARGUMENT && dc_collection_next(&col, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  REACH("next");
}
static void push(int n, int cap, int item)
{
  world(n, cap); if (item < n) ASSUME(!dead[item]);
  CHECK(dc_collection_push_context(&col, &C[item]) == DISIR_STATUS_OK, "pushing succeeds");
  is(alive(IT), &C[item]); refs(item, 1); CHECK(C[item].cx_refcount == 3, "the collection holds a reference");
}
//@unit name=push harness=h_push bound=collections_of_up_to_3_entries
void h_push(void)
{
  switch (nd_int()) { case 0: push(0, 1, K); break; case 1: push(1, 1, K); break; case 2: push(2, 2, 0); break; case 3: push(3, 3, K); break; case 4: push(2, 4, K); break; default: push(3, 4, 1); }
  CHECK(dc_collection_push_context(NULL, &C[0]) == DISIR_STATUS_INVALID_ARGUMENT && dc_collection_push_context(&col, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  REACH("push");
}
//@unit name=push_nomem harness=h_push_nomem
void h_push_nomem(void)
{
  world(2, 2); ASSUME(!dead[0] && !dead[1]); vt_alloc_may_fail = 1;
  enum disir_status st = dc_collection_push_context(&col, &C[K]); vt_alloc_may_fail = 0;
  CHECK(st == DISIR_STATUS_OK || st == DISIR_STATUS_NO_MEMORY, "pushing works or reports lack of memory");
  is(IT, st == DISIR_STATUS_OK ? &C[K] : NULL); CHECK(C[K].cx_refcount == (st == DISIR_STATUS_OK ? 3 : 2), "a reference is held only for a stored entry");
  REACH("nomem");
}
static void reset(int n) { world(n, K); CHECK(dc_collection_reset(&col) == DISIR_STATUS_OK, "reset succeeds"); dx_collection_coalesce(&col); is(0, NULL); refs(-1, 0); }
//@unit name=reset harness=h_reset
void h_reset(void) { SWITCHN(reset); CHECK(dc_collection_reset(NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); REACH("reset"); }
/* an entry whose last reference the collection holds is freed exactly once */
//@unit name=create_finish harness=h_life
void h_life(void)
{
  unsigned long live0 = vt_alloc_live; struct disir_collection *c = dc_collection_create(); vt_world();
  CHECK(c != NULL && c->cc_numentries == 0 && c->cc_iterator_index == 0 && c->cc_capacity > 0, "a new collection is empty");
  struct disir_context *x = dx_context_create(DISIR_CONTEXT_KEYVAL); vt_ctx(&C[0], DISIR_CONTEXT_KEYVAL, &w.moldc, &w.moldc); _Bool d = nd_bool(), keep = nd_bool();
  CHECK(dc_collection_push_context(c, x) == DISIR_STATUS_OK && dc_collection_push_context(c, &C[0]) == DISIR_STATUS_OK, "entries are stored");
  x->CONTEXT_STATE_DESTROYED = d; struct disir_context *y = x; if (!keep) dx_context_decref(&y);
  if (nd_bool()) CHECK(dc_collection_size(c) == (d ? 1 : 2), "only living entries count");
  CHECK(dc_collection_finished(&c) == DISIR_STATUS_OK && c == NULL, "finishing clears the caller's pointer");
  CHECK(C[0].cx_refcount == 1, "references are given back");
  if (keep) { CHECK(x->cx_refcount == 1, "references are given back"); dx_context_decref(&x); }
  CHECK(vt_alloc_live == live0, "nothing is leaked and nothing is freed twice");
  CHECK(dc_collection_finished(&c) == DISIR_STATUS_INVALID_ARGUMENT && dc_collection_finished(NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  REACH("life");
}
