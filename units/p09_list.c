//@file prop=P09 unwind=7 bunwind=7 sources=list_iterator.c kind=bounded bound=lists_of_up_to_4_values
/* the list of 3rdparty/void-list, whole: its text is included so that its private structures are visible */
#include "vt.h"
#ifndef VT_NATIVE
#define LIST_MALLOC vt_malloc
#define LIST_FREE vt_free
#endif
#include <void-list/list.c>
#define K 4
static char V[K + 1]; static list_t *L; static int N;
static void world(int n)
{
  N = n; L = vt_malloc(sizeof *L); L->head = L->tail = NULL; L->free = NULL; L->match = NULL; L->len = (unsigned)n;
  for (int i = 0; i < K; i++) if (i < n) { list_node_t *p = vt_malloc(sizeof *p); p->val = &V[i]; p->next = NULL; p->prev = L->tail; if (L->tail) L->tail->next = p; else L->head = p; L->tail = p; }
}
/* first, then the values without number drop, then last */
static void is(void *first, int drop, void *last)
{
  list_node_t *p = L->head, *prev = NULL; unsigned len = 0;
#define AT(v) { CHECK(p != NULL && p->val == (v) && p->prev == prev, "the list keeps its values in their order"); if (!p) return; prev = p; p = p->next; len++; }
  if (first) AT(first)
  for (int i = 0; i < K; i++) if (i < N && i != drop) AT(&V[i])
  if (last) AT(last)
  CHECK(p == NULL && L->tail == prev && L->len == len, "and nothing else");
}
#define SWITCHN(F) switch (nd_int()) { case 0: F(0); break; case 1: F(1); break; case 2: F(2); break; case 3: F(3); break; default: F(4); }
static void push(int n)
{
  world(n); void *v = nd_bool() ? &V[K] : NULL; unsigned long live = vt_alloc_live;
  vt_alloc_may_fail = 1; int r = nd_bool() ? list_rpush(L, v) : (n = -1, list_lpush(L, v)); vt_alloc_may_fail = 0;
  CHECK(r == 0 || r == -1, "pushing succeeds or fails"); if (v == NULL) CHECK(r == -1, "no value cannot be pushed");
  if (r == 0) { is(n < 0 ? v : NULL, -1, n < 0 ? NULL : v); CHECK(vt_alloc_live == live + 1, "one node"); REACH("pushed"); }
  else { is(NULL, -1, NULL); CHECK(vt_alloc_live == live, "a refused value changes nothing"); }
}
//@unit name=list_push harness=h_push
void h_push(void) { SWITCHN(push) }
static void rem2(int j)
{
  unsigned long live = vt_alloc_live; int r = list_remove(L, &V[j]);
  if (j < N) { CHECK(r == 0 && vt_alloc_live == live - 1, "the value is removed"); is(NULL, j, NULL); }
  else { CHECK(r == -1 && vt_alloc_live == live, "an unknown value cannot be removed"); is(NULL, -1, NULL); }
}
static void rem(int n) { world(n); switch (nd_int()) { case 0: rem2(0); break; case 1: rem2(1); break; case 2: rem2(2); break; case 3: rem2(3); break; default: rem2(4); } }
//@unit name=list_remove harness=h_remove
void h_remove(void) { SWITCHN(rem) REACH("removed"); }
static void iter(int n)
{
  world(n); _Bool back = nd_bool(); unsigned long live = vt_alloc_live; vt_alloc_may_fail = 1;
  list_iterator_t *it = list_iterator_create(L, back ? LIST_TAIL : LIST_HEAD); vt_alloc_may_fail = 0;
  if (it) {
    for (int i = 0; i < K; i++) { void *v = list_iterator_next(it); CHECK(v == (i < n ? (void *)&V[back ? n - 1 - i : i] : NULL), "all values in order, then none"); }
    CHECK(list_iterator_next(it) == NULL, "all values in order, then none"); list_iterator_destroy(&it); CHECK(it == NULL, "the iterator is given up"); REACH("iterated");
  }
  CHECK(vt_alloc_live == live, "nothing is left allocated"); is(NULL, -1, NULL);
}
//@unit name=list_iterate harness=h_iterate
void h_iterate(void) { SWITCHN(iter) }
static void destroy(int n) { world(n); list_destroy(&L); CHECK(L == NULL && vt_alloc_live == 0, "everything is released"); }
//@unit name=list_destroy harness=h_destroy
void h_destroy(void)
{
  vt_alloc_may_fail = 1; L = list_create(); vt_alloc_may_fail = 0;
  if (L) { N = 0; is(NULL, -1, NULL); list_destroy(&L); CHECK(vt_alloc_live == 0, "everything is released"); }
  SWITCHN(destroy) REACH("destroyed");
}
/* any length: only the end of the list is looked at */
//@unit name=list_rpush_any harness=h_rpush_any kind=proved unwind=2
void h_rpush_any(void)
{
  static list_t l; static list_node_t tail, before; unsigned len = (unsigned)nd_int(); static char v;
  l.len = len; if (len) { l.tail = &tail; l.head = nd_bool() ? &before : &tail; tail.prev = l.head == &tail ? NULL : &before; ASSUME((len == 1) == (l.head == &tail)); }
  list_node_t *head = l.head, b = before; ASSUME(len < 0xffffffffu);
  vt_alloc_may_fail = 1; int r = list_rpush(&l, &v); vt_alloc_may_fail = 0;
  if (r == 0) {
    CHECK(l.len == len + 1 && l.tail->val == &v && l.tail->next == NULL, "the new value is last");
    CHECK(len ? l.head == head && l.tail->prev == &tail && tail.next == l.tail : l.head == l.tail && l.tail->prev == NULL, "what was there stays in front");
    REACH("pushed any");
  } else CHECK(r == -1 && l.len == len && l.head == head && l.tail == (len ? &tail : NULL) && tail.next == NULL, "a refused value changes nothing");
  CHECK(before.next == b.next && before.prev == b.prev && before.val == b.val, "other nodes are not touched");
}
