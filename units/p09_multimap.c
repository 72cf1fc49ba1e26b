//@file prop=P09 unwind=9 sources= kind=bounded bound=3_keys_with_up_to_3_values
/* the map of 3rdparty/void-multimap, whole: its text is included so that its private structures are visible */
#include "vt.h"
#include <errno.h>
#ifndef VT_NATIVE
#define malloc vt_malloc
#define calloc vt_calloc
#define realloc vt_realloc
#define free vt_free
#endif
#include <void-multimap/multimap.c>
#ifndef VT_NATIVE
#undef malloc
#undef calloc
#undef realloc
#undef free
#endif
static int ID[5] = {0, 1, 2, 3, 4}, COPY[5] = {0, 1, 2, 3, 4}; static unsigned long HV[5]; static char V[5][5]; static int n, sz[5], freed[5]; static struct multimap *map;
static int cmp(const void *a, const void *b) { return *(const int *)a != *(const int *)b; }
static unsigned long hash(const void *a) { return HV[*(const int *)a]; }
static void freekey(void *k) { for (int i = 0; i < 5; i++) if (k == &ID[i]) freed[i]++; }
/* three keys: where they live (bucket) and how many values they have */
static struct mapnode *node(int i, struct mapnode *next)
{
  struct mapnode *p = vt_malloc(sizeof *p); p->key = &ID[i]; p->next = next; p->value_size = sz[i]; p->value_capacity = 3; p->value_list = vt_malloc(3 * sizeof(void *));
  for (int j = 0; j < 3; j++) p->value_list[j] = &V[i][j];
  return p;
}
static void world(int nkeys, int nb, int split, int s0, int s1, int s2)
{
  n = nkeys; sz[0] = s0; sz[1] = s1; sz[2] = s2; sz[3] = sz[4] = 0; if (n < 3) sz[2] = 0; if (n < 2) sz[1] = 0; if (n < 1) sz[0] = 0;
  map = vt_malloc(sizeof *map); map->nbuckets = nb; map->size = sz[0] + sz[1] + sz[2]; map->cmpfunc = cmp; map->hashfunc = hash; map->buckets = vt_calloc(nb, sizeof(struct mapnode *));
  for (int i = 0; i < 5; i++) HV[i] = (unsigned long)(i == 2 && split ? 1 : 0) + (unsigned long)nb * (unsigned long)(i == 1 || i == 4);
  struct mapnode *c = NULL; if (n > 2 && !split) c = node(2, c); if (n > 1) c = node(1, c); if (n > 0) c = node(0, c);
  map->buckets[0] = c; if (n > 2 && split) map->buckets[1] = node(2, NULL);
}
/* key i has exactly the values V[i][0..k-1] without number drop, then extra */
static void has(int i, int k, int drop, void *extra)
{
  struct mapnode *p = map->buckets[HV[i] % (unsigned long)map->nbuckets]; int steps = 0, m = 0;
  while (p && *(const int *)p->key != i) { p = p->next; steps++; CHECK(steps < 6, "chains end"); }
  int want = k - (drop >= 0) + (extra != NULL);
  if (want == 0) { CHECK(p == NULL, "a key without values is not in the map"); return; }
  CHECK(p != NULL && p->value_size == want && p->value_size <= p->value_capacity, "a key keeps exactly its values");
  if (p == NULL) return;
  for (int j = 0; j < 3; j++) if (j < k && j != drop) { CHECK(p->value_list[m] == &V[i][j], "in their order"); m++; }
  if (extra) CHECK(p->value_list[m] == extra, "the new value last");
  for (p = p->next; p; p = p->next) CHECK(*(const int *)p->key != i, "a key is in the map once");
}
static void others(int k) { for (int i = 0; i < 4; i++) if (i != k) has(i, sz[i], -1, NULL); }
#define CFG(F, ...) switch (nd_int()) { case 0: world(0, 2, 0, 0, 0, 0); F; break; case 1: world(1, 2, 0, 3, 0, 0); F; break; case 2: world(2, 4, 0, 1, 2, 0); F; break; case 3: world(3, 4, 0, 3, 1, 2); F; break; \
  case 4: world(3, 16, 1, 2, 3, 1); F; break; default: world(3, 2, 1, 1, 1, 3); F; }
static void push2(int k, _Bool again)
{
  void *v = again ? &V[k][sz[k] - 1] : &V[k][4]; int size = map->size; unsigned long live = vt_alloc_live;
  vt_alloc_may_fail = 1; int r = multimap_push_value(map, k < n ? &COPY[k] : &ID[k], v); vt_alloc_may_fail = 0;
  if (again) CHECK(r == -1, "a value is held once per key");
  else CHECK(r == 0 || r == -ENOMEM, "pushing succeeds unless memory runs out");
  if (r == 0) { has(k, sz[k], -1, v); CHECK(map->size == size + 1, "the size counts values"); }
  else { has(k, sz[k], -1, NULL); CHECK(map->size == size && vt_alloc_live == live, "a refused value changes nothing"); }
  others(k);
}
static void push(int k) { if (k < n && nd_bool()) push2(k, 1); else push2(k, 0); }
//@unit name=map_push harness=h_push
void h_push(void) { CFG(switch (nd_int()) { case 0: push(0); break; case 1: push(n > 1 ? 1 : 3); break; default: push(n > 2 ? 2 : 3); }) REACH("push"); }
//@unit name=map_push_new harness=h_push_new
void h_push_new(void) { CFG(push(3)) REACH("push"); }
static void rem(int k, int j)
{
  void *v = j < 3 && j < sz[k] ? (void *)&V[k][j] : (void *)&V[4][0]; int size = map->size;
  void *r = multimap_remove_value(map, &COPY[k], freekey, v);
  if (j < sz[k]) { CHECK(r == v && map->size == size - 1, "the value is removed"); has(k, sz[k], j, NULL); CHECK(freed[k] == (sz[k] == 1), "the key is given up with its last value"); }
  else { CHECK(r == NULL && map->size == size && freed[k] == 0, "an unknown value or key changes nothing"); has(k, sz[k], -1, NULL); }
  others(k); for (int i = 0; i < 5; i++) if (i != k) CHECK(freed[i] == 0, "other keys are kept");
}
//@unit name=map_remove harness=h_remove
void h_remove(void) { CFG(switch (nd_int()) { case 0: rem(0, 0); break; case 1: rem(1, 0); break; case 2: rem(2, 0); break; case 3: rem(0, 1); break; case 4: rem(1, 1); break; case 5: rem(2, 1); break; case 6: rem(0, 2); break; case 7: rem(1, 2); break; case 8: rem(2, 2); break; default: rem(3, 3); }) REACH("remove"); }
static void get(int k)
{
  int i = 0; void *v; unsigned long live = vt_alloc_live;
  CHECK(multimap_contains_key(map, &COPY[k]) == (sz[k] > 0), "a key is known exactly when it has values");
  CHECK(multimap_get_first(map, &COPY[k]) == (sz[k] > 0 ? (void *)&V[k][0] : NULL), "its first value");
  CHECK(multimap_size(map) == sz[0] + sz[1] + sz[2], "the size counts values");
  struct multimap_value_iterator *it = multimap_fetch(map, &COPY[k]);
  CHECK((it == NULL) == (sz[k] == 0), "values can be fetched exactly when there are some");
  if (it) { for (; i < 3; i++) { v = multimap_iterator_next(it); CHECK(v == (i < sz[k] ? (void *)&V[k][i] : NULL), "all values in order, then none"); } CHECK(multimap_iterator_next(it) == NULL, "all values in order, then none"); CHECK(multimap_iterator_destroy(it) == 0, "the iterator is destroyed"); }
  CHECK(vt_alloc_live == live, "nothing is left allocated");
  others(9);
}
//@unit name=map_get harness=h_get
void h_get(void) { CFG(switch (nd_int()) { case 0: get(0); break; case 1: get(1); break; case 2: get(2); break; default: get(3); }) REACH("get"); }
//@unit name=map_destroy harness=h_destroy
void h_destroy(void)
{
  CFG(multimap_destroy(map, freekey, NULL)) for (int i = 0; i < 5; i++) CHECK(freed[i] == (i < n), "each key is given up once");
  CHECK(vt_alloc_live == 0, "everything is released"); REACH("destroy");
}
