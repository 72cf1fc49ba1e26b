//@file prop=P22 unwind=8 bunwind=8 sources=disir_config.c,disir_mold.c,disir_entry.c model=disir_error_set,disir_error_clear,multimap_create,multimap_destroy,multimap_push_value,multimap_contains_key kind=bounded bound=up_to_2_plugins_of_the_group_with_up_to_3_and_2_entries keep=1
#include "model.h"
#include "disir_private.h"
#include "mqueue.h"
#include "multimap.h"
#include "log_stub.h"
typedef struct disir_register_plugin RP;
static struct disir_register_plugin_internal PX, PA, PB; static struct disir_instance I; static int called[2], maps, nkeys; static const char *keys[6]; static struct disir_entry *E[2][3]; static char NAME[2][3]; static int cnt[2]; static enum disir_status R[2]; static char MAP; static int (*CMP)(const void *, const void *); static unsigned long (*HASH)(const void *);
#ifdef M_disir_error_set
void disir_error_set(struct disir_instance *in, const char *f, ...) {}
void disir_error_clear(struct disir_instance *in) {}
/* contract of the map (P09): keys are equal exactly when their texts are */
struct multimap *multimap_create(int (*c)(const void *, const void *), unsigned long (*h)(const void *)) { char a[2] = "a", b[2] = "a"; CHECK(c(a, b) == 0 && c("a", "b") != 0 && h(a) == h(b), "names are compared by their text, equal names have equal hashes"); maps++; return (void *)&MAP; }
void multimap_destroy(struct multimap *m, void (*k)(void *), void (*v)(void *)) { CHECK(m == (void *)&MAP && k == NULL && v == NULL, "the names stay with their entries"); maps--; }
static _Bool has(const char *k) { for (int i = 0; i < 6; i++) if (i < nkeys && keys[i][0] == k[0]) return 1; return 0; }
int multimap_push_value(struct multimap *m, const void *key, void *val) { ASSUME(nkeys < 6); keys[nkeys++] = key; return 0; }
int multimap_contains_key(struct multimap *m, const void *key) { return has(key); }
#endif
static enum disir_status entries(struct disir_instance *in, RP *p, struct disir_entry **o)
{
  int i = p == &PB.pi_plugin; CHECK(in == &I && (i || p == &PA.pi_plugin), "the plugins of the group are asked for their entries"); CHECK(called[i] == 0 && (i || !called[1]), "once, in order of registration"); called[i]++;
  if (R[i] != DISIR_STATUS_OK) return R[i];
  struct disir_entry *q = NULL; for (int j = 0; j < 3; j++) if (j < cnt[i]) MQ_ENQUEUE(q, E[i][j]); *o = q; return DISIR_STATUS_OK;
}
#ifndef MOLD_
#define MOLD_ 0
#endif
#ifndef C0
#define C0 2
#define C1 2
#define BAD 0
#endif
//@unit name=config_entries harness=h_entries
//@unit name=config_entries_3 harness=h_entries defs=C0=1,C1=3,BAD=0
//@unit name=config_entries_a_fails harness=h_entries defs=C0=1,C1=2,BAD=1
//@unit name=config_entries_b_fails harness=h_entries defs=C0=2,C1=1,BAD=2
//@unit name=mold_entries harness=h_entries defs=MOLD_=1,C0=2,C1=2,BAD=0
//@unit name=mold_entries_3 harness=h_entries defs=MOLD_=1,C0=1,C1=3,BAD=0
//@unit name=mold_entries_a_fails harness=h_entries defs=MOLD_=1,C0=1,C1=2,BAD=1
//@unit name=mold_entries_b_fails harness=h_entries defs=MOLD_=1,C0=2,C1=1,BAD=2
void h_entries(void)
{
  _Bool op[2]; unsigned long base = vt_alloc_live; PX.pi_group_id = "h"; PA.pi_group_id = PB.pi_group_id = "g"; PX.pi_io_id = PA.pi_io_id = PB.pi_io_id = "io";
  PX.pi_plugin.dp_config_entries = entries; PX.pi_plugin.dp_mold_entries = entries;
  for (int i = 0; i < 2; i++) { struct disir_register_plugin_internal *p = i ? &PB : &PA; op[i] = BAD == i + 1 ? nd_bool() : 1; p->pi_plugin.dp_config_entries = op[i] && !MOLD_ ? entries : NULL; p->pi_plugin.dp_mold_entries = op[i] && MOLD_ ? entries : NULL; R[i] = BAD != i + 1 ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_FS_ERROR;
    cnt[i] = i ? C1 : C0; called[i] = 0;
    for (int j = 0; j < 3; j++) { NAME[i][j] = nd_bool() ? 'a' : nd_bool() ? 'b' : nd_bool() ? 'c' : 'd'; E[i][j] = NULL; if (BAD != i + 1 && j < cnt[i]) { E[i][j] = vt_calloc(1, sizeof(struct disir_entry)); E[i][j]->de_entry_name = vt_malloc(2); E[i][j]->de_entry_name[0] = NAME[i][j]; E[i][j]->de_entry_name[1] = 0; } } }
  I.dio_plugin_queue = NULL; int at = (C0 + C1) % 3; if (at == 0) MQ_ENQUEUE(I.dio_plugin_queue, &PX); MQ_ENQUEUE(I.dio_plugin_queue, &PA); if (at == 1) MQ_ENQUEUE(I.dio_plugin_queue, &PX); MQ_ENQUEUE(I.dio_plugin_queue, &PB); if (at == 2) MQ_ENQUEUE(I.dio_plugin_queue, &PX);
  struct disir_entry *out = (void *)&I; enum disir_status st = MOLD_ ? disir_mold_entries(&I, "g", &out) : disir_config_entries(&I, "g", &out);
  CHECK(st == DISIR_STATUS_OK && maps == 0 && called[0] == op[0] && called[1] == op[1], "the call succeeds whatever the plugins answer");
  /* expected: each name once, from the first that provides it, in that order */
  struct disir_entry *x[5], *e = out; int k = 0;
  for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) if (E[i][j]) { _Bool dup = 0; for (int a = 0; a <= i; a++) for (int b = 0; b < 3; b++) if ((a < i || b < j) && E[a][b] && NAME[a][b] == NAME[i][j]) dup = 1; if (!dup) { ASSUME(k < 5); x[k++] = E[i][j]; } }
  for (int i = 0; i < 5; i++) if (i < k) { CHECK(e == x[i], "each name is listed once, as provided by the first plugin that has it"); ASSUME(e == x[i]); CHECK(e->prev == x[i ? i - 1 : k - 1], "the list is doubly linked"); e = e->next; }
  CHECK(e == NULL, "nothing else is listed"); CHECK(vt_alloc_live == base + 2 * (unsigned)k, "superseded entries are released"); ASSUME(e == NULL);
  e = out; for (int i = 0; i < 5; i++) if (e) { struct disir_entry *nx = e->next; CHECK(disir_entry_finished(&e) == DISIR_STATUS_OK && e == NULL, "each is released by the caller"); e = nx; } CHECK(vt_alloc_live == base, "and then nothing is left");
  if (k == (BAD == 1 ? C1 : C0 + (BAD ? 0 : C1))) REACH("all"); if (k == 1) REACH("superseded");
}
//@unit name=entry_finished harness=h_fin bound=lists_of_up_to_4_entries
void h_fin(void)
{
  struct disir_entry *q = NULL, *L[4]; int n = nd_int(), k = nd_int(); ASSUME(n >= 1 && n <= 4 && k >= 0 && k < n); unsigned long base = vt_alloc_live;
  for (int i = 0; i < 4; i++) if (i < n) { L[i] = vt_calloc(1, sizeof(struct disir_entry)); L[i]->de_entry_name = nd_bool() ? vt_malloc(2) : NULL; MQ_ENQUEUE(q, L[i]); } unsigned long have = vt_alloc_live; _Bool nm = L[k]->de_entry_name != NULL;
  struct disir_entry *e = L[k]; CHECK(disir_entry_finished(&e) == DISIR_STATUS_OK && e == NULL, "an entry is released and the pointer cleared"); CHECK(vt_alloc_live == have - 1 - nm, "it and its name are released");
  /* the rest stays a list: in order, doubly linked, from the entry that now comes first */
  struct disir_entry *prev = NULL, *h = NULL, *t = NULL; for (int i = 0; i < 4; i++) if (i < n && i != k) { if (!h) h = L[i]; if (prev) CHECK(prev->next == L[i] && L[i]->prev == prev, "the others stay linked in order"); prev = L[i]; }
  if (prev) CHECK(prev->next == NULL && h->prev == prev, "the list still ends with its last entry, known to the first"); CHECK(disir_entry_finished(NULL) == DISIR_STATUS_INVALID_ARGUMENT && disir_entry_finished(&e) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  if (n == 4 && k == 2) REACH("middle"); if (k == 0) REACH("head"); if (n > 1 && k == n - 1) REACH("tail");
}
