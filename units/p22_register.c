//@file prop=P22 unwind=6 bunwind=6 sources=disir_plugin.c kind=bounded bound=up_to_2_plugins_registered_before,_texts_of_up_to_2_bytes
#include "model.h"
#include "disir_private.h"
#include "mqueue.h"
#include "log_stub.h"
static struct disir_instance I; static struct disir_register_plugin_internal P0, P1; static char G0[3], G1[3], TX[6][3]; static int n;
static void txt(char *b) { b[0] = nd_char(); b[1] = nd_char(); b[2] = 0; }
static void world(void) { n = nd_int(); ASSUME(n >= 0 && n <= 2); txt(G0); txt(G1); P0.pi_group_id = G0; P1.pi_group_id = G1; I.dio_plugin_queue = NULL; if (n > 0) MQ_ENQUEUE(I.dio_plugin_queue, &P0); if (n > 1) MQ_ENQUEUE(I.dio_plugin_queue, &P1); }
static enum disir_status f_(void) { return DISIR_STATUS_OK; }
static _Bool own(const char *c, const char *s) { return c != NULL && c != s && strcmp(c, s) == 0; }
//@unit name=register harness=h_register
void h_register(void)
{
  world(); for (int i = 0; i < 6; i++) txt(TX[i]); struct disir_register_plugin r = { 0 }; r.dp_name = TX[0]; r.dp_description = TX[1]; r.dp_config_entry_type = TX[2]; r.dp_mold_entry_type = TX[3]; int st_; r.dp_storage = &st_;
  r.dp_config_read = (void *)f_; r.dp_config_query = (void *)(nd_bool() ? f_ : NULL); r.dp_mold_write = (void *)(nd_bool() ? f_ : NULL); r.dp_config_entries = (void *)(nd_bool() ? f_ : NULL); r.dp_mold_query = (void *)f_; r.dp_plugin_finished = (void *)f_; r.dp_major_version = nd_u32();
  vt_alloc_fail_at = nd_int(); ASSUME(vt_alloc_fail_at >= 0 && vt_alloc_fail_at <= 8); int f = vt_alloc_fail_at; unsigned long live = vt_alloc_live;
  struct disir_register_plugin_internal *before = n == 2 ? &P1 : n == 1 ? &P0 : NULL; struct disir_register_plugin c = r;
  enum disir_status st = disir_plugin_register(&I, &r, TX[4], TX[5]);
  struct disir_register_plugin_internal *p = before ? before->next : I.dio_plugin_queue; if (n) CHECK(I.dio_plugin_queue == &P0, "plugins registered before come first"); if (n == 2) CHECK(P0.next == &P1, "in their order");
  CHECK(r.dp_name == TX[0] && r.dp_description == TX[1] && r.dp_config_entry_type == TX[2] && r.dp_mold_entry_type == TX[3], "the caller's structure is left alone"); int used = f > 0 && vt_alloc_fail_at == 0;
  if (st == DISIR_STATUS_OK) {
    CHECK(!used && p != NULL, "it is registered"); CHECK(p->next == NULL && I.dio_plugin_queue->prev == p && p->prev == (before ? before : p), "behind the others"); CHECK(own(p->pi_io_id, TX[4]) && own(p->pi_group_id, TX[5]), "under the given name and group");
    CHECK(own(p->pi_plugin.dp_name, TX[0]) && own(p->pi_plugin.dp_description, TX[1]) && own(p->pi_plugin.dp_config_entry_type, TX[2]) && own(p->pi_plugin.dp_mold_entry_type, TX[3]), "with texts of its own");
    CHECK(p->pi_plugin.dp_storage == &st_ && p->pi_plugin.dp_config_read == c.dp_config_read && p->pi_plugin.dp_config_query == c.dp_config_query && p->pi_plugin.dp_mold_write == c.dp_mold_write && p->pi_plugin.dp_config_entries == c.dp_config_entries && p->pi_plugin.dp_mold_query == c.dp_mold_query && p->pi_plugin.dp_config_write == NULL && p->pi_plugin.dp_mold_read == NULL && p->pi_plugin.dp_plugin_finished == c.dp_plugin_finished && p->pi_plugin.dp_major_version == c.dp_major_version, "and with its operations and storage"); REACH("registered");
  } else { CHECK(st == DISIR_STATUS_NO_MEMORY && used, "it is refused for lack of memory only"); CHECK(p == NULL && vt_alloc_live == live && (n == 0 || I.dio_plugin_queue->prev == before), "and then nothing is left behind"); REACH("nomem"); }
  CHECK(disir_plugin_register(NULL, &r, TX[4], TX[5]) == DISIR_STATUS_INVALID_ARGUMENT && disir_plugin_register(&I, NULL, TX[4], TX[5]) == DISIR_STATUS_INVALID_ARGUMENT && disir_plugin_register(&I, &r, NULL, TX[5]) == DISIR_STATUS_INVALID_ARGUMENT && disir_plugin_register(&I, &r, TX[4], NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
}
//@unit name=registered harness=h_registered
void h_registered(void)
{
  world(); vt_alloc_fail_at = nd_int(); ASSUME(vt_alloc_fail_at >= 0 && vt_alloc_fail_at <= 5); int f = vt_alloc_fail_at; unsigned long live = vt_alloc_live; struct disir_plugin *l = (void *)&I; enum disir_status st = disir_plugin_registered(&I, &l); int used = f > 0 && vt_alloc_fail_at == 0;
  if (st == DISIR_STATUS_OK) {
    CHECK(!used, "it succeeds only when the list is whole"); struct disir_plugin *a = l, *b = n > 0 && a ? a->next : NULL; CHECK((a != NULL) == (n > 0) && (b != NULL) == (n > 1), "one item for each plugin"); if (a) CHECK(own(a->pl_group_id, G0), "with its group"); if (b) CHECK(own(b->pl_group_id, G1) && b->next == NULL && b->prev == a && a->prev == b, "in order of registration"); ASSUME((a != NULL) == (n > 0) && (b != NULL) == (n > 1));
    CHECK(vt_alloc_live == live + 2 * (unsigned)n, "nothing else is kept"); if (a) disir_plugin_finished(&a); if (b) disir_plugin_finished(&b); CHECK(vt_alloc_live == live, "finishing releases everything"); if (n == 2) REACH("two");
  } else { CHECK(st == DISIR_STATUS_NO_MEMORY && used && vt_alloc_live == live, "otherwise lack of memory is reported and nothing is kept"); REACH("nomem"); }
  CHECK(disir_plugin_registered(NULL, &l) == DISIR_STATUS_INVALID_ARGUMENT && disir_plugin_registered(&I, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
}
//@unit name=by_group harness=h_group
void h_group(void)
{
  world(); char g[3]; txt(g); struct disir_register_plugin *p = (void *)&I, *x = n > 0 && strcmp(G0, g) == 0 ? &P0.pi_plugin : n > 1 && strcmp(G1, g) == 0 ? &P1.pi_plugin : NULL;
  CHECK(dx_retrieve_plugin_by_group(&I, g, &p) == DISIR_STATUS_OK && p == x, "the first plugin of the group is found"); if (x) REACH("found"); else REACH("none");
}
