//@file prop=P22 unwind=6 bunwind=6 sources=disir_config.c,disir_mold.c model=disir_error_set,disir_error_clear kind=bounded bound=up_to_3_plugins keep=1
#include "model.h"
#include "disir_private.h"
#include "mqueue.h"
#include "log_stub.h"
/* plugins P[0..n-1] in order of registration; group, operations and answers of each are arbitrary */
#define NP 3
typedef struct disir_register_plugin RP;
static struct disir_register_plugin_internal P0, P1, P2, *P[NP]; static struct disir_instance I; static enum disir_status Q[NP], R[NP]; static int asked[NP], done[NP], order, isset, cleared, mold_; static const char *EID; static struct disir_config CF; static struct disir_mold MO; static struct disir_entry EN, *gotentry; static _Bool INGRP[NP]; static char GRP[3], EIDB[4]; static int n; static const char *GN[NP]; static struct disir_mold *OM;
static int who(RP *p) { for (int i = 0; i < NP; i++) if (p == &P[i]->pi_plugin) return i; CHECK(0, "the plugin itself is handed over"); return 0; }
static int ask(struct disir_instance *in, RP *p, const char *e, int m) { int i = who(p); CHECK(in == &I && e == EID && m == mold_, "the operation for the caller's instance and entry"); CHECK(INGRP[i], "only plugins of the group are involved"); return i; }
static enum disir_status query(struct disir_instance *in, RP *p, const char *e, struct disir_entry **o, int m) { int i = ask(in, p, e, m); CHECK(asked[i] == 0, "asked once"); for (int j = i + 1; j < NP; j++) CHECK(asked[j] == 0, "asked in order of registration"); asked[i]++; if (o && Q[i] == DISIR_STATUS_EXISTS) *o = &EN; return Q[i]; }
static enum disir_status cquery(struct disir_instance *in, RP *p, const char *e, struct disir_entry **o) { return query(in, p, e, o, 0); }
static enum disir_status mquery(struct disir_instance *in, RP *p, const char *e, struct disir_entry **o) { return query(in, p, e, o, 1); }
static enum disir_status cread(struct disir_instance *in, RP *p, const char *e, struct disir_mold *m, struct disir_config **o) { int i = ask(in, p, e, 0); CHECK(m == OM && o && *o == NULL, "the caller's mold and a cleared output are handed over"); done[i]++; if (R[i] == DISIR_STATUS_OK) *o = &CF; return R[i]; }
static enum disir_status mread(struct disir_instance *in, RP *p, const char *e, struct disir_mold **o) { int i = ask(in, p, e, 1); CHECK(o && *o == NULL, "a cleared output is handed over"); done[i]++; if (R[i] == DISIR_STATUS_OK) *o = &MO; return R[i]; }
static enum disir_status cwrite(struct disir_instance *in, RP *p, const char *e, struct disir_config *c) { int i = ask(in, p, e, 0); CHECK(c == &CF, "the caller's config"); done[i]++; return R[i]; }
static enum disir_status mwrite(struct disir_instance *in, RP *p, const char *e, struct disir_mold *c) { int i = ask(in, p, e, 1); CHECK(c == &MO, "the caller's mold"); done[i]++; return R[i]; }
static enum disir_status cremove(struct disir_instance *in, RP *p, const char *e) { int i = ask(in, p, e, 2); done[i]++; return R[i]; }
#ifdef M_disir_error_set
void disir_error_set(struct disir_instance *in, const char *f, ...) { isset++; }
void disir_error_clear(struct disir_instance *in) { cleared++; isset = 0; }
#endif
static enum disir_status nd_status(void) { switch (nd_int()) { case 0: return DISIR_STATUS_OK; case 1: return DISIR_STATUS_EXISTS; case 2: return DISIR_STATUS_NOT_EXIST; case 3: return DISIR_STATUS_MOLD_MISSING; case 4: return DISIR_STATUS_FS_ERROR; case 5: return DISIR_STATUS_NO_MEMORY; default: return DISIR_STATUS_RESTRICTION_VIOLATED; } }
static void light(void)
{
  n = 1; GRP[0] = 'g'; EIDB[0] = 'e'; EID = EIDB; P[0] = &P0; P[1] = &P1; P[2] = &P2; for (int i = 0; i < NP; i++) asked[i] = done[i] = 0; P0.pi_group_id = "g"; P0.pi_io_id = P0.pi_plugin.dp_name = "n"; RP *p = &P0.pi_plugin; INGRP[0] = 1; cleared = 0; I.dio_plugin_queue = NULL; MQ_ENQUEUE(I.dio_plugin_queue, &P0);
  p->dp_config_query = cquery; p->dp_mold_query = mquery; p->dp_config_read = cread; p->dp_mold_read = mread; p->dp_config_write = cwrite; p->dp_mold_write = mwrite; p->dp_config_remove = cremove;
}
static void world(int m)
{
  P[0] = &P0; P[1] = &P1; P[2] = &P2; n = nd_int(); ASSUME(n >= 0 && n <= NP); mold_ = m; static char G[NP][3];
  GRP[0] = nd_char(); GRP[1] = nd_char(); GRP[2] = 0;
  EIDB[0] = nd_char(); EIDB[1] = nd_char(); EIDB[2] = 0; EID = EIDB;
  I.dio_plugin_queue = NULL;
  for (int i = 0; i < NP; i++) {
    G[i][0] = nd_char(); G[i][1] = nd_char(); G[i][2] = 0; P[i]->pi_group_id = G[i]; P[i]->pi_io_id = "io"; P[i]->pi_plugin.dp_name = "n"; INGRP[i] = i < n && strcmp(G[i], GRP) == 0; Q[i] = nd_status(); R[i] = nd_status(); asked[i] = done[i] = 0;
    RP *p = &P[i]->pi_plugin; p->dp_config_query = nd_bool() ? cquery : NULL; p->dp_mold_query = nd_bool() ? mquery : NULL; p->dp_config_read = nd_bool() ? cread : NULL; p->dp_mold_read = nd_bool() ? mread : NULL; p->dp_config_write = nd_bool() ? cwrite : NULL; p->dp_mold_write = nd_bool() ? mwrite : NULL; p->dp_config_remove = nd_bool() ? cremove : NULL;
    if (i < n) MQ_ENQUEUE(I.dio_plugin_queue, P[i]);
  }
  isset = nd_bool(); cleared = 0;
}
static _Bool hasq(int i) { return INGRP[i] && (mold_ ? P[i]->pi_plugin.dp_mold_query != NULL : P[i]->pi_plugin.dp_config_query != NULL); }
static int provider(void) { for (int i = 0; i < NP; i++) if (hasq(i) && Q[i] == DISIR_STATUS_EXISTS) return i; return -1; }
static int first(void) { for (int i = 0; i < NP; i++) if (INGRP[i]) return i; return -1; }
/* the operation is carried out once, by plugin t, or nobody does anything */
static void only(int t) { for (int i = 0; i < NP; i++) CHECK(done[i] == (i == t), "carried out exactly once, by the plugin that is responsible"); CHECK(cleared == 1, "the former error is cleared"); }
static void reads(int m)
{
  struct disir_config *c = &CF; struct disir_mold *o = &MO; world(m); OM = nd_bool() ? &MO : NULL; c = (void *)&EN; o = (void *)&EN;
  enum disir_status st = m ? disir_mold_read(&I, GRP, EID, &o) : disir_config_read(&I, GRP, EID, OM, &c);
  int t = provider(); _Bool can = t >= 0 && (m ? P[t]->pi_plugin.dp_mold_read != NULL : P[t]->pi_plugin.dp_config_read != NULL);
  only(can ? t : -1); for (int i = 0; i < NP; i++) CHECK(asked[i] == (hasq(i) && (t < 0 || i <= t)), "the plugins of the group are asked until one has the entry");
  CHECK(st == (t < 0 ? DISIR_STATUS_NOT_EXIST : can ? R[t] : DISIR_STATUS_NO_CAN_DO), "the answer is that of the first plugin of the group that has the entry");
  CHECK((isset > 0) == (t < 0), "that nobody has it is left as message"); CHECK(can && R[t] == DISIR_STATUS_OK ? (m ? o == &MO : c == &CF) : 1, "what was read is handed out");
  if (can) REACH("read"); else if (t >= 0) REACH("cannot"); else REACH("nobody");
}
//@unit name=config_read harness=h_cread
void h_cread(void) { reads(0); }
//@unit name=mold_read harness=h_mread
void h_mread(void) { reads(1); }
//@unit name=write harness=h_write
void h_write(void)
{
  int k = nd_int(); ASSUME(k >= 0 && k <= 2); world(k == 2 ? 2 : k); size_t l = strlen(EID);
  enum disir_status st = k == 0 ? disir_config_write(&I, GRP, EID, &CF) : k == 1 ? disir_mold_write(&I, GRP, EID, &MO) : disir_config_remove(&I, GRP, EID);
  int t = first(); _Bool ns = k != 1 && l > 0 && EID[l - 1] == '/'; RP *p = t < 0 ? NULL : &P[t]->pi_plugin; _Bool can = p && !ns && (k == 0 ? p->dp_config_write != NULL : k == 1 ? p->dp_mold_write != NULL : p->dp_config_remove != NULL);
  only(can ? t : -1); for (int i = 0; i < NP; i++) CHECK(asked[i] == 0, "nobody is asked");
  CHECK(st == (ns ? DISIR_STATUS_FS_ERROR : t < 0 ? DISIR_STATUS_NOT_EXIST : can ? R[t] : DISIR_STATUS_NO_CAN_DO), "the first plugin of the group writes and removes, never a namespace");
  CHECK((isset > 0) == (ns || t < 0), "a refusal is left as message");
  if (can) { REACH("written"); } else if (ns) REACH("namespace"); else if (t >= 0) REACH("cannot"); else REACH("nobody");
}
static void queries(int m)
{
  struct disir_entry *e = NULL; _Bool want = nd_bool(); world(m);
  enum disir_status st = m ? disir_mold_query(&I, GRP, EID, want ? &e : NULL) : disir_config_query(&I, GRP, EID, want ? &e : NULL);
  int t = provider(), any = 0, ok = 0; for (int i = 0; i < NP; i++) { any |= hasq(i); ok |= hasq(i) && st == Q[i]; } only(-1);
  CHECK(t >= 0 ? st == DISIR_STATUS_EXISTS : any ? st != DISIR_STATUS_EXISTS && ok : st == DISIR_STATUS_GROUP_MISSING, "an entry exists exactly when a plugin of the group has it");
  CHECK(e == (t >= 0 && want ? &EN : NULL), "its description is handed out"); CHECK((isset > 0) == (st == DISIR_STATUS_NOT_EXIST || !any), "that it does not exist is left as message");
  for (int i = 0; i < NP; i++) CHECK(asked[i] <= hasq(i), "nobody is asked twice"); if (t > 0) REACH("exists"); else if (t < 0) REACH("absent");
}
//@unit name=config_query harness=h_cquery
void h_cquery(void) { queries(0); }
//@unit name=mold_query harness=h_mquery
void h_mquery(void) { queries(1); }
//@unit name=null harness=h_null never=multimap_create,multimap_destroy,multimap_push_value,multimap_contains_key,disir_entry_finished
void h_null(void)
{
  light(); struct disir_config *c = &CF; struct disir_mold *m = &MO; struct disir_entry *e = NULL; struct disir_instance *in = nd_bool() ? &I : NULL; const char *g = nd_bool() ? GRP : NULL, *id = nd_bool() ? EID : NULL; _Bool o = nd_bool(); int k = nd_int(); ASSUME(k >= 0 && k <= 8);
  _Bool hasid = k != 7 && k != 8, hasout = k != 4 && k != 5 && k != 6; ASSUME(in == NULL || g == NULL || (hasid && id == NULL) || (hasout && !o)); isset = 0; enum disir_status st;
  switch (k) { case 0: st = disir_config_read(in, g, id, NULL, o ? &c : NULL); break; case 1: st = disir_config_write(in, g, id, o ? &CF : NULL); break; case 2: st = disir_mold_read(in, g, id, o ? &m : NULL); break; case 3: st = disir_mold_write(in, g, id, o ? &MO : NULL); break;
  case 4: st = disir_config_remove(in, g, id); break; case 5: st = disir_config_query(in, g, id, o ? &e : NULL); break; case 6: st = disir_mold_query(in, g, id, o ? &e : NULL); break; case 7: st = disir_config_entries(in, g, o ? &e : NULL); break; default: st = disir_mold_entries(in, g, o ? &e : NULL); }
  CHECK(st == DISIR_STATUS_INVALID_ARGUMENT && cleared == 0 && c == &CF && m == &MO && e == NULL, "NULL is refused and nothing happens"); for (int i = 0; i < NP; i++) CHECK(asked[i] == 0 && done[i] == 0, "no plugin is involved"); REACH("null");
}
