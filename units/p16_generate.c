//@file prop=P16 unwind=4 bunwind=4 sources=generate.c kind=bounded bound=a_mold_with_a_keyval_and_a_section_holding_a_keyval,_five_sets_of_minima_0_to_2,_every_call_failing_in_turn_for_the_smaller_ones keep=1
#include "model.h"
#include "disir_private.h"
#include "log_stub.h"
/* mold: K1 (keyval) and S (section) with K2 (keyval) in it; N[]: what was begun */
#ifndef NC
#define C0 0
#define NC 6
#define NF 56
#endif
#ifndef SEC_
#define SEC_ 0
#endif
#define MAXN 8
static struct disir_context SEC;
static struct disir_context K1, S, K2, N0, N1, N2, N3, N4, N5, N6, N7, *N[MAXN], *par[MAXN]; static struct disir_keyval NK0, NK1, NK2, NK3, NK4, NK5, NK6, NK7; static struct disir_keyval *NK[MAXN]; static int typ[MAXN]; static struct disir_section SS; static struct disir_default D1, D2;
static int mn[3], st_[MAXN], named[MAXN], refs, cols, it[2], failat, n, gives, cfgst; static struct disir_default *val[MAXN]; static enum disir_status FS; static struct disir_version V; static _Bool nodef; static char CB[2];
static _Bool fails(void) { return failat && --failat == 0; }
static int slot(struct disir_context *c) { for (int i = 0; i < MAXN; i++) if (c == N[i]) return i; return MAXN; }
static struct disir_context *cfgroot(void) { return SEC_ ? &SEC : &w.cfgc; }
#ifdef M_dc_get_elements
enum disir_status dc_get_elements(struct disir_context *c, struct disir_collection **o) { CHECK(c == &w.moldc || c == &S, "the elements of the mold"); if (fails()) return FS; int k = c == &S; it[k] = 0; cols++; *o = (void *)&CB[k]; return DISIR_STATUS_OK; }
enum disir_status dc_collection_next(struct disir_collection *col, struct disir_context **o)
{
  int k = (void *)col == (void *)&CB[1]; *o = NULL; if (fails()) return FS; if (it[k] == (k ? 1 : 2)) return DISIR_STATUS_EXHAUSTED; it[k]++; refs++;
  *o = k ? &K2 : it[k] == 1 ? &K1 : &S; return DISIR_STATUS_OK;
}
enum disir_status dc_collection_finished(struct disir_collection **c) { cols--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_putcontext(struct disir_context **c) { CHECK(*c == &K1 || *c == &S || *c == &K2, "an element of the mold"); refs--; *c = NULL; return DISIR_STATUS_OK; }
static _Bool isv(struct disir_version *v) { return v && v->sv_major == V.sv_major && v->sv_minor == V.sv_minor; }
enum disir_status dx_restriction_entries_value(struct disir_context *c, enum disir_restriction_type t, struct disir_version *v, int *o)
{ CHECK(t == DISIR_RESTRICTION_INC_ENTRY_MIN && isv(v), "the minimum at the version"); if (fails()) return FS; *o = mn[c == &K1 ? 0 : c == &S ? 1 : 2]; return DISIR_STATUS_OK; }
enum disir_status dc_begin(struct disir_context *p, enum disir_context_type t, struct disir_context **c)
{
  if (fails()) return FS; CHECK(n < MAXN, "no more entries than the minima ask for"); ASSUME(n < MAXN);
  CHECK(p == cfgroot() || (slot(p) < MAXN && st_[slot(p)] == 1 && typ[slot(p)] == DISIR_CONTEXT_SECTION), "begun in the configuration or in the section just begun");
  vt_ctx(N[n], t, p, &w.cfgc); typ[n] = t; par[n] = p; if (t == DISIR_CONTEXT_KEYVAL) N[n]->cx_keyval = NK[n]; st_[n] = 1; *c = N[n]; n++; return DISIR_STATUS_OK;
}
enum disir_status dc_get_name(struct disir_context *c, const char **o, int32_t *s) { if (fails()) return FS; *o = c == &K1 ? "k" : c == &S ? "s" : "t"; *s = 1; return DISIR_STATUS_OK; }
enum disir_status dc_set_name(struct disir_context *c, const char *o, int32_t s) { int i = slot(c); CHECK(i < MAXN && st_[i] == 1 && s == 1, "the begun element is named"); if (fails()) return FS; named[i] = o[0]; return DISIR_STATUS_OK; }
void dx_default_get_active(struct disir_context *c, struct disir_version *v, struct disir_default **d) { CHECK(isv(v), "the default active at the version"); *d = nodef ? NULL : c == &K1 ? &D1 : &D2; }
enum disir_status dx_value_copy(struct disir_value *d, struct disir_value *s) { CHECK(s == &D1.de_value || s == &D2.de_value, "the value of the default"); if (fails()) return FS; for (int i = 0; i < MAXN; i++) if (d == &NK[i]->kv_value) val[i] = s == &D1.de_value ? &D1 : &D2; return DISIR_STATUS_OK; }
enum disir_status dc_finalize(struct disir_context **c) { int i = slot(*c); CHECK(i < MAXN && st_[i] == 1, "the begun element is finished"); if (fails()) return FS; st_[i] = 2; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_destroy(struct disir_context **c)
{
  if (*c == &w.cfgc) { CHECK(cfgst == 1, "the configuration being made is destroyed once"); cfgst = 3; for (int i = 0; i < MAXN; i++) if (st_[i]) st_[i] = 3; }
  else { int i = slot(*c); CHECK(i < MAXN && st_[i] == 1, "only what is not finished is destroyed"); ASSUME(i < MAXN); st_[i] = 3; for (int j = 0; j < MAXN; j++) if (st_[j] && par[j] == N[i]) st_[j] = 3; }
  *c = NULL; return DISIR_STATUS_OK;
}
enum disir_status dc_config_begin(struct disir_mold *m, struct disir_context **c) { CHECK(m == &w.mold, "for the mold"); if (fails()) return FS; cfgst = 1; *c = &w.cfgc; return DISIR_STATUS_OK; }
enum disir_status dc_get_version(struct disir_context *c, struct disir_version *v) { CHECK(c == &w.moldc, "the version of the mold"); if (fails()) return FS; *v = w.mold.mo_version; return DISIR_STATUS_OK; }
enum disir_status dc_set_version(struct disir_context *c, struct disir_version *v) { CHECK(c == &w.cfgc && isv(v), "the version is set"); if (fails()) return FS; w.cfg.cf_version = *v; return DISIR_STATUS_OK; }
enum disir_status dc_config_finalize(struct disir_context **c, struct disir_config **o) { CHECK(*c == &w.cfgc && cfgst == 1, "the configuration is finished"); if (fails()) { if (FS == DISIR_STATUS_INVALID_CONTEXT) { cfgst = 2; *c = NULL; *o = &w.cfg; } return FS; } cfgst = 2; *c = NULL; *o = &w.cfg; return DISIR_STATUS_OK; }
enum disir_context_type dc_context_type(struct disir_context *c) { return c->cx_type; }
void dc_version_set(struct disir_version *d, struct disir_version *s) { if (d && s) *d = *s; }
const char *dc_context_type_string(struct disir_context *c) { return "T"; }
#endif
static void setup(int c, int f)
{
  static const int M[6][3] = { { 0, 0, 0 }, { 1, 1, 1 }, { 2, 0, 0 }, { 0, 2, 1 }, { 0, 1, 2 }, { 1, 2, 2 } };
  vt_world(); vt_ctx(&K1, DISIR_CONTEXT_KEYVAL, &w.moldc, &w.moldc); vt_ctx(&S, DISIR_CONTEXT_SECTION, &w.moldc, &w.moldc); vt_ctx(&K2, DISIR_CONTEXT_KEYVAL, &S, &w.moldc);
  N[0] = &N0; N[1] = &N1; N[2] = &N2; N[3] = &N3; N[4] = &N4; N[5] = &N5; N[6] = &N6; N[7] = &N7; NK[0] = &NK0; NK[1] = &NK1; NK[2] = &NK2; NK[3] = &NK3; NK[4] = &NK4; NK[5] = &NK5; NK[6] = &NK6; NK[7] = &NK7;
  for (int i = 0; i < 3; i++) mn[i] = M[c][i];
  for (int i = 0; i < MAXN; i++) { st_[i] = 0; named[i] = 0; val[i] = NULL; par[i] = NULL; typ[i] = 0; }
  n = refs = cols = cfgst = 0; nodef = f < 0; failat = f < 0 ? 0 : f; FS = f % 3 == 0 ? DISIR_STATUS_NO_MEMORY : f % 3 == 1 ? DISIR_STATUS_INVALID_CONTEXT : DISIR_STATUS_INTERNAL_ERROR;
}
/* what the section or configuration P got of the mold parent */
static void complete(struct disir_context *P, _Bool sec)
{
  int k1 = 0, s = 0, k2 = 0;
  for (int i = 0; i < MAXN; i++) if (st_[i]) {
    CHECK(st_[i] == 2, "everything begun is finished");
    if (typ[i] == DISIR_CONTEXT_SECTION) { s++; CHECK(!sec && par[i] == P && named[i] == 's', "a section of the mold's name"); int in = 0; for (int j = 0; j < MAXN; j++) if (st_[j] && par[j] == N[i]) in++; CHECK(in == mn[2], "a section has its elements, each as often as its minimum asks"); }
    else if (val[i] == &D1) { k1++; CHECK(!sec && par[i] == P && named[i] == 'k', "a keyval of the mold's name in its place"); }
    else { k2++; CHECK(val[i] == &D2 && named[i] == 't' && (par[i] == P) == sec, "a keyval with the value of its default"); }
  }
  if (sec) CHECK(k1 == 0 && s == 0 && k2 == mn[2], "the elements of the section, as often as their minimum"); else CHECK(k1 == mn[0] && s == mn[1] && k2 == mn[1] * mn[2], "every element as often as its minimum");
}
static void nothing_kept(void) { CHECK(refs == 0 && cols == 0, "no reference or collection is kept"); for (int i = 0; i < MAXN; i++) CHECK(st_[i] != 1, "nothing begun is left open"); }
//@unit name=generate_into_one harness=h_into model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dx_restriction_entries_value,dc_begin,dc_get_name,dc_set_name,dx_default_get_active,dx_value_copy,dc_finalize,dc_destroy,dc_config_begin,dc_get_version,dc_set_version,dc_config_finalize,dc_context_type,dc_version_set,dc_context_type_string,dx_context_type_check_log_error unwindset=complete.0:10,complete.1:10,slot.0:10,setup.1:10,dx_value_copy.0:10,dc_destroy.0:10,dc_destroy.1:10,nothing_kept.0:10,h_into.0:60,h_into.1:8,h_config.0:60,h_config.1:8 defs=C0=1,NC=2,NF=30
//@unit name=generate_into_keyvals harness=h_into model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dx_restriction_entries_value,dc_begin,dc_get_name,dc_set_name,dx_default_get_active,dx_value_copy,dc_finalize,dc_destroy,dc_config_begin,dc_get_version,dc_set_version,dc_config_finalize,dc_context_type,dc_version_set,dc_context_type_string,dx_context_type_check_log_error unwindset=complete.0:10,complete.1:10,slot.0:10,setup.1:10,dx_value_copy.0:10,dc_destroy.0:10,dc_destroy.1:10,nothing_kept.0:10,h_into.0:60,h_into.1:8,h_config.0:60,h_config.1:8 defs=C0=2,NC=3,NF=20
//@unit name=generate_into_section harness=h_into model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dx_restriction_entries_value,dc_begin,dc_get_name,dc_set_name,dx_default_get_active,dx_value_copy,dc_finalize,dc_destroy,dc_config_begin,dc_get_version,dc_set_version,dc_config_finalize,dc_context_type,dc_version_set,dc_context_type_string,dx_context_type_check_log_error unwindset=complete.0:10,complete.1:10,slot.0:10,setup.1:10,dx_value_copy.0:10,dc_destroy.0:10,dc_destroy.1:10,nothing_kept.0:10,h_into.0:60,h_into.1:8,h_config.0:60,h_config.1:8 defs=C0=4,NC=6,NF=18,SEC_=1
//@unit name=generate_into_sections harness=h_into model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dx_restriction_entries_value,dc_begin,dc_get_name,dc_set_name,dx_default_get_active,dx_value_copy,dc_finalize,dc_destroy,dc_config_begin,dc_get_version,dc_set_version,dc_config_finalize,dc_context_type,dc_version_set,dc_context_type_string,dx_context_type_check_log_error unwindset=complete.0:10,complete.1:10,slot.0:10,setup.1:10,dx_value_copy.0:10,dc_destroy.0:10,dc_destroy.1:10,nothing_kept.0:10,h_into.0:60,h_into.1:8,h_config.0:60,h_config.1:8 defs=C0=3,NC=4,NF=38
//@unit name=generate_into_most harness=h_into model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dx_restriction_entries_value,dc_begin,dc_get_name,dc_set_name,dx_default_get_active,dx_value_copy,dc_finalize,dc_destroy,dc_config_begin,dc_get_version,dc_set_version,dc_config_finalize,dc_context_type,dc_version_set,dc_context_type_string,dx_context_type_check_log_error unwindset=complete.0:10,complete.1:10,slot.0:10,setup.1:10,dx_value_copy.0:10,dc_destroy.0:10,dc_destroy.1:10,nothing_kept.0:10,h_into.0:60,h_into.1:8,h_config.0:60,h_config.1:8 defs=C0=4,NC=6,NF=1
static void one_into(int c, int f)
{
  setup(c, f); w.cfg.cf_version = V; vt_ctx(&SEC, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); SEC.cx_section = &SS; SS.se_mold_equiv = &S; int f0 = failat;
  enum disir_status st = dc_generate_from_config_root(SEC_ ? &SEC : &w.cfgc);
  nothing_kept();
  if (st == DISIR_STATUS_OK) { complete(SEC_ ? &SEC : &w.cfgc, SEC_); CHECK(f0 == 0 || failat > 0, "OK only when nothing failed"); }
  else { CHECK(f0 && failat == 0 ? st == FS : nodef && st == DISIR_STATUS_DEFAULT_MISSING, "what failed is reported"); }
}
void h_into(void) { V = vt_nd_ver(); for (int c = C0; c < NC; c++) for (int f = -1; f < NF; f++) one_into(c, f); CHECK(NF < 3 || failat > 0, "every call was made to fail"); REACH("all"); }
//@unit name=generate_config_one harness=h_config model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dx_restriction_entries_value,dc_begin,dc_get_name,dc_set_name,dx_default_get_active,dx_value_copy,dc_finalize,dc_destroy,dc_config_begin,dc_get_version,dc_set_version,dc_config_finalize,dc_context_type,dc_version_set,dc_context_type_string,dx_context_type_check_log_error,dc_version_string unwindset=complete.0:10,complete.1:10,slot.0:10,setup.1:10,dx_value_copy.0:10,dc_destroy.0:10,dc_destroy.1:10,nothing_kept.0:10,h_into.0:60,h_into.1:8,h_config.0:60,h_config.1:8 defs=C0=1,NC=2,NF=36
//@unit name=generate_config_most harness=h_config model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dx_restriction_entries_value,dc_begin,dc_get_name,dc_set_name,dx_default_get_active,dx_value_copy,dc_finalize,dc_destroy,dc_config_begin,dc_get_version,dc_set_version,dc_config_finalize,dc_context_type,dc_version_set,dc_context_type_string,dx_context_type_check_log_error,dc_version_string unwindset=complete.0:10,complete.1:10,slot.0:10,setup.1:10,dx_value_copy.0:10,dc_destroy.0:10,dc_destroy.1:10,nothing_kept.0:10,h_into.0:60,h_into.1:8,h_config.0:60,h_config.1:8 defs=C0=4,NC=6,NF=2
static void one_config(int c, int f)
{
  setup(c, f); _Bool given = f & 1; struct disir_version rq = V; w.mold.mo_version = given ? vt_nd_ver() : V; struct disir_config *o = NULL; int f0 = failat;
  enum disir_status st = disir_generate_config_from_mold(&w.mold, given ? &rq : NULL, &o);
  nothing_kept();
  if (st == DISIR_STATUS_OK) { CHECK(o == &w.cfg && cfgst == 2 && w.cfg.cf_version.sv_major == V.sv_major && w.cfg.cf_version.sv_minor == V.sv_minor, "a configuration of the version asked for, the mold's version otherwise"); complete(&w.cfgc, 0); CHECK(f0 == 0 || failat > 0, "OK only when nothing failed"); }
  else { CHECK(f0 && failat == 0 ? st == FS : nodef && st == DISIR_STATUS_DEFAULT_MISSING, "what failed is reported"); CHECK(cfgst == 0 || cfgst == 3 || (o == &w.cfg && cfgst == 2 && st == DISIR_STATUS_INVALID_CONTEXT), "what was made is destroyed, or handed out as invalid"); CHECK(o == NULL || cfgst == 2, "nothing else is handed out"); }
}
void h_config(void) { V = vt_nd_ver(); for (int c = C0; c < NC; c++) for (int f = -1; f < NF; f++) one_config(c, f); CHECK(NF < 3 || failat > 0, "every call was made to fail"); REACH("all"); }
