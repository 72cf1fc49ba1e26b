//@file prop=P05 unwind=8
//@assume units get_active and finalize: the queue is a chain of up to 6 explicit nodes with any number of elided nodes between them (a symbolic pool that stands for a list of any length, DESIGN.md)
#include "model.h"
#include "log_stub.h"
#ifndef K
#define K 6
#endif
static struct disir_default P[K + 1]; static struct disir_context PC[K + 1]; static struct disir_value D0[K]; static size_t N; static _Bool gap[K + 1];
static struct disir_version V; static _Bool useV;
#define LE(a, b) (vt_key(a) <= vt_key(b))
#define KEY(i) vt_key(&P[i].de_introduced)
/* sorted queue (ascending, equal versions allowed); with gaps: P[i] and P[i+1] may have unknown nodes between them */
static void queue(_Bool elide)
{
  vt_world(); N = nd_size(); ASSUME(N <= K);
  for (size_t i = 0; i < K; i++) {
    P[i].de_context = &PC[i]; PC[i].cx_default = &P[i]; vt_ctx(&PC[i], DISIR_CONTEXT_DEFAULT, &w.mkvc, &w.moldc);
    if (i >= N) continue;
    gap[i] = elide && i + 1 < N ? nd_bool() : 0;
    P[i].de_introduced = vt_nd_ver();
    P[i].prev = i ? (gap[i - 1] ? VT_GAP : &P[i - 1]) : &P[N - 1];
    P[i].next = i + 1 < N ? (gap[i] ? VT_GAP : &P[i + 1]) : NULL;
    ASSUME(i == 0 || KEY(i - 1) <= KEY(i));
  }
  w.mkv.kv_default_queue = N ? &P[0] : NULL;
}
/* greatest version not newer than V, the oldest if all are newer; newest without V */
static _Bool right(struct disir_default *d)
{
  if (N == 0) return d == NULL;
  if (d == NULL) return 0;
  size_t k = K; for (size_t i = 0; i < K; i++) if (i < N && d == &P[i]) k = i;
  if (k == K) return 0;
  if (!useV) return KEY(k) == KEY(N - 1);
  if (KEY(0) > vt_key(&V)) return KEY(k) == KEY(0);
  if (KEY(k) > vt_key(&V)) return 0;
  for (size_t i = 0; i < K; i++) if (i < N && KEY(i) <= vt_key(&V) && KEY(i) > KEY(k)) return 0;
  return 1;
}

#if !defined VT_NATIVE && !defined VT_BOUNDED
/* the current node and its neighbours are among the explicit nodes (any node can be) */
struct disir_default *vt_da_havoc(void)
{ size_t k = nd_size(); __CPROVER_assume(k <= N && (k == N || !gap[k]) && (k == 0 || !gap[k - 1])); return k == N ? NULL : &P[k]; }
_Bool vt_da_inv(struct disir_default *e)
{
  if (N == 0) return 0;
  if (e == NULL) return KEY(N - 1) <= vt_key(&V);
  for (size_t k = 0; k < K; k++) if (k < N && e == &P[k]) return k == 0 || KEY(k - 1) <= vt_key(&V);
  return 0;
}
static struct disir_default X; static struct disir_context XC;
struct disir_default *vt_df_havoc(struct disir_default **prev)
{ size_t k = nd_size(); __CPROVER_assume(k >= 1 && k <= N && (k == N || !gap[k]) && !gap[k - 1]); *prev = &P[k - 1]; return k == N ? NULL : &P[k]; }
_Bool vt_df_inv(struct disir_default *prev, struct disir_default *e)
{
  for (size_t k = 1; k <= K; k++) if (k <= N && prev == &P[k - 1]) return e == (k == N ? NULL : &P[k]) && KEY(k - 1) <= vt_key(&X.de_introduced);
  return 0;
}
#define ELIDE 1
#else
static struct disir_default X; static struct disir_context XC;
#define ELIDE 0
#endif
//@unit name=get_active harness=h_active cuts=default_get_active unwind=8 sources=context_default.c,util.c
void h_active(void)
{
  queue(ELIDE); useV = nd_bool(); V = vt_nd_ver(); struct disir_version v0 = V;
  if (ELIDE) ASSUME(N == 0 || N == 1 || !gap[N - 2]);  /* the node before the newest is explicit */
  struct disir_default *d = &X;
  dx_default_get_active(&w.mkvc, useV ? &V : NULL, &d);
  CHECK(right(d), "the active default is the newest one introduced at or before the version, else the oldest; without a version the newest");
  CHECK(vt_key(&v0) == vt_key(&V), "the version is only read");
  REACH("active");
}
#ifdef M_dx_validate_context
static int validated; static enum disir_status vst;
enum disir_status dx_validate_context(struct disir_context *c)
{ validated++; __CPROVER_assert(c == &XC, "CHECK: the default itself is validated"); __CPROVER_assert(XC.CONTEXT_STATE_IN_PARENT, "CHECK: the default is in its parent when it is validated"); return vst; }
#endif
static _Bool linked(size_t W)
{
  struct disir_default *q = w.mkv.kv_default_queue; struct disir_default *xp = X.prev, *xn = X.next;
  if (q == NULL) return 0;
  if (N == 0) return q == &X && xp == &X && xn == NULL;
  if (q != &P[0] && q != &X) return 0;
  /* the new node sits between two adjacent old nodes (or at an end) and is ordered against both */
  size_t at = K + 1;
  if (q == &X) at = 0;
  for (size_t k = 1; k <= K; k++) if (k <= N && xp == &P[k - 1] && q != &X) at = k;
  if (at > N) return 0;
  if (at > 0 && (gap[at - 1] && at < N)) return 0;
  if (at > 0 && (P[at - 1].next != &X || KEY(at - 1) > vt_key(&X.de_introduced))) return 0;
  if (at == 0 && xp != &P[N - 1]) return 0;
  if (at < N && (xn != &P[at] || P[at].prev != &X || KEY(at) < vt_key(&X.de_introduced))) return 0;
  if (at == N && (xn != NULL || q->prev != &X)) return 0;
  if (at < N && q->prev != &P[N - 1]) return 0;
  /* every other link is as before */
  if (W + 1 < N && W + 1 != at && P[W].next != (gap[W] ? VT_GAP : &P[W + 1])) return 0;
  if (W + 1 == N && at != N && P[W].next != NULL) return 0;
  if (W > 0 && W != at && P[W].prev != (gap[W - 1] ? VT_GAP : &P[W - 1])) return 0;
  return 1;
}
//@unit name=finalize harness=h_finalize cuts=default_finalize unwind=8 sources=context_default.c,util.c model=dx_validate_context
void h_finalize(void)
{
  queue(ELIDE); X.de_introduced = vt_nd_ver(); X.de_context = &XC; XC.cx_default = &X; vt_ctx(&XC, DISIR_CONTEXT_DEFAULT, &w.mkvc, &w.moldc);
  if (ELIDE) ASSUME(N <= 1 || !gap[0]);  /* the node after the oldest is explicit */
  XC.CONTEXT_STATE_CONSTRUCTING = 1; w.mkvc.CONTEXT_STATE_FINALIZED = nd_bool(); size_t W = nd_size(); ASSUME(W < K && (N == 0 || W < N));
  struct disir_version x0 = X.de_introduced;
#ifdef M_dx_validate_context
  vst = nd_int();
#endif
  enum disir_status st = dx_default_finalize(&XC);
  CHECK(linked(W), "the new default is linked at its place in the version order and every other default keeps its place");
  CHECK(XC.CONTEXT_STATE_IN_PARENT == 1, "it is marked as being in its parent");
  CHECK(vt_key(&x0) == vt_key(&X.de_introduced), "its version is unchanged");
#ifdef M_dx_validate_context
  CHECK(validated == 1 && st == vst, "the status is that of its validation");
#endif
  REACH("finalize");
}

/* ---- the public calls ---- */
static char txt[K][2];
static size_t sel(_Bool c, struct disir_version *v)
{
  size_t k = 0;
  for (size_t i = 0; i < K; i++) if (i < N && (!c || KEY(i) <= vt_key(v))) k = i;
  return k;
}
static void texts(void)
{
  w.mkv.kv_value.dv_type = DISIR_VALUE_TYPE_STRING;
  for (size_t i = 0; i < K; i++) { txt[i][0] = (char)('a' + i); P[i].de_value.dv_type = DISIR_VALUE_TYPE_STRING; P[i].de_value.dv_string = txt[i]; P[i].de_value.dv_size = 1;
    ASSUME(i == 0 || i >= N || KEY(i - 1) < KEY(i)); }
}
static void get(struct disir_context *c, int which, size_t d)
{
  char out[4] = {'#', '#', '#', 0}; int32_t cap = nd_int(), sz = 77; ASSUME(cap <= 4); _Bool no = nd_bool();
  enum disir_status st = dc_get_default(c, useV ? &V : NULL, cap, no ? NULL : out, &sz);
  if (c == NULL || cap <= 0 || no) CHECK(st == DISIR_STATUS_INVALID_ARGUMENT, "missing context, output or space is refused");
  else if (which == 3 || which == 4) CHECK(st == DISIR_STATUS_WRONG_CONTEXT, "only keyvals and defaults have default values");
  else if (which == 1 && w.ckv.kv_mold_equiv == NULL) CHECK(st == DISIR_STATUS_MOLD_MISSING, "a keyval without mold entry has no default");
  else if (which != 2 && N == 0) CHECK(st == DISIR_STATUS_DEFAULT_MISSING, "a keyval without default entries has no default");
  else {
    size_t k = which == 2 ? d : sel(useV, &V);
    CHECK(st == DISIR_STATUS_OK && sz == 1, "the default is found and its size reported");
    CHECK(cap < 2 ? out[0] == 0 : (out[0] == (char)('a' + k) && out[1] == 0), "the text of the default that is active at the version (of the given default itself) is written");
  }
  if (st != DISIR_STATUS_OK) CHECK(out[0] == '#' && sz == 77, "a refused call writes nothing");
}
//@unit name=get_default_keyval harness=h_get model=dx_context_type_check_log_error,dc_version_string kind=bounded bound=at_most_4_defaults defs=K=4 unwind=7 sources=context_default.c,util.c,context_util.c
void h_get(void)
{
  queue(0); texts(); _Bool eq = nd_bool(); w.ckv.kv_mold_equiv = eq ? &w.mkvc : NULL; w.ckv.kv_value.dv_type = DISIR_VALUE_TYPE_STRING;
  useV = nd_bool(); V = vt_nd_ver();
  if (nd_bool()) get(&w.mkvc, 0, 0); else if (eq) get(&w.ckvc, 1, 0); else get(&w.ckvc, 1, 0);
  REACH("get");
}
//@unit name=get_default_other harness=h_get2 model=dx_context_type_check_log_error,dc_version_string kind=bounded bound=at_most_4_defaults defs=K=4 unwind=7 sources=context_default.c,util.c,context_util.c
void h_get2(void)
{
  queue(0); texts(); useV = nd_bool(); V = vt_nd_ver(); int which = nd_int(); size_t d = nd_size(); ASSUME(N == 4 && d < N);
  switch (which) { case 3: get(&w.moldc, 3, 0); break; case 4: get(&w.cfgc, 4, 0); break; case 5: get(NULL, 5, 0); break; default: get(d == 0 ? &PC[0] : d == 1 ? &PC[1] : d == 2 ? &PC[2] : &PC[3], 2, d); }
  REACH("get2");
}
static void set(struct disir_context *c, int which)
{
  enum disir_status st = dc_keyval_set_default(c, useV ? &V : NULL);
  if (which == 3) CHECK(st == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  else if (which != 0) CHECK(st == DISIR_STATUS_WRONG_CONTEXT, "only config keyvals can be reset to their default");
  else if (w.ckv.kv_mold_equiv == NULL) CHECK(st == DISIR_STATUS_MOLD_MISSING, "a keyval without mold entry cannot be reset");
  else if (N == 0) CHECK(st != DISIR_STATUS_OK, "without default entries there is nothing to reset to");
  else {
    CHECK(st == DISIR_STATUS_OK, "reset succeeds");
    CHECK(w.ckv.kv_value.dv_size == 1 && w.ckv.kv_value.dv_string[0] == (char)('a' + sel(useV, &V)) && w.ckv.kv_value.dv_string[1] == 0, "the value is the default that is active at the version");
    CHECK(w.ckv.kv_value.dv_string != txt[sel(useV, &V)], "in storage of its own");
  }
  if (st != DISIR_STATUS_OK) CHECK(w.ckv.kv_value.dv_size == 2 && w.ckv.kv_value.dv_string[0] == 'z', "a refused reset leaves the value unchanged");
}
//@unit name=set_default harness=h_set model=dx_context_type_check_log_error,dc_version_string kind=bounded bound=at_most_4_defaults defs=K=4 unwind=7 sources=context_keyval.c,context_default.c,util.c,context_util.c
void h_set(void)
{
  queue(0); texts(); w.ckv.kv_value.dv_type = DISIR_VALUE_TYPE_STRING; useV = nd_bool(); V = vt_nd_ver();
  w.ckv.kv_value.dv_string = vt_strdup("zz"); w.ckv.kv_value.dv_size = 2;
  switch (nd_int()) { case 0: w.ckv.kv_mold_equiv = &w.mkvc; set(&w.ckvc, 0); break; case 1: w.ckv.kv_mold_equiv = NULL; set(&w.ckvc, 0); break;
    case 2: set(&w.mkvc, 1); break; case 3: set(&w.cfgc, 2); break; default: set(NULL, 3); }
  REACH("set");
}
/* collection operations under contract (verified in units/p08_collection.c): pushing appends and takes a reference */
#ifdef M_dc_collection_push_context
#include "collection.h"
static struct disir_context *items[K + 2]; static struct disir_collection thecol;
struct disir_collection *dc_collection_create(void) { return &thecol; }
enum disir_status dc_collection_finished(struct disir_collection **c) { *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_collection_push_context(struct disir_collection *c, struct disir_context *x) { __CPROVER_assert(c->cc_numentries < K + 2, "CHECK: no more entries than defaults"); items[c->cc_numentries++] = x; x->cx_refcount++; return DISIR_STATUS_OK; }
#endif
//@unit name=default_contexts harness=h_contexts model=dx_context_type_check_log_error,dc_collection_push_context,dc_collection_create,dc_collection_finished kind=bounded bound=at_most_4_defaults defs=K=4 unwind=7 sources=context_default.c,collection.c,util.c,context_util.c
static void ctxs(struct disir_context *c, int which, _Bool no)
{
  struct disir_collection *col = NULL;
  enum disir_status st = dc_get_default_contexts(c, no ? NULL : &col);
  if (which == 3 || no) CHECK(st == DISIR_STATUS_INVALID_ARGUMENT, "NULL arguments are refused");
  else if (which != 0) CHECK(st == DISIR_STATUS_WRONG_CONTEXT, "only mold keyvals list their defaults");
  else {
    CHECK(st == DISIR_STATUS_OK && col != NULL, "the defaults are listed");
#ifdef M_dc_collection_push_context
    CHECK(thecol.cc_numentries == (int)N, "all of them");
    for (size_t i = 0; i < K; i++) if (i < N) CHECK(items[i] == &PC[i] && PC[i].cx_refcount == 2, "in version order");
#else
    CHECK(dc_collection_size(col) == (int)N, "all of them");
    for (size_t i = 0; i < K; i++) if (i < N) { struct disir_context *x = NULL; CHECK(dc_collection_next(col, &x) == DISIR_STATUS_OK && x == &PC[i], "in version order"); }
#endif
  }
  if (st != DISIR_STATUS_OK) CHECK(col == NULL, "a refused call returns no collection");
}
void h_contexts(void)
{
  queue(0);
  switch (nd_int()) { case 0: ctxs(&w.mkvc, 0, 0); break; case 1: ctxs(&w.ckvc, 1, 0); break; case 2: ctxs(&w.moldc, 2, 0); break; case 3: ctxs(&w.mkvc, 0, 1); break; default: ctxs(NULL, 3, 0); }
  REACH("contexts");
}
//@unit name=validate_default harness=h_validate kind=bounded bound=at_most_4_defaults model=dc_version_string defs=K=4 unwind=7 sources=validate.c,util.c,context_util.c
static void val(size_t d)
{
  _Bool con = nd_bool(), pfin = nd_bool(), inv = nd_bool();
  PC[d].CONTEXT_STATE_CONSTRUCTING = con; PC[d].CONTEXT_STATE_FINALIZED = !con; PC[d].CONTEXT_STATE_INVALID = inv; w.mkvc.CONTEXT_STATE_FINALIZED = pfin; w.mkvc.CONTEXT_STATE_CONSTRUCTING = !pfin;
  _Bool dup = 0; for (size_t i = 0; i < K; i++) if (i < N && i != d && KEY(i) == KEY(d)) dup = 1;
  enum disir_status st = dx_validate_context(&PC[d]);
  CHECK((st == DISIR_STATUS_OK) == !dup, "a default is valid exactly when its keyval has no other default introduced at the same version");
  CHECK(!dup || st == (con && !pfin ? DISIR_STATUS_INVALID_CONTEXT : DISIR_STATUS_CONFLICTING_SEMVER), "a second default for a version is reported as such");
  CHECK(PC[d].CONTEXT_STATE_INVALID == dup, "and marks the default invalid");
}
void h_validate(void)
{
  queue(0); ASSUME(N >= 1); size_t d = nd_size(); ASSUME(d < N);
  switch (d) { case 0: val(0); break; case 1: val(1); break; case 2: val(2); break; default: if (K > 3) val(3); }
  REACH("validate");
}
/* adding a default through the public call, to a keyval under construction or finalized, with up to one existing default */
static void add(enum disir_value_type t, _Bool pfin, _Bool have)
{
  vt_world(); w.mkv.kv_value.dv_type = t; w.mkvc.CONTEXT_STATE_FINALIZED = pfin; w.mkvc.CONTEXT_STATE_CONSTRUCTING = !pfin;
  vt_ctx(&PC[0], DISIR_CONTEXT_DEFAULT, &w.mkvc, &w.moldc); PC[0].CONTEXT_STATE_FINALIZED = 1; PC[0].CONTEXT_STATE_IN_PARENT = 1; P[0].de_context = &PC[0]; PC[0].cx_default = &P[0]; P[0].prev = &P[0]; P[0].de_introduced = vt_nd_ver();
  if (have) w.mkv.kv_default_queue = &P[0];
  w.mold.mo_version = vt_nd_ver(); struct disir_version mv0 = w.mold.mo_version;
  useV = nd_bool(); V = vt_nd_ver(); struct disir_version v1 = {1, 0}; if (useV) v1 = V;
  int64_t x = nd_i64(); double f = nd_double(); uint8_t b = nd_u8();
  enum disir_status st = t == DISIR_VALUE_TYPE_INTEGER ? dc_add_default_integer(&w.mkvc, x, useV ? &V : NULL)
    : t == DISIR_VALUE_TYPE_FLOAT ? dc_add_default_float(&w.mkvc, f, useV ? &V : NULL)
    : t == DISIR_VALUE_TYPE_BOOLEAN ? dc_add_default_boolean(&w.mkvc, b, useV ? &V : NULL) : dc_add_default_string(&w.mkvc, "xyz", 2, useV ? &V : NULL);
  _Bool dup = have && KEY(0) == vt_key(&v1);
  CHECK(st == (!dup ? DISIR_STATUS_OK : pfin ? DISIR_STATUS_CONFLICTING_SEMVER : DISIR_STATUS_INVALID_CONTEXT), "adding succeeds exactly when the version is not taken");
  struct disir_default *q = w.mkv.kv_default_queue, *n = q == &P[0] ? P[0].next : q;
  if (dup && pfin) CHECK(q == &P[0] && P[0].next == NULL && P[0].prev == &P[0], "a refused default is not in the keyval");
  else {
    CHECK(n != NULL && n->de_context->CONTEXT_STATE_FINALIZED == 1 && n->de_context->cx_parent_context == &w.mkvc && n->de_context->cx_refcount == 1, "the default is part of the keyval");
    CHECK(vt_key(&n->de_introduced) == vt_key(&v1), "with its version (1.0 if none is given)");
    CHECK(n->de_value.dv_type == t, "with the type of the keyval");
    CHECK(t != DISIR_VALUE_TYPE_INTEGER || n->de_value.dv_integer == x, "with its value");
    CHECK(t != DISIR_VALUE_TYPE_FLOAT || vt_deq(n->de_value.dv_float, f), "with its value");
    CHECK(t != DISIR_VALUE_TYPE_BOOLEAN || n->de_value.dv_boolean == (b ? 1 : 0), "with its value");
    CHECK(t != DISIR_VALUE_TYPE_STRING || (n->de_value.dv_size == 2 && n->de_value.dv_string[0] == 'x' && n->de_value.dv_string[1] == 'y' && n->de_value.dv_string[2] == 0), "with its value");
    if (!dup) CHECK(vt_key(&w.mold.mo_version) == (vt_key(&v1) > vt_key(&mv0) ? vt_key(&v1) : vt_key(&mv0)), "the mold's version covers that of the default");
  }
  CHECK(w.mkvc.cx_refcount == (dup && pfin ? 1 : 2), "the keyval is referenced by its default");
}
#define ADD(T) if (nd_bool()) add(T, 0, 0); else if (nd_bool()) add(T, 0, 1); else add(T, 1, 1)
//@unit name=add_integer harness=h_add_i never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_restriction_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_restriction,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_restriction_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_restriction_finalize model=dx_context_type_check_log_error,dc_version_string kind=bounded bound=at_most_1_existing_default defs=K=2 unwind=5 sources=validate.c,util.c,context_util.c
void h_add_i(void) { ADD(DISIR_VALUE_TYPE_INTEGER); REACH("add i"); }
//@unit name=add_float harness=h_add_f never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_restriction_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_restriction,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_restriction_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_restriction_finalize model=dx_context_type_check_log_error,dc_version_string kind=bounded bound=at_most_1_existing_default defs=K=2 unwind=5 sources=validate.c,util.c,context_util.c
void h_add_f(void) { ADD(DISIR_VALUE_TYPE_FLOAT); REACH("add f"); }
//@unit name=add_boolean harness=h_add_b never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_restriction_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_restriction,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_restriction_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_restriction_finalize model=dx_context_type_check_log_error,dc_version_string kind=bounded bound=at_most_1_existing_default defs=K=2 unwind=5 sources=validate.c,util.c,context_util.c
void h_add_b(void) { ADD(DISIR_VALUE_TYPE_BOOLEAN); REACH("add b"); }
//@unit name=add_string harness=h_add_s never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_restriction_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_restriction,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_restriction_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_restriction_finalize model=dx_context_type_check_log_error,dc_version_string kind=bounded bound=at_most_1_existing_default defs=K=2 unwind=5 sources=validate.c,util.c,context_util.c
void h_add_s(void) { ADD(DISIR_VALUE_TYPE_STRING); REACH("add s"); }
