//@file prop=P07 unwind=8 bunwind=8 sources=validate.c,context.c,context_util.c,util.c,context_restriction.c
#include "model.h"
#include "log_stub.h"
#include "collection.h"
enum disir_status validate_inclusive_restrictions(struct disir_context *context);
enum disir_status validate_finalized_parent_constructing_child_violating_max_restriction(struct disir_context *child);
/* the elements of the mold side, and how many the config side has of each */
#define E 3
static struct disir_context EC[E], secc, csec; static struct disir_keyval EK[E]; static struct disir_section sec, csecs; static int N, AT, MN[E], MX[E], SZ[E]; static struct disir_collection moldcol, cfgcol;
static struct disir_context *parent, *moldside; static int open_mold, open_cfg, askedv; static char nm[E][2] = {"a", "b", "c"}; static int last;
#if !defined VT_NATIVE && !defined VT_BOUNDED
#define ELIDE 1
#else
#define ELIDE 0
#endif
static _Bool ANYBAD; static _Bool bad(int i) { return SZ[i] < MN[i] || (MX[i] == -1 && SZ[i] > 0) || (MX[i] > 0 && SZ[i] > MX[i]); }
static void limits(int i) { MN[i] = nd_int(); MX[i] = nd_int(); SZ[i] = nd_int(); ASSUME(MN[i] >= 0 && MX[i] >= -1 && SZ[i] >= 0); }
#if ELIDE
/* any number of kinds: the loop's current one is EC[0] */
struct disir_context *vt_in_havoc(enum disir_status *invalid, enum disir_status *status, const char **name)
{
  *invalid = nd_int(); *status = nd_int(); *name = NULL; ANYBAD = nd_bool(); parent->CONTEXT_STATE_INVALID = nd_bool();
  _Bool cur = nd_bool(); EC[0].cx_refcount = cur ? 2 : 1; return cur ? &EC[0] : NULL;
}
_Bool vt_in_inv(struct disir_context *element, enum disir_status invalid, struct disir_version *v)
{
  return v == &w.cfg.cf_version && invalid == (ANYBAD ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_OK) && parent->CONTEXT_STATE_INVALID == ANYBAD && open_mold == 1 && open_cfg == 0 &&
    (element == NULL ? EC[0].cx_refcount == 1 : element == &EC[0] && EC[0].cx_refcount == 2);
}
#endif
/* contracts of the callees (P08 collections, P09 element storage, P07 entries) */
enum disir_status dc_get_elements(struct disir_context *c, struct disir_collection **out)
{ CHECK(c == moldside && out != NULL, "the elements of the mold's counterpart are asked for"); *out = &moldcol; open_mold++; return DISIR_STATUS_OK; }
enum disir_status dc_collection_next(struct disir_collection *col, struct disir_context **out)
{
  CHECK(col == &moldcol && open_mold == 1, "only the mold's elements are visited");
#if ELIDE
  if (nd_bool()) { CHECK(EC[0].cx_refcount == 1, "the former element was given back"); limits(0); ANYBAD |= bad(0); EC[0].cx_refcount++; *out = &EC[0]; return DISIR_STATUS_OK; }
#else
  for (int i = 0; i < E; i++) if (i == AT && i < N) { AT++; ANYBAD |= bad(i); EC[i].cx_refcount++; *out = &EC[i]; return DISIR_STATUS_OK; }
#endif
  *out = NULL; return DISIR_STATUS_EXHAUSTED;
}
enum disir_status dc_find_elements(struct disir_context *c, const char *name, struct disir_collection **out)
{
  CHECK(c == parent && open_cfg == 0, "elements are counted in the validated context");
  for (int i = 0; i < E; i++) if (name[0] == nm[i][0] && name[1] == 0) { last = i; if (SZ[i] == 0) { *out = NULL; return DISIR_STATUS_NOT_EXIST; } open_cfg++; *out = &cfgcol; return DISIR_STATUS_OK; }
  CHECK(0, "elements are counted by their own name"); return DISIR_STATUS_NOT_EXIST;
}
int32_t dc_collection_size(struct disir_collection *col) { if (col == NULL) return 0; CHECK(col == &cfgcol && open_cfg == 1, "the elements found are counted"); for (int i = 0; i < E; i++) if (i == last) return SZ[i]; return 0; }
enum disir_status dc_collection_finished(struct disir_collection **col)
{ if (col == NULL || *col == NULL) return DISIR_STATUS_INVALID_ARGUMENT; if (*col == &cfgcol) { CHECK(open_cfg == 1, "finished once"); open_cfg--; } else { CHECK(*col == &moldcol && open_mold == 1, "finished once"); open_mold--; } *col = NULL; return DISIR_STATUS_OK; }
enum disir_status dx_restriction_entries_value(struct disir_context *c, enum disir_restriction_type t, struct disir_version *v, int *out)
{
  int k = -1; for (int i = 0; i < E; i++) if (c == &EC[i]) k = i;
  if (k < 0) for (int i = 0; i < E; i++) if ((c == &w.ckvc && w.ckv.kv_mold_equiv == &EC[i]) || (c == &csec && csecs.se_mold_equiv == &EC[i])) k = i;
  CHECK(k >= 0, "the limits of an element of the mold are asked for"); if (k < 0) return DISIR_STATUS_INTERNAL_ERROR;
  if (c == &EC[k]) CHECK(v == &w.cfg.cf_version, "at the version of the config");
  for (int i = 0; i < E; i++) if (i == k) *out = t == DISIR_RESTRICTION_INC_ENTRY_MIN ? MN[i] : MX[i];
  return DISIR_STATUS_OK;
}
static void world(_Bool section, int n)
{
  vt_world(); N = n; AT = 0; ANYBAD = 0; open_mold = open_cfg = 0;
  vt_ctx(&secc, DISIR_CONTEXT_SECTION, &w.moldc, &w.moldc); secc.cx_section = &sec; sec.se_context = &secc;
  vt_ctx(&csec, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); csec.cx_section = &csecs; csecs.se_context = &csec; csecs.se_mold_equiv = &secc;
  parent = section ? &csec : &w.cfgc; moldside = section ? &secc : &w.moldc;
  for (int i = 0; i < E; i++) {
    vt_ctx(&EC[i], DISIR_CONTEXT_KEYVAL, moldside, &w.moldc); EC[i].cx_keyval = &EK[i]; EK[i].kv_context = &EC[i]; EK[i].kv_name.dv_type = DISIR_VALUE_TYPE_STRING; EK[i].kv_name.dv_string = nm[i]; EK[i].kv_name.dv_size = 1;
    limits(i);
  }
}
static void incl(_Bool section, int n)
{
  world(section, n);
  enum disir_status st = validate_inclusive_restrictions(parent);
  _Bool any = ANYBAD;
  CHECK(st == (any ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_OK), "violated exactly when one kind of element is too few or too many");
  CHECK(parent->CONTEXT_STATE_INVALID == any, "and the context is then marked invalid");
  CHECK(open_mold == 0 && open_cfg == 0, "no collection is left open");
  for (int i = 0; i < E; i++) CHECK(EC[i].cx_refcount == 1, "no reference is left behind");
}
#if ELIDE
#define SW(s) incl(s, 0);
#else
#define SW(s) switch (nd_int()) { case 0: incl(s, 0); break; case 1: incl(s, 1); break; case 2: incl(s, 2); break; default: incl(s, 3); }
#endif
//@assume *: dc_get_elements, dc_find_elements, dc_collection_* and dx_restriction_entries_value are under contract (their own behaviour: P08, P09, P07 entries)
//@unit name=inclusive_config harness=h_incl_config keep=1 cuts=inclusive statics=validate_inclusive_restrictions model=dc_get_elements,dc_collection_next,dc_find_elements,dc_collection_size,dc_collection_finished,dx_restriction_entries_value,dx_context_type_check_log_error,dc_version_string bound=3_kinds_of_element
void h_incl_config(void) { SW(0) REACH("incl"); }
//@unit name=inclusive_section harness=h_incl_section keep=1 cuts=inclusive statics=validate_inclusive_restrictions model=dc_get_elements,dc_collection_next,dc_find_elements,dc_collection_size,dc_collection_finished,dx_restriction_entries_value,dx_context_type_check_log_error,dc_version_string bound=3_kinds_of_element
void h_incl_section(void) { SW(1) REACH("incl"); }

/* ---- one more element for a parent that is complete already ---- */
static int asked_max;
static void child(_Bool section, _Bool csection, _Bool fin, _Bool pfin)
{
  world(section, 0); struct disir_context *c = csection ? &csec : &w.ckvc; static struct disir_context psec; static struct disir_section psecs;
  c = csection ? &csec : &w.ckvc;
  if (section) { vt_ctx(&psec, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); psec.cx_section = &psecs; psecs.se_context = &psec; psecs.se_mold_equiv = &secc; parent = &psec; } else parent = &w.cfgc;
  c->cx_parent_context = parent; c->CONTEXT_STATE_FINALIZED = fin; c->CONTEXT_STATE_CONSTRUCTING = !fin; parent->CONTEXT_STATE_FINALIZED = pfin;
  if (csection) { csecs.se_mold_equiv = &EC[1]; csecs.se_name.dv_type = DISIR_VALUE_TYPE_STRING; csecs.se_name.dv_string = nm[1]; csecs.se_name.dv_size = 1; }
  else { w.ckv.kv_mold_equiv = &EC[1]; w.ckv.kv_name.dv_type = DISIR_VALUE_TYPE_STRING; w.ckv.kv_name.dv_string = nm[1]; w.ckv.kv_name.dv_size = 1; }
  enum disir_status st = validate_finalized_parent_constructing_child_violating_max_restriction(c);
  _Bool full = !fin && pfin && MX[1] != 0 && SZ[1] >= MX[1];
  CHECK(st == (full ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_OK), "an element is refused exactly when its finalized parent holds the maximum already");
  CHECK(open_cfg == 0, "no collection is left open");
}
//@unit name=child harness=h_child keep=1 statics=validate_finalized_parent_constructing_child_violating_max_restriction model=dc_get_elements,dc_collection_next,dc_find_elements,dc_collection_size,dc_collection_finished,dx_restriction_entries_value,dx_context_type_check_log_error,dc_version_string
void h_child(void)
{
  switch (nd_int()) {
  case 0: child(0, 0, 0, 1); break; case 1: child(0, 1, 0, 1); break; case 2: child(1, 0, 0, 1); break; case 3: child(1, 1, 0, 1); break;
  case 4: child(0, 0, 1, 1); break; case 5: child(1, 1, 1, 1); break; case 6: child(0, 1, 0, 0); break; default: child(1, 0, 0, 0);
  }
  REACH("child");
}
