//@file prop=P07 unwind=6 bunwind=6 sources=context.c,context_util.c,util.c,context_restriction.c
#include "model.h"
#include "log_stub.h"
#include "collection.h"
static struct disir_context secc, csec, psec, pmold; static struct disir_section sec, csecs, psecs, pmolds; static struct disir_collection col;
static char text[4]; static int size, MAX, SZ, open_cfg; static enum disir_status found; static struct disir_context *hit; static struct disir_context *parent; static int dummy;
static _Bool is_name(const char *s) { for (int i = 0; i < 3; i++) { if (i == size) return s[i] == 0; if (s[i] != text[i]) return 0; if (s[i] == 0) return 1; } return s[3] == 0; }
/* contracts of the callees: element storage (P09), collections (P08), limits (P07 entries) */
enum disir_status dx_element_storage_get_first(struct disir_element_storage *st, const char *name, struct disir_context **out)
{
  CHECK(st == (struct disir_element_storage *)&dummy, "the name is looked up among the elements of the parent's counterpart");
  CHECK(is_name(name), "exactly the given bytes are looked up");
  if (found != DISIR_STATUS_OK) { *out = NULL; return found; }
  *out = hit; return DISIR_STATUS_OK;
}
enum disir_status dc_find_elements(struct disir_context *c, const char *name, struct disir_collection **out)
{ CHECK(c == parent && is_name(name), "the elements of this name are counted in the parent"); if (SZ == 0) { *out = NULL; return DISIR_STATUS_NOT_EXIST; } open_cfg++; *out = &col; return DISIR_STATUS_OK; }
int32_t dc_collection_size(struct disir_collection *c) { return c == NULL ? 0 : SZ; }
enum disir_status dc_collection_finished(struct disir_collection **c) { if (c == NULL || *c == NULL) return DISIR_STATUS_INVALID_ARGUMENT; open_cfg--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dx_restriction_entries_value(struct disir_context *c, enum disir_restriction_type t, struct disir_version *v, int *out)
{ CHECK(t == DISIR_RESTRICTION_INC_ENTRY_MAX && v == NULL, "the maximum at the config's version is asked for"); *out = MAX; return DISIR_STATUS_OK; }
static void set(_Bool csection, _Bool insec, _Bool pfin, int what)
{
  vt_world();
  vt_ctx(&secc, DISIR_CONTEXT_SECTION, &w.moldc, &w.moldc); secc.cx_section = &sec; sec.se_context = &secc;
  vt_ctx(&pmold, DISIR_CONTEXT_SECTION, &w.moldc, &w.moldc); pmold.cx_section = &pmolds; pmolds.se_context = &pmold;
  vt_ctx(&psec, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); psec.cx_section = &psecs; psecs.se_context = &psec; psecs.se_name.dv_type = DISIR_VALUE_TYPE_STRING;
  _Bool orphan = insec && nd_bool(); if (orphan) psecs.se_mold_equiv = NULL; else psecs.se_mold_equiv = &pmold;
  if (insec) pmolds.se_elements = (struct disir_element_storage *)&dummy; else w.mold.mo_elements = (struct disir_element_storage *)&dummy;
  parent = insec ? &psec : &w.cfgc; parent->CONTEXT_STATE_FINALIZED = pfin;
  vt_ctx(&csec, DISIR_CONTEXT_SECTION, parent, &w.cfgc); csec.cx_section = &csecs; csecs.se_context = &csec; w.ckvc.cx_parent_context = parent;
  struct disir_context *c = csection ? &csec : &w.ckvc; c->CONTEXT_STATE_CONSTRUCTING = 1;
  struct disir_value *v = csection ? &csecs.se_name : &w.ckv.kv_name; v->dv_type = DISIR_VALUE_TYPE_STRING; v->dv_string = NULL; v->dv_size = 0;
  w.mkv.kv_value.dv_type = vt_nd_type(); w.ckv.kv_value.dv_type = DISIR_VALUE_TYPE_UNKNOWN;
  /* a former name may have found an equivalent: one reference is held on it */
  struct disir_context *former = csection ? &secc : &w.mkvc; _Bool had = nd_bool(); if (had) { former->cx_refcount = 2; if (csection) csecs.se_mold_equiv = &secc; else w.ckv.kv_mold_equiv = &w.mkvc; } else if (csection) csecs.se_mold_equiv = NULL; else w.ckv.kv_mold_equiv = NULL;
  for (int i = 0; i < 3; i++) text[i] = nd_char(); text[3] = 0; size = nd_int(); ASSUME(size <= 3);
  if (size > 0) ASSUME(text[0] != 0 && (size < 2 || text[1] != 0) && (size < 3 || text[2] != 0));
  MAX = nd_int(); SZ = nd_int(); ASSUME(MAX >= -1 && SZ >= 0); open_cfg = 0;
  found = what == 0 ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK; hit = (what == 1) == csection ? &secc : &w.mkvc; /* what: 0 no such name, 1 an element of the same kind, 2 of the other kind */
  _Bool held = nd_bool(), null = nd_bool(); c->CONTEXT_STATE_IN_PARENT = held;
  unsigned long live = vt_alloc_live;
  enum disir_status st = dc_set_name(c, null ? NULL : text, size), want; _Bool stored = 0;
  if (held) want = (null || size <= 0) && st == DISIR_STATUS_INVALID_ARGUMENT ? st : DISIR_STATUS_CONTEXT_IN_WRONG_STATE; /* refused either way */
  else if (null || size <= 0) want = DISIR_STATUS_INVALID_ARGUMENT;
  else if (orphan || what == 0) { want = DISIR_STATUS_NOT_EXIST; stored = 1; }
  else if (what == 2) want = DISIR_STATUS_WRONG_CONTEXT;
  else if (pfin && MAX != 0 && MAX <= SZ) want = DISIR_STATUS_RESTRICTION_VIOLATED;
  else { want = DISIR_STATUS_OK; stored = 1; }
  CHECK(st == want, "a name is accepted exactly when the mold knows it and there is room for one more element");
  CHECK(c->CONTEXT_STATE_INVALID == (want == DISIR_STATUS_NOT_EXIST), "an unknown name marks the element invalid");
  CHECK(open_cfg == 0, "no collection is left open");
  if (stored) { CHECK(v->dv_size == size && v->dv_string != NULL && v->dv_string != text && is_name(v->dv_string), "the given bytes are the name, in storage of its own"); CHECK(vt_alloc_live == live + 1, "and nothing else is left allocated"); }
  else CHECK(v->dv_string == NULL && vt_alloc_live == live, "a refused name is not stored");
  _Bool linked = want == DISIR_STATUS_OK || want == DISIR_STATUS_RESTRICTION_VIOLATED;
  struct disir_context *eq = csection ? csecs.se_mold_equiv : w.ckv.kv_mold_equiv;
  if (linked) { CHECK(eq == former && former->cx_refcount == 2, "one reference is held on the mold's element of this name"); if (!csection) CHECK(w.ckv.kv_value.dv_type == w.mkv.kv_value.dv_type, "a keyval takes the type of its mold keyval"); }
  else CHECK(eq == (had ? former : NULL) && former->cx_refcount == (had ? 2 : 1), "references are untouched otherwise");
}
//@unit name=set_name harness=h_set_name keep=1 model=dx_element_storage_get_first,dc_find_elements,dc_collection_size,dc_collection_finished,dx_restriction_entries_value,dx_context_type_check_log_error,dc_version_string kind=bounded bound=names_of_up_to_3_bytes never=dx_keyval_destroy,dx_section_destroy,dx_mold_destroy,dx_config_destroy,dc_destroy
void h_set_name(void)
{
  switch (nd_int()) {
  case 0: set(0, 0, 0, 1); break; case 1: set(0, 0, 1, 1); break; case 2: set(0, 1, 1, 1); break; case 3: set(1, 0, 1, 1); break; case 4: set(1, 1, 1, 1); break; case 5: set(1, 1, 0, 1); break;
  case 6: set(0, 0, 1, 0); break; case 7: set(1, 0, 0, 0); break; case 8: set(0, 1, 1, 2); break; default: set(1, 0, 1, 2);
  }
  REACH("set name");
}
