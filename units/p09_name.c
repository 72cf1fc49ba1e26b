//@file prop=P09 unwind=24 bunwind=24 sources=context.c,context_util.c kind=bounded bound=up_to_3_levels_and_names_of_up_to_2_bytes
#include "model.h"
#include "collection.h"
#include "element_storage.h"
#include "log_stub.h"
/* chain[0] is the element asked for, chain[n] the root; element i is number pos[i] of size[i] elements of its name (not among them when pos >= size) */
static struct disir_context chain[4], OTHER; static struct disir_section S[4]; static struct disir_keyval kv; static int n, pos[4], size[4], level, at, refs, opened; static const char *NM[4]; static char COL; static _Bool kvfirst;
void vt_p09_find(struct disir_context *c, const char *name)
{ level = 9; for (int i = 0; i < n; i++) if (c == &chain[i + 1]) level = i; CHECK(level < 9 && name != NULL && strcmp(name, NM[level] ? NM[level] : "undefined") == 0, "each element is looked for by its name in its parent"); }
enum disir_status dc_find_elements(struct disir_context *c, const char *name, struct disir_collection **col)
{ vt_p09_find(c, name); if (level == 9 || size[level] == 0) return DISIR_STATUS_NOT_EXIST; *col = (void *)&COL; at = 0; opened++; return DISIR_STATUS_OK; }
enum disir_status dc_collection_next(struct disir_collection *c, struct disir_context **out)
{ if (level == 9 || at >= size[level]) { *out = NULL; return DISIR_STATUS_EXHAUSTED; } *out = at == pos[level] ? &chain[level] : &OTHER; at++; refs++; return DISIR_STATUS_OK; }
enum disir_status dc_collection_finished(struct disir_collection **c) { opened--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_putcontext(struct disir_context **c) { CHECK(*c == &OTHER || *c == &chain[level], "a reference that was given is released"); refs--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_get_name(struct disir_context *c, const char **name, int32_t *len)
{ for (int i = 0; i < n; i++) if (c == &chain[i]) { *name = NM[i]; return DISIR_STATUS_OK; } return DISIR_STATUS_WRONG_CONTEXT; }
static int want(char *o)
{
  int k = 0;
  for (int i = n - 1; i >= 0; i--) {
    for (const char *p = NM[i] ? NM[i] : "undefined"; *p; p++) o[k++] = *p;
    int idx = pos[i] < size[i] ? pos[i] : size[i]; if (idx) { o[k++] = '@'; o[k++] = (char)('0' + idx); }
    if (i) o[k++] = '.';
  }
  o[k] = 0; return k;
}
static void run(int depth, int p0, int s0, int p1, int s1, int fail)
{
  char w1[40], *out = NULL; unsigned long live = vt_alloc_live; n = depth; pos[0] = p0; size[0] = s0; pos[1] = p1; size[1] = s1; pos[2] = 1; size[2] = 2;
  NM[0] = "k"; NM[1] = "ab"; NM[2] = fail ? NULL : "s";
  for (int i = 0; i < 4; i++) { vt_ctx(&chain[i], DISIR_CONTEXT_SECTION, i < n ? &chain[i + 1] : NULL, &chain[n]); chain[i].cx_section = &S[i]; S[i].se_context = &chain[i]; }
  if (kvfirst) { chain[0].cx_type = DISIR_CONTEXT_KEYVAL; chain[0].cx_keyval = &kv; }
  chain[n].cx_type = nd_bool() ? DISIR_CONTEXT_CONFIG : DISIR_CONTEXT_MOLD; refs = 0; opened = 0;
  vt_alloc_fail_at = fail; enum disir_status st = dc_resolve_root_name(&chain[0], &out); fail = vt_alloc_fail_at > 0 ? 0 : fail; vt_alloc_fail_at = 0;
  CHECK(st == (fail ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_OK), "every element has a name unless memory runs out");
  CHECK(refs == 0 && opened == 0, "all references and collections are given up");
  if (st == DISIR_STATUS_OK) { int k = want(w1); for (int i = 0; i <= k; i++) CHECK(out[i] == w1[i], "the names from the outermost section on, with their positions, separated by dots"); CHECK(vt_alloc_live == live + 1, "only the text is allocated"); REACH("named"); }
  else { CHECK(vt_alloc_live == live, "nothing is left allocated"); REACH("no memory"); }
}
//@unit name=resolve_name harness=h_name model=dc_find_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dc_get_name keep=1
void h_name(void)
{
  kvfirst = nd_bool();
  switch (nd_int()) {
  case 0: run(1, 0, 1, 0, 0, 0); break; case 1: run(1, 2, 3, 0, 0, 0); break; case 2: run(1, 1, 2, 0, 0, 1); break; case 3: run(2, 0, 1, 0, 2, 0); break; case 4: run(2, 0, 0, 1, 2, 0); break; /* not held by its parent */
  case 5: run(2, 9, 2, 2, 4, 0); break; case 6: run(2, 1, 3, 1, 2, 2); break; case 7: run(3, 1, 2, 0, 1, 0); break; case 8: run(3, 0, 1, 3, 4, 3); break; default: run(3, 0, 3, 9, 0, 0);
  }
}
//@unit name=resolve_name_guards harness=h_guards kind=proved
void h_guards(void)
{
  struct disir_context *c = NULL; char *out = NULL; vt_world(); int what = nd_int();
  if (what == 0) CHECK(dc_resolve_root_name(NULL, &out) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  else if (what == 1) CHECK(dc_resolve_root_name(&w.ckvc, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  else { c = nd_bool() ? &w.cfgc : nd_bool() ? &w.moldc : &w.defc; CHECK(dc_resolve_root_name(c, &out) == DISIR_STATUS_WRONG_CONTEXT, "only elements have a name"); }
  CHECK(out == NULL, "nothing is given out"); REACH("guards");
}
