//@file prop=P12 unwind=8 bunwind=8 sources=query.c,context_util.c kind=bounded
#include "model.h"
#include "query_private.h"
#include "collection.h"
#include "log_stub.h"
static struct disir_context par;
/* grammar of one step: name [ @ digits ] up to the next dot (or the end); returns 0 when it is no step, 1 when it is, 2 when the index is too large */
static int step(const char *q, int *dot, int *at, long *idx)
{
  int i = 0; *at = -1; *idx = 0;
  while (q[i] && q[i] != '.') { if (q[i] == '@' && *at < 0) *at = i; i++; }
  *dot = i;
  if (*at == 0 || (i == 0 && q[i] == '.')) return 0;
  if (*at < 0) return 1;
  if (*at + 1 == i) return 0;
  for (int j = *at + 1; j < i; j++) { if (q[j] < '0' || q[j] > '9') return 0; if (*idx <= (long)INT32_MAX) *idx = *idx * 10 + (q[j] - '0'); }
  return *idx > INT32_MAX ? 2 : 1;
}
#ifndef K
#define K 5
#endif
static void run(const char *text, int pre)
{
  char q[32], res[40], *next = (char *)text; int index = -7, dot, at; long idx; size_t len = strlen(text); strcpy(q, text); strcpy(res, pre ? "s@1" : "");
  vt_world(); enum disir_status st = dx_query_resolve_name(&w.cfgc, q, res, &next, &index); int ok = step(text, &dot, &at, &idx);
  CHECK(st == (ok == 1 ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_ARGUMENT), "exactly a name with an optional index in decimal digits is accepted");
  CHECK(strlen(res) <= (pre ? 4 : 0) + len, "the text for messages is never longer than the query");
  if (st == DISIR_STATUS_OK) {
    int end = at < 0 ? dot : at; CHECK(index == (int)idx, "the index is the number after the @, 0 if there is none");
    CHECK(memcmp(q, text, (size_t)end) == 0 && q[end] == 0, "the name ends before the @ or the dot");
    CHECK(text[dot] ? next == q + dot + 1 && strcmp(next, text + dot + 1) == 0 : next == NULL, "the rest after the dot is left for the next step");
    if (pre) CHECK(memcmp(res, "s@1.", 4) == 0 && memcmp(res + 4, text, (size_t)dot) == 0 && res[4 + dot] == 0, "the query so far is kept for messages"); else CHECK(memcmp(res, text, (size_t)dot) == 0 && res[dot] == 0, "the query so far is kept for messages");
    REACH("a step");
  } else REACH("no step");
}
//@unit name=query_step harness=h_step unwind=9 bunwind=9 bound=steps_of_up_to_5_bytes
void h_step(void)
{
  char t[K + 1]; size_t n = 0; static const char AB[8] = "ab.@17- ";
  for (int i = 0; i < K; i++) { t[i] = 0; if (n == (size_t)i && nd_bool()) { char c; switch (nd_u8()) { case 0: c = 'a'; break; case 1: c = '.'; break; case 2: c = '@'; break; case 3: c = '1'; break; case 4: c = '0'; break; case 5: c = '-'; break; case 6: c = ' '; break; case 7: c = '+'; break; default: c = nd_char(); ASSUME(c != 0); } t[i] = c; n++; } }
  t[K] = 0; run(t, nd_bool());
}
//@unit name=query_index harness=h_index unwind=24 bunwind=24 bound=listed_numbers
void h_index(void)
{
  int pre = nd_bool();
  switch (nd_int()) {
  case 0: run("a@2147483647.b", pre); break; case 1: run("a@2147483648.b", pre); break; case 2: run("a@4294967296", pre); break; case 3: run("a@4294967297.b", pre); break;
  case 4: run("a@9223372036854775807", pre); break; case 5: run("a@9223372036854775808.b", pre); break; case 6: run("a@18446744073709551616", pre); break; case 7: run("ab@0007.c@2", pre); break; case 8: run("ab@12x.c", pre); break; default: run("ab@-4294967295.c", pre);
  }
}
/* ---- the walk: a query of up to 4 steps, printed from any format into any text; the steps are answered as dx_query_resolve_name is contracted (query_step, query_index) ---- */
static struct disir_context CX, N[5]; static struct disir_section SE; static int held[5], pos, steps, badstep, failstep; static enum disir_status failwith; static char *BUF; static const char *TEXT; static int IDX[5];
#if defined M_dx_query_resolve_name && !defined M_dc_begin
enum disir_status dx_query_resolve_name(struct disir_context *parent, char *name, char *resolved, char **next, int *index)
{
  CHECK(parent == (pos ? &N[pos - 1] : &CX), "each step is taken from the element before it");
  if (pos == 0) { BUF = name; CHECK(name[vt_msg_at] == TEXT[vt_msg_at] && name[vt_msg_len] == 0 && resolved[0] == 0, "the query is the whole printed text"); } else CHECK(name == BUF + 2 * pos, "each step continues where the one before it ended");
  if (pos == badstep) return DISIR_STATUS_INVALID_ARGUMENT;
  *index = IDX[pos]; *next = pos + 1 < steps ? BUF + 2 * (pos + 1) : NULL; return DISIR_STATUS_OK;
}
#endif
#if defined M_dc_find_element && !defined M_dc_begin
enum disir_status dc_find_element(struct disir_context *c, const char *n, unsigned int i, struct disir_context **o)
{
  CHECK(c == (pos ? &N[pos - 1] : &CX) && n == BUF + 2 * pos && i == (unsigned)IDX[pos], "the element of the step's name and index is looked for in the element before it"); CHECK(pos == 0 || held[pos - 1] == 1, "a section is held while it is searched");
  if (pos == failstep) return failwith; *o = &N[pos]; held[pos]++; pos++; return DISIR_STATUS_OK;
}
#endif
#if defined M_dc_putcontext && !defined M_dc_begin
enum disir_status dc_putcontext(struct disir_context **c) { for (int j = 0; j < 5; j++) if (*c == &N[j]) { CHECK(held[j] > 0, "what was given is released once"); held[j]--; } *c = NULL; return DISIR_STATUS_OK; }
#endif
static enum disir_status via_va(const char *f, struct disir_context **o, ...) { va_list ap; va_start(ap, o); enum disir_status st = dc_query_resolve_context_va(&CX, f, o, ap); va_end(ap); return st; }
static void walk(int n, int bad_at, int fail_at)
{
  struct disir_context *out = &CX; enum disir_status st; static char text[2064]; size_t len = n == 1 ? nd_size() : 9; ASSUME(len <= 2060);
  vt_ctx(&CX, nd_bool() ? DISIR_CONTEXT_CONFIG : nd_bool() ? DISIR_CONTEXT_MOLD : DISIR_CONTEXT_SECTION, NULL, &CX); CX.cx_section = &SE;
  for (int j = 0; j < 5; j++) { vt_ctx(&N[j], j + 1 < n ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &CX, &CX); N[j].cx_section = &SE; held[j] = 0; IDX[j] = nd_int(); ASSUME(IDX[j] >= 0); }
  steps = n; pos = 0; badstep = bad_at; failstep = fail_at; failwith = nd_bool() ? DISIR_STATUS_NOT_EXIST : nd_bool() ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_WRONG_CONTEXT;
  vt_msg_fmt = "%s"; vt_msg = TEXT = text; vt_msg_len = len; vt_msg_at = n == 1 ? nd_size() : 3; ASSUME(vt_msg_at < 2047 && vt_msg_at < (len ? len : 1)); text[vt_msg_at] = len ? nd_char() : 0; ASSUME(len == 0 || text[vt_msg_at] != 0);
#ifdef VT_NATIVE
  memset(text, 'a', len); text[len] = 0;
#endif
  st = n == 3 ? dc_query_resolve_context(&CX, vt_msg_fmt, &out, TEXT) : via_va(vt_msg_fmt, &out, TEXT);
  _Bool bad = badstep >= 0 && badstep < n && !(failstep >= 0 && failstep < badstep), fail = !bad && failstep >= 0 && failstep < n;
  if (len >= 2048) { CHECK(st == DISIR_STATUS_INSUFFICIENT_RESOURCES, "a query that does not fit is refused"); REACH("too long"); }
  else CHECK(st == (bad ? DISIR_STATUS_INVALID_ARGUMENT : fail ? failwith : DISIR_STATUS_OK), "the query is answered by following its steps");
  if (st == DISIR_STATUS_OK) { CHECK(out == &N[n - 1] && pos == n, "the element of the last step is given"); REACH("resolved"); } else CHECK(out == &CX, "nothing is given out");
  for (int j = 0; j < 5; j++) CHECK(held[j] == (st == DISIR_STATUS_OK && j == n - 1), "only the element given is held, with one reference");
}
//@unit name=query_walk harness=h_walk unwind=12 bunwind=12 model=dx_query_resolve_name,dc_find_element,dc_putcontext,dx_context_type_check_log_error keep=1 bound=queries_of_up_to_4_steps unwindset=query_resolve_name_to_context:6
void h_walk(void)
{
  switch (nd_int()) {
  case 0: walk(1, 9, 9); break; case 1: walk(1, 0, 9); break; case 2: walk(1, 9, 0); break; case 3: walk(2, 9, 9); break; case 4: walk(2, 1, 9); break; case 5: walk(2, 9, 1); break; case 6: walk(2, 9, 0); break;
  case 7: walk(3, 9, 9); break; case 8: walk(3, 2, 9); break; case 9: walk(3, 9, 2); break; case 10: walk(3, 9, 1); break; case 11: walk(3, 1, 9); break; case 12: walk(4, 9, 9); break; case 13: walk(4, 3, 9); break; case 14: walk(4, 9, 3); break; default: walk(4, 9, 2);
  }
}
/* ---- the sections a query of up to three steps names are there or are made, outermost one left unfinished ---- */
static struct disir_context PA[4], NW[4], MO[4], ME[4]; /* existing, made, mold of the parent, mold of the element */
static int st_[4], ref[4], mref[4], cols, cnt_; static _Bool ex[4], exkv[4], nomold[4], kvmold[4]; static int cnt[4], mx[4], IX[4], fl[4]; static char CB;
enum { F_BEGIN = 1, F_NAME, F_GEN, F_FIN, F_FIND, F_COL, F_MAX };
#define LIVE(j) (&NW[j])
static struct disir_context *at(int j) { return j < 0 ? &CX : ex[j] ? &PA[j] : &NW[j]; }
#ifdef M_dc_begin
enum disir_status dx_query_resolve_name(struct disir_context *parent, char *name, char *resolved, char **next, int *index)
{ CHECK(parent == &CX, "messages go to the context the query starts from"); CHECK(pos == 0 || name == BUF + 2 * pos, "each step continues where the one before it ended"); if (pos == 0) BUF = name; int p = pos++; if (p == badstep) return DISIR_STATUS_INVALID_ARGUMENT; name[1] = 0; *index = IX[p]; *next = p + 1 < steps ? name + 2 : NULL; return DISIR_STATUS_OK; }
#endif
#ifdef M_dc_begin
enum disir_status dc_find_element(struct disir_context *c, const char *n, unsigned int i, struct disir_context **o)
{
  int j = pos - 1; CHECK(n == BUF + 2 * j, "the name of the step is looked for");
  if (c == &MO[j]) { CHECK(i == 0, "the mold has one element of a name"); if (nomold[j]) return DISIR_STATUS_NOT_EXIST; *o = &ME[j]; mref[j]++; return DISIR_STATUS_OK; }
  CHECK(c == at(j - 1) && i == (unsigned)IX[j], "the element is looked for where the steps before lead"); if (fl[j] == F_FIND) return DISIR_STATUS_NO_MEMORY;
  if (!ex[j]) return DISIR_STATUS_NOT_EXIST; *o = &PA[j]; ref[j]++; return DISIR_STATUS_OK;
}
enum disir_status dc_find_elements(struct disir_context *c, const char *n, struct disir_collection **col)
{ int j = pos - 1; CHECK(c == at(j - 1) && n == BUF + 2 * j, "the elements of the step's name are counted"); if (fl[j] == F_COL) return DISIR_STATUS_NO_MEMORY; if (cnt[j] == 0) return DISIR_STATUS_NOT_EXIST; cols++; *col = (void *)&CB; return DISIR_STATUS_OK; }
int32_t dc_collection_size(struct disir_collection *c) { CHECK(cols == 1, "a collection is in use"); return cnt[pos - 1]; }
enum disir_status dc_collection_finished(struct disir_collection **c) { cols--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dx_get_mold_equiv(struct disir_context *c, struct disir_context **e) { CHECK(c == at(pos - 2), "the mold of the parent"); *e = &MO[pos - 1]; return DISIR_STATUS_OK; }
enum disir_status dx_restriction_entries_value(struct disir_context *c, enum disir_restriction_type t, struct disir_version *v, int *val) { CHECK(c == &ME[pos - 1] && t == DISIR_RESTRICTION_INC_ENTRY_MAX, "the maximum of the element"); if (fl[pos - 1] == F_MAX) return DISIR_STATUS_NO_MEMORY; *val = mx[pos - 1]; return DISIR_STATUS_OK; }
enum disir_status dc_begin(struct disir_context *p, enum disir_context_type t, struct disir_context **c)
{ int j = pos - 1; CHECK(p == at(j - 1) && t == DISIR_CONTEXT_SECTION && st_[j] == 0, "a section is begun once, in its parent"); if (fl[j] == F_BEGIN) return DISIR_STATUS_NO_MEMORY; st_[j] = 1; ref[j] = 1; *c = &NW[j]; return DISIR_STATUS_OK; }
enum disir_status dc_set_name(struct disir_context *c, const char *n, int32_t s) { int j = pos - 1; CHECK(c == &NW[j] && n == BUF + 2 * j && s == 1, "the section gets the name of the step"); return fl[j] == F_NAME ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_OK; }
enum disir_status dc_generate_from_config_root(struct disir_context *c) { int j = pos - 1; CHECK(c == &NW[j], "the section is filled from the mold"); return fl[j] == F_GEN ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_OK; }
enum disir_status dc_finalize_keep_reference(struct disir_context *c) { int j = pos - 1; CHECK(c == &NW[j] && st_[j] == 1, "a section is finalized once"); if (fl[j] == F_FIN) return DISIR_STATUS_EXISTS; st_[j] = 2; return DISIR_STATUS_OK; }
enum disir_status dc_destroy(struct disir_context **c) { for (int j = 0; j < 3; j++) if (*c == &NW[j]) { CHECK(st_[j] == 1, "only an unfinished section that is there is destroyed"); st_[j] = 3; ref[j]--; for (int k = j + 1; k < 3; k++) if (st_[k] == 2) st_[k] = 3; } *c = NULL; return DISIR_STATUS_OK; }
static void drop(struct disir_context **c) { for (int j = 0; j < 3; j++) { if (*c == &ME[j]) mref[j]--; if (*c == &PA[j] || *c == &NW[j]) { CHECK(ref[j] > 0 && st_[j] != 3, "a reference that is held is released"); ref[j]--; } } *c = NULL; }
enum disir_status dc_putcontext(struct disir_context **c) { drop(c); return DISIR_STATUS_OK; }
void dx_context_decref(struct disir_context **c) { struct disir_context *k = *c; drop(c); *c = k; }
void dx_context_incref(struct disir_context *c) { for (int j = 0; j < 3; j++) if (c == &PA[j] || c == &NW[j]) ref[j]++; if (c == &CX) cnt_++; }
void dx_context_transfer_logwarn(struct disir_context *d, struct disir_context *s) {}
#endif
static enum disir_status ensure(struct disir_context **a, struct disir_context **p, char *n, int *i, const char *q, ...) { va_list ap; va_start(ap, q); enum disir_status st = dx_query_ensure_ancestors(&CX, q, ap, a, p, n, i); va_end(ap); return st; }
/* e0, e1: what there is for the first and second step: 0 missing, 1 a section, 2 a keyval */
static void anc(int n, int e0, int e1, int f0, int f1)
{
  struct disir_context *a = NULL, *p = NULL; char nm[8] = ""; int ix = -1; steps = n; pos = 0; cols = 0; cnt_ = 0; badstep = f0 == 20 ? 0 : f1 == 20 ? 1 : f1 == 21 ? n - 1 : 99; vt_ctx(&CX, DISIR_CONTEXT_CONFIG, NULL, &CX);
  for (int j = 0; j < 4; j++) {
    int e = j == 0 ? e0 : j == 1 ? e1 : 0, f = j == 0 ? f0 : j == 1 ? f1 : 0; ex[j] = e != 0; st_[j] = ref[j] = mref[j] = 0; fl[j] = f; nomold[j] = f == 10; kvmold[j] = f == 11;
    vt_ctx(&PA[j], e == 2 ? DISIR_CONTEXT_KEYVAL : DISIR_CONTEXT_SECTION, &CX, &CX); vt_ctx(&NW[j], DISIR_CONTEXT_SECTION, &CX, &CX); vt_ctx(&MO[j], DISIR_CONTEXT_SECTION, NULL, &MO[j]); vt_ctx(&ME[j], kvmold[j] ? DISIR_CONTEXT_KEYVAL : DISIR_CONTEXT_SECTION, NULL, &ME[j]);
    IX[j] = nd_int(); ASSUME(IX[j] >= 0); cnt[j] = nd_int(); ASSUME(cnt[j] >= 0); mx[j] = nd_int(); ASSUME(mx[j] >= 0);
  }
  enum disir_status st = ensure(&a, &p, nm, &ix, n == 1 ? "k" : n == 2 ? "s.k" : "s.t.k"), want = DISIR_STATUS_OK; int anc_ = -1, j;
  for (j = 0; j < n && want == DISIR_STATUS_OK; j++) {
    if (badstep == j) { want = DISIR_STATUS_INVALID_ARGUMENT; break; } if (j == n - 1) break;
    if (fl[j] == F_FIND) want = DISIR_STATUS_NO_MEMORY; else if (ex[j]) { if (PA[j].cx_type != DISIR_CONTEXT_SECTION) want = DISIR_STATUS_CONFLICT; }
    else if (fl[j] == F_COL) want = DISIR_STATUS_INTERNAL_ERROR; else if (IX[j] != cnt[j]) want = DISIR_STATUS_NO_CAN_DO; else if (nomold[j]) want = DISIR_STATUS_MOLD_MISSING; else if (fl[j] == F_MAX) want = DISIR_STATUS_NO_MEMORY;
    else if (kvmold[j]) want = DISIR_STATUS_CONFLICT; else if (mx[j] && IX[j] >= mx[j]) want = DISIR_STATUS_RESTRICTION_VIOLATED; else if (fl[j] == F_BEGIN) want = DISIR_STATUS_INTERNAL_ERROR; else if (fl[j] == F_NAME || fl[j] == F_GEN) want = DISIR_STATUS_NO_MEMORY;
    else if (fl[j] == F_FIN && anc_ >= 0) want = DISIR_STATUS_INTERNAL_ERROR; else if (anc_ < 0) anc_ = j;
  }
  CHECK(st == want, "a missing section is made exactly when it is the next one, the mold knows it as a section and its maximum allows it");
  CHECK(cols == 0, "collections are given up"); for (int k = 0; k < 3; k++) CHECK(mref[k] == 0, "references to the mold are given up");
  if (st == DISIR_STATUS_OK) {
    CHECK(p == at(n - 2) && (n > 1 ? ref[n - 2] == 1 + (anc_ == n - 2) : cnt_ == 1), "the parent of the last step is given, with a reference"); CHECK(a == (anc_ < 0 ? NULL : &NW[anc_]), "the outermost section made is given, unfinished");
    CHECK(nm[0] == (n == 1 ? 'k' : 'k') && nm[1] == 0 && ix == IX[n - 1], "name and index of the last step are given");
    for (int k = 0; k < n - 1; k++) { CHECK(st_[k] == (ex[k] ? 0 : k == anc_ ? 1 : 2), "sections inside the outermost one are finished"); if (k != n - 2) CHECK(ref[k] == (k == anc_), "nothing else is held"); } REACH("ancestors");
  } else { CHECK(a == NULL && p == NULL, "nothing is given out"); for (int k = 0; k < 3; k++) CHECK(ref[k] == 0 && (st_[k] == 0 || st_[k] == 3), "what was made is destroyed, nothing is held"); REACH("refused"); }
}
//@unit name=query_ancestors harness=h_anc unwind=8 bunwind=8 model=dx_query_resolve_name,dc_find_elements,dc_find_element,dc_collection_size,dc_collection_finished,dx_get_mold_equiv,dx_restriction_entries_value,dc_begin,dc_set_name,dc_generate_from_config_root,dc_finalize_keep_reference,dc_destroy,dc_putcontext,dx_context_decref,dx_context_incref,dx_context_transfer_logwarn keep=1 bound=queries_of_up_to_3_steps
void h_anc(void)
{
  switch (nd_int()) {
  case 0: anc(1, 0, 0, 0, 0); break; case 1: anc(1, 0, 0, 20, 0); break; case 2: anc(2, 1, 0, 0, 0); break; case 3: anc(2, 2, 0, 0, 0); break; case 4: anc(2, 0, 0, 0, 0); break; case 5: anc(2, 0, 0, 0, 20); break;
  case 6: anc(3, 1, 1, 0, 0); break; case 7: anc(3, 1, 0, 0, 0); break; case 8: anc(3, 0, 0, 0, 0); break; case 9: anc(3, 0, 1, 0, 0); break; case 10: anc(3, 0, 2, 0, 0); break; case 11: anc(3, 0, 0, 0, 21); break; case 12: anc(3, 0, 0, 0, 20); break;
#define FS(f) case 20 + f: anc(2, 0, 0, f, 0); break; case 40 + f: anc(3, 0, 0, 0, f); break; case 60 + f: anc(3, 1, 0, 0, f); break;
  FS(F_BEGIN) FS(F_NAME) FS(F_GEN) FS(F_FIN) FS(F_COL) FS(F_MAX) FS(10) FS(11) case 80: anc(2, 1, 0, F_FIND, 0); break; case 81: anc(3, 0, 0, 0, F_FIND); break; default: anc(3, 1, 1, 0, F_FIND);
  }
}
