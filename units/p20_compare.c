//@file prop=P20 unwind=6 bunwind=6 sources=compare.c,context_util.c keep=1
//@assume memory suffices for the report: a difference that cannot be recorded is only logged (dx_diff_report_add)
#include "model.h"
#include "collection.h"
#include "multimap.h"
#include "log_stub.h"
static int added; static struct disir_diff_report REP;
#ifdef M_dx_diff_report_add
void dx_diff_report_add(struct disir_diff_report *r, const char *fmt, ...) { CHECK(r == &REP, "the report of the comparison"); added++; }
#endif
#ifdef M_dx_value_compare
/* contract (P02): 0 exactly when the values are the same */
int dx_value_compare(struct disir_value *a, struct disir_value *b) { return a->dv_integer == b->dv_integer ? 0 : a->dv_integer < b->dv_integer ? -1 : 1; }
enum disir_status dx_value_stringify(struct disir_value *v, int32_t n, char *o, int32_t *s) { return DISIR_STATUS_OK; }
enum disir_status dx_value_get_string(struct disir_value *v, const char **o, int32_t *s) { *o = "v"; return DISIR_STATUS_OK; }
const char *dx_context_name(struct disir_context *c) { return "n"; }
const char *dc_context_type_string(struct disir_context *c) { return "T"; }
const char *dc_restriction_enum_string(enum disir_restriction_type t) { return "R"; }
#endif
/* ---- the queues of a mold entry: up to 3 nodes each ---- */
#define Q 3
static struct disir_default A[Q], B[Q]; static struct disir_documentation C[Q], D[Q]; static int na, nb;
enum disir_status compare_default_queues(struct disir_default *lhs, struct disir_default *rhs, struct disir_diff_report *report);
enum disir_status compare_documentation_queues(struct disir_documentation *lhs, struct disir_documentation *rhs, struct disir_diff_report *report);
enum disir_status compare_restriction_queue(struct disir_restriction *lhs, struct disir_restriction *rhs, struct disir_diff_report *report);
enum disir_status diff_compare_contexts_with_report(struct disir_context *lhs, struct disir_context *rhs, struct disir_diff_report *report);
enum disir_status compare_all_in_name(struct disir_context *lhs, struct disir_context *rhs, const char *name, struct disir_diff_report *report);
enum disir_status compare_all_elements(struct disir_context *lhs, struct disir_context *rhs, struct disir_diff_report *report);
#define LINK(X, n) for (int i = 0; i < Q; i++) { X[i].next = i + 1 < n ? &X[i + 1 < Q ? i + 1 : 0] : NULL; X[i].prev = i ? &X[i - 1] : &X[n ? n - 1 : 0]; }
#define SAMEV(a, b) (vt_key(&(a)) == vt_key(&(b)))
static void lengths(void) { na = nd_int(); nb = nd_int(); ASSUME(na >= 0 && na <= Q && nb >= 0 && nb <= Q); added = 0; }
//@unit name=defaults harness=h_defaults statics=compare_default_queues model=dx_diff_report_add,dx_value_compare,dx_value_stringify,dx_value_get_string,dx_context_name,dc_context_type_string,dc_restriction_enum_string,dc_version_string sources=compare.c,context_util.c,util.c kind=bounded bound=queues_of_up_to_3
void h_defaults(void)
{
  lengths(); _Bool same = na == nb;
  for (int i = 0; i < Q; i++) { A[i].de_introduced = vt_nd_ver(); B[i].de_introduced = vt_nd_ver(); A[i].de_value.dv_integer = nd_i64(); B[i].de_value.dv_integer = nd_i64(); if (i < na && i < nb && (!SAMEV(A[i].de_introduced, B[i].de_introduced) || A[i].de_value.dv_integer != B[i].de_value.dv_integer)) same = 0; }
  LINK(A, na) LINK(B, nb)
  enum disir_status st = compare_default_queues(na ? A : NULL, nb ? B : NULL, &REP);
  CHECK(st == DISIR_STATUS_OK && (added == 0) == same, "a difference is reported exactly when the defaults differ in number, version or value"); REACH("defaults");
}
//@unit name=documentation harness=h_docs statics=compare_documentation_queues model=dx_diff_report_add,dx_value_compare,dx_value_stringify,dx_value_get_string,dx_context_name,dc_context_type_string,dc_restriction_enum_string,dc_version_string sources=compare.c,context_util.c,util.c kind=bounded bound=queues_of_up_to_3
void h_docs(void)
{
  lengths(); _Bool same = na == nb;
  for (int i = 0; i < Q; i++) { C[i].dd_introduced = vt_nd_ver(); D[i].dd_introduced = vt_nd_ver(); C[i].dd_value.dv_integer = nd_i64(); D[i].dd_value.dv_integer = nd_i64(); if (i < na && i < nb && (!SAMEV(C[i].dd_introduced, D[i].dd_introduced) || C[i].dd_value.dv_integer != D[i].dd_value.dv_integer)) same = 0; }
  LINK(C, na) LINK(D, nb)
  enum disir_status st = compare_documentation_queues(na ? C : NULL, nb ? D : NULL, &REP);
  CHECK(st == DISIR_STATUS_OK && (added == 0) == same, "a difference is reported exactly when the documentation differs in number, version or text"); REACH("docs");
}
/* restrictions: numeric or an enumeration text, with at most one documentation each */
static struct disir_restriction E[Q], F[Q]; static const char *const TX[3] = { NULL, "x", "y" };
static int restr(struct disir_restriction *r, struct disir_documentation *d)
{
  r->re_introduced = vt_nd_ver(); r->re_deprecated = vt_nd_ver(); r->re_type = nd_int(); r->re_value_numeric = nd_double(); ASSUME(r->re_value_numeric == r->re_value_numeric); r->re_value_min = nd_double(); r->re_value_max = nd_double(); ASSUME(r->re_value_min == r->re_value_min && r->re_value_max == r->re_value_max);
  int t = nd_int(); ASSUME(t >= 0 && t < 3); r->re_value_string = t == 0 ? NULL : t == 1 ? (char *)"x" : (char *)"y"; _Bool has = nd_bool(); d->next = NULL; d->prev = d; d->dd_introduced = vt_nd_ver(); d->dd_value.dv_integer = nd_i64(); r->re_documentation_queue = has ? d : NULL; return t + 3 * has;
}
//@unit name=restrictions harness=h_restrictions statics=compare_restriction_queue,compare_documentation_queues model=dx_diff_report_add,dx_value_compare,dx_value_stringify,dx_value_get_string,dx_context_name,dc_context_type_string,dc_restriction_enum_string,dc_version_string sources=compare.c,context_util.c,util.c kind=bounded bound=queues_of_up_to_3
void h_restrictions(void)
{
  lengths(); _Bool same = na == nb;
  for (int i = 0; i < Q; i++) { int a = restr(&E[i], &C[i]), b = restr(&F[i], &D[i]);
    if (i < na && i < nb && (a != b || !SAMEV(E[i].re_introduced, F[i].re_introduced) || !SAMEV(E[i].re_deprecated, F[i].re_deprecated) || E[i].re_type != F[i].re_type || E[i].re_value_numeric != F[i].re_value_numeric || E[i].re_value_min != F[i].re_value_min || E[i].re_value_max != F[i].re_value_max
      || (a > 2 && (!SAMEV(C[i].dd_introduced, D[i].dd_introduced) || C[i].dd_value.dv_integer != D[i].dd_value.dv_integer)))) same = 0; }
  LINK(E, na) LINK(F, nb)
  enum disir_status st = compare_restriction_queue(na ? E : NULL, nb ? F : NULL, &REP);
  CHECK(st == DISIR_STATUS_OK && (added == 0) == same, "a difference is reported exactly when the restrictions differ in number, versions, type, value or documentation"); REACH("restrictions");
}
/* ---- two contexts: what is compared for each type ---- */
static _Bool ddiff, fdiff, rdiff, ediff; static enum disir_status DST, FST, RST, EST; static int dcalls, fcalls, rcalls, ecalls; static struct disir_documentation *ld, *rd; static struct disir_default *lf, *rf; static struct disir_restriction *lr, *rr; static struct disir_context *LC, *RCX;
#ifdef M_compare_default_queues
enum disir_status compare_default_queues(struct disir_default *l, struct disir_default *r, struct disir_diff_report *p) { CHECK(l == lf && r == rf && p == &REP, "the defaults of both"); fcalls++; if (FST != DISIR_STATUS_OK) return FST; added += fdiff; return DISIR_STATUS_OK; }
enum disir_status compare_documentation_queues(struct disir_documentation *l, struct disir_documentation *r, struct disir_diff_report *p) { CHECK(l == ld && r == rd && p == &REP, "the documentation of both"); dcalls++; if (DST != DISIR_STATUS_OK) return DST; added += ddiff; return DISIR_STATUS_OK; }
enum disir_status compare_restriction_queue(struct disir_restriction *l, struct disir_restriction *r, struct disir_diff_report *p) { CHECK(l == lr && r == rr && p == &REP, "the restrictions of both"); rcalls++; if (RST != DISIR_STATUS_OK) return RST; added += rdiff; return DISIR_STATUS_OK; }
#endif
#if defined M_compare_all_elements
enum disir_status compare_all_elements(struct disir_context *l, struct disir_context *r, struct disir_diff_report *p) { CHECK(l == LC && r == RCX && p == &REP, "the elements of both"); ecalls++; if (EST != DISIR_STATUS_OK) return EST; added += ediff; return DISIR_STATUS_OK; }
#endif
static enum disir_status any_st(void) { return nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_INVALID_CONTEXT; }
//@unit name=contexts harness=h_contexts statics=diff_compare_contexts_with_report,compare_default_queues,compare_documentation_queues,compare_restriction_queue,compare_all_elements model=dx_diff_report_add,dx_value_compare,dx_value_stringify,dx_value_get_string,dx_context_name,dc_context_type_string,dc_restriction_enum_string,compare_default_queues,compare_documentation_queues,compare_restriction_queue,compare_all_elements kind=proved
static struct disir_context X, Y, XR, YR; static struct disir_keyval XK, YK; static struct disir_section XS, YS; static struct disir_mold XM, YM; static struct disir_config XC, YC; static struct disir_documentation d1, d2; static struct disir_default f1, f2; static struct disir_restriction r1, r2; static struct disir_default def1, def2;
void h_contexts(void)
{
  int t = nd_int(), u = nd_int(), tr = nd_int(), ur = nd_int(); ASSUME(t >= DISIR_CONTEXT_CONFIG && t < DISIR_CONTEXT_UNKNOWN && u >= DISIR_CONTEXT_CONFIG && u < DISIR_CONTEXT_UNKNOWN);
  ASSUME((tr == DISIR_CONTEXT_CONFIG || tr == DISIR_CONTEXT_MOLD) && (ur == DISIR_CONTEXT_CONFIG || ur == DISIR_CONTEXT_MOLD));
  _Bool xroot = nd_bool(), yroot = nd_bool(); /* a top level context is its own root */
  ASSUME(xroot == (t == DISIR_CONTEXT_CONFIG || t == DISIR_CONTEXT_MOLD) && yroot == (u == DISIR_CONTEXT_CONFIG || u == DISIR_CONTEXT_MOLD)); if (xroot) tr = t; if (yroot) ur = u;
  LC = &X; RCX = &Y; vt_ctx(&XR, tr, NULL, &XR); vt_ctx(&YR, ur, NULL, &YR); vt_ctx(&X, t, NULL, xroot ? &X : &XR); vt_ctx(&Y, u, NULL, yroot ? &Y : &YR);
  ld = nd_bool() ? &d1 : NULL; rd = nd_bool() ? &d2 : NULL; lf = nd_bool() ? &f1 : NULL; rf = nd_bool() ? &f2 : NULL; lr = nd_bool() ? &r1 : NULL; rr = nd_bool() ? &r2 : NULL;
  switch (t) { case DISIR_CONTEXT_KEYVAL: X.cx_keyval = &XK; break; case DISIR_CONTEXT_SECTION: X.cx_section = &XS; break; case DISIR_CONTEXT_MOLD: X.cx_mold = &XM; break; case DISIR_CONTEXT_CONFIG: X.cx_config = &XC; break; default: X.cx_default = &def1; }
  switch (u) { case DISIR_CONTEXT_KEYVAL: Y.cx_keyval = &YK; break; case DISIR_CONTEXT_SECTION: Y.cx_section = &YS; break; case DISIR_CONTEXT_MOLD: Y.cx_mold = &YM; break; case DISIR_CONTEXT_CONFIG: Y.cx_config = &YC; break; default: Y.cx_default = &def2; }
  XK.kv_documentation_queue = XS.se_documentation_queue = XM.mo_documentation_queue = ld; YK.kv_documentation_queue = YS.se_documentation_queue = YM.mo_documentation_queue = rd;
  XK.kv_default_queue = lf; YK.kv_default_queue = rf; XK.kv_restrictions_queue = XS.se_restrictions_queue = lr; YK.kv_restrictions_queue = YS.se_restrictions_queue = rr;
  XK.kv_value.dv_type = vt_nd_type(); YK.kv_value.dv_type = vt_nd_type(); XK.kv_value.dv_integer = nd_i64(); YK.kv_value.dv_integer = nd_i64(); def1.de_value.dv_type = def2.de_value.dv_type = DISIR_VALUE_TYPE_INTEGER;
  ddiff = nd_bool(); fdiff = nd_bool(); rdiff = nd_bool(); ediff = nd_bool(); DST = any_st(); FST = any_st(); RST = any_st(); EST = any_st(); added = dcalls = fcalls = rcalls = ecalls = 0;
  enum disir_status st = diff_compare_contexts_with_report(&X, &Y, &REP);
  _Bool kv = t == DISIR_CONTEXT_KEYVAL, sec = t == DISIR_CONTEXT_SECTION, mo = tr == DISIR_CONTEXT_MOLD, md = t == DISIR_CONTEXT_MOLD;
  if (tr != ur || t != u || (kv && XK.kv_value.dv_type != YK.kv_value.dv_type)) { CHECK(st == DISIR_STATUS_OK && added > 0, "different types differ"); REACH("types"); return; }
  if (!kv && !sec && !md && t != DISIR_CONTEXT_CONFIG) { CHECK(st == DISIR_STATUS_NOT_SUPPORTED, "other contexts are not compared"); return; }
  _Bool D_ = md || (mo && (kv || sec)), F_ = mo && kv, R_ = mo && (kv || sec), E_ = !kv;
  if ((D_ && DST != DISIR_STATUS_OK) || (F_ && FST != DISIR_STATUS_OK) || (R_ && RST != DISIR_STATUS_OK) || (E_ && EST != DISIR_STATUS_OK)) { CHECK(st != DISIR_STATUS_OK && (st == DST || st == FST || st == RST || st == EST), "a failing part fails the comparison"); REACH("fails"); return; }
  CHECK(st == DISIR_STATUS_OK, "the comparison is made");
  _Bool differ = (kv && XK.kv_value.dv_integer != YK.kv_value.dv_integer) || (D_ && ddiff) || (F_ && fdiff) || (R_ && rdiff) || (E_ && ediff);
  CHECK((added > 0) == differ, "a difference is reported exactly when the value, the elements, or in a mold the documentation, defaults or restrictions differ"); REACH("compared");
}
/* ---- the entries of one name: pairwise in order ---- */
static struct disir_context L[Q], Rr[Q]; static int li, ri, lref, rref, cols, asked[2]; static _Bool dif[Q]; static enum disir_status FL, FR, NL, NR, CST; static int nl_at, nr_at, c_at, pairs; static char CB[2]; static const char *NM = "n";
#ifdef M_dc_find_elements
enum disir_status dc_find_elements(struct disir_context *c, const char *n, struct disir_collection **o)
{ CHECK((c == &X || c == &Y) && n == NM, "the entries of the name"); int k = c == &Y; enum disir_status s = k ? FR : FL; if (s == DISIR_STATUS_OK) { cols++; *o = (void *)&CB[k]; } return s; }
enum disir_status dc_collection_finished(struct disir_collection **c) { cols--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_collection_next(struct disir_collection *c, struct disir_context **o)
{
  *o = NULL; if ((void *)c == (void *)&CB[0]) { if (NL != DISIR_STATUS_OK && li == nl_at) return NL; if (li >= na) return DISIR_STATUS_EXHAUSTED; *o = &L[li++]; lref++; return DISIR_STATUS_OK; }
  CHECK((void *)c == (void *)&CB[1], "a collection"); if (NR != DISIR_STATUS_OK && ri == nr_at) return NR; if (ri >= nb) return DISIR_STATUS_EXHAUSTED; *o = &Rr[ri++]; rref++; return DISIR_STATUS_OK;
}
enum disir_status dc_putcontext(struct disir_context **c) { for (int i = 0; i < Q; i++) { if (*c == &L[i]) lref--; if (*c == &Rr[i]) rref--; } if (*c == NULL) return DISIR_STATUS_INVALID_ARGUMENT; *c = NULL; return DISIR_STATUS_OK; }
#endif
#if defined M_diff_compare_contexts_with_report && !defined T_TOP
enum disir_status diff_compare_contexts_with_report(struct disir_context *l, struct disir_context *r, struct disir_diff_report *p)
{ CHECK(p == &REP, "the report"); CHECK(pairs < Q && l == &L[pairs] && r == &Rr[pairs], "entries are compared in order, each with its counterpart"); ASSUME(pairs < Q); if (CST != DISIR_STATUS_OK && c_at == pairs) return CST; added += dif[pairs]; pairs++; return DISIR_STATUS_OK; }
#endif
//@unit name=same_name harness=h_name statics=compare_all_in_name,diff_compare_contexts_with_report model=dx_diff_report_add,dx_value_compare,dx_value_stringify,dx_value_get_string,dx_context_name,dc_context_type_string,dc_restriction_enum_string,dc_find_elements,dc_collection_finished,dc_collection_next,dc_putcontext,diff_compare_contexts_with_report kind=bounded bound=up_to_3_entries_of_a_name
void h_name(void)
{
  lengths(); li = ri = lref = rref = cols = pairs = 0; FL = nd_bool() ? DISIR_STATUS_OK : DISIR_STATUS_NO_MEMORY; FR = nd_bool() ? DISIR_STATUS_NOT_EXIST : any_st(); NL = any_st(); NR = any_st(); CST = any_st(); nl_at = nd_int(); nr_at = nd_int(); c_at = nd_int(); _Bool any = 0;
  for (int i = 0; i < Q; i++) { dif[i] = nd_bool(); if (i < na && i < nb && dif[i]) any = 1; }
  enum disir_status st = compare_all_in_name(&X, &Y, NM, &REP);
  CHECK(lref == 0 && rref == 0 && cols == 0, "no reference or collection is kept");
  int m = na < nb ? na : nb;
  _Bool bad = FL != DISIR_STATUS_OK || (FR != DISIR_STATUS_OK && FR != DISIR_STATUS_NOT_EXIST) || (FR == DISIR_STATUS_OK && ((NL != DISIR_STATUS_OK && nl_at >= 0 && nl_at <= na) || (NR != DISIR_STATUS_OK && nr_at >= 0 && nr_at <= nb) || (CST != DISIR_STATUS_OK && c_at >= 0 && c_at < m)));
  if (bad) { CHECK(st != DISIR_STATUS_OK, "what fails is reported"); REACH("fails"); return; }
  CHECK(st == DISIR_STATUS_OK && (added > 0) == (FR == DISIR_STATUS_NOT_EXIST || na != nb || any), "a difference is reported exactly when the number of entries of the name or one of them differs"); REACH("name");
}
/* ---- all elements: every name of either side ---- */
static int nml[Q], nmr[Q]; static _Bool seen[Q], ndif[Q], mapfail; static int maps; static enum disir_status GL, GR, GN; static int gn_at, gn; static const char *const NAMES[Q] = { "a", "b", "c" }; static int ncalls[Q];
#ifdef M_multimap_create
static int nmi(const void *k) { for (int i = 0; i < Q; i++) if (k == NAMES[i]) return i; CHECK(0, "a name of an element"); return 0; }
struct multimap *multimap_create(int (*c)(const void *, const void *), unsigned long (*h)(const void *)) { if (mapfail) return NULL; maps++; return (void *)&seen; }
int multimap_contains_key(struct multimap *m, const void *k) { return seen[nmi(k)]; }
int multimap_push_value(struct multimap *m, const void *k, void *v) { seen[nmi(k)] = 1; return 1; }
void multimap_destroy(struct multimap *m, void (*a)(void *), void (*b)(void *)) { maps--; }
enum disir_status dc_get_elements(struct disir_context *c, struct disir_collection **o) { CHECK(c == &X || c == &Y, "the elements of both"); int k = c == &Y; enum disir_status s = k ? GR : GL; if (s == DISIR_STATUS_OK) { cols++; *o = (void *)&CB[k]; } return s; }
enum disir_status dc_get_name(struct disir_context *c, const char **o, int32_t *s) { if (GN != DISIR_STATUS_OK && gn++ == gn_at) return GN; for (int i = 0; i < Q; i++) { if (c == &L[i]) *o = NAMES[nml[i]]; if (c == &Rr[i]) *o = NAMES[nmr[i]]; } return DISIR_STATUS_OK; }
#endif
#ifdef M_compare_all_in_name
enum disir_status compare_all_in_name(struct disir_context *l, struct disir_context *r, const char *n, struct disir_diff_report *p)
{ CHECK(l == &X && r == &Y && p == &REP, "the entries of a name of both"); int k = nmi(n); if (CST != DISIR_STATUS_OK && c_at == k) return CST; ncalls[k]++; added += ndif[k]; return DISIR_STATUS_OK; }
#endif
//@unit name=all_elements harness=h_elements statics=compare_all_elements,compare_all_in_name,diff_compare_contexts_with_report model=dx_diff_report_add,dx_value_compare,dx_value_stringify,dx_value_get_string,dx_context_name,dc_context_type_string,dc_restriction_enum_string,dc_find_elements,dc_collection_finished,dc_collection_next,dc_putcontext,diff_compare_contexts_with_report,multimap_create,multimap_contains_key,multimap_push_value,multimap_destroy,dc_get_elements,dc_get_name,compare_all_in_name kind=bounded bound=up_to_3_elements_of_up_to_3_names_on_each_side
void h_elements(void)
{
  lengths(); li = ri = lref = rref = cols = maps = gn = 0; GL = any_st(); GR = any_st(); GN = any_st(); gn_at = nd_int(); NL = any_st(); NR = any_st(); CST = any_st(); nl_at = nd_int(); nr_at = nd_int(); c_at = nd_int(); mapfail = nd_bool();
  _Bool inl[Q] = { 0 }, inr[Q] = { 0 }, any = 0, cbad = 0;
  for (int i = 0; i < Q; i++) { nml[i] = nd_int(); nmr[i] = nd_int(); ASSUME(nml[i] >= 0 && nml[i] < Q && nmr[i] >= 0 && nmr[i] < Q); seen[i] = 0; ncalls[i] = 0; ndif[i] = nd_bool(); }
  for (int i = 0; i < Q; i++) { if (i < na) inl[nml[i]] = 1; if (i < nb) inr[nmr[i]] = 1; }
  for (int k = 0; k < Q; k++) { if (inl[k] && !inr[k]) ndif[k] = 1; if (inl[k] && ndif[k]) any = 1; if (inr[k] && !inl[k]) any = 1; if (inl[k] && CST != DISIR_STATUS_OK && c_at == k) cbad = 1; }
  enum disir_status st = compare_all_elements(&X, &Y, &REP);
  CHECK(lref == 0 && rref == 0 && cols == 0 && maps == 0, "no reference, collection or map is kept");
  if (mapfail) { CHECK(st == DISIR_STATUS_NO_MEMORY, "no memory"); return; }
  _Bool bad = GL != DISIR_STATUS_OK || GR != DISIR_STATUS_OK || (NL != DISIR_STATUS_OK && nl_at >= 0 && nl_at <= na) || (NR != DISIR_STATUS_OK && nr_at >= 0 && nr_at <= nb) || (GN != DISIR_STATUS_OK && gn_at >= 0 && gn_at < na + nb) || cbad;
  if (bad) { CHECK(st != DISIR_STATUS_OK, "what fails is reported"); REACH("fails"); return; }
  for (int k = 0; k < Q; k++) CHECK(!inl[k] || ncalls[k] >= 1, "every name is compared");
  CHECK(st == DISIR_STATUS_OK && (added > 0) == any, "a difference is reported exactly when a name is on one side only or its entries differ"); REACH("elements");
}
/* ---- dc_compare ---- */
static enum disir_status TST; static int TD, rl; static struct disir_context *gl, *gr;
#ifdef T_TOP
enum disir_status diff_compare_contexts_with_report(struct disir_context *l, struct disir_context *r, struct disir_diff_report *p) { CHECK(l == gl && r == gr, "both contexts are compared"); for (int i = 0; i < 2; i++) if (i < TD) { p->dr_diff_string[p->dr_entries] = vt_malloc(2); ASSUME(p->dr_diff_string[p->dr_entries] != NULL); p->dr_entries++; } return TST; }
#endif
//@unit name=compare harness=h_compare statics=diff_compare_contexts_with_report model=diff_compare_contexts_with_report defs=T_TOP=1 kind=proved sources=compare.c
void h_compare(void)
{
  TST = any_st(); TD = nd_int(); ASSUME(TD >= 0 && TD <= 2); _Bool n1 = nd_bool(), n2 = nd_bool(), nr = nd_bool(); gl = &X; gr = &Y; struct disir_diff_report *rep = &REP; vt_alloc_fail_at = nd_bool() ? 0 : nd_bool() ? 1 : 2; _Bool oom = vt_alloc_fail_at != 0; vt_alloc_live = 0;
  enum disir_status st = dc_compare(n1 ? NULL : &X, n2 ? NULL : &Y, nr ? NULL : &rep);
  if (n1 || n2) { CHECK(st == DISIR_STATUS_INVALID_ARGUMENT && rep == &REP, "NULL is refused"); return; }
  if (oom) { CHECK(st == DISIR_STATUS_NO_MEMORY && vt_alloc_live == 0, "no memory is reported, nothing is kept"); REACH("oom"); return; }
  CHECK(st == (TST != DISIR_STATUS_OK ? TST : TD > 0 ? DISIR_STATUS_CONFLICT : DISIR_STATUS_OK), "OK exactly when no difference was found, conflict when there is one");
  if (nr) CHECK(vt_alloc_live == 0, "nothing is kept without a report"); else if (TD == 0) CHECK(rep == NULL && vt_alloc_live == 0, "no report when equal"); else { CHECK(rep != NULL && rep->dr_entries == TD, "the report lists the differences"); }
  REACH("compare");
}
/* ---- the report grows ---- */
void dx_diff_report_add(struct disir_diff_report *report, const char *fmt, ...);
//@unit name=report harness=h_report statics=dx_diff_report_add model=compare_default_queues defs=T_REP=1 kind=bounded bound=a_report_of_2_growing_to_4,_texts_of_0,_127,_128_and_139_characters sources=compare.c unwindset=h_report.0:145,vt_put_str.0:145
void h_report(void)
{
  static char msg[140]; for (int i = 0; i < 139; i++) msg[i] = 'x'; int n = nd_int(); ASSUME(n >= 0 && n <= 3);
  struct disir_diff_report r; r.dr_internal_allocated = 2; r.dr_entries = 0; r.dr_diff_string = vt_calloc(2, sizeof(char *)); ASSUME(r.dr_diff_string != NULL);
  dx_diff_report_add(&r, "%s", "a"); dx_diff_report_add(&r, "%s", "b");
  switch (n) { case 0: n = 0; break; case 1: n = 127; break; case 2: n = 128; break; default: n = 139; } 
  if (n == 0) { msg[0] = 0; dx_diff_report_add(&r, "%s", msg); } else if (n == 127) { msg[127] = 0; dx_diff_report_add(&r, "%s", msg); } else if (n == 128) { msg[128] = 0; dx_diff_report_add(&r, "%s", msg); } else dx_diff_report_add(&r, "%s", msg);
  CHECK(r.dr_entries == 3, "every difference is listed"); CHECK(r.dr_diff_string[0][0] == 'a' && r.dr_diff_string[1][0] == 'b' && r.dr_diff_string[2][n] == 0 && (n == 0 || (r.dr_diff_string[2][0] == 'x' && r.dr_diff_string[2][n - 1] == 'x')), "with its whole text"); REACH("report");
}
