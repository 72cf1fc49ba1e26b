//@file prop=P14 unwind=6 bunwind=6 sources=validate.c,context_util.c keep=1 kind=proved
#include "model.h"
#include "collection.h"
#include "element_storage.h"
#include "log_stub.h"
#define Q 3
static struct disir_context P, E[Q], PC, EQ; static struct disir_section PS; static struct disir_keyval KV; static int n, it, refs, cols, pc; static struct disir_version V;
static enum disir_status any_invalid(void) { int k = nd_int(); ASSUME(k >= 0 && k < 7); return k == 0 ? DISIR_STATUS_RESTRICTION_VIOLATED : k == 1 ? DISIR_STATUS_WRONG_VALUE_TYPE : k == 2 ? DISIR_STATUS_MOLD_MISSING : k == 3 ? DISIR_STATUS_CONFLICTING_SEMVER : k == 4 ? DISIR_STATUS_DEFAULT_MISSING : k == 5 ? DISIR_STATUS_ELEMENTS_INVALID : DISIR_STATUS_FATAL_CONTEXT; }
static _Bool is_invalid(enum disir_status s) { return s == DISIR_STATUS_RESTRICTION_VIOLATED || s == DISIR_STATUS_WRONG_VALUE_TYPE || s == DISIR_STATUS_MOLD_MISSING || s == DISIR_STATUS_CONFLICTING_SEMVER || s == DISIR_STATUS_DEFAULT_MISSING || s == DISIR_STATUS_FATAL_CONTEXT; }
enum disir_status validate_inclusive_restrictions(struct disir_context *context); enum disir_status validate_exclusive_restrictions(struct disir_context *context);
enum disir_status validate_finalized_parent_constructing_child_violating_max_restriction(struct disir_context *child); enum disir_status validate_children(struct disir_context *context);
enum disir_status validate_config_keyval(struct disir_context *keyval); enum disir_status validate_config_section(struct disir_context *section); enum disir_status validate_restriction(struct disir_context *context);
enum disir_status validate_name(struct disir_context *context); enum disir_status validate_context_validity(struct disir_context *context);
static struct disir_context *src; static enum disir_status GS, NS, FS; static int ns_at, cnt[Q], mn[Q], mx[Q], fs_at; static char CB, CB2[Q]; static const char *const NM[Q] = { "a", "b", "c" };
static struct disir_context *pc_ctx(void) { return pc ? &P : &w.cfgc; }
static _Bool ver_ok(struct disir_version *v) { return v == &w.cfg.cf_version; }
static char name[9]; static enum disir_status NMS; static void name_setup(void) { nd_str(name, 8); }
static int slot(struct disir_context *c) { for (int i = 0; i < Q; i++) if (c == &E[i]) return i; return Q; }
#if defined M_dc_get_elements && !defined T_FIND
enum disir_status dc_get_elements(struct disir_context *c, struct disir_collection **o) { CHECK(c == src, "the elements of the context"); if (GS != DISIR_STATUS_OK) return GS; cols++; *o = (void *)&CB; return DISIR_STATUS_OK; }
enum disir_status dc_collection_next(struct disir_collection *c, struct disir_context **o) { CHECK((void *)c == (void *)&CB, "the collection"); *o = NULL; if (NS != DISIR_STATUS_OK && it == ns_at) return NS; if (it >= n) return DISIR_STATUS_EXHAUSTED; refs++; *o = &E[it++]; return DISIR_STATUS_OK; }
enum disir_status dc_collection_finished(struct disir_collection **c) { cols--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_putcontext(struct disir_context **c) { CHECK(slot(*c) < Q, "an element"); refs--; *c = NULL; return DISIR_STATUS_OK; }
#endif
#ifdef M_dc_get_name
enum disir_status dc_get_name(struct disir_context *c, const char **o, int32_t *s) {
#ifdef T_NAME
  CHECK(c == &P, "the name of the element"); if (NMS == DISIR_STATUS_OK) *o = name; return NMS;
#endif
  int i = slot(c); CHECK(i < Q, "the name of an element"); ASSUME(i < Q); *o = NM[i]; return DISIR_STATUS_OK;
}
#endif
#if defined M_dc_find_elements && !defined T_FULL
enum disir_status dc_find_elements(struct disir_context *c, const char *nm, struct disir_collection **o)
{ CHECK(c == pc_ctx(), "in the context itself"); int k = nm == NM[0] ? 0 : nm == NM[1] ? 1 : 2; CHECK(nm == NM[k], "the elements of the name"); if (FS != DISIR_STATUS_OK && k == fs_at) return FS; if (cnt[k] == 0) return DISIR_STATUS_NOT_EXIST; cols++; *o = (void *)&CB2[k]; return DISIR_STATUS_OK; }
int32_t dc_collection_size(struct disir_collection *c) { int k = (void *)c == (void *)&CB2[0] ? 0 : (void *)c == (void *)&CB2[1] ? 1 : 2; return cnt[k]; }
enum disir_status dx_restriction_entries_value(struct disir_context *c, enum disir_restriction_type t, struct disir_version *v, int *o)
{ int i = slot(c); CHECK(i < Q && ver_ok(v), "the limit of the element at the version of the configuration"); ASSUME(i < Q); *o = t == DISIR_RESTRICTION_INC_ENTRY_MIN ? mn[i] : mx[i]; return DISIR_STATUS_OK; }
#endif
static enum disir_status any_err(void) { return nd_bool() ? DISIR_STATUS_OK : DISIR_STATUS_NO_MEMORY; }
static void setup(void)
{
  vt_world(); n = nd_int(); ASSUME(n >= 0 && n <= Q); it = refs = cols = 0; GS = any_err(); NS = any_err(); FS = any_err(); ns_at = nd_int(); fs_at = nd_int();
  for (int i = 0; i < Q; i++) { cnt[i] = nd_int(); mn[i] = nd_int(); mx[i] = nd_int(); ASSUME(cnt[i] >= 0 && mn[i] >= 0 && mx[i] >= -1); vt_ctx(&E[i], DISIR_CONTEXT_KEYVAL, &P, &w.cfgc); }
}
//@unit name=element_counts harness=h_counts statics=validate_inclusive_restrictions model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dc_get_name,dc_find_elements,dc_collection_size,dx_restriction_entries_value,dc_version_string kind=bounded bound=up_to_3_elements_in_the_mold
void h_counts(void)
{
  setup(); _Bool sec = nd_bool(); struct disir_context *c = sec ? &P : &w.cfgc; if (sec) { vt_ctx(&P, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); P.cx_section = &PS; PS.se_mold_equiv = &EQ; src = &EQ; } else src = &w.moldc; pc = sec;
  enum disir_status st = validate_inclusive_restrictions(c);
  CHECK(refs == 0 && cols == 0, "no reference or collection is kept"); _Bool bad = 0, err = GS != DISIR_STATUS_OK || (NS != DISIR_STATUS_OK && ns_at >= 0 && ns_at <= n);
  for (int i = 0; i < Q; i++) if (i < n) { if (cnt[i] < mn[i] || (mx[i] == -1 && cnt[i] > 0) || (mx[i] > 0 && cnt[i] > mx[i])) bad = 1; if (FS != DISIR_STATUS_OK && fs_at == i) err = 1; }
  if (err) { CHECK(st == DISIR_STATUS_NO_MEMORY, "what fails is reported"); REACH("fails"); return; }
  CHECK(st == (bad ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_OK), "violated exactly when some element of the mold is there fewer times than its minimum, more than its maximum, or not allowed at the version"); REACH("counts");
}
/* children */
static enum disir_status CV[Q]; static int validated[Q];
#if defined M_dx_validate_context && !defined T_RULES && !defined T_FIN && !defined T_TOPF
enum disir_status dx_validate_context(struct disir_context *c) { int i = slot(c); CHECK(i < Q, "a child is validated"); ASSUME(i < Q); validated[i]++; return CV[i]; }
#endif
//@unit name=children harness=h_children statics=validate_children model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_putcontext,dx_validate_context kind=bounded bound=up_to_3_children
void h_children(void)
{
  setup(); src = &P; vt_ctx(&P, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); _Bool bad = 0, fatal = 0;
  for (int i = 0; i < Q; i++) { CV[i] = nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_INVALID_CONTEXT : nd_bool() ? DISIR_STATUS_NO_MEMORY : any_invalid(); validated[i] = 0; if (i < n && CV[i] != DISIR_STATUS_OK) { bad = 1; if (CV[i] == DISIR_STATUS_NO_MEMORY || CV[i] == DISIR_STATUS_FATAL_CONTEXT) fatal = 1; } }
  enum disir_status st = validate_children(&P);
  CHECK(refs == 0 && cols == 0, "no reference or collection is kept");
  if (GS != DISIR_STATUS_OK || (NS != DISIR_STATUS_OK && ns_at >= 0 && ns_at <= n) || fatal) { CHECK(st != DISIR_STATUS_OK, "what fails is reported"); REACH("fails"); return; }
  for (int i = 0; i < Q; i++) CHECK(validated[i] == (i < n), "every child is validated, once");
  CHECK(st == (bad ? DISIR_STATUS_ELEMENTS_INVALID : DISIR_STATUS_OK), "invalid exactly when some child is"); REACH("children");
}
//@unit name=names harness=h_names statics=validate_name model=dc_get_name defs=T_NAME=1 unwind=10 bunwind=10 kind=bounded bound=names_of_up_to_8_characters
void h_names(void)
{
  setup(); vt_ctx(&P, DISIR_CONTEXT_KEYVAL, &w.cfgc, &w.cfgc); name_setup(); NMS = any_err(); _Bool ok = 1; for (int i = 0; i < 8 && name[i]; i++) if (!((name[i] >= 'a' && name[i] <= 'z') || (name[i] >= '0' && name[i] <= '9') || name[i] == '_')) ok = 0;
  enum disir_status st = validate_name(&P); CHECK(st == (NMS != DISIR_STATUS_OK ? NMS : ok ? DISIR_STATUS_OK : DISIR_STATUS_RESTRICTION_VIOLATED), "a name is made of a to z, 0 to 9 and _ only"); REACH("name");
}
/* ---- one element of a configuration: known to the mold, of its type, restrictions kept, parent not full ---- */
static enum disir_status MXS, EXS, INS; static int mxc, exc, inc;
#ifdef M_validate_exclusive_restrictions
enum disir_status validate_finalized_parent_constructing_child_violating_max_restriction(struct disir_context *c) { CHECK(c == &P, "the element"); mxc++; return MXS; }
enum disir_status validate_exclusive_restrictions(struct disir_context *c) { CHECK(c == &P, "the keyval"); exc++; return EXS; }
enum disir_status validate_inclusive_restrictions(struct disir_context *c) { CHECK(c == &P, "the section"); inc++; return INS; }
#endif
//@unit name=config_element harness=h_element statics=validate_config_keyval,validate_config_section,validate_exclusive_restrictions,validate_inclusive_restrictions,validate_finalized_parent_constructing_child_violating_max_restriction model=validate_exclusive_restrictions,validate_inclusive_restrictions,validate_finalized_parent_constructing_child_violating_max_restriction
void h_element(void)
{
  setup(); _Bool sec = nd_bool(), has = nd_bool(); vt_ctx(&P, sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &w.cfgc, &w.cfgc); if (sec) P.cx_section = &PS; else P.cx_keyval = &KV; KV.kv_value.dv_type = vt_nd_type();
  MXS = nd_bool() ? DISIR_STATUS_OK : DISIR_STATUS_RESTRICTION_VIOLATED; EXS = nd_bool() ? DISIR_STATUS_OK : DISIR_STATUS_RESTRICTION_VIOLATED; INS = nd_bool() ? DISIR_STATUS_OK : DISIR_STATUS_RESTRICTION_VIOLATED;
  _Bool eqsec = nd_bool(); static struct disir_section ES; static struct disir_keyval EK; vt_ctx(&EQ, eqsec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &w.moldc, &w.moldc); if (eqsec) EQ.cx_section = &ES; else EQ.cx_keyval = &EK; EK.kv_value.dv_type = vt_nd_type();
  PS.se_mold_equiv = KV.kv_mold_equiv = has ? &EQ : NULL;
  enum disir_status st = sec ? validate_config_section(&P) : validate_config_keyval(&P);
  int t = sec ? DISIR_VALUE_TYPE_UNKNOWN : (int)KV.kv_value.dv_type, et = eqsec ? DISIR_VALUE_TYPE_UNKNOWN : (int)EK.kv_value.dv_type;
  _Bool ok = has && MXS == DISIR_STATUS_OK && t == et && (sec ? INS : EXS) == DISIR_STATUS_OK;
  CHECK((st == DISIR_STATUS_OK) == ok, "an element is valid exactly when the mold knows it, its type is the mold's, and its restrictions are kept"); CHECK(st == DISIR_STATUS_OK || is_invalid(st), "and otherwise refused as invalid"); CHECK(!(!has) || st == DISIR_STATUS_MOLD_MISSING, "an element the mold does not know is reported as such"); REACH("element");
}
/* ---- values: each type checked as its own ---- */
static int64_t xi; static double xd; static const char *xs; static int xcalls;
#ifdef M_dx_restriction_exclusive_value_check
enum disir_status dx_restriction_exclusive_value_check(struct disir_context *c, int64_t i, double d, const char *s) { CHECK(c == &P, "the keyval"); xcalls++; xi = i; xd = d; xs = s; return EXS; }
#endif
//@unit name=value_restrictions harness=h_values statics=validate_exclusive_restrictions model=dx_restriction_exclusive_value_check
void h_values(void)
{
  setup(); vt_ctx(&P, DISIR_CONTEXT_KEYVAL, &w.cfgc, &w.cfgc); P.cx_keyval = &KV; KV.kv_value.dv_type = vt_nd_type(); int t = KV.kv_value.dv_type; xcalls = 0; int64_t iv = nd_i64(); double dv = nd_double(); EXS = nd_bool() ? DISIR_STATUS_OK : DISIR_STATUS_RESTRICTION_VIOLATED; static char TX[] = "t"; KV.kv_value.dv_size = 1;
  if (t == DISIR_VALUE_TYPE_INTEGER) KV.kv_value.dv_integer = iv; else if (t == DISIR_VALUE_TYPE_FLOAT) KV.kv_value.dv_float = dv; else if (t == DISIR_VALUE_TYPE_BOOLEAN) KV.kv_value.dv_boolean = 1; else KV.kv_value.dv_string = TX;
  enum disir_status st = validate_exclusive_restrictions(&P);
  if (t == DISIR_VALUE_TYPE_INTEGER) CHECK(st == EXS && xcalls == 1 && xi == iv, "an integer is checked as it is");
  else if (t == DISIR_VALUE_TYPE_FLOAT) CHECK(st == EXS && xcalls == 1 && vt_deq(xd, dv), "a float is checked as it is");
  else if (t == DISIR_VALUE_TYPE_ENUM) CHECK(st == EXS && xcalls == 1 && xs == TX, "an enumeration is checked as it is");
  else CHECK(st == DISIR_STATUS_OK, "texts and booleans have no value restrictions");
  REACH("values");
}
/* ---- adding to a finished parent: its maximum ---- */
static int MAXV, CNTV; static _Bool found;
#ifdef T_FULL
enum disir_status dx_restriction_entries_value(struct disir_context *c, enum disir_restriction_type t, struct disir_version *v, int *o) { CHECK(c == &P && t == DISIR_RESTRICTION_INC_ENTRY_MAX, "the maximum of the element"); *o = MAXV; return DISIR_STATUS_OK; }
enum disir_status dc_find_elements(struct disir_context *c, const char *nm, struct disir_collection **o) { CHECK(c == &PC && nm == NM[0], "the elements of the name in the parent"); if (!found) return DISIR_STATUS_NOT_EXIST; cols++; *o = (void *)&CB; return DISIR_STATUS_OK; }
int32_t dc_collection_size(struct disir_collection *c) { return CNTV; }
enum disir_status dc_collection_finished(struct disir_collection **c) { cols--; *c = NULL; return DISIR_STATUS_OK; }
#endif
//@unit name=full_parent harness=h_full statics=validate_finalized_parent_constructing_child_violating_max_restriction model=dx_restriction_entries_value,dc_find_elements,dc_collection_size,dc_collection_finished defs=T_FULL=1
void h_full(void)
{
  setup(); _Bool sec = nd_bool(), fin = nd_bool(), pfin = nd_bool(); vt_ctx(&PC, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); vt_ctx(&P, sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &PC, &w.cfgc); if (sec) P.cx_section = &PS; else P.cx_keyval = &KV; PS.se_name.dv_string = KV.kv_name.dv_string = (char *)NM[0];
  P.CONTEXT_STATE_FINALIZED = fin; P.CONTEXT_STATE_CONSTRUCTING = !fin; PC.CONTEXT_STATE_FINALIZED = pfin; MAXV = nd_int(); CNTV = nd_int(); found = nd_bool(); ASSUME(CNTV > 0 && MAXV >= 0);
  enum disir_status st = validate_finalized_parent_constructing_child_violating_max_restriction(&P);
  CHECK(cols == 0, "no collection is kept"); CHECK((st == DISIR_STATUS_OK) == !(!fin && pfin && MAXV != 0 && MAXV <= (found ? CNTV : 0)), "an element is refused exactly when it is new and its finished parent already has the maximum of its name"); CHECK(st == DISIR_STATUS_OK || st == DISIR_STATUS_RESTRICTION_VIOLATED, "as a violated restriction"); REACH("full");
}
/* ---- an entry restriction: one of a kind for each version ---- */
static struct disir_restriction R[Q + 1], *rq; static struct disir_context RC[Q + 1];
#ifdef M_dx_restriction_get_queue
enum disir_status dx_restriction_get_queue(struct disir_context *c, struct disir_restriction ***q) { CHECK(c == &RC[Q], "the queue for the restriction"); if (GS != DISIR_STATUS_OK) return GS; *q = &rq; return DISIR_STATUS_OK; }
const char *dc_restriction_enum_string(enum disir_restriction_type t) { return "R"; }
#endif
//@unit name=restriction_rule harness=h_rule statics=validate_restriction model=dx_restriction_get_queue,dc_restriction_enum_string sources=validate.c,context_util.c,context_restriction.c,util.c kind=bounded bound=up_to_3_other_restrictions
void h_rule(void)
{
  setup(); _Bool in = nd_bool(), clash = 0; int t = nd_int(); ASSUME(t >= 0 && t <= DISIR_RESTRICTION_UNKNOWN); if (GS != DISIR_STATUS_OK) GS = DISIR_STATUS_WRONG_CONTEXT;
  for (int i = 0; i <= Q; i++) { vt_ctx(&RC[i], DISIR_CONTEXT_RESTRICTION, &E[0], &w.moldc); RC[i].cx_restriction = &R[i]; R[i].re_context = &RC[i]; R[i].re_introduced = vt_nd_ver(); R[i].re_type = i < Q ? nd_int() : t; ASSUME(R[i].re_type > 0); }
  R[Q].re_type = t;
  for (int i = 0; i < Q; i++) { R[i].next = i + 1 < n ? &R[i + 1] : in ? &R[Q] : NULL; if (i < n && R[i].re_type == t && vt_key(&R[i].re_introduced) == vt_key(&R[Q].re_introduced)) clash = 1; } R[Q].next = NULL; rq = n ? &R[0] : in ? &R[Q] : NULL;
  enum disir_status st = validate_restriction(&RC[Q]); _Bool none = t <= 0 || t >= DISIR_RESTRICTION_UNKNOWN, entry = t == DISIR_RESTRICTION_INC_ENTRY_MIN || t == DISIR_RESTRICTION_INC_ENTRY_MAX;
  if (none) CHECK(st == DISIR_STATUS_WRONG_VALUE_TYPE, "a restriction has a type"); else if (GS != DISIR_STATUS_OK) CHECK(st == GS, "its element can have it");
  else CHECK(st == (entry && clash ? DISIR_STATUS_CONFLICTING_SEMVER : DISIR_STATUS_OK), "no two minima, and no two maxima, are introduced with the same version"); REACH("rule");
}
/* ---- the rules of each type of context ---- */
static enum disir_status NAMS, CHS, KVS, SES, RES; static int chc, nmc, rvc; static struct disir_default D[Q]; static struct disir_context DC[Q]; static enum disir_status RV[Q], DV[Q]; static _Bool rval[Q], dval[Q];
#ifdef M_validate_children
enum disir_status validate_children(struct disir_context *c) { CHECK(c == &P, "its children"); chc++; return CHS; }
enum disir_status validate_name(struct disir_context *c) { CHECK(c == &P, "its name"); nmc++; return NAMS; }
enum disir_status validate_config_keyval(struct disir_context *c) { CHECK(c == &P, "the keyval"); return KVS; }
enum disir_status validate_config_section(struct disir_context *c) { CHECK(c == &P, "the section"); return SES; }
enum disir_status validate_restriction(struct disir_context *c) { CHECK(c == &P, "the restriction"); return RES; }
#ifndef M_validate_exclusive_restrictions
enum disir_status validate_inclusive_restrictions(struct disir_context *c) { CHECK(c == &P, "the configuration"); return INS; }
#endif
#endif
#ifdef T_RULES
enum disir_status dx_validate_context(struct disir_context *c) { for (int i = 0; i < Q; i++) { if (c == &RC[i]) { rval[i] = 1; return RV[i]; } if (c == &DC[i]) { dval[i] = 1; return DV[i]; } } CHECK(0, "a default or restriction of the element"); return DISIR_STATUS_OK; }
void dx_context_transfer_logwarn(struct disir_context *d, struct disir_context *s) { }
#endif
static enum disir_status okor(enum disir_status s) { return nd_bool() ? DISIR_STATUS_OK : s; }
//@unit name=rules harness=h_rules statics=validate_context_validity,validate_children,validate_name,validate_config_keyval,validate_config_section,validate_restriction,validate_inclusive_restrictions model=validate_children,validate_name,validate_config_keyval,validate_config_section,validate_restriction,validate_inclusive_restrictions,dx_validate_context,dx_context_transfer_logwarn,dc_version_string defs=T_RULES=1 sources=validate.c,context_util.c,util.c kind=bounded bound=up_to_3_defaults_and_restrictions
void h_rules(void)
{
  setup(); int t = nd_int(); ASSUME(t >= DISIR_CONTEXT_CONFIG && t < DISIR_CONTEXT_UNKNOWN && t != DISIR_CONTEXT_DOCUMENTATION); _Bool mo = nd_bool(); int m = nd_int(); ASSUME(m >= 0 && m <= Q);
  NAMS = okor(DISIR_STATUS_RESTRICTION_VIOLATED); CHS = nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_ELEMENTS_INVALID : DISIR_STATUS_NO_MEMORY; KVS = nd_bool() ? DISIR_STATUS_OK : any_invalid(); SES = nd_bool() ? DISIR_STATUS_OK : any_invalid(); ASSUME(KVS != DISIR_STATUS_ELEMENTS_INVALID && SES != DISIR_STATUS_ELEMENTS_INVALID); RES = nd_bool() ? DISIR_STATUS_OK : any_invalid(); INS = nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_NO_MEMORY;
  static struct disir_mold M; static struct disir_config C; static struct disir_restriction RR; if (t == DISIR_CONTEXT_MOLD) mo = 1; if (t == DISIR_CONTEXT_CONFIG) mo = 0; if (t == DISIR_CONTEXT_DEFAULT || t == DISIR_CONTEXT_RESTRICTION) mo = 1;
  _Bool top = t == DISIR_CONTEXT_MOLD || t == DISIR_CONTEXT_CONFIG; vt_ctx(&P, t, top ? NULL : t == DISIR_CONTEXT_DEFAULT ? &w.mkvc : mo ? &w.moldc : &w.cfgc, top ? &P : mo ? &w.moldc : &w.cfgc);
  switch (t) { case DISIR_CONTEXT_KEYVAL: P.cx_keyval = &KV; break; case DISIR_CONTEXT_SECTION: P.cx_section = &PS; break; case DISIR_CONTEXT_MOLD: P.cx_mold = &M; break; case DISIR_CONTEXT_CONFIG: P.cx_config = &C; break; case DISIR_CONTEXT_RESTRICTION: P.cx_restriction = &RR; break; default: P.cx_default = &D[0]; }
  _Bool rbad = 0, dbad = 0; int same = 0;
  for (int i = 0; i < Q; i++) { vt_ctx(&RC[i], DISIR_CONTEXT_RESTRICTION, &P, &w.moldc); R[i].re_context = &RC[i]; R[i].next = i + 1 < n ? &R[i + 1] : NULL; RV[i] = okor(DISIR_STATUS_CONFLICTING_SEMVER); rval[i] = 0; vt_ctx(&DC[i], DISIR_CONTEXT_DEFAULT, &P, &w.moldc); D[i].de_context = &DC[i]; D[i].next = i + 1 < m ? &D[i + 1 < Q ? i + 1 : 0] : NULL; D[i].de_introduced = vt_nd_ver(); DV[i] = okor(DISIR_STATUS_CONFLICTING_SEMVER); dval[i] = 0; if (i < n && RV[i] != DISIR_STATUS_OK) rbad = 1; if (i < m && DV[i] != DISIR_STATUS_OK) dbad = 1; if (i < m && vt_key(&D[i].de_introduced) == vt_key(&D[0].de_introduced)) same++; }
  int vt = nd_int(); ASSUME(vt >= 0 && vt <= DISIR_VALUE_TYPE_UNKNOWN); KV.kv_value.dv_type = vt; KV.kv_default_queue = m ? &D[0] : NULL; w.mkv.kv_default_queue = m ? &D[0] : NULL; KV.kv_restrictions_queue = PS.se_restrictions_queue = n ? &R[0] : NULL; if (t == DISIR_CONTEXT_DEFAULT) { ASSUME(m > 0); }
  enum disir_status st = validate_context_validity(&P); _Bool ok;
  switch (t) {
  case DISIR_CONTEXT_CONFIG: ok = INS == DISIR_STATUS_OK && CHS == DISIR_STATUS_OK; break;
  case DISIR_CONTEXT_MOLD: ok = CHS == DISIR_STATUS_OK; break;
  case DISIR_CONTEXT_SECTION: ok = NAMS == DISIR_STATUS_OK && (mo ? !rbad : SES == DISIR_STATUS_OK) && CHS == DISIR_STATUS_OK; CHECK(chc == 1 || st != DISIR_STATUS_OK, "the children of a section are validated"); break;
  case DISIR_CONTEXT_KEYVAL: ok = NAMS == DISIR_STATUS_OK && (mo ? vt > 0 && vt < DISIR_VALUE_TYPE_UNKNOWN && m > 0 && !dbad && !rbad : KVS == DISIR_STATUS_OK); break;
  case DISIR_CONTEXT_DEFAULT: ok = same == 1; break;
  default: ok = RES == DISIR_STATUS_OK;
  }
  CHECK((st == DISIR_STATUS_OK) == ok, "a context is valid exactly when its name, its mold entry, its defaults and restrictions, and its children are");
  CHECK(st == DISIR_STATUS_OK || is_invalid(st) || st == DISIR_STATUS_NO_MEMORY || st == DISIR_STATUS_ELEMENTS_INVALID, "and otherwise refused for one of these"); if (CHS == DISIR_STATUS_NO_MEMORY && chc) CHECK(st == CHS, "what fails is reported");
  REACH("rules");
}
/* ---- the mark of validity ---- */
static enum disir_status VS;
#ifdef M_validate_context_validity
enum disir_status validate_context_validity(struct disir_context *c) { CHECK(c == &P, "the context"); if (nd_bool() && VS == DISIR_STATUS_RESTRICTION_VIOLATED) c->CONTEXT_STATE_INVALID = 1; return VS; }
#endif
//@unit name=mark harness=h_mark statics=validate_context_validity model=validate_context_validity
void h_mark(void)
{
  setup(); _Bool par = nd_bool(), pfin = nd_bool(), con = nd_bool(), fatal = nd_bool(); vt_ctx(&PC, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); vt_ctx(&P, DISIR_CONTEXT_KEYVAL, par ? &PC : NULL, &w.cfgc); P.CONTEXT_STATE_CONSTRUCTING = con; P.CONTEXT_STATE_FINALIZED = !con; P.CONTEXT_STATE_FATAL = fatal; P.CONTEXT_STATE_INVALID = nd_bool(); PC.CONTEXT_STATE_FINALIZED = pfin; VS = nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_NO_MEMORY : any_invalid();
  enum disir_status st = dx_validate_context(&P); _Bool own = fatal || (VS != DISIR_STATUS_OK && is_invalid(VS));
  CHECK(st == DISIR_STATUS_OK ? !fatal && VS == DISIR_STATUS_OK && P.CONTEXT_STATE_INVALID == 0 : 1, "OK exactly for a valid context, which is no longer marked invalid"); CHECK(fatal || VS != DISIR_STATUS_OK || st == DISIR_STATUS_OK, "a valid context is OK");
  CHECK(!own || P.CONTEXT_STATE_INVALID == 1, "a context that breaks a rule is marked invalid"); CHECK(fatal || VS != DISIR_STATUS_ELEMENTS_INVALID || (par && pfin) || P.CONTEXT_STATE_INVALID == 0, "a context under an unfinished parent is not itself marked when only its children are invalid");
  if (!fatal && par && pfin) CHECK(st == VS, "nothing invalid is let into a finished parent: the reason is given"); else if (own) CHECK(st == (con ? DISIR_STATUS_INVALID_CONTEXT : fatal ? DISIR_STATUS_FATAL_CONTEXT : VS), "while it is being made it is reported as invalid, later with the reason"); else if (VS == DISIR_STATUS_ELEMENTS_INVALID && con) CHECK(st == DISIR_STATUS_INVALID_CONTEXT, "invalid children make it invalid");
  REACH("mark");
}
/* ---- what is invalid is found: root, A and section S with B in it ---- */
static struct disir_context FA, FSEC, FB, *pushed[4]; static int np, ts[2], lev; static enum disir_status GT[2], NT[2]; static int nt_at[2]; static char TB[2];
#ifdef T_FIND
enum disir_status dc_get_elements(struct disir_context *c, struct disir_collection **o) { CHECK(c == &w.cfgc || c == &FSEC, "the elements of the configuration and its sections"); int k = c == &FSEC; if (GT[k] != DISIR_STATUS_OK) return GT[k]; ts[k] = 0; cols++; *o = (void *)&TB[k]; return DISIR_STATUS_OK; }
enum disir_status dc_collection_next(struct disir_collection *c, struct disir_context **o) { int k = (void *)c == (void *)&TB[1]; CHECK(k || (void *)c == (void *)&TB[0], "a collection"); *o = NULL; if (NT[k] != DISIR_STATUS_OK && ts[k] == nt_at[k]) return NT[k]; if (ts[k] == (k ? 1 : 2)) return DISIR_STATUS_EXHAUSTED; refs++; *o = k ? &FB : (ts[k] ? &FSEC : &FA); ts[k]++; return DISIR_STATUS_OK; }
enum disir_status dc_collection_finished(struct disir_collection **c) { CHECK((void *)*c == (void *)&TB[0] || (void *)*c == (void *)&TB[1], "a collection that was given"); cols--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_collection_push_context(struct disir_collection *col, struct disir_context *c) { CHECK((void *)col == (void *)&CB, "the collection of the caller"); if (np < 4) pushed[np] = c; np++; return DISIR_STATUS_OK; }
enum disir_status dc_putcontext(struct disir_context **c) { CHECK(*c == &FA || *c == &FSEC || *c == &FB, "an element"); refs--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_context_valid(struct disir_context *c) { return c->CONTEXT_STATE_INVALID ? DISIR_STATUS_INVALID_CONTEXT : DISIR_STATUS_OK; }
#endif
//@unit name=find_invalid harness=h_find model=dc_get_elements,dc_collection_next,dc_collection_finished,dc_collection_push_context,dc_putcontext,dc_context_valid defs=T_FIND=1 kind=bounded bound=a_keyval_and_a_section_with_a_keyval
static void one_find(int k)
{
  setup(); _Bool want = nd_bool(), x0 = nd_bool(), x1 = nd_bool(), x2 = nd_bool(), x3 = nd_bool(); vt_ctx(&FA, DISIR_CONTEXT_KEYVAL, &w.cfgc, &w.cfgc); vt_ctx(&FSEC, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); vt_ctx(&FB, DISIR_CONTEXT_KEYVAL, &FSEC, &w.cfgc); w.cfgc.CONTEXT_STATE_INVALID = x0; FA.CONTEXT_STATE_INVALID = x1; FSEC.CONTEXT_STATE_INVALID = x2; FB.CONTEXT_STATE_INVALID = x3; np = 0;
  GT[0] = k == 1 ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_OK; GT[1] = k == 2 ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_OK; NT[0] = k >= 3 && k <= 5 ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_OK; NT[1] = k >= 6 ? DISIR_STATUS_NO_MEMORY : DISIR_STATUS_OK; nt_at[0] = k - 3; nt_at[1] = k - 6;
  enum disir_status st = dx_invalid_elements(&w.cfgc, want ? (void *)&CB : NULL);
  CHECK(refs == 0 && cols == 0, "no reference or collection is kept");
  _Bool err = GT[0] != DISIR_STATUS_OK || (NT[0] != DISIR_STATUS_OK && nt_at[0] >= 0 && nt_at[0] <= 2) || GT[1] != DISIR_STATUS_OK || (NT[1] != DISIR_STATUS_OK && nt_at[1] >= 0 && nt_at[1] <= 1);
  if (err) { CHECK(st == DISIR_STATUS_NO_MEMORY, "what fails is reported");  return; }
  CHECK(st == (x0 || x1 || x2 || x3 ? DISIR_STATUS_INVALID_CONTEXT : DISIR_STATUS_OK), "valid exactly when neither it nor anything in it is marked invalid"); int i = 0;
  if (want) { CHECK(np == x0 + x1 + x2 + x3, "everything invalid is listed, once"); if (x0) CHECK(pushed[i++] == &w.cfgc, "the configuration"); if (x1) CHECK(pushed[i++] == &FA, "the keyval"); if (x2) CHECK(pushed[i++] == &FSEC, "the section"); if (x3) CHECK(pushed[i++] == &FB, "what is in the section"); } else CHECK(np == 0, "nothing is listed without a list");
  REACH("find");
}
void h_find(void) { one_find(0); one_find(1); one_find(2); one_find(3); one_find(4); one_find(5); one_find(6); one_find(7); }
#ifdef T_API
static int colsz; static enum disir_status IVS;
enum disir_status dx_invalid_elements(struct disir_context *c, struct disir_collection *col) { CHECK(c == src && (col == NULL || (void *)col == (void *)&CB), "everything in it is looked at"); if (col) colsz = n; return IVS; }
struct disir_collection *dc_collection_create(void) { cols++; return (void *)&CB; }
int32_t dc_collection_size(struct disir_collection *c) { return colsz; }
enum disir_status dc_collection_finished(struct disir_collection **c) { cols--; *c = NULL; return DISIR_STATUS_OK; }
//@unit name=valid_api harness=h_api model=dx_invalid_elements,dc_collection_create,dc_collection_size,dc_collection_finished defs=T_API=1 sources=disir_config.c,disir_mold.c
void h_api(void)
{
  setup(); _Bool mo = nd_bool(), no = nd_bool(), want = nd_bool(); struct disir_collection *o = (void *)&TB[0]; colsz = 0; IVS = n ? DISIR_STATUS_INVALID_CONTEXT : any_err(); src = mo ? &w.moldc : &w.cfgc;
  enum disir_status st = mo ? disir_mold_valid(no ? NULL : &w.mold, want ? &o : NULL) : disir_config_valid(no ? NULL : &w.cfg, want ? &o : NULL);
  if (no) { CHECK(st == DISIR_STATUS_INVALID_ARGUMENT && cols == 0, "NULL is refused"); return; }
  CHECK(st == IVS, "the validity of everything in it"); if (want && n) CHECK(cols == 1 && (void *)o == (void *)&CB, "what is invalid is given to the caller"); else CHECK(cols == 0 && (!want || (void *)o == (void *)&TB[0]), "nothing else is kept"); REACH("api");
}
#endif
/* ---- finishing: into the parent with the validity found ---- */
static struct disir_element_storage *ST = (void *)&CB; static enum disir_status ADS; static int adds, upd, updv[2]; static struct disir_version *uv[2];
#ifdef T_FIN
enum disir_status dx_validate_context(struct disir_context *c) { CHECK(c == &P && adds == 0, "the element is validated, before it is put in its parent"); return VS; }
enum disir_status dx_element_storage_add(struct disir_element_storage *s, const char *nm, struct disir_context *c) { CHECK(s == ST && nm == NM[0] && c == &P, "the element is put in its parent under its name"); adds++; return ADS; }
enum disir_status dx_context_sp_full_check_log_error(struct disir_context *c, const char *f) { return DISIR_STATUS_OK; }
//@unit name=finish_element harness=h_finish model=dx_validate_context,dx_element_storage_add,dx_context_sp_full_check_log_error defs=T_FIN=1 sources=context_keyval.c,context_section.c,context_util.c
void h_finish(void)
{
  setup(); _Bool sec = nd_bool(), nm = nd_bool(); int pt = nd_int(); ASSUME(pt == DISIR_CONTEXT_SECTION || pt == DISIR_CONTEXT_MOLD || pt == DISIR_CONTEXT_CONFIG); static struct disir_section SP; static struct disir_mold MP; static struct disir_config CP; adds = 0;
  vt_ctx(&PC, pt, NULL, &w.cfgc); if (pt == DISIR_CONTEXT_SECTION) PC.cx_section = &SP; else if (pt == DISIR_CONTEXT_MOLD) PC.cx_mold = &MP; else PC.cx_config = &CP; SP.se_elements = MP.mo_elements = CP.cf_elements = ST;
  vt_ctx(&P, sec ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &PC, &w.cfgc); if (sec) P.cx_section = &PS; else P.cx_keyval = &KV; PS.se_name.dv_string = KV.kv_name.dv_string = nm ? (char *)NM[0] : NULL; P.CONTEXT_STATE_CONSTRUCTING = 1; P.CONTEXT_STATE_INVALID = nd_bool();
  VS = nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_INVALID_CONTEXT : nd_bool() ? DISIR_STATUS_NO_MEMORY : any_invalid(); ADS = any_err();
  enum disir_status st = sec ? dx_section_finalize(&P) : dx_keyval_finalize(&P);
  if (!nm) { CHECK(st == DISIR_STATUS_CONTEXT_IN_WRONG_STATE && adds == 0 && !P.CONTEXT_STATE_IN_PARENT, "an element without a name is not finished"); return; }
  _Bool in = VS == DISIR_STATUS_OK || VS == DISIR_STATUS_INVALID_CONTEXT || (sec && VS == DISIR_STATUS_ELEMENTS_INVALID);
  CHECK(adds == in && P.CONTEXT_STATE_IN_PARENT == (in && ADS == DISIR_STATUS_OK), "it is put in its parent exactly when it may be"); CHECK(st == (in && ADS != DISIR_STATUS_OK ? ADS : VS), "its validity is reported"); REACH("finish");
}
#endif
#ifdef T_TOPF
enum disir_status dx_validate_context(struct disir_context *c) { CHECK(c == &P && P.CONTEXT_STATE_CONSTRUCTING, "it is validated while it is being made"); return VS; }
enum disir_status dx_context_dp_full_check_log_error(struct disir_context **c, const char *f) { return DISIR_STATUS_OK; }
//@unit name=finish_top harness=h_top model=dx_validate_context,dx_context_dp_full_check_log_error defs=T_TOPF=1 sources=context_config.c,context_mold.c,context_util.c
void h_top(void)
{
  setup(); _Bool mo = nd_bool(), no = nd_bool(); int t = nd_bool() ? DISIR_CONTEXT_MOLD : nd_bool() ? DISIR_CONTEXT_CONFIG : DISIR_CONTEXT_SECTION; static struct disir_mold M, *om; static struct disir_config C, *oc; vt_ctx(&P, t, NULL, &P); if (t == DISIR_CONTEXT_MOLD) P.cx_mold = &M; else if (t == DISIR_CONTEXT_CONFIG) P.cx_config = &C; else P.cx_section = &PS; P.CONTEXT_STATE_CONSTRUCTING = 1; om = NULL; oc = NULL; struct disir_context *c = &P;
  VS = nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_INVALID_CONTEXT : nd_bool() ? DISIR_STATUS_NO_MEMORY : any_invalid();
  enum disir_status st = mo ? dc_mold_finalize(&c, no ? NULL : &om) : dc_config_finalize(&c, no ? NULL : &oc);
  _Bool fin = !no && t == (mo ? DISIR_CONTEXT_MOLD : DISIR_CONTEXT_CONFIG) && (VS == DISIR_STATUS_OK || VS == DISIR_STATUS_INVALID_CONTEXT);
  CHECK(fin ? st == VS && c == NULL && P.CONTEXT_STATE_FINALIZED == 1 && P.CONTEXT_STATE_CONSTRUCTING == 0 && (mo ? om == &M : oc == &C) : st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT && c == &P && P.CONTEXT_STATE_FINALIZED == 0 && P.CONTEXT_STATE_CONSTRUCTING == 1 && om == NULL && oc == NULL, "it is finished and given out with its validity, or left as it is"); REACH("top");
}
#endif
#ifdef T_DCF
static enum disir_status SVS; static struct disir_mold TM;
static enum disir_status sub(struct disir_context *c, int t) { CHECK(c == &P && P.cx_type == t, "it is finished as what it is"); return SVS; }
enum disir_status dx_keyval_finalize(struct disir_context *c) { return sub(c, DISIR_CONTEXT_KEYVAL); } enum disir_status dx_section_finalize(struct disir_context *c) { return sub(c, DISIR_CONTEXT_SECTION); }
enum disir_status dx_default_finalize(struct disir_context *c) { return sub(c, DISIR_CONTEXT_DEFAULT); } enum disir_status dx_restriction_finalize(struct disir_context *c) { return sub(c, DISIR_CONTEXT_RESTRICTION); } enum disir_status dx_documentation_finalize(struct disir_context *c) { return sub(c, DISIR_CONTEXT_DOCUMENTATION); }
enum disir_status dx_mold_update_version(struct disir_mold *m, struct disir_version *v) { CHECK(m == &TM, "the mold it is in"); if (upd < 2) uv[upd] = v; upd++; return DISIR_STATUS_OK; }
enum disir_status dx_context_dp_full_check_log_error(struct disir_context **c, const char *f) { return c == NULL || *c == NULL ? DISIR_STATUS_INVALID_ARGUMENT : DISIR_STATUS_OK; }
void dx_context_incref(struct disir_context *c) { c->cx_refcount++; }
//@unit name=finalize harness=h_dcf model=dx_keyval_finalize,dx_section_finalize,dx_default_finalize,dx_restriction_finalize,dx_documentation_finalize,dx_mold_update_version,dx_context_dp_full_check_log_error,dx_context_incref defs=T_DCF=1 sources=context.c,context_util.c
void h_dcf(void)
{
  setup(); int t = nd_int(); ASSUME(t >= DISIR_CONTEXT_CONFIG && t < DISIR_CONTEXT_UNKNOWN); _Bool mo = nd_bool(), null = nd_bool(); upd = 0; static struct disir_context RT; static struct disir_default DF; static struct disir_restriction RS; static struct disir_documentation DO; static struct disir_config TC; struct disir_context *c = null ? NULL : &P; vt_ctx(&RT, mo ? DISIR_CONTEXT_MOLD : DISIR_CONTEXT_CONFIG, NULL, &RT); if (mo) RT.cx_mold = &TM; else RT.cx_config = &TC; _Bool top = t == DISIR_CONTEXT_MOLD || t == DISIR_CONTEXT_CONFIG;
  vt_ctx(&P, t, &PC, &RT); P.CONTEXT_STATE_CONSTRUCTING = 1; struct disir_version iv = vt_nd_ver(), dv = vt_nd_ver(), *ip = NULL, *dp = NULL;
  switch (t) { case DISIR_CONTEXT_KEYVAL: P.cx_keyval = &KV; break; case DISIR_CONTEXT_SECTION: P.cx_section = &PS; PS.se_introduced = iv; PS.se_deprecated = dv; ip = &PS.se_introduced; dp = &PS.se_deprecated; break; case DISIR_CONTEXT_RESTRICTION: P.cx_restriction = &RS; RS.re_introduced = iv; RS.re_deprecated = dv; ip = &RS.re_introduced; dp = &RS.re_deprecated; break; case DISIR_CONTEXT_DOCUMENTATION: P.cx_documentation = &DO; DO.dd_introduced = iv; ip = &DO.dd_introduced; break; case DISIR_CONTEXT_DEFAULT: P.cx_default = &DF; DF.de_introduced = iv; ip = &DF.de_introduced; break; default: P.cx_config = &TC; }
  SVS = nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_INVALID_CONTEXT : nd_bool() ? DISIR_STATUS_NO_MEMORY : any_invalid();
  enum disir_status st = dc_finalize(&c);
  if (null || top) { CHECK(st == (null ? DISIR_STATUS_INVALID_ARGUMENT : DISIR_STATUS_WRONG_CONTEXT) && (null || c == &P) && P.CONTEXT_STATE_CONSTRUCTING, "not finished here"); return; }
  _Bool fin = SVS == DISIR_STATUS_OK || SVS == DISIR_STATUS_ELEMENTS_INVALID, inv = SVS == DISIR_STATUS_INVALID_CONTEXT;
  CHECK(P.CONTEXT_STATE_FINALIZED == (fin || inv) && P.CONTEXT_STATE_CONSTRUCTING == !(fin || inv), "it is finished exactly when it is in its parent"); CHECK(st == (SVS == DISIR_STATUS_ELEMENTS_INVALID ? DISIR_STATUS_INVALID_CONTEXT : SVS), "its validity is reported");
  CHECK(c == (fin ? NULL : &P) && P.cx_refcount == (inv ? 2 : 1), "the caller keeps it exactly when it is invalid or not finished, as a reference of his own when it is in its parent"); if (inv) CHECK(P.CONTEXT_STATE_INVALID == 1, "an invalid context is marked");
  int want = 0; if (fin && mo && ip) { CHECK(upd > 0 && uv[0] == ip, "the mold is at least of the version it is introduced with"); want++; } if (fin && mo && dp && dv.sv_major != 0) { CHECK(upd > want && uv[want] == dp, "and of the version it is deprecated with"); want++; } CHECK(upd == want, "no other version is taken"); REACH("finalize");
}
#endif
