//@file prop=P06 unwind=6 sources=context_value.c,context_restriction.c,context.c,context_util.c,util.c,validate.c,context_mold.c
#include "model.h"
#include "log_stub.h"
#ifndef TY
#define TY 0
#endif
static const enum disir_value_type ty = TY == 0 ? DISIR_VALUE_TYPE_INTEGER : TY == 1 ? DISIR_VALUE_TYPE_FLOAT : DISIR_VALUE_TYPE_ENUM;
static int calls, verdict_bad; static int64_t seen_i; static double seen_d; static _Bool seen_text_ok; static struct disir_context *seen_c;
static char S[8]; static size_t SN; static int64_t I; static double D;
#ifdef M_dx_restriction_exclusive_value_check
/* contract of the restriction check (units/p06_exclusive.c): any verdict, nothing is changed */
enum disir_status dx_restriction_exclusive_value_check (struct disir_context *context, int64_t i, double d, const char *s)
{
  calls++; seen_c = context; seen_i = i; seen_d = d; seen_text_ok = 0;
  if (TY == 2 && s) { seen_text_ok = 1; for (size_t k = 0; k < sizeof S; k++) if (k < SN) seen_text_ok = seen_text_ok && s[k] == S[k]; else if (k == SN) seen_text_ok = seen_text_ok && s[k] == 0; }
  return verdict_bad ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_OK;
}
#else
/* native and bounded runs use the real check on a list of one restriction that allows or forbids everything */
static struct disir_restriction RR; static char RS[8];
#endif
static _Bool same(const char *a, const char *b, size_t n) { for (size_t i = 0; i < sizeof S; i++) if (i < n && a[i] != b[i]) return 0; return a[n] == 0; }
static void setup(void)
{
  vt_world(); w.ckv.kv_mold_equiv = &w.mkvc; w.mkv.kv_value.dv_type = w.ckv.kv_value.dv_type = ty;
  w.ckv.kv_name.dv_type = DISIR_VALUE_TYPE_STRING; w.ckv.kv_name.dv_string = "k"; w.ckv.kv_name.dv_size = 1; w.mkv.kv_name = w.ckv.kv_name;
  w.cfg.cf_version.sv_major = 1;
  verdict_bad = nd_bool(); I = nd_i64(); D = nd_double(); SN = nd_str(S, 3);
#ifndef M_dx_restriction_exclusive_value_check
  RR.prev = &RR; RR.re_introduced.sv_major = 1; w.mkv.kv_restrictions_queue = &RR;
  size_t rn = nd_str(RS, 3); RR.re_value_string = RS; RR.re_value_min = nd_double(); RR.re_value_max = nd_double();
  RR.re_type = TY == 2 ? DISIR_RESTRICTION_EXC_VALUE_ENUM : DISIR_RESTRICTION_EXC_VALUE_RANGE;
  double x = TY == 0 ? (double)I : D; verdict_bad = TY == 2 ? !(rn == SN && same(RS, S, rn)) : !(x >= RR.re_value_min && x <= RR.re_value_max);
#endif
  vt_nd_content(&w.ckv.kv_value, 2);
}

#define SAME(a, b) ((a).dv_type == (b).dv_type && (a).dv_integer == (b).dv_integer && (a).dv_size == (b).dv_size)
static enum disir_status set(void)
{
  /* the text is not terminated at the given size: the caller's bytes may go on */
  return TY == 0 ? dc_set_value_integer(&w.ckvc, I) : TY == 1 ? dc_set_value_float(&w.ckvc, D) : dc_set_value_enum(&w.ckvc, S, (int32_t)SN);
}
static _Bool stored(void)
{
  struct disir_value *v = &w.ckv.kv_value;
  return v->dv_type == ty && (TY == 0 ? v->dv_integer == I : TY == 1 ? vt_deq(v->dv_float, D) : v->dv_size == (int64_t)SN && v->dv_string != S && same(v->dv_string, S, SN));
}
//@assume set_*: dx_restriction_exclusive_value_check is under its contract (any verdict, no effect), which units/p06_exclusive.c verifies
//@unit name=set_integer harness=h_set model=dx_context_type_check_log_error,dx_restriction_exclusive_value_check defs=TY=0
//@unit name=set_float harness=h_set model=dx_context_type_check_log_error,dx_restriction_exclusive_value_check defs=TY=1
//@unit name=set_enum harness=h_set model=dx_context_type_check_log_error,dx_restriction_exclusive_value_check defs=TY=2 kind=bounded bound=texts_of_3_bytes unwind=10
void h_set(void)
{
  setup(); int mode = nd_int(); ASSUME(mode >= 0 && mode < 3);
  if (mode == 0) w.ckvc.CONTEXT_STATE_CONSTRUCTING = 1; else w.ckvc.CONTEXT_STATE_FINALIZED = 1;
  if (mode == 2) w.ckvc.CONTEXT_STATE_INVALID = 1;
  if (TY == 2) { char c = nd_char(); S[SN] = c; }
  struct disir_value v0 = w.ckv.kv_value;
  enum disir_status st = set();
  if (mode == 1 && verdict_bad) {
    CHECK(st == DISIR_STATUS_RESTRICTION_VIOLATED, "a finalized keyval refuses a value outside its restrictions");
    CHECK(SAME(w.ckv.kv_value, v0), "the refused value is not stored"); CHECK(!w.ckvc.CONTEXT_STATE_INVALID, "the keyval stays valid");
  } else {
    CHECK(st == (mode == 2 || verdict_bad ? DISIR_STATUS_INVALID_CONTEXT : DISIR_STATUS_OK), "a keyval under construction takes the value and reports it as invalid");
    CHECK(stored(), "the value is stored"); CHECK(w.ckvc.CONTEXT_STATE_INVALID == (mode == 2 || verdict_bad), "a violation marks the context invalid");
  }
#ifdef M_dx_restriction_exclusive_value_check
  CHECK(calls == (mode == 2 ? 0 : 1) && (calls == 0 || (seen_c == &w.ckvc && (TY != 0 || seen_i == I) && (TY != 1 || vt_deq(seen_d, D)) && (TY != 2 || seen_text_ok))), "the restrictions are checked on the value that is stored");
#endif
  REACH("set restricted");
}
/* validation of a keyval looks at the value it holds */
//@unit name=validate_integer harness=h_val model=dx_context_type_check_log_error,dx_restriction_exclusive_value_check statics=validate_exclusive_restrictions defs=TY=0
//@unit name=validate_float harness=h_val model=dx_context_type_check_log_error,dx_restriction_exclusive_value_check statics=validate_exclusive_restrictions defs=TY=1
//@unit name=validate_enum harness=h_val model=dx_context_type_check_log_error,dx_restriction_exclusive_value_check statics=validate_exclusive_restrictions defs=TY=2 kind=bounded bound=texts_of_3_bytes unwind=10
enum disir_status validate_exclusive_restrictions (struct disir_context *context);
void h_val(void)
{
  setup(); struct disir_value v; v.dv_type = ty; v.dv_size = 0;
  if (TY == 0) v.dv_integer = I; else if (TY == 1) v.dv_float = D; else { v.dv_string = S; v.dv_size = (int64_t)SN; }
  w.ckv.kv_value = v;
  CHECK(validate_exclusive_restrictions(&w.ckvc) == (verdict_bad ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_OK), "a keyval is valid exactly when its restrictions allow the value it holds");
#ifdef M_dx_restriction_exclusive_value_check
  CHECK(calls == 1 && seen_c == &w.ckvc && (TY != 0 || seen_i == I) && (TY != 1 || vt_deq(seen_d, D)) && (TY != 2 || seen_text_ok), "the restrictions are checked on the stored value");
#endif
  w.ckv.kv_value.dv_type = nd_bool() ? DISIR_VALUE_TYPE_STRING : DISIR_VALUE_TYPE_BOOLEAN;
  CHECK(validate_exclusive_restrictions(&w.ckvc) == DISIR_STATUS_OK, "strings and booleans are not restricted by value");
  REACH("validate restricted");
}

/* ---- what a restriction holds ---- */
static struct disir_context resc, secc; static struct disir_restriction res; static struct disir_section sec;
static void rworld(void)
{
  vt_world(); w.mkv.kv_value.dv_type = vt_nd_type();
  vt_ctx(&secc, DISIR_CONTEXT_SECTION, &w.moldc, &w.moldc); secc.cx_section = &sec; sec.se_context = &secc;
  vt_ctx(&resc, DISIR_CONTEXT_RESTRICTION, &w.mkvc, &w.moldc); resc.cx_restriction = &res; res.re_context = &resc;
  if (nd_bool()) resc.CONTEXT_STATE_FINALIZED = 1; else resc.CONTEXT_STATE_CONSTRUCTING = 1;
  int t = nd_int(); ASSUME(t > 0 && t <= DISIR_RESTRICTION_UNKNOWN); res.re_type = t;
  res.re_value_min = nd_double(); res.re_value_max = nd_double(); res.re_value_numeric = nd_double();
}
//@unit name=restriction_type harness=h_type model=dx_context_type_check_log_error unwind=24
void h_type(void)
{
  rworld(); _Bool insec = nd_bool(); if (insec) resc.cx_parent_context = &secc;
  int t = nd_int(); enum disir_restriction_type t0 = res.re_type, out = 77; enum disir_value_type vt = w.mkv.kv_value.dv_type;
  _Bool entry = t == DISIR_RESTRICTION_INC_ENTRY_MIN || t == DISIR_RESTRICTION_INC_ENTRY_MAX;
  _Bool num = t == DISIR_RESTRICTION_EXC_VALUE_RANGE || t == DISIR_RESTRICTION_EXC_VALUE_NUMERIC, en = t == DISIR_RESTRICTION_EXC_VALUE_ENUM;
  enum disir_status want = resc.CONTEXT_STATE_FINALIZED ? DISIR_STATUS_CONTEXT_IN_WRONG_STATE : insec && (num || en) ? DISIR_STATUS_WRONG_CONTEXT : !entry && !num && !en ? DISIR_STATUS_INVALID_ARGUMENT :
    en && vt != DISIR_VALUE_TYPE_ENUM ? DISIR_STATUS_WRONG_VALUE_TYPE : num && vt != DISIR_VALUE_TYPE_INTEGER && vt != DISIR_VALUE_TYPE_FLOAT ? DISIR_STATUS_WRONG_VALUE_TYPE : DISIR_STATUS_OK;
  CHECK(dc_set_restriction_type(&resc, (enum disir_restriction_type)t) == want, "value restrictions go with their value type on keyvals, entry restrictions with everything; a finalized restriction keeps its type");
  CHECK(res.re_type == (want == DISIR_STATUS_OK ? (enum disir_restriction_type)t : t0), "the type is set exactly when accepted");
  CHECK(dc_get_restriction_type(&resc, &out) == DISIR_STATUS_OK && out == res.re_type, "the type is read back");
  enum disir_restriction_type keep = out;
  CHECK(dc_get_restriction_type(&w.mkvc, &out) == DISIR_STATUS_WRONG_CONTEXT && dc_get_restriction_type(NULL, &out) == DISIR_STATUS_INVALID_ARGUMENT && dc_get_restriction_type(&resc, NULL) == DISIR_STATUS_INVALID_ARGUMENT && out == keep, "other contexts and NULL are refused");
  CHECK(dc_set_restriction_type(&w.mkvc, DISIR_RESTRICTION_INC_ENTRY_MIN) == DISIR_STATUS_WRONG_CONTEXT && dc_set_restriction_type(NULL, DISIR_RESTRICTION_INC_ENTRY_MIN) == DISIR_STATUS_INVALID_ARGUMENT, "other contexts and NULL are refused");
  REACH("restriction type");
}
static double whole(double x) { if (w.mkv.kv_value.dv_type != DISIR_VALUE_TYPE_INTEGER || !(x > -9007199254740992.0 && x < 9007199254740992.0)) return x; return (double)(int64_t)x; }
#define DEQ(a, b) ((a) == (b) || ((a) != (a) && (b) != (b)))
//@unit name=restriction_range harness=h_range model=dx_context_type_check_log_error unwind=24
void h_range(void)
{
  rworld(); struct disir_restriction r0 = res; double a = nd_double(), b = nd_double(), x = 5, y = 6; enum disir_restriction_type t = res.re_type;
  enum disir_status st = dc_restriction_set_range(&resc, a, b);
  CHECK(st == (t == DISIR_RESTRICTION_EXC_VALUE_RANGE ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_VALUE_TYPE), "a range is set on range restrictions");
  CHECK(dc_restriction_get_range(&resc, &x, &y) == st, "and read from them");
  if (st == DISIR_STATUS_OK) CHECK(DEQ(x, whole(a)) && DEQ(y, whole(b)), "the range is read back, without fractions on integer keyvals");
  else CHECK(x == 5 && y == 6 && vt_deq(res.re_value_min, r0.re_value_min) && vt_deq(res.re_value_max, r0.re_value_max), "a refused call changes and writes nothing");
  CHECK(vt_deq(res.re_value_numeric, r0.re_value_numeric) && res.re_type == t, "nothing else changes");
  CHECK(dc_restriction_get_range(&resc, NULL, &y) == DISIR_STATUS_INVALID_ARGUMENT && dc_restriction_get_range(&resc, &x, NULL) == DISIR_STATUS_INVALID_ARGUMENT && dc_restriction_get_range(NULL, &x, &y) == DISIR_STATUS_INVALID_ARGUMENT && dc_restriction_set_range(NULL, a, b) == DISIR_STATUS_INVALID_ARGUMENT && dc_restriction_set_range(&w.mkvc, a, b) == DISIR_STATUS_WRONG_CONTEXT && dc_restriction_get_range(&w.mkvc, &x, &y) == DISIR_STATUS_WRONG_CONTEXT, "NULL and other contexts are refused");
  REACH("restriction range");
}
//@unit name=restriction_numeric harness=h_num model=dx_context_type_check_log_error unwind=24
void h_num(void)
{
  rworld(); struct disir_restriction r0 = res; double a = nd_double(), x = 5; enum disir_restriction_type t = res.re_type;
  _Bool ok = t == DISIR_RESTRICTION_EXC_VALUE_NUMERIC || t == DISIR_RESTRICTION_INC_ENTRY_MIN || t == DISIR_RESTRICTION_INC_ENTRY_MAX;
  enum disir_status st = dc_restriction_set_numeric(&resc, a);
  CHECK(st == (ok ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_VALUE_TYPE) && dc_restriction_get_numeric(&resc, &x) == st, "a number is set on and read from numeric and entry restrictions");
  CHECK(ok ? DEQ(x, whole(a)) : x == 5, "the number is read back");
  CHECK(t == DISIR_RESTRICTION_EXC_VALUE_NUMERIC || vt_deq(res.re_value_numeric, r0.re_value_numeric), "nothing else changes");
  CHECK((t == DISIR_RESTRICTION_INC_ENTRY_MIN || vt_deq(res.re_value_min, r0.re_value_min)) && (t == DISIR_RESTRICTION_INC_ENTRY_MAX || vt_deq(res.re_value_max, r0.re_value_max)), "nothing else changes");
  CHECK(dc_restriction_get_numeric(&resc, NULL) == DISIR_STATUS_INVALID_ARGUMENT && dc_restriction_get_numeric(NULL, &x) == DISIR_STATUS_INVALID_ARGUMENT && dc_restriction_set_numeric(NULL, a) == DISIR_STATUS_INVALID_ARGUMENT && dc_restriction_set_numeric(&w.mkvc, a) == DISIR_STATUS_WRONG_CONTEXT && dc_restriction_get_numeric(&w.mkvc, &x) == DISIR_STATUS_WRONG_CONTEXT, "NULL and other contexts are refused");
  REACH("restriction numeric");
}
//@unit name=restriction_string harness=h_str model=dx_context_type_check_log_error unwind=24 kind=bounded bound=texts_of_3_bytes
void h_str(void)
{
  rworld(); char a[4], b[4]; size_t an = nd_str(a, 3), bn = nd_str(b, 3); const char *out = a; _Bool ok = res.re_type == DISIR_RESTRICTION_EXC_VALUE_ENUM;
  enum disir_status want = ok ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_VALUE_TYPE;
  vt_alloc_may_fail = 1;
  enum disir_status st = dc_restriction_set_string(&resc, a);
  if (ok && st == DISIR_STATUS_NO_MEMORY) { CHECK(res.re_value_string == NULL, "without memory nothing is stored"); return; }
  CHECK(st == want && dc_restriction_get_string(&resc, &out) == want, "a text is set on and read from enum restrictions");
  if (!ok) { CHECK(out == a && res.re_value_string == NULL, "a refused call changes and writes nothing"); return; }
  CHECK(out != a && same(out, a, an), "the text is read back, in storage of its own");
  st = dc_restriction_set_string(&resc, nd_bool() ? b : out + (an > 0 ? 1 : 0));
  (void)bn;
  CHECK(st == DISIR_STATUS_OK || st == DISIR_STATUS_NO_MEMORY, "a text can be replaced, even by a part of itself");
  CHECK(dc_restriction_get_string(&resc, &out) == DISIR_STATUS_OK && out != NULL && vt_alloc_live == 1, "the former text is released");
  CHECK(st == DISIR_STATUS_OK || same(out, a, an), "without memory the former text stays");
  CHECK(st != DISIR_STATUS_OK || same(out, b, bn) || (an > 0 && same(out, a + 1, an - 1)) || (an == 0 && out[0] == 0), "the new text is read back");
  CHECK(dc_restriction_set_string(&resc, NULL) == DISIR_STATUS_INVALID_ARGUMENT && dc_restriction_get_string(&resc, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  CHECK(dc_restriction_set_string(&w.mkvc, a) == DISIR_STATUS_WRONG_CONTEXT && dc_restriction_get_string(&w.mkvc, &out) == DISIR_STATUS_WRONG_CONTEXT && dc_restriction_set_string(NULL, a) == DISIR_STATUS_INVALID_ARGUMENT, "other contexts are refused");
  REACH("restriction string");
}

/* ---- adding restrictions to a mold element ---- */
static struct disir_restriction Q[2]; static struct disir_context QC[2]; static int NQ;
static struct disir_restriction **queue_of(_Bool s) { return s ? &sec.se_restrictions_queue : &w.mkv.kv_restrictions_queue; }
static void add(int kind, _Bool insec, _Bool pfin, int nq, _Bool wantout, int vtype)
{
  rworld(); w.mkv.kv_value.dv_type = vtype; w.mold.mo_version = vt_nd_ver(); res.re_type = DISIR_RESTRICTION_UNKNOWN;
  struct disir_context *parent = insec ? &secc : &w.mkvc; struct disir_restriction **q = queue_of(insec);
  parent->CONTEXT_STATE_FINALIZED = pfin; parent->CONTEXT_STATE_CONSTRUCTING = !pfin;
  NQ = nq;
  vt_ctx(&QC[0], DISIR_CONTEXT_RESTRICTION, parent, &w.moldc); QC[0].cx_restriction = &Q[0]; Q[0].re_context = &QC[0]; QC[0].CONTEXT_STATE_FINALIZED = 1; QC[0].CONTEXT_STATE_IN_PARENT = 1; parent->cx_refcount = 2;
  Q[0].prev = &Q[0]; Q[0].re_introduced = vt_nd_ver(); { int t = nd_int(); ASSUME(t > 0 && t < DISIR_RESTRICTION_UNKNOWN); Q[0].re_type = t; }
  if (NQ) *q = &Q[0]; else *q = NULL;
  struct disir_version v = vt_nd_ver(), eff = v, m0 = w.mold.mo_version; _Bool nov = nd_bool(); if (nov) { eff.sv_major = 1; eff.sv_minor = 0; }
  double a = nd_double(), b = nd_double(); int64_t n = nd_i64(); char text[4]; size_t tn = nd_str(text, 3);
  struct disir_version *vp = nov ? NULL : &v; struct disir_context *out = &QC[0], **op = kind < 3 && wantout ? &out : NULL;
  unsigned long live = vt_alloc_live;
  enum disir_status st = kind == 0 ? dc_add_restriction_value_range(parent, a, b, NULL, vp, op) : kind == 1 ? dc_add_restriction_value_numeric(parent, a, NULL, vp, op) :
    kind == 2 ? dc_add_restriction_value_enum(parent, text, NULL, vp, op) : kind == 3 ? dc_add_restriction_entries_min(parent, n, vp) : dc_add_restriction_entries_max(parent, n, vp);
  enum disir_restriction_type t = kind == 0 ? DISIR_RESTRICTION_EXC_VALUE_RANGE : kind == 1 ? DISIR_RESTRICTION_EXC_VALUE_NUMERIC : kind == 2 ? DISIR_RESTRICTION_EXC_VALUE_ENUM : kind == 3 ? DISIR_RESTRICTION_INC_ENTRY_MIN : DISIR_RESTRICTION_INC_ENTRY_MAX;
  enum disir_value_type vt = w.mkv.kv_value.dv_type;
  _Bool num = vt == DISIR_VALUE_TYPE_INTEGER || vt == DISIR_VALUE_TYPE_FLOAT;
  _Bool conflict = kind > 2 && NQ && Q[0].re_type == t && vt_key(&Q[0].re_introduced) == vt_key(&eff);
  enum disir_status want = kind < 3 && insec ? DISIR_STATUS_WRONG_CONTEXT : kind < 2 && !num ? DISIR_STATUS_WRONG_VALUE_TYPE : kind == 2 && vt != DISIR_VALUE_TYPE_ENUM ? DISIR_STATUS_WRONG_VALUE_TYPE :
    conflict ? (pfin ? DISIR_STATUS_WRONG_VALUE_TYPE : DISIR_STATUS_INVALID_CONTEXT) : DISIR_STATUS_OK;
  if (conflict) CHECK(st != DISIR_STATUS_OK, "two entry restrictions of one kind cannot start at the same version");
  else CHECK(st == want, "a restriction is accepted exactly when it goes with the element");
  struct disir_restriction *r = NQ ? Q[0].next : *q;
  if (st == DISIR_STATUS_OK) {
    CHECK(r != NULL && r->re_type == t && r->next == NULL && r->prev == (NQ ? &Q[0] : r) && *q == (NQ ? &Q[0] : r) && (*q)->prev == r, "an accepted restriction is the last one of the element");
    CHECK(vt_key(&r->re_introduced) == vt_key(&eff) && vt_key(&r->re_deprecated) == 0, "it is introduced at the given version, or 1.0, and not deprecated");
    if (kind == 0) CHECK(DEQ(r->re_value_min, whole(a)) && DEQ(r->re_value_max, whole(b)), "with the given range");
    if (kind == 1) CHECK(DEQ(r->re_value_numeric, whole(a)), "with the given number");
    if (kind == 2) CHECK(r->re_value_string != NULL && r->re_value_string != text && same(r->re_value_string, text, tn), "with the given text");
    if (kind == 3) CHECK(DEQ(r->re_value_min, whole((double)n)), "with the given minimum");
    if (kind == 4) CHECK(DEQ(r->re_value_max, whole((double)n)), "with the given maximum");
    CHECK(r->re_context->cx_refcount == (op ? 2 : 1) && (!op || out == r->re_context), "the caller holds a reference exactly when it asked for the restriction");
    CHECK(vt_key(&w.mold.mo_version) == (vt_key(&m0) > vt_key(&eff) ? vt_key(&m0) : vt_key(&eff)), "the mold's version covers it");
  } else {
    CHECK(*q == (NQ ? &Q[0] : NULL) && (!NQ || (Q[0].next == NULL && Q[0].prev == &Q[0])), "a refused restriction is not part of the element");
    CHECK(vt_alloc_live == live && parent->cx_refcount == 2, "a refused restriction leaves nothing behind");
    CHECK(op == NULL || out == NULL || out == &QC[0], "and gives no restriction to the caller");
  }
}
//@unit name=add_range harness=h_add_range model=dx_context_type_check_log_error,dc_version_string unwind=5 unwindset=dc_destroy:2 never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_default_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_default,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_default_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_default_finalize kind=bounded bound=1_former_restriction
//@unit name=add_range_float harness=h_add_range_float model=dx_context_type_check_log_error,dc_version_string unwind=5 unwindset=dc_destroy:2 never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_default_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_default,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_default_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_default_finalize kind=bounded bound=1_former_restriction
//@unit name=add_numeric harness=h_add_numeric model=dx_context_type_check_log_error,dc_version_string unwind=5 unwindset=dc_destroy:2 never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_default_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_default,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_default_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_default_finalize kind=bounded bound=1_former_restriction
//@unit name=add_enum harness=h_add_enum model=dx_context_type_check_log_error,dc_version_string unwind=5 unwindset=dc_destroy:2 never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_default_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_default,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_default_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_default_finalize kind=bounded bound=1_former_restriction
//@unit name=add_min harness=h_add_min model=dx_context_type_check_log_error,dc_version_string unwind=5 unwindset=dc_destroy:2 never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_default_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_default,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_default_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_default_finalize kind=bounded bound=1_former_restriction
//@unit name=add_max harness=h_add_max model=dx_context_type_check_log_error,dc_version_string unwind=5 unwindset=dc_destroy:2 never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_default_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_default,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_default_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_default_finalize kind=bounded bound=1_former_restriction
//@unit name=add_refused harness=h_add_refused model=dx_context_type_check_log_error,dc_version_string unwind=5 unwindset=dc_destroy:2 never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_default_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_default,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_default_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_default_finalize kind=bounded bound=1_former_restriction
//@unit name=add_section harness=h_add_section model=dx_context_type_check_log_error,dc_version_string unwind=5 unwindset=dc_destroy:2 never=dx_mold_destroy,dx_config_destroy,dx_section_destroy,dx_keyval_destroy,dx_default_destroy,dx_documentation_destroy,dx_element_storage_remove,validate_inclusive_restrictions,validate_children,validate_config_keyval,validate_config_section,validate_default,validate_name,dx_documentation_begin,dx_keyval_begin,dx_section_begin,dx_default_begin,dx_documentation_finalize,dx_keyval_finalize,dx_section_finalize,dx_default_finalize kind=bounded bound=1_former_restriction
#define ADDC(k, t) switch (nd_int()) { case 0: add(k, 0, 0, 0, 1, t); break; case 1: add(k, 0, 1, 0, 0, t); break; case 2: add(k, 0, 0, 1, 0, t); break; default: add(k, 0, 1, 1, 1, t); }
void h_add_range(void) { ADDC(0, DISIR_VALUE_TYPE_INTEGER) REACH("add"); }
void h_add_range_float(void) { ADDC(0, DISIR_VALUE_TYPE_FLOAT) REACH("add"); }
void h_add_numeric(void) { ADDC(1, DISIR_VALUE_TYPE_INTEGER) REACH("add"); }
void h_add_enum(void) { ADDC(2, DISIR_VALUE_TYPE_ENUM) REACH("add"); }
void h_add_min(void) { ADDC(3, DISIR_VALUE_TYPE_STRING) REACH("add"); }
void h_add_max(void) { ADDC(4, DISIR_VALUE_TYPE_BOOLEAN) REACH("add"); }
void h_add_refused(void)
{
  switch (nd_int()) {
  case 0: add(0, 0, 1, 1, 1, DISIR_VALUE_TYPE_STRING); break; case 1: add(0, 0, 0, 0, 0, DISIR_VALUE_TYPE_ENUM); break; case 2: add(1, 0, 1, 1, 0, DISIR_VALUE_TYPE_BOOLEAN); break;
  case 3: add(2, 0, 0, 1, 0, DISIR_VALUE_TYPE_STRING); break; case 4: add(2, 0, 1, 0, 1, DISIR_VALUE_TYPE_INTEGER); break; default: add(0, 1, 1, 1, 0, DISIR_VALUE_TYPE_INTEGER);
  }
  REACH("refused");
}
void h_add_section(void)
{
  switch (nd_int()) { case 0: add(3, 1, 0, 0, 0, DISIR_VALUE_TYPE_STRING); break; case 1: add(4, 1, 1, 1, 0, DISIR_VALUE_TYPE_STRING); break; case 2: add(3, 1, 0, 1, 0, DISIR_VALUE_TYPE_STRING); break; default: add(4, 1, 1, 0, 0, DISIR_VALUE_TYPE_STRING); }
  REACH("section");
}
