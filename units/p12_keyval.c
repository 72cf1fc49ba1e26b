//@file prop=P12 unwind=10 bunwind=10 sources=disir_config_query.c,context_config.c,context_util.c kind=proved
#include "model.h"
#include "query_private.h"
#include "collection.h"
#include "log_stub.h"
/* the element a query leads to (EL), the parent of a missing one (PAR) and the outermost section made for it (ANC) */
static struct disir_context EL, PAR, ANC, ME, NEWK; static enum disir_status RES, VAL, ENS, FINDC, SETN, FIN, FINA, BEG, MAXS, COLS; static int el, par, anc, me, newk, ancst, newst, IDX, CNT, MX, vt_type; static _Bool made, mold_has, mold_kv; static char CB; static int cols;
static int64_t vi; static double vd; static uint8_t vb; static const char *vs; static int vsize, gotset, kind; static const char *TXT = "text"; static struct disir_context *start;
static int64_t gi; static double gd; static uint8_t gb; static const char *gs;
#ifdef M_dc_query_resolve_context_va
enum disir_status dc_query_resolve_context_va(struct disir_context *p, const char *q, struct disir_context **out, va_list args)
{ CHECK(p == start && q == TXT, "the query is resolved from the given context"); CHECK(va_arg(args, int) == 17, "with the arguments of the query"); if (RES == DISIR_STATUS_OK) { *out = &EL; el++; } return RES; }
enum disir_status dx_query_ensure_ancestors(struct disir_context *p, const char *q, va_list args, struct disir_context **a, struct disir_context **im, char *n, int *i)
{ CHECK(p == start && q == TXT && n[0] == 0, "the sections of the query are ensured"); CHECK(va_arg(args, int) == 17, "with the arguments of the query"); if (ENS == DISIR_STATUS_OK) { if (made) { *a = &ANC; anc++; ancst = 1; } *im = &PAR; par++; n[0] = 'k'; n[1] = 0; *i = IDX; } return ENS; }
#define SETTER(T, K, ...) enum disir_status dc_set_value_##T(struct disir_context *c, __VA_ARGS__)
#define ON(K) CHECK((c == &EL && el == 1) || (c == &NEWK && newst == 1), "the element the query leads to"); CHECK(kind == K, "the value is of the type asked for"); gotset++; if (VAL != DISIR_STATUS_OK) return VAL;
SETTER(integer, 0, int64_t v) { ON(0) vi = v; return VAL; }
SETTER(float, 1, double v) { ON(1) vd = v; return VAL; }
SETTER(boolean, 2, uint8_t v) { ON(2) vb = v; return VAL; }
SETTER(string, 3, const char *v, int32_t n) { ON(3) vs = v; vsize = n; return VAL; }
SETTER(enum, 4, const char *v, int32_t n) { ON(4) vs = v; vsize = n; return VAL; }
#define GETTER(T, K, TY, FROM) enum disir_status dc_get_value_##T(struct disir_context *c, TY *v) { CHECK(c == &EL && el == 1 && kind == K, "the value of the element the query leads to, of the type asked for"); if (VAL == DISIR_STATUS_OK) *v = FROM; return VAL; }
GETTER(integer, 0, int64_t, gi) GETTER(float, 1, double, gd) GETTER(boolean, 2, uint8_t, gb)
enum disir_status dc_get_value_string(struct disir_context *c, const char **v, int32_t *n) { CHECK(c == &EL && el == 1 && kind == 3 && n == NULL, "the value of the element the query leads to, of the type asked for"); if (VAL == DISIR_STATUS_OK) *v = gs; return VAL; }
enum disir_status dc_get_value_enum(struct disir_context *c, const char **v, int32_t *n) { CHECK(c == &EL && el == 1 && kind == 4 && n == NULL, "the value of the element the query leads to, of the type asked for"); if (VAL == DISIR_STATUS_OK) *v = gs; return VAL; }
static struct disir_context MO_;
enum disir_status dx_get_mold_equiv(struct disir_context *c, struct disir_context **e) { CHECK(c == &PAR, "the mold of the parent"); *e = &MO_; return DISIR_STATUS_OK; }
enum disir_status dc_find_element(struct disir_context *c, const char *n, unsigned int i, struct disir_context **o)
{
  CHECK(n[0] == 'k' && n[1] == 0, "the name of the last step");
  if (c == &PAR) { CHECK(i == (unsigned)IDX, "at its index"); if (FINDC == DISIR_STATUS_OK) { *o = &EL; el++; } return FINDC; }
  CHECK(c == &MO_ && i == 0, "its entry in the mold"); if (!mold_has) return DISIR_STATUS_NOT_EXIST; *o = &ME; me++; return DISIR_STATUS_OK;
}
enum disir_status dx_restriction_entries_value(struct disir_context *c, enum disir_restriction_type t, struct disir_version *v, int *m) { CHECK(c == &ME && me == 1 && t == DISIR_RESTRICTION_INC_ENTRY_MAX && v == NULL, "the maximum of the element"); if (MAXS == DISIR_STATUS_OK) *m = MX; return MAXS; }
enum disir_status dc_find_elements(struct disir_context *c, const char *n, struct disir_collection **col) { CHECK(c == &PAR && n[0] == 'k', "the elements of the name"); if (CNT == 0) return DISIR_STATUS_NOT_EXIST; *col = (void *)&CB; cols++; return DISIR_STATUS_OK; }
int32_t dc_collection_size(struct disir_collection *c) { return CNT; }
enum disir_status dc_collection_finished(struct disir_collection **c) { cols--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_begin(struct disir_context *p, enum disir_context_type t, struct disir_context **c) { CHECK(p == &PAR && t == DISIR_CONTEXT_KEYVAL && newst == 0, "a keyval is begun in the parent"); if (BEG == DISIR_STATUS_OK) { newst = 1; *c = &NEWK; } return BEG; }
enum disir_status dc_set_name(struct disir_context *c, const char *n, int32_t s) { CHECK(c == &NEWK && n[0] == 'k' && s == 1, "with the name of the last step"); return SETN; }
enum disir_value_type dc_value_type(struct disir_context *c) { return vt_type; }
const char *dc_value_type_string(struct disir_context *c) { return "T"; }
enum disir_status dc_finalize(struct disir_context **c)
{
  if (*c == &NEWK) { CHECK(newst == 1 && gotset == 1, "finished after it got its value"); if (FIN == DISIR_STATUS_OK) { newst = 2; *c = NULL; } return FIN; }
  CHECK(*c == &ANC && ancst == 1, "the outermost section made is finished"); CHECK(newst == 2 || gotset == 1, "after its element got its value"); if (FINA == DISIR_STATUS_OK) { ancst = 2; anc--; *c = NULL; } return FINA;
}
enum disir_status dc_destroy(struct disir_context **c) { if (*c == &NEWK) { CHECK(newst == 1, "destroyed once"); newst = 3; } else { CHECK(*c == &ANC && ancst == 1, "the outermost section made is destroyed"); ancst = 3; anc--; if (newst == 2) newst = 3; } *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_putcontext(struct disir_context **c) { if (*c == &EL) el--; else if (*c == &PAR) par--; else if (*c == &ME) me--; else { CHECK(*c == &w.cfgc && w.cfgc.cx_refcount > 1, "a reference that is held"); w.cfgc.cx_refcount--; } *c = NULL; return DISIR_STATUS_OK; }
void dx_context_transfer_logwarn(struct disir_context *d, struct disir_context *s) {}
#endif
static enum disir_status any_st(void) { return nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_NO_MEMORY : nd_bool() ? DISIR_STATUS_RESTRICTION_VIOLATED : DISIR_STATUS_INVALID_ARGUMENT; }
static _Bool high; static int k_;
static void setup(int k) { vt_world(); kind = k_ = k; high = nd_bool(); start = high ? &w.cfgc : &PAR; vt_ctx(&PAR, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); vt_ctx(&EL, DISIR_CONTEXT_KEYVAL, &PAR, &w.cfgc); vt_ctx(&NEWK, DISIR_CONTEXT_KEYVAL, &PAR, &w.cfgc); vt_ctx(&ANC, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); VAL = any_st(); RES = nd_bool() ? DISIR_STATUS_NOT_EXIST : any_st(); }
//@unit name=keyval_get harness=h_get model=dc_query_resolve_context_va,dx_query_ensure_ancestors,dc_set_value_integer,dc_set_value_float,dc_set_value_boolean,dc_set_value_string,dc_set_value_enum,dc_get_value_integer,dc_get_value_float,dc_get_value_boolean,dc_get_value_string,dc_get_value_enum,dx_get_mold_equiv,dc_find_element,dx_restriction_entries_value,dc_find_elements,dc_collection_size,dc_collection_finished,dc_begin,dc_set_name,dc_value_type,dc_value_type_string,dc_finalize,dc_destroy,dc_putcontext,dx_context_transfer_logwarn keep=1
#define GET(T, K, TY, FROM) case K: { TY v; TY v0; memset(&v, 0x11, sizeof v); v0 = v; st = high ? disir_config_get_keyval_##T(nc ? NULL : &w.cfg, no ? NULL : &v, nq ? NULL : TXT, 17) : dc_config_get_keyval_##T(nc ? NULL : start, no ? NULL : &v, nq ? NULL : TXT, 17); same = v == (st == DISIR_STATUS_OK ? FROM : v0); break; }
void h_get(void)
{
  _Bool nc = nd_bool(), nq = nd_bool(), no = nd_bool(), same; enum disir_status st; gi = nd_i64(); gd = nd_int(); gb = nd_u8(); gs = "gs"; int k = nd_int(); ASSUME(k >= 0 && k <= 4); setup(k);
  switch (k) { GET(integer, 0, int64_t, gi) GET(float, 1, double, gd) GET(boolean, 2, uint8_t, gb) GET(string, 3, const char *, gs) default: GET(enum, 4, const char *, gs) }
  if (nc || nq || no) CHECK(st == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); else CHECK(st == (RES != DISIR_STATUS_OK ? RES : VAL), "the query is resolved and the value of the element read");
  CHECK(same, "exactly the value of the element is given, nothing otherwise"); CHECK(el == 0 && w.cfgc.cx_refcount == 1, "no reference is kept"); REACH("get");
}
#define SET(T, K, V) case K: st = high ? disir_config_set_keyval_##T(nc ? NULL : &w.cfg, V, nq ? NULL : TXT, 17) : dc_config_set_keyval_##T(nc ? NULL : start, V, nq ? NULL : TXT, 17); break;
static _Bool stored(void) { switch (k_) { case 0: return vi == gi; case 1: return vd == gd; case 2: return vb == gb; default: return vs == gs && vsize == 2; } }
//@unit name=keyval_set harness=h_set model=dc_query_resolve_context_va,dx_query_ensure_ancestors,dc_set_value_integer,dc_set_value_float,dc_set_value_boolean,dc_set_value_string,dc_set_value_enum,dc_get_value_integer,dc_get_value_float,dc_get_value_boolean,dc_get_value_string,dc_get_value_enum,dx_get_mold_equiv,dc_find_element,dx_restriction_entries_value,dc_find_elements,dc_collection_size,dc_collection_finished,dc_begin,dc_set_name,dc_value_type,dc_value_type_string,dc_finalize,dc_destroy,dc_putcontext,dx_context_transfer_logwarn keep=1
void h_set(void)
{
  _Bool nc = nd_bool(), nq = nd_bool(), nt = nd_bool(); enum disir_status st, want; gi = nd_i64(); gd = nd_int(); gb = nd_u8(); int k = nd_int(); ASSUME(k >= 0 && k <= 4); gs = nt ? NULL : "gs"; setup(k);
  ENS = any_st(); FINDC = nd_bool() ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK; SETN = any_st(); FIN = any_st(); FINA = any_st(); BEG = any_st(); MAXS = any_st(); made = nd_bool(); mold_has = nd_bool(); mold_kv = nd_bool(); IDX = nd_int(); CNT = nd_int(); MX = nd_int(); ASSUME(IDX >= 0 && CNT >= 0 && MX >= 0);
  static const int TY[5] = { DISIR_VALUE_TYPE_INTEGER, DISIR_VALUE_TYPE_FLOAT, DISIR_VALUE_TYPE_BOOLEAN, DISIR_VALUE_TYPE_STRING, DISIR_VALUE_TYPE_ENUM }; _Bool same = nd_bool(); vt_type = same ? TY[k] : TY[(k + 1) % 5]; vt_ctx(&ME, mold_kv ? DISIR_CONTEXT_KEYVAL : DISIR_CONTEXT_SECTION, NULL, &ME);
  switch (k) { SET(integer, 0, gi) SET(float, 1, gd) SET(boolean, 2, gb) SET(string, 3, gs) default: SET(enum, 4, gs) }
  _Bool leaf = 0;
  if (nc || nq || (nt && k > 2)) want = DISIR_STATUS_INVALID_ARGUMENT; else if (RES == DISIR_STATUS_OK) want = VAL; else if (RES != DISIR_STATUS_NOT_EXIST) want = RES; else if (ENS != DISIR_STATUS_OK) want = ENS;
  else {
    if (FINDC == DISIR_STATUS_OK) want = VAL; else if (!mold_has) want = DISIR_STATUS_MOLD_MISSING; else if (MAXS != DISIR_STATUS_OK) want = MAXS; else if (MX && IDX >= MX) want = DISIR_STATUS_RESTRICTION_VIOLATED; else if (IDX != CNT || !mold_kv) want = DISIR_STATUS_CONFLICT;
    else if (BEG != DISIR_STATUS_OK) want = BEG; else if (SETN != DISIR_STATUS_OK) want = SETN; else if (!same) want = DISIR_STATUS_WRONG_VALUE_TYPE; else if (VAL != DISIR_STATUS_OK) want = VAL; else { want = FIN; leaf = FIN == DISIR_STATUS_OK; }
    if (want == DISIR_STATUS_OK && made) want = FINA;
  }
  CHECK(st == want, "a value is set exactly when the element is there, or is the next one, of the type, known to the mold and allowed by its maximum");
  CHECK(el == 0 && par == 0 && me == 0 && anc == 0 && cols == 0 && w.cfgc.cx_refcount == 1, "no reference or collection is kept");
  if (st == DISIR_STATUS_OK) { CHECK(stored() && gotset == 1, "the value given is set, once"); CHECK(newst == (leaf ? 2 : 0) && ancst == (made && RES == DISIR_STATUS_NOT_EXIST ? 2 : 0), "what was made for it is finished"); REACH("set"); }
  else { CHECK(newst == 0 || newst == 3, "an element made for a value that is refused is destroyed"); CHECK(ancst == 0 || ancst == 3, "sections made for a value that is refused are destroyed"); REACH("refused"); }
}
