//@file prop=P11 unwind=8 bunwind=8 sources=update.c kind=bounded keep=1
#ifndef FL
#define FL 0
#define LO 0
#define HI 12
#endif
#include "model.h"
#include "update_private.h"
#include "collection.h"
#include "log_stub.h"
#include <limits.h>
static struct disir_context KC[4], SC[2]; static struct disir_keyval KV[4], MKV[4]; static struct disir_context MK[4]; static struct disir_section SE[2]; static int failat, refs, cols, st[3], inpush, npush, ngen, ncont, cfgs; static struct disir_context *pushed[6]; static char ST[3], CB[4]; static enum disir_status FS, R; static struct disir_config TG; static struct disir_context TC; static struct disir_version V; static struct disir_update **UP; static int rel;
static _Bool fails(void) { return failat && --failat == 0; }
static _Bool veq(const struct disir_version *a, const struct disir_version *b) { return a->sv_major == b->sv_major && a->sv_minor == b->sv_minor; }
#ifdef M_dc_version_compare
/* the order of the two is fixed by the harness (rel), so that the verifier explores one side only */
int dc_version_compare(struct disir_version *a, struct disir_version *b) { if (rel == 9) return vt_key(a) < vt_key(b) ? -1 : vt_key(a) > vt_key(b); CHECK((vt_key(a) < vt_key(b)) == (rel < 0) && veq(a, &w.cfg.cf_version), "the version of the config is compared with the target"); return rel; }
void dc_version_set(struct disir_version *d, struct disir_version *s) { if (d && s) *d = *s; }
#endif
#if defined(M_disir_config_finished) && !defined(M_old_finished)
enum disir_status disir_config_finished(struct disir_config **c) { if (c == NULL || *c == NULL) return DISIR_STATUS_INVALID_ARGUMENT; CHECK(*c == &TG && cfgs == 1, "the target config is destroyed once"); cfgs = 0; *c = NULL; return DISIR_STATUS_OK; }
#endif
#ifdef M_dc_putcontext
enum disir_status dc_putcontext(struct disir_context **c) { CHECK(*c != NULL && refs > 0, "a reference held is released"); refs--; *c = NULL; return DISIR_STATUS_OK; }
enum disir_status dc_collection_finished(struct disir_collection **c) { CHECK(*c != NULL && cols > 0, "a collection held is released"); cols--; *c = NULL; return DISIR_STATUS_OK; }
#endif
/* ---- starting: which keyvals are looked at ---- */
#ifdef M_disir_generate_config_from_mold
enum disir_status disir_generate_config_from_mold(struct disir_mold *m, struct disir_version *v, struct disir_config **o) { CHECK(m == &w.mold && veq(v, &V), "a config of the target version is generated from the mold"); ngen++; if (fails()) { if (FS == DISIR_STATUS_INVALID_CONTEXT) { cfgs = 1; *o = &TG; } return FS; } cfgs = 1; *o = &TG; return DISIR_STATUS_OK; }
struct disir_collection *dc_collection_create(void) { if (fails()) { FS = DISIR_STATUS_NO_MEMORY; return NULL; } cols++; return (void *)&CB[3]; }
enum disir_status dx_element_storage_get_all(struct disir_element_storage *s, struct disir_collection **o) { int k = (char *)s - ST; CHECK(k >= 0 && k < 3, "the elements of the config and its sections"); ASSUME(k >= 0 && k < 3); if (fails()) return FS; st[k] = 0; cols++; *o = (void *)&CB[k]; return DISIR_STATUS_OK; }
enum disir_status dc_collection_next(struct disir_collection *c, struct disir_context **o)
{
  int k = (char *)c - CB; struct disir_context *L[3][3] = { { &KC[0], &SC[0], &KC[3] }, { &KC[1], &SC[1], NULL }, { &KC[2], NULL, NULL } }; CHECK(k >= 0 && k < 3, "the elements"); ASSUME(k >= 0 && k < 3); *o = NULL; if (fails()) return FS; if (st[k] == 3 || L[k][st[k]] == NULL) return DISIR_STATUS_EXHAUSTED; refs++; *o = L[k][st[k]++]; return DISIR_STATUS_OK;
}
enum disir_status dc_collection_push_context(struct disir_collection *c, struct disir_context *x) { CHECK(c == (void *)&CB[3], "collected"); if (fails()) return FS; if (npush < 6) pushed[npush] = x; npush++; return DISIR_STATUS_OK; }
enum disir_status disir_update_continue(struct disir_update *u) { CHECK(u == *UP && u->up_keyval == NULL && u->up_collection == (void *)&CB[3] && u->up_config_old == &w.cfg && u->up_config_target == &TG && veq(&u->up_target, &V), "the update is carried out on the config towards its target, and known to the caller"); ncont++; return R; }
#endif
static const char M_[] = "the update";
static void begin(int f, int r, _Bool own, enum disir_status fs)
{
  unsigned long live = vt_alloc_live; vt_world(); w.cfg.cf_elements = (void *)&ST[0]; for (int i = 0; i < 2; i++) { vt_ctx(&SC[i], DISIR_CONTEXT_SECTION, NULL, &w.cfgc); SC[i].cx_section = &SE[i]; SE[i].se_elements = (void *)&ST[i + 1]; } for (int i = 0; i < 4; i++) { vt_ctx(&KC[i], DISIR_CONTEXT_KEYVAL, NULL, &w.cfgc); KC[i].cx_keyval = &KV[i]; }
  w.cfg.cf_version = vt_nd_ver(); w.mold.mo_version = vt_nd_ver(); struct disir_version t = vt_nd_ver(), old = w.cfg.cf_version; V = own ? t : w.mold.mo_version; failat = f; FS = fs; R = nd_bool() ? DISIR_STATUS_OK : nd_bool() ? DISIR_STATUS_CONFLICT : DISIR_STATUS_NO_MEMORY; rel = r; ASSUME(r < 0 ? vt_key(&old) < vt_key(&V) : r > 0 ? vt_key(&old) > vt_key(&V) : vt_key(&old) == vt_key(&V));
  struct disir_update *u = NULL; npush = ngen = ncont = refs = cols = cfgs = 0; UP = &u;
  enum disir_status s = disir_update_config(&w.cfg, own ? &t : NULL, &u); _Bool failed = f > 0 && failat == 0;
  CHECK(refs == 0 && veq(&w.cfg.cf_version, &old), "no reference is kept, the version is that before");
  if (r >= 0) { CHECK(s == (r > 0 ? DISIR_STATUS_CONFLICTING_SEMVER : DISIR_STATUS_NO_CAN_DO), "a config that is as new or newer is refused"); CHECK(u == NULL && ngen == 0 && ncont == 0 && vt_alloc_live == live && cols == 0, "and nothing is done"); if (r == 0) REACH("equal"); else REACH("newer"); }
  else if (failed) { CHECK(s == FS, "a failure is reported"); CHECK(u == NULL && ncont == 0 && cols == 0 && cfgs == 0 && vt_alloc_live == live, "and leaves nothing behind"); if (f == 9) REACH("failed"); }
  else { CHECK(s == R && ncont == 1 && u != NULL && cfgs == 1 && cols == 1, "the update is started and its status given"); CHECK(npush == 4 && pushed[0] == &KC[0] && pushed[1] == &KC[1] && pushed[2] == &KC[2] && pushed[3] == &KC[3], "every keyval however deep is looked at, once, in order"); if (f == 0) REACH("started"); }
  CHECK(disir_update_config(NULL, &t, &u) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_config(&w.cfg, &t, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
}
#ifndef NF
#define NF 17
#endif
//@unit name=begin harness=h_begin unwind=22 bunwind=22 model=dc_version_compare,dc_version_set,dc_version_string,disir_config_finished,dc_putcontext,dc_collection_finished,disir_generate_config_from_mold,dc_collection_create,dx_element_storage_get_all,dc_collection_next,dc_collection_push_context,disir_update_continue bound=a_keyval,_a_section_with_a_keyval_and_a_section_with_one,_a_keyval;_every_call_failing_in_turn
void h_begin(void)
{
  begin(0, 0, 0, 0); begin(0, 1, 1, 0); begin(0, -1, 0, 0); begin(1, -1, 0, DISIR_STATUS_INVALID_CONTEXT);
  for (int f = 0; f <= NF; f++) begin(f, -1, 1, DISIR_STATUS_NO_MEMORY);
}
/* ---- carrying it out: what becomes of each value ---- */
static struct disir_default DF[2][2]; static _Bool EQT[2], EQC[2], has_t[2], copied[2], incoll; static int pos, nset[2], resolved[2], SZ; static enum disir_status SS, QS, DS; static struct disir_value *whole[2]; static char *wbuf[2]; static struct disir_version OLD; static struct disir_context TK[2]; static char T1[] = "r";
static struct disir_value *val(int i) { return &KV[i].kv_value; }
#ifdef M_dx_default_get_active
void dx_default_get_active(struct disir_context *kv, struct disir_version *v, struct disir_default **o)
{
  int i = kv == &MK[1]; CHECK(i || kv == &MK[0], "the mold of the keyval"); _Bool t = veq(v, &V); CHECK(t || veq(v, &OLD), "at the version of the config or the target"); *o = t ? has_t[i] ? &DF[i][1] : NULL : &DF[i][0];
}
int dx_value_compare(struct disir_value *a, struct disir_value *b)
{
  for (int i = 0; i < 2; i++) { struct disir_value *d = a == val(i) ? b : b == val(i) ? a : NULL; if (d == NULL) continue; CHECK(d == &DF[i][0].de_value || d == &DF[i][1].de_value, "a value is compared with a default of its own"); return (d == &DF[i][1].de_value ? EQT[i] : EQC[i]) ? 0 : i ? 1 : INT_MIN; }
  CHECK(0, "a value of the config is compared"); return 1;
}
enum disir_status dx_value_copy(struct disir_value *d, struct disir_value *s)
{
  int i = d == val(1); CHECK(i || d == val(0), "a value of the config"); CHECK(s == &DF[i][1].de_value && !copied[i], "takes the default of the target"); if (fails()) return FS; copied[i] = 1; *d = *s; return DISIR_STATUS_OK;
}
enum disir_status dc_collection_next(struct disir_collection *c, struct disir_context **o) { CHECK(c == (void *)&CB[3] && cols == 1, "the keyvals collected"); *o = NULL; if (fails()) return FS; if (pos == 2) return DISIR_STATUS_EXHAUSTED; refs++; *o = &KC[pos++]; return DISIR_STATUS_OK; }
enum disir_status dc_resolve_root_name(struct disir_context *c, char **o) { int i = c == &KC[1]; CHECK(i || c == &KC[0], "the place of the keyval"); if (fails()) return FS; char *p = vt_malloc(2); if (p == NULL) { FS = DISIR_STATUS_NO_MEMORY; return FS; } p[0] = 'a' + i; p[1] = 0; *o = p; return DISIR_STATUS_OK; }
static int where(const char *q, const char *n) { CHECK(q[0] == '%' && q[1] == 's' && q[2] == 0, "a name is no format"); CHECK((n[0] == 'a' || n[0] == 'b') && n[1] == 0, "the place of a keyval"); return n[0] == 'b'; }
static enum disir_status setk(struct disir_config *c, const char *q, const char *n, enum disir_value_type t, const char *s, int64_t i, double d, int b)
{
  int k = where(q, n); struct disir_value *v = val(k); CHECK(c == &TG && cfgs == 1, "the target config is given the value"); CHECK(v->dv_type == t && nset[k] == 0, "once, with its type");
  CHECK(t == DISIR_VALUE_TYPE_INTEGER ? i == v->dv_integer : t == DISIR_VALUE_TYPE_FLOAT ? d == v->dv_float || v->dv_float != v->dv_float : t == DISIR_VALUE_TYPE_BOOLEAN ? (b != 0) == (v->dv_boolean != 0) : s == v->dv_string && s != NULL, "the value of the config is kept");
  if (fails()) { FS = DISIR_STATUS_NO_MEMORY; return FS; } nset[k]++; return SS;
}
#define SETK(fn, ty, T, S, I, D, B) enum disir_status disir_config_set_keyval_##fn(struct disir_config *c, ty v, const char *q, ...) { va_list a; va_start(a, q); const char *n = va_arg(a, const char *); va_end(a); return setk(c, q, n, DISIR_VALUE_TYPE_##T, S, I, D, B); }
SETK(string, const char *, STRING, v, 0, 0, 0) SETK(enum, const char *, ENUM, v, 0, 0, 0) SETK(integer, int64_t, INTEGER, NULL, v, 0, 0) SETK(float, double, FLOAT, NULL, 0, v, 0) SETK(boolean, uint8_t, BOOLEAN, NULL, 0, 0, v)
enum disir_status dx_value_stringify(struct disir_value *v, int32_t n, char *o, int32_t *z)
{
  int k = v == val(0) || v == val(1) ? 0 : 1; if (k) CHECK(v == &DF[0][1].de_value || v == &DF[1][1].de_value, "a default of the target"); CHECK(n > 0, "room"); o[0] = 'v'; if (z) *z = SZ; if (SZ < n) { o[SZ] = 0; whole[k] = v; wbuf[k] = o; } else o[n - 1] = 0; return DISIR_STATUS_OK;
}
enum disir_status dc_query_resolve_context(struct disir_context *p, const char *q, struct disir_context **o, ...) { va_list a; va_start(a, o); const char *n = va_arg(a, const char *); va_end(a); int k = where(q, n); CHECK(p == &TC, "looked for in the target config"); if (QS != DISIR_STATUS_OK) return QS; refs++; *o = &TK[k]; return DISIR_STATUS_OK; }
enum disir_status dc_set_value(struct disir_context *c, const char *t, int32_t n) { int k = c == &TK[1]; CHECK((k || c == &TK[0]) && t == T1 && n == 1, "the resolution is given to the keyval of the target"); if (DS == DISIR_STATUS_OK) resolved[k]++; return DS; }
#endif
static _Bool conflict_on(struct disir_update *u, int i)
{
  const char *n = NULL, *k = NULL, *m = NULL; return disir_update_conflict(u, &n, &k, &m) == DISIR_STATUS_OK && n == KV[i].kv_name.dv_string && whole[0] == val(i) && k == wbuf[0] && whole[1] == &DF[i][1].de_value && m == wbuf[1];
}
static void carry(int f, int af, _Bool hand, enum disir_value_type ty, int sz, int combo)
{
  unsigned long live = vt_alloc_live; vt_world(); failat = f; vt_alloc_fail_at = 0; FS = DISIR_STATUS_NO_MEMORY; SZ = sz; static char S[2][3], N[2][2]; rel = 9;
  static const struct disir_version vs[4] = { { 1, 2 }, { 1, 3 }, { 0, 9 }, { 2, 0 } }; OLD = vs[0]; V = vs[3]; w.cfg.cf_version = OLD; vt_ctx(&TC, DISIR_CONTEXT_CONFIG, NULL, &TC); TG.cf_context = &TC; TC.cx_config = &TG; SS = combo % 3 == 0 ? DISIR_STATUS_OK : combo % 3 == 1 ? DISIR_STATUS_MOLD_MISSING : DISIR_STATUS_RESTRICTION_VIOLATED; pos = refs = 0; cols = cfgs = 1;
  for (int i = 0; i < 2; i++)
  {
    vt_ctx(&KC[i], DISIR_CONTEXT_KEYVAL, &w.cfgc, &w.cfgc); KC[i].cx_keyval = &KV[i]; KV[i].kv_mold_equiv = &MK[i]; KV[i].kv_name.dv_string = N[i]; vt_ctx(&TK[i], DISIR_CONTEXT_KEYVAL, &TC, &TC); int c = i ? combo / 7 : combo % 7; /* no default; an old one (2 versions); a new one: equal, as the value was, another (2 versions) */
    EQT[i] = c == 3; EQC[i] = c == 4 || (c == 2 && combo & 1); has_t[i] = c > 0; copied[i] = 0; nset[i] = resolved[i] = 0; DF[i][0].de_introduced = vs[2]; DF[i][1].de_introduced = vs[c < 3 ? c == 1 ? 0 : 2 : c == 6 ? 3 : 1];
    for (int j = 0; j < 3; j++) { struct disir_value *v = j == 2 ? val(i) : &DF[i][j].de_value; v->dv_type = ty; if (ty == DISIR_VALUE_TYPE_INTEGER) v->dv_integer = nd_i64(); else if (ty == DISIR_VALUE_TYPE_FLOAT) v->dv_float = nd_double(); else if (ty == DISIR_VALUE_TYPE_BOOLEAN) v->dv_boolean = nd_bool(); else v->dv_string = &S[i][j]; }
    whole[i] = NULL; wbuf[i] = NULL;
  }
  struct disir_update *u = vt_calloc(1, sizeof *u); u->up_target = V; u->up_config_old = &w.cfg; u->up_config_target = &TG; u->up_collection = (void *)&CB[3];
  vt_alloc_fail_at = af; int at = 0, nc = 0, nu = 0; _Bool done = 0, failed = 0; enum disir_status s;
  for (int step = 0; step < 3 && !done && !failed; step++)
  {
    s = disir_update_continue(u); _Bool conf = 0; 
    failed = (f && failat == 0) || (af && vt_alloc_fail_at == 0);
    if (failed) { CHECK(s == FS, "a failure is reported"); CHECK(u->up_keyval == NULL && veq(&w.cfg.cf_version, &OLD) && refs == 0, "the config keeps its version, nothing is held and there is no conflict"); break; }
    for (int i = 0; i < 2; i++) if (i >= at && !conf)
    {
      _Bool newer = has_t[i] && vt_key(&DF[i][1].de_introduced) > vt_key(&OLD), take = newer && !EQT[i] && EQC[i]; conf = newer && !EQT[i] && !EQC[i]; at = i + 1;
      CHECK(copied[i] == take, "a value follows the default exactly when that is new and the value was the old default"); nu += take;
      CHECK(nset[i] == 1, "and is carried over to the target");
      if (conf)
      {
        CHECK(s == DISIR_STATUS_CONFLICT && conflict_on(u, i) && refs == 1, "a value of the user's own that a new default differs from is a conflict, told whole"); nc++;
        CHECK(i == 1 || nset[1] == 0, "and waits for its resolution"); CHECK(disir_update_continue(u) == DISIR_STATUS_CONFLICT && conflict_on(u, i) && refs == 1 && pos == i + 1, "which cannot be left out");
        int kf = failat, ka = vt_alloc_fail_at; vt_alloc_fail_at = 0; failat = 1; CHECK(disir_update_resolve(u, T1) == FS && conflict_on(u, i) && refs == 1, "a resolution that fails leaves the conflict"); failat = 0; vt_alloc_fail_at = 1; CHECK(disir_update_resolve(u, T1) == DISIR_STATUS_NO_MEMORY && conflict_on(u, i) && refs == 1, "one without memory, too"); vt_alloc_fail_at = 0;
        QS = DISIR_STATUS_NOT_EXIST; DS = DISIR_STATUS_OK; CHECK(disir_update_resolve(u, T1) == QS && conflict_on(u, i) && refs == 1, "a resolution that finds no place leaves the conflict"); QS = DISIR_STATUS_OK; DS = DISIR_STATUS_RESTRICTION_VIOLATED; CHECK(disir_update_resolve(u, T1) == DS && conflict_on(u, i) && refs == 1, "a resolution refused leaves the conflict");
        DS = DISIR_STATUS_OK; if (!hand || i == 0) { CHECK(disir_update_resolve(u, T1) == DISIR_STATUS_OK && resolved[i] == 1 && u->up_keyval == NULL && refs == 0, "the conflict is resolved with the value given"); nu++; const char *x, *y, *z; CHECK(disir_update_resolve(u, T1) == DISIR_STATUS_NO_CAN_DO && disir_update_conflict(u, &x, &y, &z) == DISIR_STATUS_NO_CAN_DO, "without a conflict there is none to resolve"); 
#if FL == 0
  if (i == 1) REACH("resolved");
#endif
   } else done = 1;
        failat = kf; vt_alloc_fail_at = ka;
      }
    }
    if (!conf) { CHECK(s == DISIR_STATUS_OK && at == 2 && veq(&w.cfg.cf_version, &V) && refs == 0, "then the update is complete and the config is of the target version"); done = 1; 
#if FL == 0
  if (nu) REACH("complete");
#endif
   } else CHECK(veq(&w.cfg.cf_version, &OLD), "no earlier");
    CHECK(u->up_updated == nu, "what changed is counted");
  }
  vt_alloc_fail_at = 0; failat = 0; struct disir_config *out = NULL;
  CHECK(disir_update_finished(&u, hand ? &out : NULL) == DISIR_STATUS_OK && u == NULL, "the update is ended"); CHECK(hand ? out == &TG && cfgs == 1 : cfgs == 0, "the target is the caller's or destroyed"); CHECK(refs == 0 && cols == 0 && vt_alloc_live == live, "and nothing is left behind");
  
#if FL == 1
  if (f == 4 && failed) REACH("failed");
#endif
   
#if FL == 2
  if (af == 4 && failed) REACH("no memory");
#endif
  
}
//@unit name=carry_a harness=h_carry defs=FL=0,LO=0,HI=49 unwind=14 bunwind=14 model=dc_version_compare,dc_version_set,dc_version_string,disir_config_finished,dc_putcontext,dc_collection_finished,dx_default_get_active,dx_value_compare,dx_value_copy,dc_collection_next,dc_resolve_root_name,disir_config_set_keyval_string,disir_config_set_keyval_enum,disir_config_set_keyval_integer,disir_config_set_keyval_float,disir_config_set_keyval_boolean,dx_value_stringify,dc_query_resolve_context,dc_set_value bound=two_keyvals
//@unit name=carry_b harness=h_carry defs=FL=0,LO=1,HI=49 unwind=14 bunwind=14 model=dc_version_compare,dc_version_set,dc_version_string,disir_config_finished,dc_putcontext,dc_collection_finished,dx_default_get_active,dx_value_compare,dx_value_copy,dc_collection_next,dc_resolve_root_name,disir_config_set_keyval_string,disir_config_set_keyval_enum,disir_config_set_keyval_integer,disir_config_set_keyval_float,disir_config_set_keyval_boolean,dx_value_stringify,dc_query_resolve_context,dc_set_value bound=two_keyvals
//@unit name=carry_c harness=h_carry defs=FL=0,LO=2,HI=49 unwind=14 bunwind=14 model=dc_version_compare,dc_version_set,dc_version_string,disir_config_finished,dc_putcontext,dc_collection_finished,dx_default_get_active,dx_value_compare,dx_value_copy,dc_collection_next,dc_resolve_root_name,disir_config_set_keyval_string,disir_config_set_keyval_enum,disir_config_set_keyval_integer,disir_config_set_keyval_float,disir_config_set_keyval_boolean,dx_value_stringify,dc_query_resolve_context,dc_set_value bound=two_keyvals
//@unit name=carry_d harness=h_carry defs=FL=0,LO=3,HI=49 unwind=14 bunwind=14 model=dc_version_compare,dc_version_set,dc_version_string,disir_config_finished,dc_putcontext,dc_collection_finished,dx_default_get_active,dx_value_compare,dx_value_copy,dc_collection_next,dc_resolve_root_name,disir_config_set_keyval_string,disir_config_set_keyval_enum,disir_config_set_keyval_integer,disir_config_set_keyval_float,disir_config_set_keyval_boolean,dx_value_stringify,dc_query_resolve_context,dc_set_value bound=two_keyvals
//@unit name=carry_failing harness=h_carry defs=FL=1,LO=0,HI=4 unwind=14 bunwind=14 model=dc_version_compare,dc_version_set,dc_version_string,disir_config_finished,dc_putcontext,dc_collection_finished,dx_default_get_active,dx_value_compare,dx_value_copy,dc_collection_next,dc_resolve_root_name,disir_config_set_keyval_string,disir_config_set_keyval_enum,disir_config_set_keyval_integer,disir_config_set_keyval_float,disir_config_set_keyval_boolean,dx_value_stringify,dc_query_resolve_context,dc_set_value bound=two_keyvals
//@unit name=carry_no_memory harness=h_carry defs=FL=2,LO=0,HI=4 unwind=14 bunwind=14 model=dc_version_compare,dc_version_set,dc_version_string,disir_config_finished,dc_putcontext,dc_collection_finished,dx_default_get_active,dx_value_compare,dx_value_copy,dc_collection_next,dc_resolve_root_name,disir_config_set_keyval_string,disir_config_set_keyval_enum,disir_config_set_keyval_integer,disir_config_set_keyval_float,disir_config_set_keyval_boolean,dx_value_stringify,dc_query_resolve_context,dc_set_value bound=two_keyvals
void h_carry(void)
{
  int fmax = FL == 0 ? 0 : FL == 1 ? 8 : 5;
  for (int f = FL != 0; f <= fmax; f++) for (int c = LO; c < HI; c += FL == 0 ? 4 : 1) { int k = FL == 0 ? c : c == 0 ? 4 + 7 * 5 : c == 1 ? 5 + 7 * 4 : c == 2 ? 6 + 7 * 3 : 1 + 7 * 4; carry(FL == 1 ? f : 0, FL == 2 ? f : 0, (k / 4 + f) & 1, 1 + k % 5, k % 4 == 0 ? 3 : k % 4 == 1 ? 511 : k % 4 == 2 ? 512 : 700, k); }
}
/* ---- an update that is carried through: every conflict is resolved with the config's value ---- */
static struct disir_update UPD; static char KT[2][2], MT[2][2]; static int nk, nr, ended, oldgone; static _Bool handed, rest[2]; static enum disir_status seq[3];
#ifdef M_disir_update_config
enum disir_status disir_update_config(struct disir_config *c, struct disir_version *t, struct disir_update **o) { CHECK(c == &w.cfg && (t == NULL || t == &w.mold.mo_version), "the config is updated to its mold's version"); if (fails()) { if (FS != DISIR_STATUS_NO_CAN_DO) *o = &UPD; return FS; } *o = &UPD; return seq[0]; }
enum disir_status disir_update_conflict(struct disir_update *u, const char **n, const char **k, const char **m) { CHECK(u == &UPD && nk < 2, "the conflict"); if (fails()) return FS; *n = NULL; *k = KT[nk]; *m = MT[nk]; return DISIR_STATUS_OK; }
enum disir_status disir_update_resolve(struct disir_update *u, const char *t)
{
  CHECK(u == &UPD && nk < 2, "a conflict is resolved"); if (t == MT[nk]) CHECK(nr == 1 && rest[nk], "with the mold's value only when that of the config is not allowed"); else CHECK(t == KT[nk] && nr == 0, "with the value of the config first"); nr++; if (fails()) return FS; if (t == KT[nk] && rest[nk]) return DISIR_STATUS_RESTRICTION_VIOLATED; nr = 9; return DISIR_STATUS_OK;
}
enum disir_status disir_update_continue(struct disir_update *u) { CHECK(u == &UPD && nr == 9, "once the conflict is resolved the update goes on"); if (fails()) return FS; nr = 0; nk++; return seq[nk]; }
enum disir_status disir_update_finished(struct disir_update **u, struct disir_config **c) { CHECK(*u == &UPD && !ended, "the update ends once"); ended = 1; *u = NULL; if (c) { handed = 1; *c = &TG; } return DISIR_STATUS_OK; }
#endif
#ifdef M_old_finished
enum disir_status disir_config_finished(struct disir_config **c) { CHECK(*c == &w.cfg && !oldgone, "the old config is released once"); oldgone = 1; *c = NULL; return DISIR_STATUS_OK; }
#endif
static void through(int f, int conflicts, int r, _Bool discard, enum disir_status fs)
{
  vt_world(); failat = f; FS = fs; nk = nr = 0; ended = oldgone = handed = 0; rest[0] = r & 1; rest[1] = r & 2; for (int i = 0; i < 3; i++) seq[i] = i < conflicts ? DISIR_STATUS_CONFLICT : DISIR_STATUS_OK;
  struct disir_config *c = &w.cfg; enum disir_status s = dx_update_config_with_changes(&c, discard); _Bool stuck = !discard && ((conflicts > 0 && rest[0]) || (conflicts > 1 && rest[1])), failed = f && failat == 0;
  if (failed || stuck) { CHECK(s == (failed ? FS : DISIR_STATUS_RESTRICTION_VIOLATED), "a failure, or a value that is not allowed, is reported"); CHECK(c == &w.cfg && !oldgone && !handed, "and the config stays the caller's"); CHECK(ended == !(f == 1 && failed && fs == DISIR_STATUS_NO_CAN_DO), "the update is ended"); if (stuck) REACH("not allowed"); else REACH("failed"); }
  else { CHECK(s == DISIR_STATUS_OK && nk == conflicts && handed && ended && oldgone && c == &TG, "every conflict is resolved, the caller has the updated config in place of the old one"); if (conflicts == 2) REACH("updated"); }
}
//@unit name=through harness=h_through unwind=10 bunwind=10 model=disir_update_config,disir_update_conflict,disir_update_resolve,disir_update_continue,disir_update_finished,disir_config_finished defs=M_old_finished=1 bound=up_to_two_conflicts
void h_through(void)
{
  for (int n = 0; n < 3; n++) for (int r = 0; r < 1 << n; r++) for (int d = 0; d < 2; d++) { through(0, n, r, d, 0); for (int f = 1; f < 2 + 5 * n && f < 10; f++) through(f, n, r, d, f == 1 && n == 0 ? DISIR_STATUS_NO_CAN_DO : DISIR_STATUS_NO_MEMORY); }
}
//@unit name=null harness=h_null unwind=4 bunwind=4 bound=none
void h_null(void)
{
  struct disir_update *u = NULL, x; memset(&x, 0, sizeof x); const char *a, *b, *c; struct disir_config *o;
  CHECK(disir_update_continue(NULL) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_resolve(NULL, "a") == DISIR_STATUS_INVALID_ARGUMENT && disir_update_resolve(&x, NULL) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_finished(NULL, &o) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_finished(&u, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  CHECK(disir_update_conflict(NULL, &a, &b, &c) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_conflict(&x, NULL, &b, &c) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_conflict(&x, &a, NULL, &c) == DISIR_STATUS_INVALID_ARGUMENT && disir_update_conflict(&x, &a, &b, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "a conflict is not told to nowhere"); REACH("refused");
}
