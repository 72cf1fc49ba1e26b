//@file prop=P07 unwind=8 bunwind=6 sources=context_restriction.c,context.c,context_util.c,util.c
#define K 6
#include "model.h"
#include "log_stub.h"
#include "rlist.h"
/* the entry restrictions of an element: a list of any length (rlist.h), and its defaults: a list of any length */
#if ELIDE
#define DK 5
#else
#define DK 3
#endif
static struct disir_default DF[DK]; static _Bool don[DK]; static int dpos[DK], DLEN;
static struct disir_context secc, csec; static struct disir_section sec, sec2;
static void dlist(void)
{
  DLEN = nd_int(); ASSUME(DLEN >= 0 && DLEN < INT_MAX - 2); if (!ELIDE) ASSUME(DLEN <= DK);
  for (int i = 0; i < DK; i++) {
    DF[i].de_introduced = vt_nd_ver();
    if (ELIDE) { don[i] = nd_bool(); dpos[i] = nd_int(); ASSUME(dpos[i] >= 0 && dpos[i] < INT_MAX - 2 && (!don[i] || dpos[i] < DLEN)); for (int j = 0; j < i; j++) ASSUME(!don[i] || !don[j] || dpos[i] != dpos[j]); DF[i].next = VT_GAP; DF[i].prev = VT_GAP; }
    else { don[i] = i < DLEN; dpos[i] = i; DF[i].next = i + 1 < DLEN ? &DF[i + 1 < DK ? i + 1 : 0] : NULL; DF[i].prev = i ? &DF[i - 1] : &DF[DLEN ? DLEN - 1 : 0]; }
  }
  if (ELIDE) {
    ASSUME(DLEN == 0 || don[0]);
    DF[0].next = dpos[0] + 1 < DLEN ? &DF[1] : NULL; ASSUME(DLEN == 0 || dpos[0] + 1 == DLEN || (don[1] && dpos[1] == dpos[0] + 1));
    ASSUME(DLEN == 0 || dpos[0] == 0 || (don[2] && dpos[2] == 0));
    if (DLEN == 0) w.mkv.kv_default_queue = NULL; else if (dpos[0] == 0) w.mkv.kv_default_queue = &DF[0]; else w.mkv.kv_default_queue = &DF[2];
  } else w.mkv.kv_default_queue = DLEN ? &DF[0] : NULL;
}
static struct disir_version VER;
static void world(_Bool section)
{
  vt_world();
  vt_ctx(&secc, DISIR_CONTEXT_SECTION, &w.moldc, &w.moldc); secc.cx_section = &sec; sec.se_context = &secc;
  vt_ctx(&csec, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); csec.cx_section = &sec2; sec2.se_context = &csec; sec2.se_mold_equiv = &secc; w.ckv.kv_mold_equiv = &w.mkvc;
  w.cfg.cf_version = vt_nd_ver(); w.mold.mo_version = vt_nd_ver(); VER = vt_nd_ver();
  w.mkv.kv_deprecated = vt_nd_ver(); sec.se_introduced = vt_nd_ver(); sec.se_deprecated = vt_nd_ver();
  w.ckv.kv_deprecated = vt_nd_ver(); sec2.se_introduced = vt_nd_ver(); sec2.se_deprecated = vt_nd_ver();
  rlist_links(section ? &secc : &w.mkvc, &w.moldc, section ? &sec.se_restrictions_queue : &w.mkv.kv_restrictions_queue);
  for (int i = 0; i < K; i++) {
    int t = nd_int(); ASSUME(t > 0 && t < DISIR_RESTRICTION_UNKNOWN); R[i].re_type = t; R[i].re_introduced = vt_nd_ver(); R[i].re_deprecated = vt_nd_ver();
    R[i].re_value_min = nd_double(); R[i].re_value_max = nd_double(); R[i].re_value_numeric = nd_double(); ASSUME(R[i].re_value_min >= 0 && R[i].re_value_max >= 0);
  }
  if (!section) dlist();
}
/* ---- what the list says ---- */
static uint64_t at, key[K]; static int lim[K]; static _Bool cmin[K], cmax[K]; /* the version asked for; candidates */
static int limit(double x) { return x < 2147483647.0 ? (int)x : INT_MAX; }
static void facts(void)
{
  for (int i = 0; i < K; i++) {
    key[i] = vt_key(&R[i].re_introduced); _Bool a = on[i] && key[i] <= at;
    cmin[i] = a && R[i].re_type == DISIR_RESTRICTION_INC_ENTRY_MIN; cmax[i] = a && R[i].re_type == DISIR_RESTRICTION_INC_ENTRY_MAX;
    lim[i] = limit(R[i].re_type == DISIR_RESTRICTION_INC_ENTRY_MIN ? R[i].re_value_min : R[i].re_value_max);
  }
}
/* i is the newest candidate of its kind among the nodes before p (the first of equals) */
static _Bool newest(int i, const _Bool *cand, int p)
{
  if (!cand[i] || pos[i] >= p) return 0;
  for (int j = 0; j < K; j++) if (j != i && cand[j] && pos[j] < p && (key[j] > key[i] || (key[j] == key[i] && pos[j] < pos[i]))) return 0;
  return 1;
}
static _Bool none(const _Bool *cand, int p) { for (int j = 0; j < K; j++) if (cand[j] && pos[j] < p) return 0; return 1; }
static int value(const _Bool *cand) { for (int i = 0; i < K; i++) if (newest(i, cand, LEN)) return lim[i]; return -1; }
static _Bool dlowest(int i, int p) { if (!don[i] || dpos[i] >= p) return 0; for (int j = 0; j < DK; j++) if (don[j] && dpos[j] < p && vt_key(&DF[j].de_introduced) < vt_key(&DF[i].de_introduced)) return 0; return 1; }
#if ELIDE
static int dat(struct disir_default *e) { return e == NULL ? DLEN : e == &DF[0] ? dpos[0] : e == &DF[1] ? dpos[1] : 0; }
struct disir_default *vt_ed_havoc(struct disir_version **v) { int i = nd_int(); *v = i == 0 ? NULL : i == 1 ? &DF[2].de_introduced : &DF[3].de_introduced; return DLEN > 0 && nd_bool() ? &DF[0] : NULL; }
_Bool vt_ed_inv(struct disir_default *e, struct disir_version *v)
{
  if (!(e == NULL || (e == &DF[0] && don[0]) || (e == &DF[1] && don[1]) || (e == &DF[2] && don[2] && dpos[2] == 0))) return 0;
  if (v == NULL) return dat(e) == 0;
  for (int i = 0; i < DK; i++) if (v == &DF[i].de_introduced && dlowest(i, dat(e))) return 1;
  return 0;
}
struct disir_restriction *vt_er_havoc(int *mn, int *mx, struct disir_version **a, struct disir_version **b)
{
  int i = nd_int(), j = nd_int(); *mn = nd_int(); *mx = nd_int();
  *a = i == 0 ? NULL : i == 1 ? &R[2].re_introduced : &R[3].re_introduced; *b = j == 0 ? NULL : j == 1 ? &R[2].re_introduced : &R[4].re_introduced;
  return rlist_any();
}
_Bool vt_er_inv(struct disir_restriction *e, int mn, int mx, struct disir_version *a, struct disir_version *b)
{
  if (!rlist_known(e)) return 0;
  int p = rlist_at(e); _Bool oa = a == NULL && mn == -1 && none(cmin, p), ob = b == NULL && mx == -1 && none(cmax, p);
  for (int i = 0; i < K; i++) {
    if (a == &R[i].re_introduced) oa = newest(i, cmin, p) && mn == lim[i];
    if (b == &R[i].re_introduced) ob = newest(i, cmax, p) && mx == lim[i];
  }
  return oa && ob;
}
#endif
static void expect(_Bool section, int *mn, int *mx)
{
  int a = value(cmin), b = value(cmax);
  *mn = a < 0 ? 1 : a; *mx = b < 0 ? 1 : b;
  if (*mx != 0 && *mx < a) *mx = a;
  uint64_t in = 0, dep = vt_key(section ? &sec.se_deprecated : &w.mkv.kv_deprecated); _Bool has = section;
  if (section) in = vt_key(&sec.se_introduced); else for (int i = 0; i < DK; i++) if (don[i] && dlowest(i, DLEN)) { in = vt_key(&DF[i].de_introduced); has = 1; }
  if ((has && in > at) || (dep != 0 && dep <= at)) { *mn = 0; *mx = -1; }
}
/* how: 0 config element, 1 mold element; the version is given or that of the config / mold */
static void ask(_Bool section, _Bool mold, _Bool given, _Bool wantmin)
{
  world(section);
  struct disir_context *c = section ? (mold ? &secc : &csec) : mold ? &w.mkvc : &w.ckvc; int out = -77, mn, mx;
  at = given ? vt_key(&VER) : mold ? vt_key(&w.mold.mo_version) : vt_key(&w.cfg.cf_version);
  facts();
  enum disir_status st = given ? dx_restriction_entries_value(c, wantmin ? DISIR_RESTRICTION_INC_ENTRY_MIN : DISIR_RESTRICTION_INC_ENTRY_MAX, &VER, &out) : wantmin ? dc_restriction_entries_minimum(c, &out) : dc_restriction_entries_maximum(c, &out);
  expect(section, &mn, &mx);
  CHECK(st == DISIR_STATUS_OK && out == (wantmin ? mn : mx), "the number of entries follows the newest entry restriction that applies at the version");
}
#ifndef CASE
#define CASE 0
#endif
void h_keyval(void) { ask(0, CASE >> 2 & 1, CASE >> 1 & 1, CASE & 1); REACH("keyval"); }
void h_section(void) { ask(1, CASE >> 2 & 1, CASE >> 1 & 1, CASE & 1); REACH("section"); }
//@assume *: the lists of restrictions and defaults are chains of explicit nodes with any number of elided nodes between them (lists of any length below 2^31, DESIGN.md); bounds of entry restrictions are not negative
//@unit name=keyval_config_max harness=h_keyval model=dx_context_type_check_log_error cuts=entries_value bound=4_restrictions,3_defaults defs=CASE=0
//@unit name=section_config_max harness=h_section model=dx_context_type_check_log_error cuts=entries_value bound=4_restrictions defs=CASE=0
//@unit name=keyval_config_min harness=h_keyval model=dx_context_type_check_log_error cuts=entries_value bound=4_restrictions,3_defaults defs=CASE=1
//@unit name=keyval_config_version_max harness=h_keyval model=dx_context_type_check_log_error cuts=entries_value bound=4_restrictions,3_defaults defs=CASE=2
//@unit name=section_config_version_min harness=h_section model=dx_context_type_check_log_error cuts=entries_value bound=4_restrictions defs=CASE=3
//@unit name=section_mold_max harness=h_section model=dx_context_type_check_log_error cuts=entries_value bound=4_restrictions defs=CASE=4
//@unit name=keyval_mold_min harness=h_keyval model=dx_context_type_check_log_error cuts=entries_value bound=4_restrictions,3_defaults defs=CASE=5
//@unit name=section_mold_version_min harness=h_section model=dx_context_type_check_log_error cuts=entries_value bound=4_restrictions defs=CASE=7
