//@file prop=P28 unwind=16 sources=context.c,context_mold.c,context_config.c,util.c,context_util.c
#include "model.h"
#include "log_stub.h"
static struct disir_context secc, resc, docc, csec, cdoc; static struct disir_section sec, sec2; static struct disir_restriction res; static struct disir_documentation doc, doc2;
#define NC 14
static struct disir_version *cell[NC], old[NC], V, O;
/* one context of every kind, in a mold and in a config; every version is any version */
static void world(void)
{
  vt_world(); O = vt_nd_ver(); V = vt_nd_ver();
  vt_ctx(&secc, DISIR_CONTEXT_SECTION, &w.moldc, &w.moldc); secc.cx_section = &sec; sec.se_context = &secc;
  vt_ctx(&resc, DISIR_CONTEXT_RESTRICTION, &w.mkvc, &w.moldc); resc.cx_restriction = &res; res.re_context = &resc;
  vt_ctx(&docc, DISIR_CONTEXT_DOCUMENTATION, &w.mkvc, &w.moldc); docc.cx_documentation = &doc; doc.dd_context = &docc;
  vt_ctx(&csec, DISIR_CONTEXT_SECTION, &w.cfgc, &w.cfgc); csec.cx_section = &sec2; sec2.se_context = &csec;
  vt_ctx(&cdoc, DISIR_CONTEXT_DOCUMENTATION, &w.ckvc, &w.cfgc); cdoc.cx_documentation = &doc2; doc2.dd_context = &cdoc;
  struct disir_version *c[NC] = { &w.mold.mo_version, &w.cfg.cf_version, &w.mkv.kv_deprecated, &w.def.de_introduced, &sec.se_introduced, &sec.se_deprecated, &res.re_introduced, &res.re_deprecated, &doc.dd_introduced, &V, &O, &w.ckv.kv_deprecated, &sec2.se_introduced, &doc2.dd_introduced };
  w.mold.mo_version = vt_nd_ver(); w.cfg.cf_version = vt_nd_ver(); w.mkv.kv_deprecated = vt_nd_ver(); w.def.de_introduced = vt_nd_ver();
  sec.se_introduced = vt_nd_ver(); sec.se_deprecated = vt_nd_ver(); res.re_introduced = vt_nd_ver(); res.re_deprecated = vt_nd_ver(); doc.dd_introduced = vt_nd_ver();
  w.ckv.kv_deprecated = vt_nd_ver(); sec2.se_introduced = vt_nd_ver(); doc2.dd_introduced = vt_nd_ver();
  for (int i = 0; i < NC; i++) { cell[i] = c[i]; old[i] = *c[i]; }
}
/* nothing but the given cell changed, and that one to v */
static void only(struct disir_version *p, struct disir_version *v)
{
  for (int i = 0; i < NC; i++) {
    if (p == cell[i]) CHECK(vt_key(cell[i]) == vt_key(v), "the version is stored in full");
    else CHECK(vt_key(cell[i]) == vt_key(&old[i]), "no other version changes");
  }
}
static void sti(struct disir_context *c, struct disir_version *p)
{
  struct disir_version v0 = V;
  enum disir_status st = dc_add_introduced(c, &V);
  CHECK((st == DISIR_STATUS_OK) == (p != NULL), "introduced versions belong to the sections, defaults, restrictions and documentation of a mold");
  only(p, &v0);
  CHECK(dc_add_introduced(c, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL version is refused"); only(p, &v0);
}
static void std(struct disir_context *c, struct disir_version *p)
{
  struct disir_version v0 = V;
  enum disir_status st = dc_add_deprecated(c, &V);
  CHECK((st == DISIR_STATUS_OK) == (p != NULL), "deprecated versions belong to the keyvals, sections and restrictions of a mold");
  only(p, &v0);
  CHECK(dc_add_deprecated(c, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL version is refused"); only(p, &v0);
}
static void gti(struct disir_context *c, struct disir_version *p)
{
  struct disir_version p0 = V; if (p) p0 = *p;
  enum disir_status st = dc_get_introduced(c, &V);
  CHECK(st == (p ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_CONTEXT), "introduced versions are read where they exist");
  only(p ? &V : NULL, &p0);
  CHECK(dc_get_introduced(c, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL output is refused");
}
static void gtd(struct disir_context *c, struct disir_version *p)
{
  struct disir_version p0 = V; if (p) p0 = *p;
  enum disir_status st = dc_get_deprecated(c, &V);
  CHECK(st == (p ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_CONTEXT), "deprecated versions are read where they exist");
  only(p ? &V : NULL, &p0);
  CHECK(dc_get_deprecated(c, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL output is refused");
}
#define EACH(F, M, K_, D, S, R, DO) switch (nd_int()) { case 0: F(&w.moldc, M); break; case 1: F(&w.mkvc, K_); break; case 2: F(&w.defc, D); break; case 3: F(&secc, S); break; case 4: F(&resc, R); break; case 5: F(&docc, DO); break; \
  case 6: F(&w.cfgc, NULL); break; case 7: F(&w.ckvc, NULL); break; case 8: F(&csec, NULL); break; default: F(&cdoc, NULL); }
//@unit name=add_introduced harness=h_ai model=dx_context_type_check_log_error,dc_version_string
void h_ai(void) { world(); EACH(sti, NULL, NULL, &w.def.de_introduced, &sec.se_introduced, &res.re_introduced, &doc.dd_introduced) CHECK(dc_add_introduced(NULL, &V) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); REACH("ai"); }
//@unit name=add_deprecated harness=h_ad model=dx_context_type_check_log_error,dc_version_string
void h_ad(void) { world(); EACH(std, NULL, &w.mkv.kv_deprecated, NULL, &sec.se_deprecated, &res.re_deprecated, NULL) CHECK(dc_add_deprecated(NULL, &V) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); REACH("ad"); }
//@unit name=get_introduced harness=h_gi model=dx_context_type_check_log_error,dc_version_string
void h_gi(void) { world(); EACH(gti, &w.mold.mo_version, NULL, &w.def.de_introduced, &sec.se_introduced, &res.re_introduced, &doc.dd_introduced) CHECK(dc_get_introduced(NULL, &V) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); REACH("gi"); }
//@unit name=get_deprecated harness=h_gd model=dx_context_type_check_log_error,dc_version_string
void h_gd(void) { world(); EACH(gtd, NULL, &w.mkv.kv_deprecated, NULL, &sec.se_deprecated, &res.re_deprecated, NULL) CHECK(dc_get_deprecated(NULL, &V) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); REACH("gd"); }

static void gv(struct disir_context *c, struct disir_version *p)
{
  struct disir_version p0 = V; if (p) p0 = *p;
  CHECK(dc_get_version(c, &V) == (p ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_CONTEXT), "only molds and configs have a version"); only(p ? &V : NULL, &p0);
  CHECK(dc_get_version(c, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL output is refused");
}
static void sv(struct disir_context *c, struct disir_version *p)
{
  struct disir_version v0 = V; _Bool high = p == &w.cfg.cf_version && vt_key(&V) > vt_key(&w.mold.mo_version);
  enum disir_status st = dc_set_version(c, &V);
  CHECK(st == (!p ? DISIR_STATUS_WRONG_CONTEXT : high ? DISIR_STATUS_CONFLICTING_SEMVER : DISIR_STATUS_OK), "a config's version never exceeds that of its mold");
  only(high ? NULL : p, &v0);
  CHECK(dc_set_version(c, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL version is refused");
}
#define EACHV(F) switch (nd_int()) { case 0: F(&w.moldc, &w.mold.mo_version); break; case 1: F(&w.mkvc, NULL); break; case 2: F(&w.defc, NULL); break; case 3: F(&secc, NULL); break; case 4: F(&resc, NULL); break; case 5: F(&docc, NULL); break; \
  case 6: F(&w.cfgc, &w.cfg.cf_version); break; case 7: F(&w.ckvc, NULL); break; case 8: F(&csec, NULL); break; default: F(&cdoc, NULL); }
//@unit name=get_version harness=h_gv model=dx_context_type_check_log_error,dc_version_string
void h_gv(void)
{
  world(); struct disir_version m = V, c = V;
  CHECK(dc_mold_get_version(&w.mold, &m) == DISIR_STATUS_OK && vt_key(&m) == vt_key(&w.mold.mo_version), "the version of the mold");
  CHECK(dc_config_get_version(&w.cfg, &c) == DISIR_STATUS_OK && vt_key(&c) == vt_key(&w.cfg.cf_version), "the version of the config");
  CHECK(dc_mold_get_version(NULL, &m) == DISIR_STATUS_INVALID_ARGUMENT && dc_mold_get_version(&w.mold, NULL) == DISIR_STATUS_INVALID_ARGUMENT && dc_config_get_version(NULL, &c) == DISIR_STATUS_INVALID_ARGUMENT && dc_config_get_version(&w.cfg, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  EACHV(gv) CHECK(dc_get_version(NULL, &V) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); REACH("gv");
}
//@unit name=set_version harness=h_sv model=dx_context_type_check_log_error,dc_version_string
void h_sv(void) { world(); EACHV(sv) CHECK(dc_set_version(NULL, &V) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); REACH("sv"); }

//@unit name=update_version harness=h_uv model=dc_version_string
void h_uv(void)
{
  world(); struct disir_version big = vt_key(&V) > vt_key(&w.mold.mo_version) ? V : w.mold.mo_version;
  CHECK(dx_mold_update_version(&w.mold, &V) == DISIR_STATUS_OK, "updating succeeds"); only(&w.mold.mo_version, &big);
  CHECK(dx_mold_update_version(NULL, &V) == DISIR_STATUS_INVALID_ARGUMENT && dx_mold_update_version(&w.mold, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused"); only(&w.mold.mo_version, &big);
  REACH("uv");
}
/* finalizing a child raises the version of its mold to cover it; the type specific finalizers are any status here */
#if defined M_dx_keyval_finalize && defined FK
static enum disir_status fst; static struct disir_context *fctx; static int fcalls, fkind;
#define FIN(N, T) enum disir_status N(struct disir_context *c) { fcalls++; fctx = c; fkind = T; return fst; }
FIN(dx_keyval_finalize, DISIR_CONTEXT_KEYVAL) FIN(dx_section_finalize, DISIR_CONTEXT_SECTION) FIN(dx_default_finalize, DISIR_CONTEXT_DEFAULT) FIN(dx_restriction_finalize, DISIR_CONTEXT_RESTRICTION) FIN(dx_documentation_finalize, DISIR_CONTEXT_DOCUMENTATION)
static void fin(struct disir_context *c, struct disir_version *in, struct disir_version *de)
{
  c->CONTEXT_STATE_CONSTRUCTING = 1; c->CONTEXT_STATE_FINALIZED = 0; int k = c->cx_type;
  struct disir_version big = w.mold.mo_version; if (in && vt_key(in) > vt_key(&big)) big = *in; if (de && de->sv_major != 0 && vt_key(de) > vt_key(&big)) big = *de;
  struct disir_context *p = c; enum disir_status st = dc_finalize(&p);
  _Bool done = fst == DISIR_STATUS_OK || fst == DISIR_STATUS_INVALID_CONTEXT || fst == DISIR_STATUS_ELEMENTS_INVALID, put = done && fst != DISIR_STATUS_INVALID_CONTEXT;
  CHECK(fcalls == 1 && fctx == c && fkind == k, "the finalizer of this kind of context decides");
  CHECK(st == (fst == DISIR_STATUS_ELEMENTS_INVALID ? DISIR_STATUS_INVALID_CONTEXT : fst), "its verdict is returned, invalid elements as invalid context");
  CHECK(c->CONTEXT_STATE_FINALIZED == done && c->CONTEXT_STATE_CONSTRUCTING == !done, "the context is finalized exactly when it was accepted, valid or not");
  CHECK(c->CONTEXT_STATE_INVALID == (fst == DISIR_STATUS_INVALID_CONTEXT), "invalid contexts are marked");
  CHECK(p == (put ? NULL : c), "the caller keeps the reference exactly when the context was not accepted as valid");
  CHECK(c->cx_refcount == (fst == DISIR_STATUS_INVALID_CONTEXT ? 2 : 1), "an invalid context stays referenced by the caller as well");
  if (put) only(&w.mold.mo_version, &big); else only(NULL, NULL);
}
//@unit name=finalize_keyval harness=h_fin model=dc_version_string,dx_keyval_finalize,dx_section_finalize,dx_default_finalize,dx_restriction_finalize,dx_documentation_finalize sources=context.c,context_mold.c,context_keyval.c,context_section.c,context_default.c,context_restriction.c,context_documentation.c,util.c,context_util.c defs=FK=0
//@unit name=finalize_default harness=h_fin model=dc_version_string,dx_keyval_finalize,dx_section_finalize,dx_default_finalize,dx_restriction_finalize,dx_documentation_finalize sources=context.c,context_mold.c,context_keyval.c,context_section.c,context_default.c,context_restriction.c,context_documentation.c,util.c,context_util.c defs=FK=1
//@unit name=finalize_section harness=h_fin model=dc_version_string,dx_keyval_finalize,dx_section_finalize,dx_default_finalize,dx_restriction_finalize,dx_documentation_finalize sources=context.c,context_mold.c,context_keyval.c,context_section.c,context_default.c,context_restriction.c,context_documentation.c,util.c,context_util.c defs=FK=2
//@unit name=finalize_restriction harness=h_fin model=dc_version_string,dx_keyval_finalize,dx_section_finalize,dx_default_finalize,dx_restriction_finalize,dx_documentation_finalize sources=context.c,context_mold.c,context_keyval.c,context_section.c,context_default.c,context_restriction.c,context_documentation.c,util.c,context_util.c defs=FK=3
//@unit name=finalize_documentation harness=h_fin model=dc_version_string,dx_keyval_finalize,dx_section_finalize,dx_default_finalize,dx_restriction_finalize,dx_documentation_finalize sources=context.c,context_mold.c,context_keyval.c,context_section.c,context_default.c,context_restriction.c,context_documentation.c,util.c,context_util.c defs=FK=4
//@unit name=finalize_config_keyval harness=h_fin model=dc_version_string,dx_keyval_finalize,dx_section_finalize,dx_default_finalize,dx_restriction_finalize,dx_documentation_finalize sources=context.c,context_mold.c,context_keyval.c,context_section.c,context_default.c,context_restriction.c,context_documentation.c,util.c,context_util.c defs=FK=5
//@unit name=finalize_config_section harness=h_fin model=dc_version_string,dx_keyval_finalize,dx_section_finalize,dx_default_finalize,dx_restriction_finalize,dx_documentation_finalize sources=context.c,context_mold.c,context_keyval.c,context_section.c,context_default.c,context_restriction.c,context_documentation.c,util.c,context_util.c defs=FK=6
void h_fin(void)
{
  world(); fst = nd_int(); ASSUME(fst >= DISIR_STATUS_OK && fst <= DISIR_STATUS_DEFAULT_MISSING);
  switch (FK) { case 0: fin(&w.mkvc, NULL, &w.mkv.kv_deprecated); break; case 1: fin(&w.defc, &w.def.de_introduced, NULL); break; case 2: fin(&secc, &sec.se_introduced, &sec.se_deprecated); break;
    case 3: fin(&resc, &res.re_introduced, &res.re_deprecated); break; case 4: fin(&docc, &doc.dd_introduced, NULL); break; case 5: fin(&w.ckvc, NULL, NULL); break; default: fin(&csec, NULL, NULL); }
  REACH("fin");
}
#endif

//@unit name=create harness=h_create model=dx_element_storage_create never=dx_element_storage_destroy,dx_context_destroy,dc_destroy
#ifdef M_dx_element_storage_create
struct disir_element_storage *dx_element_storage_create(void) { return nd_bool() ? (struct disir_element_storage *)vt_malloc(8) : NULL; }
#endif
void h_create(void)
{
  vt_world(); vt_alloc_may_fail = 1; struct disir_mold *m = dx_mold_create(&w.moldc); struct disir_config *c = dx_config_create(&w.cfgc); vt_alloc_may_fail = 0;
  CHECK(m == NULL || (m->mo_version.sv_major == 1 && m->mo_version.sv_minor == 0 && m->mo_context == &w.moldc && m->mo_reference_count == 1), "a new mold has version 1.0");
  CHECK(c == NULL || (c->cf_version.sv_major == 1 && c->cf_version.sv_minor == 0 && c->cf_context == &w.cfgc), "a new config has version 1.0");
  REACH("create");
}
