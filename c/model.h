/* Symbolic well-formed object worlds built directly from the private structures of /repo. */
#ifndef MODEL_H
#define MODEL_H
#include <disir/disir.h>
#include "context_private.h"
#include "config.h"
#include "mold.h"
#include "section.h"
#include "keyval.h"
#include "default.h"
#include "documentation.h"
#include "restriction.h"
#include "value.h"
#include "vt.h"

#define VT_IS_STR(t) ((t) == DISIR_VALUE_TYPE_STRING || (t) == DISIR_VALUE_TYPE_ENUM)
static inline uint64_t vt_key(const struct disir_version *v) { return ((uint64_t)v->sv_major << 32) | v->sv_minor; }
static inline struct disir_version vt_nd_ver(void) { struct disir_version v; v.sv_major = nd_u32(); v.sv_minor = nd_u32(); return v; }
static inline _Bool vt_deq(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static inline enum disir_value_type vt_nd_type(void) { int t = nd_int(); ASSUME(t >= DISIR_VALUE_TYPE_STRING && t < DISIR_VALUE_TYPE_UNKNOWN); return t; }

/* one mold with one keyval, one config with the matching keyval, one default */
static struct {
  struct disir_context moldc, mkvc, cfgc, ckvc, defc;
  struct disir_mold mold; struct disir_config cfg; struct disir_keyval mkv, ckv; struct disir_default def;
} w;

static inline void vt_ctx(struct disir_context *c, enum disir_context_type t, struct disir_context *parent, struct disir_context *root)
{ c->cx_type = t; c->cx_parent_context = parent; c->cx_root_context = root; c->cx_refcount = 1; c->cx_state = 0; }

/* any scalar or short string as content of v; type must be set */
static inline void vt_nd_content(struct disir_value *v, size_t maxlen)
{
  v->dv_size = 0; v->dv_integer = 0;
  if (VT_IS_STR(v->dv_type)) {
    v->dv_string = NULL;
    if (nd_bool()) {
      size_t n = nd_size(); ASSUME(n <= maxlen);
      v->dv_string = malloc(n + 1); ASSUME(v->dv_string != NULL);
      for (size_t i = 0; i < maxlen; i++) if (i < n) v->dv_string[i] = nd_char();
      v->dv_string[n] = 0; v->dv_size = (int64_t)n;
    }
  } else if (v->dv_type == DISIR_VALUE_TYPE_BOOLEAN) v->dv_boolean = nd_u8();
  else if (v->dv_type == DISIR_VALUE_TYPE_FLOAT) v->dv_float = nd_double();
  else v->dv_integer = nd_i64();
}
static inline void vt_world(void)
{
  vt_ctx(&w.moldc, DISIR_CONTEXT_MOLD, NULL, &w.moldc); w.moldc.cx_mold = &w.mold; w.mold.mo_context = &w.moldc;
  vt_ctx(&w.mkvc, DISIR_CONTEXT_KEYVAL, &w.moldc, &w.moldc); w.mkvc.cx_keyval = &w.mkv; w.mkv.kv_context = &w.mkvc;
  vt_ctx(&w.cfgc, DISIR_CONTEXT_CONFIG, NULL, &w.cfgc); w.cfgc.cx_config = &w.cfg; w.cfg.cf_context = &w.cfgc; w.cfg.cf_mold = &w.mold;
  vt_ctx(&w.ckvc, DISIR_CONTEXT_KEYVAL, &w.cfgc, &w.cfgc); w.ckvc.cx_keyval = &w.ckv; w.ckv.kv_context = &w.ckvc;
  vt_ctx(&w.defc, DISIR_CONTEXT_DEFAULT, &w.mkvc, &w.moldc); w.defc.cx_default = &w.def; w.def.de_context = &w.defc;
  w.moldc.CONTEXT_STATE_FINALIZED = 1; w.mkvc.CONTEXT_STATE_FINALIZED = 1; w.cfgc.CONTEXT_STATE_FINALIZED = 1;
}
#endif
