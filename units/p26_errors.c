//@file prop=P26 unwind=6
//@assume formatting: the contract of vsnprintf for "%s" and one text of any length (c/stubs.c vt_msg)
#include "model.h"
#include "disir_private.h"
#include "log.h"
static char *T; static size_t N, W; static char CW; static const char F[] = "%s";
/* a text of any length N with an arbitrary byte CW at an arbitrary position W; length 0 included */
static void text(void)
{
  N = nd_size(); ASSUME(N < (size_t)INT_MAX); W = nd_size(); ASSUME(N == 0 || W < N); CW = nd_char(); ASSUME(CW != 0);
  T = malloc(N + 1); ASSUME(T != NULL);
#ifdef VT_NATIVE
  memset(T, 'x', N);
#endif
  if (N) T[W] = CW; T[N] = 0; vt_msg = T; vt_msg_len = N; vt_msg_fmt = F; vt_msg_at = W; vt_realloc_lazy = 1;
}
static char *M; static int32_t S; static size_t L; static char OLD;
/* a stored message of any length L (none if L == 0 and not have), in storage of at least the recorded size */
static void stored(void)
{
  _Bool have = nd_bool(); M = NULL; S = 0; L = 0;
  if (!have) return;
  L = nd_size(); ASSUME(L >= 1 && L < (size_t)INT_MAX); size_t extra = nd_size(); ASSUME(extra <= 4096); M = vt_malloc(L + 1 + extra);
#ifdef VT_NATIVE
  memset(M, 'y', L);
#endif
  M[L] = 0; OLD = M[0]; S = (int32_t)L + 1;
}
static struct disir_instance I; static struct disir_context C, D;
static void put(_Bool inst, const char *fmt, ...) { va_list a; va_start(a, fmt); if (inst) dx_log_disir(DISIR_LOG_LEVEL_DEBUG, 0, NULL, &I, 0, "f", "g", 1, NULL, fmt, a); else dx_context_error_set_va(&C, fmt, a); va_end(a); }
static void is(const char *m, int32_t s, _Bool fresh)
{
  if (N == 0 || fresh == 0) CHECK(m == M && s == S && (M == NULL || (M[0] == OLD && M[L] == 0)), "without a new text the stored message stays whole");
  else CHECK(m != NULL && m != T && s == (int32_t)N + 1 && m[W] == CW && m[N] == 0, "the whole formatted text is stored, in storage of its own, and its size recorded");
}
//@unit name=set_context harness=h_ctx sources=log.c model=dx_log_format statics=dx_log_format
void h_ctx(void)
{
  text(); stored(); vt_ctx(&C, DISIR_CONTEXT_KEYVAL, NULL, NULL); C.cx_error_message = M; C.cx_error_message_size = S;
  dx_context_error_set(&C, F, T); is(C.cx_error_message, C.cx_error_message_size, 1); dx_context_error_set(NULL, F, T);
  REACH("ctx");
}
//@unit name=set_context_nomem harness=h_ctx_nomem sources=log.c model=dx_log_format statics=dx_log_format
void h_ctx_nomem(void)
{
  text(); stored(); vt_ctx(&C, DISIR_CONTEXT_KEYVAL, NULL, NULL); C.cx_error_message = M; C.cx_error_message_size = S; ASSUME(N > L); unsigned long live = vt_alloc_live; vt_alloc_may_fail = 1;
  dx_context_error_set(&C, F, T); is(C.cx_error_message, C.cx_error_message_size, C.cx_error_message_size != S);
  CHECK(vt_alloc_live == live + (M == NULL && C.cx_error_message != NULL), "nothing is lost or left behind");
  REACH("ctx_nomem");
}
//@unit name=set_instance harness=h_inst sources=log.c,error.c,context_util.c model=dx_log_format statics=dx_log_format
#ifdef M_dx_log_format
void dx_log_format(enum disir_log_level dll, int severity, const char *prefix, const char *suffix, const char *fmt, va_list args) {}
#endif
void h_inst(void)
{
  text(); stored(); I.disir_error_message = M; I.disir_error_message_size = S;
  disir_error_set(&I, F, T); is(I.disir_error_message, I.disir_error_message_size, 1); CHECK(disir_error(&I) == I.disir_error_message, "the stored message is what is returned");
  char *m = I.disir_error_message; int32_t s = I.disir_error_message_size;
  disir_error_set(NULL, F, T); disir_error_set(&I, NULL); disir_log_user(&I, F, T); CHECK(m == I.disir_error_message && s == I.disir_error_message_size, "logging and refused calls leave the message");
  disir_error_clear(&I); CHECK(disir_error(&I) == NULL && I.disir_error_message_size == 0 && vt_alloc_live == 0, "clearing removes and releases it");
  disir_error_clear(&I); CHECK(disir_error(&I) == NULL, "clearing twice is harmless");
  REACH("inst");
}
//@unit name=copy harness=h_copy sources=error.c
void h_copy(void)
{
  text(); _Bool have = nd_bool(); if (!have) N = 0; else ASSUME(N > 0);
  I.disir_error_message = have ? T : NULL; I.disir_error_message_size = have ? (int32_t)N + 1 : 0;
  size_t cap = nd_size(), at = nd_size(), keep = nd_size(); int32_t n = nd_int(), out = -9; ASSUME(cap >= 1 && cap <= (size_t)INT_MAX && n <= (int64_t)cap && at < cap);
  char *b = malloc(cap); ASSUME(b != NULL); b[at] = 'C'; _Bool want = nd_bool();
  enum disir_status st = disir_error_copy(&I, b, n, want ? &out : NULL);
  _Bool fits = n >= 4 && (int64_t)N < n;
  CHECK(st == (fits ? DISIR_STATUS_OK : DISIR_STATUS_INSUFFICIENT_RESOURCES), "the copy succeeds exactly when the message and its terminator fit (and the buffer has 4 bytes)");
  CHECK(n >= 4 ? !want || out == (int32_t)N : out == -9, "the size of the whole message is reported");
  CHECK((int64_t)at < n && n >= 4 || b[at] == 'C', "nothing is written beyond the buffer, nor into a hopelessly small one");
  if (fits) CHECK(b[N] == 0 && (N == 0 || b[W] == CW), "the whole message is copied and terminated");
  else if (n >= 4) CHECK(b[n - 1] == 0 && b[n - 2] == '.' && b[n - 3] == '.' && b[n - 4] == '.' && ((int64_t)W > n - 5 || b[W] == CW), "otherwise as much as fits is copied and ends in ...");
  CHECK(disir_error_copy(NULL, b, n, &out) == DISIR_STATUS_INVALID_ARGUMENT && disir_error_copy(&I, NULL, n, &out) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  REACH("copy");
}
//@unit name=transfer harness=h_transfer sources=context_util.c never=dc_destroy,dx_context_destroy,dc_get_name
#ifndef VT_NATIVE
#define QUIET
#endif
void h_transfer(void)
{
  vt_ctx(&C, DISIR_CONTEXT_KEYVAL, NULL, NULL); vt_ctx(&D, DISIR_CONTEXT_KEYVAL, NULL, NULL);
  stored(); C.cx_error_message = M; C.cx_error_message_size = S; char *sm = M; int32_t ss = S; stored(); D.cx_error_message = M; D.cx_error_message_size = S; unsigned long live = vt_alloc_live;
  dx_context_transfer_logwarn(&D, &C);
  CHECK(sm ? D.cx_error_message == sm && D.cx_error_message_size == ss && C.cx_error_message == NULL && C.cx_error_message_size == 0 : D.cx_error_message == M && D.cx_error_message_size == S && C.cx_error_message == NULL, "the message moves; without one nothing changes");
  CHECK(vt_alloc_live == live - (sm && M), "the replaced message is released");
  dx_context_transfer_logwarn(&D, &D); dx_context_transfer_logwarn(NULL, &D); dx_context_transfer_logwarn(&D, NULL);
  CHECK(D.cx_error_message == (sm ? sm : M), "moving to itself or nowhere keeps it"); CHECK(dc_context_error(&D) == D.cx_error_message && dc_context_error(NULL) == NULL, "the message is what is returned");
  REACH("transfer");
}
//@unit name=fatal harness=h_fatal sources=context_util.c,log.c model=dx_log_format statics=dx_log_format never=dc_destroy,dx_context_destroy,dc_get_name
void h_fatal(void)
{
  text(); stored(); vt_ctx(&C, DISIR_CONTEXT_KEYVAL, NULL, NULL); C.cx_error_message = M; C.cx_error_message_size = S; _Bool fin = nd_bool(); C.CONTEXT_STATE_FINALIZED = fin; C.CONTEXT_STATE_CONSTRUCTING = !fin;
  enum disir_status st = dc_fatal_error(&C, F, T);
  CHECK(st == (fin ? DISIR_STATUS_CONTEXT_IN_WRONG_STATE : DISIR_STATUS_OK) && C.CONTEXT_STATE_FATAL == !fin, "only a context under construction becomes fatal");
  is(C.cx_error_message, C.cx_error_message_size, !fin);
  CHECK(dc_fatal_error(NULL, F, T) == DISIR_STATUS_INVALID_ARGUMENT && dc_fatal_error(&C, NULL) == DISIR_STATUS_INVALID_ARGUMENT, "NULL is refused");
  REACH("fatal");
}
