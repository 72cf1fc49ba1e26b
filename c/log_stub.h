/* assumed contract on the logging back end for units that do not verify log.c itself:
 * logging has no effect on the state the properties speak about (the stored error text of a context is P26) */
#ifndef VT_NATIVE
#include <stdarg.h>
struct disir_context; struct disir_instance;
void dx_log_disir_va (int a, ...) {}
void dx_log_disir (int dll, int severity, struct disir_context *context, struct disir_instance *instance, int32_t log_context,
   const char *file, const char *function, int line, const char *message_prefix, const char *fmt_message, __builtin_va_list args) {}
void dx_context_error_set (struct disir_context *context, const char *fmt_message, ...) {}
void dx_context_error_set_va (struct disir_context *context, const char *fmt_message, __builtin_va_list args) {}
void dx_crash_and_burn (const char *m, ...) { __CPROVER_assert (0, "the library aborts the process"); __CPROVER_assume (0); }
#ifdef M_dx_context_type_check_log_error
/* contract of the type check (verified in units/p13_guards.c): OK exactly when the context's type is listed */
enum disir_status dx_context_type_check_log_error (struct disir_context *context, ...)
{
  __builtin_va_list ap; int ok = 0, n = 0, t, k = (int)context->cx_type;
  if (k <= 0 || k >= DISIR_CONTEXT_UNKNOWN) return DISIR_STATUS_INVALID_CONTEXT;
  __builtin_va_start (ap, context);
  for (t = __builtin_va_arg (ap, int); t; t = __builtin_va_arg (ap, int)) { n++; if (t == k) ok = 1; }
  __builtin_va_end (ap);
  return ok ? DISIR_STATUS_OK : n == 0 ? DISIR_STATUS_TOO_FEW_ARGUMENTS : DISIR_STATUS_WRONG_CONTEXT;
}
#endif
#ifdef M_dc_version_string
/* only used where the text goes to the log */
char *dc_version_string (char *buffer, int32_t size, struct disir_version *v) { return buffer; }
#endif
#endif
