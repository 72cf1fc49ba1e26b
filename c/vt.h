/* Harness API shared by the CBMC runs and the native replay runs.
 *
 * The same unit file is compiled twice: by goto-cc, where nd_*() are fresh symbolic
 * values, ASSUME/CHECK/REACH are verifier statements and contracts are real; and by gcc
 * (only after a failed obligation) with -DVT_NATIVE, where nd_*() return the values of
 * the verifier's counterexample in call order and CHECK aborts the process.
 */
#ifndef VT_H
#define VT_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <stdio.h>

uint8_t  nd_u8(void);
uint32_t nd_u32(void);
uint64_t nd_u64(void);
int      nd_int(void);
int64_t  nd_i64(void);
size_t   nd_size(void);
_Bool    nd_bool(void);
double   nd_double(void);
char     nd_char(void);

/* fills buf[0..len-1] with symbolic chars and buf[len]=0 where len<=cap is symbolic */
size_t nd_str(char *buf, size_t cap);

/* When set, calloc/malloc/realloc/strdup of the code under test may fail nondeterministically. */
extern int vt_alloc_may_fail, vt_realloc_lazy, vt_alloc_fail_at;
void *vt_calloc(size_t n, size_t s); void *vt_malloc(size_t s); void vt_free(void *p); void *vt_realloc(void *p, size_t s); char *vt_strdup(const char *s); char *vt_strndup(const char *s, size_t m);
extern unsigned long vt_alloc_live; /* ghost: number of live heap blocks handed out to the code under test */

/* Token mode for numbers inside texts: strtol/strtoul/snprintf are under an (assumed) contract in
 * which a whole decimal number is one opaque character 0x80+k standing for the value vt_tok[k].
 * The native run renders such a text with real digits (vt_render) and uses the real functions. */
#define VT_NTOK 4
extern int vt_token_mode; extern uint64_t vt_tok[VT_NTOK]; extern int vt_ntok;
/* format vt_msg_fmt ("%s", compared by address) prints the text vt_msg of any length vt_msg_len */
extern const char *vt_msg, *vt_msg_fmt; extern size_t vt_msg_len, vt_msg_at;
/* contract of formatting when nobody looks at the text: any length, the buffer is written up to its size */
extern int vt_any_format;
void vt_render(const char *sym, char *out, size_t cap);

#ifdef VT_NATIVE
void vt_assume(int c, const char *what);
void vt_check(int c, const char *what);
#define ASSUME(c) vt_assume(!!(c), #c)
#define CHECK(c, m) vt_check(!!(c), m)
#define REACH(m) ((void)0)
#define REACHB(m) ((void)0)
#define CONTRACT(...)
#else
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, m) __CPROVER_assert((c), "CHECK: " m)
#define REACH(m) __CPROVER_assert(0, "REACH: " m)
/* only meaningful (and only present) in the bounded variant */
#ifdef VT_BOUNDED
#define REACHB(m) REACH(m)
#else
#define REACHB(m) ((void)0)
#endif
#endif

/* dead pointer used to elide an arbitrary number of list nodes (see DESIGN.md, loop cuts) */
#define VT_GAP ((void *)0xdead0000UL)

#endif
