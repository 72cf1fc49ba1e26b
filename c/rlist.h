/* A list of restrictions of any length.
 * Verified runs with loop cuts (ELIDE): a few explicit nodes at any positions of a list of LEN nodes, the other nodes
 * are unknown: R[0] is the current node of the loop, R[1] its successor, R[2] the head when it is not the current one,
 * the rest stand for any other node.  Bounded and native runs: a plain list of up to K nodes. */
#if !defined VT_NATIVE && !defined VT_BOUNDED
#define ELIDE 1
#ifndef K
#define K 4
#endif
#else
#define ELIDE 0
#undef K
#define K 4
#endif
static struct disir_restriction R[K]; static struct disir_context RC[K]; static _Bool on[K]; static int pos[K], LEN;
static void rlist_links(struct disir_context *parent, struct disir_context *root, struct disir_restriction **queue)
{
  LEN = nd_int(); ASSUME(LEN >= 0 && LEN < INT_MAX - 2);
  if (!ELIDE) ASSUME(LEN <= K);
  for (int i = 0; i < K; i++) {
    R[i].re_context = &RC[i]; RC[i].cx_restriction = &R[i]; vt_ctx(&RC[i], DISIR_CONTEXT_RESTRICTION, parent, root);
    if (ELIDE) { on[i] = nd_bool(); pos[i] = nd_int(); ASSUME(pos[i] >= 0 && pos[i] < INT_MAX - 2 && (!on[i] || pos[i] < LEN)); for (int j = 0; j < i; j++) ASSUME(!on[i] || !on[j] || pos[i] != pos[j]); }
    else { on[i] = i < LEN; pos[i] = i; R[i].next = i + 1 < LEN ? &R[i + 1 < K ? i + 1 : 0] : NULL; R[i].prev = i ? &R[i - 1] : &R[LEN ? LEN - 1 : 0]; }
  }
  if (ELIDE) {
    for (int i = 0; i < K; i++) { R[i].next = VT_GAP; R[i].prev = VT_GAP; }
    ASSUME(LEN == 0 || on[0]);
    R[0].next = pos[0] + 1 < LEN ? &R[1] : NULL; ASSUME(LEN == 0 || pos[0] + 1 == LEN || (on[1] && pos[1] == pos[0] + 1));
    ASSUME(LEN == 0 || pos[0] == 0 || (on[2] && pos[2] == 0));
    if (LEN == 0) *queue = NULL; else if (pos[0] == 0) *queue = &R[0]; else *queue = &R[2];
  } else *queue = LEN ? &R[0] : NULL;
}
#if ELIDE
/* the current node of a loop: R[0] or the end */
static struct disir_restriction *rlist_any(void) { return LEN > 0 && nd_bool() ? &R[0] : NULL; }
static int rlist_at(struct disir_restriction *e) { return e == NULL ? LEN : e == &R[0] ? pos[0] : e == &R[1] ? pos[1] : 0; }
static _Bool rlist_known(struct disir_restriction *e) { return e == NULL || (e == &R[0] && on[0]) || (e == &R[1] && on[1]) || (e == &R[2] && on[2] && pos[2] == 0); }
struct disir_restriction *vt_sz_havoc(int *n) { *n = nd_int(); return rlist_any(); }
_Bool vt_sz_inv(struct disir_restriction *e, int n) { return rlist_known(e) && n == rlist_at(e); }
#endif
