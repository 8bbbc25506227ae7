/* Contract of reallocate() (memory.c; enforced in unit memory): newSize==0 frees, otherwise returns a block of exactly
 * newSize bytes whose first min(oldSize,newSize) bytes are preserved.  No collection happens in this unit: GC safety
 * is the subject of a property of its own. */
#ifndef STUB_ALLOC_H
#define STUB_ALLOC_H
static bool vp_inplace; /* ghost: resizing keeps the block in place */
static long long vp_balance; /* ghost: bytes handed out minus bytes returned, as the caller accounts them */
#if defined(VP_CBMC) && !defined(VP_BMC) && defined(VP_GHOST_COPY)
extern size_t vp_keep_off;   /* ghost offset (8-byte cell) whose content is tracked across a move */
#endif
void *reallocate(DictuVM *vm, void *previous, size_t oldSize, size_t newSize) {
    (void) vm;
    vp_balance += (long long) newSize - (long long) oldSize;
    if (newSize == 0) { free(previous); return NULL; }
#if defined(VP_CBMC) && !defined(VP_BMC) && defined(VP_CELLS)
    /* a resize may leave the block where it is: the harness provides the room */
    if (previous != NULL && vp_inplace) { VP_ASSERT(newSize <= __CPROVER_OBJECT_SIZE(previous), "allocation: in-place growth"); return previous; }
#endif
#if defined(VP_CBMC) && defined(VP_CELLS)
    if (previous == NULL) { VP_ASSERT(newSize % 8 == 0, "allocation: whole cells"); uint64_t *vp_c = malloc(newSize / 8 * sizeof(uint64_t)); VP_ASSUME(vp_c != NULL); return vp_c; }
#else
    if (previous == NULL) { void *vp_n = malloc(newSize); VP_ASSUME(vp_n != NULL); return vp_n; }
#endif
#if defined(VP_CBMC) && !defined(VP_BMC) && defined(VP_GHOST_COPY)
    /* whole content is preserved; only the tracked cell is needed by the proof (weaker fact, sound) */
#ifdef VP_CELLS
    VP_ASSERT(newSize % 8 == 0 && oldSize % 8 == 0, "allocation: whole cells");
    uint64_t *vp_n = malloc(newSize / 8 * sizeof(uint64_t));
    if (vp_keep_off % 8 == 0 && vp_keep_off + 8 <= oldSize && vp_keep_off + 8 <= newSize)
        vp_n[vp_keep_off / 8] = ((uint64_t *) previous)[vp_keep_off / 8];
    vp_blk = vp_n;
    free(previous);
    return vp_n;
#else
    uint8_t *vp_n = malloc(newSize);
    if (vp_keep_off % 8 == 0 && vp_keep_off + 8 <= oldSize && vp_keep_off + 8 <= newSize)
        *(uint64_t *) (vp_n + vp_keep_off) = *(uint64_t *) ((uint8_t *) previous + vp_keep_off);
    free(previous);
    return vp_n;
#endif
#elif defined(VP_CBMC) && !defined(VP_BMC) && defined(VP_NOCONTENT)
    /* the contents are preserved; the proof needs no fact about them (weaker contract, sound) */
    void *vp_n = malloc(newSize); VP_ASSUME(vp_n != NULL); free(previous); return vp_n;
#elif defined(VP_CBMC)
    uint8_t *vp_n = malloc(newSize);
    size_t vp_m = oldSize < newSize ? oldSize : newSize;
    for (size_t vp_i = 0; vp_i < vp_m; vp_i++) vp_n[vp_i] = ((uint8_t *) previous)[vp_i];
    free(previous);
    return vp_n;
#else
    void *vp_n = realloc(previous, newSize); VP_ASSUME(vp_n != NULL); return vp_n;
#endif
}
#endif
