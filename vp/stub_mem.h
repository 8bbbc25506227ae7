/* Contract of memmove/memcpy for proofs over arrays of unbounded length: both ranges must be valid; in the proof only one ghost cell of the
 * source (vp_mm_off: byte offset of an 8-byte cell in the source object) is tracked, every other destination byte becomes arbitrary
 * (weaker than the real function, sound). */
#ifndef STUB_MEM_H
#define STUB_MEM_H
extern size_t vp_mm_off;
size_t vp_mm_off;
#ifdef VP_CELLS
extern uint64_t *vp_blk;
uint64_t *vp_blk;
#endif
static inline void *vp_memmove(void *d, const void *s, size_t n) {
#if defined(VP_CBMC) && !defined(VP_BMC)
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "VP:block move reads inside its source");
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "VP:block move writes inside its destination");
#ifdef VP_CELLS
    /* cell-typed version: both ranges lie in the block vp_blk */
    uint64_t *vp_b = vp_blk;
    __CPROVER_assert(__CPROVER_same_object(s, vp_b) && __CPROVER_same_object(d, vp_b), "VP:block move stays inside one block");
    size_t cn = n / 8, cs = (size_t) ((const uint64_t *) s - vp_b), cd = (size_t) ((uint64_t *) d - vp_b), co = vp_mm_off / 8;
    bool cin = co >= cs && co < cs + cn, cout = (co < cd || co >= cd + cn) && co < __CPROVER_OBJECT_SIZE(vp_b) / 8;
    uint64_t cc = cin || cout ? vp_b[co] : 0;
    if (n) {
        __CPROVER_havoc_object(vp_b);
        if (cin) vp_b[cd + (co - cs)] = cc;
        if (cout) vp_b[co] = cc;
    }
    return d;
#endif
    size_t so = __CPROVER_POINTER_OFFSET(s), dof = __CPROVER_POINTER_OFFSET(d);
    bool in = n >= 8 && vp_mm_off >= so && vp_mm_off + 8 <= so + n;
    uint64_t c = in ? *(const uint64_t *) ((const uint8_t *) s + (vp_mm_off - so)) : 0;
    bool out = __CPROVER_same_object(s, d) && (vp_mm_off + 8 <= dof || vp_mm_off >= dof + n) && __CPROVER_r_ok((const uint8_t *) d - dof + vp_mm_off, 8);
    uint64_t k = out ? *(const uint64_t *) ((const uint8_t *) d - dof + vp_mm_off) : 0;
    if (n) __CPROVER_havoc_object(d);
    if (in) *(uint64_t *) ((uint8_t *) d + (vp_mm_off - so)) = c;
    if (n && out) *(uint64_t *) ((uint8_t *) d - dof + vp_mm_off) = k;
    return d;
#else
    return memmove(d, s, n);
#endif
}
#endif
