/* Force-included before every real source in verifier builds.  The pointer <-> Value codec of value.h keeps 48
 * address bits; the verifier's pointers keep the object number in the top bits, so for the verifier only, the
 * codec is replaced by one that keeps those bits.  The real codec is a unit of its own (units/nanbox.c). */
#ifndef DICTU_PRE_H
#define DICTU_PRE_H
#include "vm/value.h"
#ifdef VP_CBMC
#undef OBJ_VAL
#undef AS_OBJ
#define VP_ENC(p) ((((uint64_t)(uintptr_t)(p)) >> 54) << 40 | (((uint64_t)(uintptr_t)(p)) & 0xFFFFFFFFFFull))
#define VP_DEC(v) ((((v) >> 40) & 0x3FF) << 54 | ((v) & 0xFFFFFFFFFFull))
static inline Value vp_obj_val(const void *p) { return (Value) (SIGN_BIT | QNAN | VP_ENC(p)); }
#define OBJ_VAL(obj) vp_obj_val(obj)
#define VP_OV(p) ((Value)(SIGN_BIT | QNAN | VP_ENC(p))) /* the same, without side effects, for loop invariants */
#ifdef VP_KNOWN
/* the unit names the objects its contracts talk about; a reference to any other object is never followed (checked) */
extern Obj *vp_o[VP_KNOWN];
Obj *vp_o[VP_KNOWN];
static inline Obj *vp_as_obj(Value v) {
    if (v == OBJ_VAL(vp_o[0])) return vp_o[0];
#if VP_KNOWN > 1
    if (v == OBJ_VAL(vp_o[1])) return vp_o[1];
#endif
#if VP_KNOWN > 2
    if (v == OBJ_VAL(vp_o[2])) return vp_o[2];
#endif
#if VP_KNOWN > 3
    if (v == OBJ_VAL(vp_o[3])) return vp_o[3];
#endif
#if VP_KNOWN > 4
    if (v == OBJ_VAL(vp_o[4])) return vp_o[4];
#endif
#if VP_KNOWN > 5
    if (v == OBJ_VAL(vp_o[5])) return vp_o[5];
#endif
    __CPROVER_assert(0, "VP:only objects named by the contract are dereferenced");
    __CPROVER_assume(0);
    return (Obj *) 0;
}
#define AS_OBJ(v) vp_as_obj(v)
#define VP_OBJ(i, p) (vp_o[i] = (Obj *) (p))
#else
#define AS_OBJ(v) ((Obj*)(uintptr_t)VP_DEC(v))
#endif
#endif
#ifndef VP_OBJ
#define VP_OBJ(i, p) ((void) 0)
#endif
#endif
