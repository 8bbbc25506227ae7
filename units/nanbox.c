//@unit: tagged values (value.h) and truthiness (vm.c)
//@cflags: -DDICTU_PRE_H
//@trust: an object address has 48 significant bits (x86-64 user space)
#include "vm/vm.h"
static void *VP_PTR(uint64_t a) { return (void *) (uintptr_t) a; }
static int kinds(Value v) { return (IS_NUMBER(v) ? 1 : 0) + (IS_BOOL(v) ? 1 : 0) + (IS_NIL(v) ? 1 : 0) + (IS_EMPTY(v) ? 1 : 0) + (IS_OBJ(v) ? 1 : 0); }

//@entry: n_number
//@ contract=numToValue valueToNum
//@ what=every double (except NaNs that carry tag bits, which arithmetic does not produce) is stored and read back bit for bit, and is a number and nothing else
//@ loops=off; bmc=no
void n_number(void) {
    uint64_t b = vp_u64();
    VP_ASSUME((b & QNAN) != QNAN);
    DoubleUnion u; u.bits64 = b;
    Value v = NUMBER_VAL(u.num);
    DoubleUnion w; w.num = AS_NUMBER(v);
    VP_ASSERT(IS_NUMBER(v) && kinds(v) == 1, "number: recognised as a number and as nothing else");
#if VP_CONCRETE
    VP_ASSERT(w.bits64 == b || (u.num != u.num && w.num != w.num), "number: read back unchanged");
#else
    VP_ASSERT(v == b, "number: stored bit for bit");
    VP_ASSERT(w.bits64 == b || u.num != u.num, "number: read back unchanged");
#endif
    VP_REACH("n_number");
}

//@entry: n_obj
//@ contract=OBJ_VAL AS_OBJ IS_OBJ
//@ what=every 48-bit object address is stored and read back unchanged, is an object and nothing else, and different addresses give different values
//@ loops=off; bmc=no; checks=
void n_obj(void) {
    uint64_t a = (uint64_t) vp_range(0, (1ll << 48) - 1), b = (uint64_t) vp_range(0, (1ll << 48) - 1);
    Value v = OBJ_VAL(VP_PTR(a)), w = OBJ_VAL(VP_PTR(b));
    VP_ASSERT(IS_OBJ(v) && kinds(v) == 1, "object: recognised as an object and as nothing else");
    VP_ASSERT((uint64_t) (uintptr_t) AS_OBJ(v) == a, "object: the reference is read back unchanged");
    VP_ASSERT((v == w) == (a == b), "object: same value exactly for the same object");
    VP_REACH("n_obj");
}

//@entry: n_single
//@ contract=BOOL_VAL NIL_VAL AS_BOOL
//@ what=true, false, nil and the internal empty marker are four different values of their own kind
//@ loops=off; bmc=no
void n_single(void) {
    bool b = vp_range(0, 1);
    VP_ASSERT(IS_BOOL(BOOL_VAL(b)) && AS_BOOL(BOOL_VAL(b)) == b && kinds(BOOL_VAL(b)) == 1, "bool: kind and content");
    VP_ASSERT(IS_NIL(NIL_VAL) && kinds(NIL_VAL) == 1 && IS_EMPTY(EMPTY_VAL) && kinds(EMPTY_VAL) == 1, "nil: kind");
    VP_ASSERT(TRUE_VAL != FALSE_VAL && TRUE_VAL != NIL_VAL && FALSE_VAL != NIL_VAL, "singletons differ");
    VP_REACH("n_single");
}
