//@unit: which lists sort() accepts (datatypes/lists/lists.c)
//@cflags: -DVP_KNOWN=2
//@loop: vm/datatypes/lists/lists.c isStringList 0/1
//@ assigns i
//@ inv 0 <= i && i <= list->values.count && (g_k < i ==> g_A[g_k] == VP_OV(vp_o[0]))
//@ dec list->values.count - i
//@ ghost __CPROVER_assume(!IS_OBJ(g_A[i]) || g_A[i] == VP_OV(vp_o[0]) || g_A[i] == VP_OV(vp_o[1]));
//@loop: vm/datatypes/lists/lists.c isNumberList 0/1
//@ assigns i
//@ inv 0 <= i && i <= list->values.count && (g_k < i ==> IS_NUMBER(list->values.values[g_k]))
//@ dec list->values.count - i
#include "vm/vm.h"
static Value *g_A; static int g_k, g_f;
#include "vm/datatypes/lists/lists.c"
#include "stub_alloc.h"
#include "stub_vm.h"
//@entry: s_kind
//@ contract=isNumberList isStringList
//@ what=a list is accepted as a list of numbers (of strings) exactly when every element is one
//@ loopfuncs=isNumberList,isStringList; bmc=no; native_bound=6
void s_kind(void) {
#if VP_CONCRETE
    int n = (int) vp_range(0, VP_BOUND), k = (int) vp_range(0, 2);
#else
    int n = (int) vp_range(0, 1 << 20);
#endif
    static ObjList l; static ObjString o; o.obj.type = OBJ_STRING;
    l.values.count = n; g_A = l.values.values = vp_cells((size_t) n);
#if VP_CONCRETE
    for (int i = 0; i < n; i++) g_A[i] = vp_range(0, 6) == 0 ? NIL_VAL : (k == 1) == (vp_range(0, 6) != 0) ? OBJ_VAL(&o) : NUMBER_VAL(i);
    g_k = (int) vp_range(0, VP_BOUND);
#else
    g_k = (int) vp_range(0, 1 << 20);
    static ObjList o2; o2.obj.type = OBJ_LIST; VP_OBJ(0, &o); VP_OBJ(1, &o2);
#endif
    bool num = isNumberList(&l);
    if (num && g_k < n) VP_ASSERT(IS_NUMBER(g_A[g_k]), "number list: every element is a number");
    bool str = isStringList(&l);
#if VP_CONCRETE
    if (str && g_k < n) VP_ASSERT(IS_STRING(g_A[g_k]), "string list: every element is a string");
    bool an = true, as = true; for (int i = 0; i < n; i++) { an = an && IS_NUMBER(g_A[i]); as = as && IS_STRING(g_A[i]); }
    VP_ASSERT(num == an && str == as, "list kinds: accepted exactly when every element has the kind");
#else
    if (str && g_k < n) VP_ASSERT(g_A[g_k] == OBJ_VAL(&o), "string list: every element is a string");
    g_f = (int) vp_range(0, 1 << 20);
#endif
    VP_REACH("s_kind");
}
