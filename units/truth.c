//@unit: truthiness (vm.c isFalsey)
//@cflags: -DVP_KNOWN=1
#include "vm/vm.c"
static ObjString s; static ObjList l; static ObjDict d; static ObjSet t; static ObjResult r; static Obj other;
//@entry: f_falsey
//@ contract=isFalsey
//@ what=falsey values are exactly nil, false, zero, the empty string, empty collections and failed results
//@ loops=off; bmc=no
void f_falsey(void) {
    int k = (int) vp_range(0, 8);
    Value v = NIL_VAL; bool want = true;
    static char txt[2]; txt[0] = (char) vp_range(0, 255); txt[1] = 0;
    if (k == 1) { v = BOOL_VAL(vp_range(0, 1)); want = v == FALSE_VAL; }
    if (k == 2) { double x = vp_double(); VP_ASSUME(IS_NUMBER(numToValue(x))); v = NUMBER_VAL(x); want = x == 0; }
    if (k == 3) { s.obj.type = OBJ_STRING; s.chars = txt; s.length = txt[0] != 0; VP_OBJ(0, &s); v = OBJ_VAL(&s); want = s.length == 0; }
    if (k == 4) { l.obj.type = OBJ_LIST; l.values.count = (int) vp_range(0, 1 << 20); l.values.capacity = (int) vp_range(l.values.count, 1 << 20); VP_OBJ(0, &l); v = OBJ_VAL(&l); want = l.values.count == 0; }
    if (k == 5) { d.obj.type = OBJ_DICT; d.capacityMask = (int) vp_range(7, 1 << 20); d.count = (int) vp_range(0, 1 << 20); d.activeCount = (int) vp_range(0, d.count); VP_OBJ(0, &d); v = OBJ_VAL(&d); want = d.activeCount == 0; }
    if (k == 6) { t.obj.type = OBJ_SET; t.capacityMask = (int) vp_range(7, 1 << 20); t.count = (int) vp_range(0, 1 << 20); t.activeCount = (int) vp_range(0, t.count); VP_OBJ(0, &t); v = OBJ_VAL(&t); want = t.activeCount == 0; }
    if (k == 7) { r.obj.type = OBJ_RESULT; r.status = vp_range(0, 1) ? SUCCESS : ERR; r.value = vp_u64(); VP_OBJ(0, &r); v = OBJ_VAL(&r); want = r.status == ERR; }
    if (k == 8) { int ty = (int) vp_range(OBJ_MODULE, OBJ_UPVALUE); VP_ASSUME(ty != OBJ_STRING && ty != OBJ_LIST && ty != OBJ_DICT && ty != OBJ_SET && ty != OBJ_RESULT); other.type = ty; VP_OBJ(0, &other); v = OBJ_VAL(&other); want = false; }
    VP_ASSERT(isFalsey(v) == want, "truthiness: falsey exactly for nil, false, zero, empty and failed values");
    VP_REACH("f_falsey");
}
