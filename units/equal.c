//@unit: equality of values (value.c valuesEqual, listComparison, dictComparison, setComparison)
//@cflags: -DVP_KNOWN=2
//@loop: vm/value.c listComparison 0/1
//@ assigns i, g_i, g_bad, g_seen
//@ inv 0 <= i && i <= g_LA.values.count && !g_bad && g_seen == (g_t < i)
//@ dec g_LA.values.count - i
//@ ghost g_i = i;
//@loop: vm/value.c dictComparison 0/1
//@ assigns i, g_i, g_bad, g_seen, g_got, g_val
//@ inv 0 <= i && i <= g_DA.capacityMask + 1 && !g_bad && g_seen == (g_t < i && g_live)
//@ dec g_DA.capacityMask + 1 - i
//@ ghost g_i = i; g_got = 0;
//@loop: vm/value.c setComparison 0/1
//@ assigns i, g_i, g_bad, g_seen
//@ inv 0 <= i && i <= g_SA.capacityMask + 1 && !g_bad && g_seen == (g_t < i && g_live)
//@ dec g_SA.capacityMask + 1 - i
//@ ghost g_i = i; __CPROVER_assume(!g_SA.entries[i].deleted || IS_EMPTY(g_SA.entries[i].value));
#include "vm/vm.h"
static ObjList g_LA, g_LB; static ObjDict g_DA, g_DB; static ObjSet g_SA, g_SB;
static int g_t, g_i, g_got; static bool g_bad, g_seen, g_live; static Value g_val;
#include "vm/value.c"
#include "stub_alloc.h"
#if VP_CONCRETE
#define NMAX 6
#else
#define NMAX (1 << 20)
#endif
#ifdef VP_CBMC
/* equality of the elements: an arbitrary relation */
bool eql_c(Value a, Value b) {
    bool r = vp_range(0, 1);
    VP_ASSERT(a == g_LA.values.values[g_i] && b == g_LB.values.values[g_i], "lists: elements at the same position are compared");
    if (g_i == g_t) g_seen = true;
    if (!r) g_bad = true;
    return r;
}
bool get_c(ObjDict *d, Value key, Value *value) {
    bool r = vp_range(0, 1);
    VP_ASSERT(d == &g_DB && key == g_DA.entries[g_i].key && !IS_EMPTY(key), "dictionaries: every key is looked up in the other");
    if (!r) g_bad = true; else { g_val = vp_u64(); *value = g_val; g_got = 1; }
    return r;
}
bool eqd_c(Value a, Value b) {
    bool r = vp_range(0, 1);
    VP_ASSERT(g_got == 1 && ((a == g_DA.entries[g_i].value && b == g_val) || (b == g_DA.entries[g_i].value && a == g_val)), "dictionaries: the values of the same key are compared");
    if (g_i == g_t) g_seen = true;
    if (!r) g_bad = true;
    return r;
}
bool sget_c(ObjSet *s, Value v) {
    bool r = vp_range(0, 1);
    VP_ASSERT(s == &g_SB && v == g_SA.entries[g_i].value && !IS_EMPTY(v), "sets: every member is looked up in the other");
    if (g_i == g_t) g_seen = true;
    if (!r) g_bad = true;
    return r;
}
static Value g_a, g_b; static int g_calls; static bool g_ret;
static bool disp(int k, Value a, Value b) { VP_ASSERT(AS_OBJ(g_a)->type == k && AS_OBJ(g_b)->type == k && ((a == g_a && b == g_b) || (a == g_b && b == g_a)), "equality: collections of the same kind are compared by content"); g_calls++; return g_ret; }
bool lc_c(Value a, Value b) { return disp(OBJ_LIST, a, b); }
bool dc_c(Value a, Value b) { return disp(OBJ_DICT, a, b); }
bool sc_c(Value a, Value b) { return disp(OBJ_SET, a, b); }

//@entry: e_list
//@ contract=listComparison
//@ what=two lists are equal exactly when they have the same length and equal elements at every position
//@ loopfuncs=listComparison; replace=valuesEqual:eql_c; bmc=no; native=no
void e_list(void) {
    g_LA.obj.type = g_LB.obj.type = OBJ_LIST;
    g_LA.values.count = (int) vp_range(0, NMAX); g_LB.values.count = (int) vp_range(0, NMAX);
    g_LA.values.values = vp_cells((size_t) g_LA.values.count); g_LB.values.values = vp_cells((size_t) g_LB.values.count);
    VP_OBJ(0, &g_LA); VP_OBJ(1, &g_LB);
    g_t = (int) vp_range(0, NMAX); g_bad = g_seen = false;
    bool r = listComparison(OBJ_VAL(&g_LA), OBJ_VAL(&g_LB));
    if (r) VP_ASSERT(g_LA.values.count == g_LB.values.count && !g_bad && VP_IMPLIES(g_t < g_LA.values.count, g_seen), "lists: equal means same length and equal elements everywhere");
    else VP_ASSERT(g_LA.values.count != g_LB.values.count || g_bad, "lists: different means another length or a different element");
    VP_REACH("e_list");
}
//@entry: e_dict
//@ contract=dictComparison
//@ what=two dictionaries are equal exactly when they have as many keys and every key of one is in the other with an equal value
//@ loopfuncs=dictComparison; replace=valuesEqual:eqd_c,dictGet:get_c; bmc=no; native=no
void e_dict(void) {
    g_DA.obj.type = g_DB.obj.type = OBJ_DICT;
    int cap = (int) vp_range(0, NMAX); g_DA.capacityMask = cap - 1; g_DB.capacityMask = (int) vp_range(-1, NMAX);
    g_DA.entries = malloc((size_t) cap * sizeof(DictItem)); VP_ASSUME(g_DA.entries != NULL);
    g_DA.activeCount = (int) vp_range(0, cap); g_DB.activeCount = (int) vp_range(0, NMAX);
    g_DA.count = (int) vp_range(g_DA.activeCount, cap); g_DB.count = (int) vp_range(g_DB.activeCount, NMAX);
    VP_OBJ(0, &g_DA); VP_OBJ(1, &g_DB);
    g_t = (int) vp_range(0, NMAX); g_bad = g_seen = false; g_live = g_t < cap && !IS_EMPTY(g_DA.entries[g_t].key);
    VP_ASSUME(VP_IMPLIES(g_live, g_DA.activeCount > 0));
    bool r = dictComparison(OBJ_VAL(&g_DA), OBJ_VAL(&g_DB));
    if (r) VP_ASSERT(g_DA.activeCount == g_DB.activeCount && !g_bad && VP_IMPLIES(g_live, g_seen), "dictionaries: equal means as many keys and every key with an equal value");
    else VP_ASSERT(g_DA.activeCount != g_DB.activeCount || g_bad, "dictionaries: different means another number of keys or a key that differs");
    VP_REACH("e_dict");
}
//@entry: e_set
//@ contract=setComparison
//@ what=two sets are equal exactly when they have as many members and every member of one is in the other
//@ loopfuncs=setComparison; replace=setGet:sget_c; bmc=no; native=no
void e_set(void) {
    g_SA.obj.type = g_SB.obj.type = OBJ_SET;
    int cap = (int) vp_range(0, NMAX); g_SA.capacityMask = cap - 1; g_SB.capacityMask = (int) vp_range(-1, NMAX);
    g_SA.entries = malloc((size_t) cap * sizeof(SetItem)); VP_ASSUME(g_SA.entries != NULL);
    g_SA.activeCount = (int) vp_range(0, cap); g_SB.activeCount = (int) vp_range(0, NMAX);
    g_SA.count = (int) vp_range(g_SA.activeCount, cap); g_SB.count = (int) vp_range(g_SB.activeCount, NMAX);
    VP_OBJ(0, &g_SA); VP_OBJ(1, &g_SB);
    g_t = (int) vp_range(0, NMAX); g_bad = g_seen = false; g_live = g_t < cap && !IS_EMPTY(g_SA.entries[g_t].value);
    VP_ASSUME(g_t >= cap || !g_SA.entries[g_t].deleted || IS_EMPTY(g_SA.entries[g_t].value)); /* a removed slot holds nothing: setDelete */
    VP_ASSUME(VP_IMPLIES(g_live, g_SA.activeCount > 0));
    bool r = setComparison(OBJ_VAL(&g_SA), OBJ_VAL(&g_SB));
    if (r) VP_ASSERT(g_SA.activeCount == g_SB.activeCount && !g_bad && VP_IMPLIES(g_live, g_seen), "sets: equal means as many members and every member shared");
    else VP_ASSERT(g_SA.activeCount != g_SB.activeCount || g_bad, "sets: different means another number of members or a member that differs");
    VP_REACH("e_set");
}
//@entry: e_values
//@ contract=valuesEqual
//@ what=values of different kinds are never equal, collections are compared by content, everything else is equal exactly to itself
//@ loops=off; replace=listComparison:lc_c,dictComparison:dc_c,setComparison:sc_c; bmc=no; native=no
static Obj g_oa, g_ob;
void e_values(void) {
    g_oa.type = (int) vp_range(OBJ_MODULE, OBJ_UPVALUE); g_ob.type = (int) vp_range(OBJ_MODULE, OBJ_UPVALUE);
    VP_OBJ(0, &g_oa); VP_OBJ(1, &g_ob);
    g_a = vp_range(0, 1) ? OBJ_VAL(&g_oa) : vp_u64(); g_b = vp_range(0, 1) ? OBJ_VAL(&g_ob) : vp_u64();
    if (vp_range(0, 1)) g_b = g_a;
    VP_ASSUME((!IS_OBJ(g_a) || g_a == OBJ_VAL(&g_oa) || g_a == OBJ_VAL(&g_ob)) && (!IS_OBJ(g_b) || g_b == OBJ_VAL(&g_oa) || g_b == OBJ_VAL(&g_ob)));
    g_calls = 0; g_ret = vp_range(0, 1);
    bool r = valuesEqual(g_a, g_b);
    if (IS_OBJ(g_a) && IS_OBJ(g_b)) {
        int ta = AS_OBJ(g_a)->type, tb = AS_OBJ(g_b)->type;
        if (ta != tb) VP_ASSERT(!r && g_calls == 0, "equality: objects of different kinds differ");
        else if (ta == OBJ_LIST || ta == OBJ_DICT || ta == OBJ_SET) VP_ASSERT(g_calls == 1 ? r == g_ret : (g_a == g_b && r), "equality: the result of comparing by content");
        else VP_ASSERT(r == (g_a == g_b), "equality: any other object equals itself only");
    } else VP_ASSERT(r == (g_a == g_b), "equality: other values are equal exactly when they are the same value");
    VP_REACH("e_values");
}
#endif
