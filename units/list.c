//@unit: list methods (datatypes/lists/lists.c, value.c value arrays): operations on a finite sequence
//@src:
//@cflags: -DVP_KNOWN=2
//@loop: vm/datatypes/lists/lists.c insertListItem 0/1
//@ assigns i, __CPROVER_object_whole(list->values.values)
//@ inv index <= i && i <= list->values.count - 1 && list->values.count == g_n + 1
//@ inv g_k < g_n ==> ((g_k < index || g_k < i) ==> list->values.values[g_k] == g_V)
//@ inv g_k < g_n ==> ((g_k >= index && g_k >= i) ==> list->values.values[g_k + 1] == g_V)
//@ dec i
//@loop: vm/datatypes/lists/lists.c popListItem 0/1
//@ assigns i, __CPROVER_object_whole(list->values.values)
//@ inv index <= i && i <= list->values.count - 1 && list->values.count == g_n
//@ inv g_k < index ==> list->values.values[g_k] == g_V
//@ inv (g_k > index && g_k <= i) ==> list->values.values[g_k - 1] == g_V
//@ inv (g_k > i && g_k < g_n) ==> list->values.values[g_k] == g_V
//@ dec list->values.count - 1 - i
//@loop: vm/datatypes/lists/lists.c removeListItem 0/1
//@ assigns i, found, __CPROVER_object_whole(list->values.values)
//@ inv 0 <= i && i <= list->values.count - 1 && list->values.count == g_n && found == (i > g_f)
//@ inv (i <= g_f && g_f < g_n) ==> list->values.values[g_f] == g_F
//@ inv g_l == g_n - 1 && (i <= g_l ==> list->values.values[g_l] == g_L)
//@ inv g_k < g_f && g_k < g_n ==> list->values.values[g_k] == g_V
//@ inv (g_k > g_f && g_k < g_n) ==> ((g_k - 1 < i ==> list->values.values[g_k - 1] == g_V) && (g_k - 1 >= i ==> list->values.values[g_k] == g_V))
//@ dec list->values.count - i
//@ ghost __CPROVER_assume(!(i < g_f) || !vp_eqn[list->values.values[i]]);
//@loop: vm/datatypes/lists/lists.c containsListItem 0/1
//@ assigns i
//@ inv 0 <= i && i <= list->values.count && i <= g_f
//@ dec list->values.count - i
//@ ghost __CPROVER_assume(!(i < g_f) || !vp_eqn[list->values.values[i]]);
//@loop: vm/datatypes/lists/lists.c extendList 0/1
//@ assigns i, list->values.count, g_got, g_has
//@ inv 0 <= i && i <= g_m && list->values.count == g_n + i
//@ inv g_has == (i > g_k) && (g_has ==> g_got == g_V)
//@ dec g_m - i
//@loop: vm/datatypes/lists/lists.c reverseList 0/1
//@ assigns i, __CPROVER_object_whole(list->values.values)
//@ inv 0 <= i && i <= listLength / 2 && listLength == g_n && listLength == list->values.count
//@ inv (g_k < g_n && (g_k < i || g_k >= listLength - i)) ==> list->values.values[listLength - 1 - g_k] == g_V
//@ inv (g_k < g_n && g_k >= i && g_k < listLength - i) ==> list->values.values[g_k] == g_V
//@ inv (g_k < g_n && g_k >= i && g_k < listLength - i) ==> list->values.values[listLength - 1 - g_k] == g_W
//@ inv (g_k < g_n && (g_k < i || g_k >= listLength - i)) ==> list->values.values[g_k] == g_W
//@ dec listLength - i
#define VP_GHOST_COPY 1
#define VP_CELLS 1
#include "vm/vm.h"
#include "stub_mem.h"
static int g_n, g_m, g_k, g_f, g_l, g_x;
static Value g_V, g_F, g_L, g_W, g_got, g_needle;
static bool g_has;
size_t vp_keep_off;
#ifdef VP_CBMC
extern bool vp_eqn[__CPROVER_constant_infinity_uint]; /* which values equal the searched one: arbitrary */
bool eq_c(Value a, Value b) { VP_ASSERT(a == g_needle || b == g_needle, "search: elements are compared with the argument"); return vp_eqn[a == g_needle ? b : a]; }
/* contract of writeValueArray (enforced by l_write): appends; only one arbitrary position is observed */
void write_c(DictuVM *vm, ValueArray *array, Value value) { (void) vm; if (array->count == g_x) { g_got = value; g_has = true; } array->count++; }
#endif
#include "vm/datatypes/lists/lists.c"
#include "stub_alloc.h"
#include "stub_vm.h"
#include "vm/value.c"
#if VP_CONCRETE
#define NMAX VP_BOUND
#define ELEM() numToValue((double) vp_range(0, 5))
#else
#define NMAX (1 << 20)
#define ELEM() vp_u64()
#endif
static ObjList *L, *M;
static ObjList *mk_list(int slot) {
    ObjList *l = malloc(sizeof(ObjList));
    VP_ASSUME(l != NULL);
    l->obj.type = OBJ_LIST;
    l->values.capacity = (int) vp_range(0, NMAX);
    l->values.count = (int) vp_range(0, l->values.capacity);
    l->values.values = vp_cells((size_t) l->values.capacity);
    VP_OBJ(slot, l);
#if VP_CONCRETE
    for (int i = 0; i < l->values.count; i++) l->values.values[i] = ELEM();
#endif
    return l;
}
#define AT(l, i) ((l)->values.values[i])
static void track(void) { g_n = L->values.count; g_k = (int) vp_range(0, NMAX); g_V = 0; if (g_k < g_n) { g_V = AT(L, g_k); vp_keep_off = (size_t) g_k * 8; } }
static double index_arg(void) { double d = VP_CONCRETE ? (double) vp_range(-12, 12) : (double) vp_range(-3000000, 3000000); if (vp_range(0, 1)) d += 0.5; return d; }
#if VP_CONCRETE
static Value snap[VP_BOUND + 2];
#define SNAP() do { for (int i_ = 0; i_ < L->values.count; i_++) snap[i_] = AT(L, i_); } while (0)
#endif

//@entry: l_write
//@ contract=writeValueArray
//@ what=appending keeps every element and puts the value last, also when the storage grows
//@ loops=off; bmc=no; native_bound=20
void l_write(void) {
    VP_INIT(); L = mk_list(0); track();
    int n = g_n, c = L->values.capacity; Value v = vp_u64();
    writeValueArray(NULL, &L->values, v);
    VP_ASSERT(L->values.count == n + 1 && L->values.count <= L->values.capacity, "append: one more element");
    if (g_k < n) VP_ASSERT(AT(L, g_k) == g_V, "append: every element is kept");
    VP_ASSERT(AT(L, n) == v, "append: the value is last");
    VP_ASSERT(vp_balance == ((long long) L->values.capacity - c) * 8, "append: growth is accounted");
    VP_REACH("l_write");
}

//@entry: l_push
//@ contract=pushListItem lenList
//@ what=push appends its argument; len is the number of elements; wrong argument counts are errors
//@ replace=writeValueArray:write_c; loops=off; bmc=no; native_bound=8
void l_push(void) {
    VP_INIT(); L = mk_list(0); track();
    Value args[3] = {OBJ_VAL(L), vp_u64(), vp_u64()};
    int argc = (int) vp_range(0, 2), n = g_n;
    g_x = n; g_has = false;
    Value len = lenList(NULL, 0, args);
    VP_ASSERT(len == numToValue((double) n) && vp_err == 0, "len: the number of elements");
    Value r = pushListItem(NULL, argc, args);
    if (argc != 1) VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && L->values.count == n, "push: wrong argument count is an error");
    else {
        VP_ASSERT(vp_err == 0 && L->values.count == n + 1 && IS_NIL(r), "push: one more element");
#if VP_CONCRETE
        g_has = true; g_got = AT(L, n);
#endif
        VP_ASSERT(g_has && g_got == args[1], "push: the argument is appended");
    }
    VP_REACH("l_push");
}

static void insert_contract(void) {
    int n = g_n, argc = (int) vp_range(0, 3), c = L->values.capacity; double d = index_arg(); bool num = vp_range(0, 4) > 0;
    Value args[4] = {OBJ_VAL(L), vp_u64(), num ? numToValue(d) : NIL_VAL, 0};
    int idx = (int) d; if (idx < 0) idx += n + 1;
    Value r = insertListItem(NULL, argc, args);
    if (argc != 2 || !num || idx < 0 || idx > n) {
        VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && L->values.count == n, "insert: wrong use is an error");
        if (g_k < n) VP_ASSERT(AT(L, g_k) == g_V, "insert: an error changes nothing");
    } else {
        VP_ASSERT(vp_err == 0 && L->values.count == n + 1 && L->values.count <= L->values.capacity, "insert: one more element");
        VP_ASSERT(AT(L, idx) == args[1], "insert: the value is at the index");
        if (g_k < n) VP_ASSERT(AT(L, g_k < idx ? g_k : g_k + 1) == g_V, "insert: the other elements keep their order");
        VP_ASSERT(vp_balance == ((long long) L->values.capacity - c) * 8, "insert: growth is accounted");
    }
}
//@entry: l_insert
//@ contract=insertListItem
//@ what=insert puts the value at the index and moves the elements from there up by one; negative indices count from the end; others are errors
//@ loopfuncs=insertListItem; bmc=no; native_bound=10; cost=10
void l_insert(void) {
    VP_INIT(); L = mk_list(0); track();
    vp_inplace = false;
#if !VP_CONCRETE
    VP_ASSUME(g_n < L->values.capacity);
#endif
    insert_contract();
    VP_REACH("l_insert");
}

//@entry: l_insert_grow
//@ contract=insertListItem
//@ what=with full storage that grows in place, insert puts the value at the index and moves the elements from there up by one; negative indices count from the end; others are errors
//@ loopfuncs=insertListItem; bmc=no; native=no; cost=10
void l_insert_grow(void) {
    VP_INIT(); L = mk_list(0);
    vp_inplace = true;
    VP_ASSUME(L->values.capacity > 0 && L->values.capacity % 2 == 0 && L->values.count <= L->values.capacity / 2 && L->values.capacity >= 8);
    L->values.capacity = L->values.count; track();
    VP_ASSUME(g_n > 0);
    insert_contract();
    VP_REACH("l_insert_grow");
}

//@entry: l_pop
//@ contract=popListItem
//@ what=pop returns and removes the element at the index (the last by default) and closes the gap; other indices are errors
//@ loopfuncs=popListItem; bmc=no; native_bound=10; cost=10
void l_pop(void) {
    VP_INIT(); L = mk_list(0); track();
    int n = g_n, argc = (int) vp_range(0, 2); double d = index_arg(); bool num = vp_range(0, 4) > 0;
    Value args[3] = {OBJ_VAL(L), num ? numToValue(d) : NIL_VAL, 0};
    int idx = argc == 1 ? (int) d : n - 1; if (idx < 0) idx += n;
    bool ok = argc <= 1 && n > 0 && (argc == 0 || (num && idx >= 0 && idx < n));
    Value at = ok ? AT(L, idx) : 0;
    Value r = popListItem(NULL, argc, args);
    if (!ok) {
        VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && L->values.count == n, "pop: wrong use is an error");
        if (g_k < n) VP_ASSERT(AT(L, g_k) == g_V, "pop: an error changes nothing");
    } else {
        VP_ASSERT(vp_err == 0 && r == at && L->values.count == n - 1, "pop: the element is returned and removed");
        if (g_k < n && g_k != idx) VP_ASSERT(AT(L, g_k < idx ? g_k : g_k - 1) == g_V, "pop: the other elements keep their order");
    }
    VP_REACH("l_pop");
}

/* g_f: the first position whose element equals the argument (the length if none): an arbitrary list is split there */
static void first_match(void) {
    g_needle = ELEM();
#if VP_CONCRETE
    for (g_f = 0; g_f < g_n && !valuesEqual(g_needle, AT(L, g_f)); g_f++) ;
#else
    g_f = (int) vp_range(0, g_n);
    g_F = 0; g_l = g_n - 1; g_L = 0;
    if (g_f < g_n) { g_F = AT(L, g_f); VP_ASSUME(vp_eqn[g_F]); }
    if (g_n > 0) { g_L = AT(L, g_l); VP_ASSUME(VP_IMPLIES(g_f == g_n, !vp_eqn[g_L])); }
#endif
}

//@entry: l_remove
//@ contract=removeListItem
//@ what=remove deletes exactly the first element equal to the argument and closes the gap; if there is none it is an error
//@ loopfuncs=removeListItem; replace=valuesEqual:eq_c; bmc=no; native_bound=8; cost=10
void l_remove(void) {
    VP_INIT(); L = mk_list(0); track(); first_match();
    int n = g_n, argc = (int) vp_range(0, 2);
    Value args[3] = {OBJ_VAL(L), g_needle, 0};
    Value r = removeListItem(NULL, argc, args);
    if (argc != 1 || g_f == n) {
        VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && L->values.count == n, "remove: an absent value is an error");
        if (g_k < n) VP_ASSERT(AT(L, g_k) == g_V, "remove: an error changes nothing");
    } else {
        VP_ASSERT(vp_err == 0 && L->values.count == n - 1, "remove: one element fewer");
        if (g_k < n && g_k != g_f) VP_ASSERT(AT(L, g_k < g_f ? g_k : g_k - 1) == g_V, "remove: only the first equal element goes, the others keep their order");
    }
    VP_REACH("l_remove");
}

//@entry: l_contains
//@ contract=containsListItem
//@ what=contains is true exactly if some element equals the argument
//@ loopfuncs=containsListItem; replace=valuesEqual:eq_c; bmc=no; native_bound=8
void l_contains(void) {
    VP_INIT(); L = mk_list(0); track(); first_match();
    int argc = (int) vp_range(0, 2);
    Value args[3] = {OBJ_VAL(L), g_needle, 0};
    Value r = containsListItem(NULL, argc, args);
    if (argc != 1) VP_ASSERT(vp_err == 1 && IS_EMPTY(r), "contains: wrong argument count is an error");
    else VP_ASSERT(vp_err == 0 && r == BOOL_VAL(g_f < g_n), "contains: true exactly if an element is equal");
    VP_ASSERT(L->values.count == g_n, "contains: nothing changes");
    VP_REACH("l_contains");
}

//@entry: l_extend
//@ contract=extendList
//@ what=extend appends the elements of the argument in order, also when it is the list itself, and terminates
//@ loopfuncs=extendList; replace=writeValueArray:write_c; bmc=no; native_bound=8
void l_extend(void) {
    VP_INIT(); L = mk_list(0); M = mk_list(1);
    bool self = vp_range(0, 3) == 0; if (self) { M = L; VP_OBJ(1, L); }
    int argc = (int) vp_range(0, 2), n = L->values.count, m = M->values.count; bool isl = vp_range(0, 4) > 0;
    g_n = n; g_m = m; g_k = (int) vp_range(0, NMAX); g_V = g_k < m ? AT(M, g_k) : 0; g_x = n + g_k; g_has = false;
    Value args[3] = {OBJ_VAL(L), isl ? OBJ_VAL(M) : NIL_VAL, 0};
#if VP_CONCRETE
    SNAP();
#endif
    Value r = extendList(NULL, argc, args);
    if (argc != 1 || !isl) VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && L->values.count == n, "extend: wrong use is an error");
    else {
        VP_ASSERT(vp_err == 0 && L->values.count == n + m, "extend: the argument's elements are added");
        if (!self) VP_ASSERT(M->values.count == m, "extend: the argument is unchanged");
#if VP_CONCRETE
        if (g_k < m) { g_has = true; g_got = AT(L, n + g_k); }
        for (int i = 0; i < n; i++) VP_ASSERT(AT(L, i) == snap[i], "extend: the list's own elements are kept");
#endif
        if (g_k < m) VP_ASSERT(g_has && g_got == g_V, "extend: each element is appended in order");
    }
    VP_REACH("l_extend");
}

//@entry: l_reverse
//@ contract=reverseList
//@ what=reverse moves each element to the mirrored position
//@ loopfuncs=reverseList; bmc=no; native_bound=9
void l_reverse(void) {
    VP_INIT(); L = mk_list(0); track();
    int argc = (int) vp_range(0, 1), n = g_n;
    if (g_k < n) g_W = AT(L, n - 1 - g_k);
    Value args[2] = {OBJ_VAL(L), 0};
    Value r = reverseList(NULL, argc, args);
    VP_ASSERT(L->values.count == n, "reverse: the length is kept");
    if (argc) VP_ASSERT(vp_err == 1 && IS_EMPTY(r), "reverse: wrong argument count is an error");
    else if (g_k < n) VP_ASSERT(AT(L, n - 1 - g_k) == g_V && AT(L, g_k) == g_W, "reverse: each element is at the mirrored position");
    VP_REACH("l_reverse");
}
