//@unit: sorting (datatypes/lists/lists.c)
//@trust: floor of a small non-negative integer is that integer
//@loop: vm/datatypes/lists/lists.c partitionNumberList 0/3
//@ assigns i, j, g_hi, g_lo, g_i0, g_j0, g_p, g_q, __CPROVER_object_whole(arr->values.values)
//@ inv P_OUTER(i, j) && P_LE(i) && P_GE(j) && P_PERM(i, j)
//@ dec j - i
//@ ghost g_i0 = i; g_j0 = j; g_hi = i < start ? pivot_index : j; g_lo = i < start ? pivot_index : i; if (i >= start) { g_p = SW(g_p, i, j); g_q = SW(g_q, i, j); }
//@loop: vm/datatypes/lists/lists.c partitionNumberList 1/3
//@ assigns i
//@ inv g_i0 <= i && i < g_hi && P_LE(i)
//@ dec g_hi - i
//@ ghost __CPROVER_assume(g_A[i + 1] != NAN_BITS && NUM_OK(g_A[i + 1]));
//@loop: vm/datatypes/lists/lists.c partitionNumberList 2/3
//@ assigns j
//@ inv g_lo < j && j <= g_j0 && P_GE(j)
//@ dec j - g_lo
//@ ghost __CPROVER_assume(NUM_OK(g_A[j - 1]));
//@loop: vm/datatypes/lists/lists.c partitionStringList 0/3
//@ assigns i, j, g_hi, g_lo, g_i0, g_j0, g_p, g_q, __CPROVER_object_whole(arr->values.values)
//@ inv S_OUTER(i, j) && S_LE(i) && S_GE(j) && P_PERM(i, j)
//@ dec j - i
//@ ghost g_i0 = i; g_j0 = j; g_hi = i < start ? pivot_index : j; g_lo = i < start ? pivot_index : i; if (i >= start) { g_p = SW(g_p, i, j); g_q = SW(g_q, i, j); }
//@loop: vm/datatypes/lists/lists.c partitionStringList 1/3
//@ assigns i
//@ inv g_i0 <= i && i < g_hi && S_LE(i)
//@ dec g_hi - i
//@loop: vm/datatypes/lists/lists.c partitionStringList 2/3
//@ assigns j
//@ inv g_lo < j && j <= g_j0 && S_GE(j)
//@ dec j - g_lo
//@loop: vm/datatypes/lists/lists.c quickSort 0/1
//@ assigns start, end, g_p, g_q
//@ inv g_s <= start && end <= g_e && start <= end + 1 && g_p != g_q
//@ inv g_in ==> (g_s <= g_p && g_p <= g_e && g_s <= g_q && g_q <= g_e && ((start <= g_p && g_p <= end && start <= g_q && g_q <= end) || g_p < g_q))
//@ inv g_in0 == (g_s <= g_p && g_p <= g_e) && g_in1 == (g_s <= g_q && g_q <= g_e) && (!g_in0 ==> g_p == g_p0) && (!g_in1 ==> g_q == g_q0)
//@ dec end - start
#include "vm/vm.h"
#if VP_CONCRETE
#define NM VP_BOUND
#else
#define NM (1 << 20)
#endif
#if VP_CONCRETE && !defined(VP_CBMC)
#define NM4 VP_BOUND
#else
#define NM4 3
#endif
#define DBL(x) (*(double *) &(x))
static Value *g_A; static int g_s, g_e, g_k, g_hi, g_lo, g_p, g_q, g_i0, g_j0; static double g_piv; static Value g_V, g_W, g_OV; static int g_out;
#define NAN_BITS 0x7ff8000000000001ull
#define NUM_OK(v) (IS_NUMBER(v) && !__CPROVER_isnand(DBL(v)))
#define SW(p, i, j) ((p) == (i) ? (j) : (p) == (j) ? (i) : (p))
#define P_OUTER(i, j) (g_s - 1 <= (i) && (i) < (j) && (j) <= g_e + 1 && ((i) >= g_s || ((i) == g_s - 1 && (j) == g_e + 1)) && ((i) < g_s || (j) <= g_e) && ((i) < g_s || (DBL(g_A[i]) <= g_piv && DBL(g_A[j]) >= g_piv)) && ((i) >= g_s || DBL(g_A[(g_s + g_e) / 2]) == g_piv))
#define KEY(v) vp_key[(uintptr_t) AS_OBJ(v)]
#define S_OUTER(i, j) (g_s - 1 <= (i) && (i) < (j) && (j) <= g_e + 1 && ((i) >= g_s || ((i) == g_s - 1 && (j) == g_e + 1)) && ((i) < g_s || (j) <= g_e) && ((i) < g_s || (KEY(g_A[i]) <= g_pk && KEY(g_A[j]) >= g_pk)) && ((i) >= g_s || KEY(g_A[(g_s + g_e) / 2]) == g_pk))
#define S_LE(i) (!(g_s <= g_k && g_k <= (i)) || KEY(g_A[g_k]) <= g_pk)
#define S_GE(j) (!((j) <= g_k && g_k <= g_e) || KEY(g_A[g_k]) >= g_pk)
#define P_LE(i) (!(g_s <= g_k && g_k <= (i)) || DBL(g_A[g_k]) <= g_piv)
#define P_GE(j) (!((j) <= g_k && g_k <= g_e) || DBL(g_A[g_k]) >= g_piv)
#define P_PERM(i, j) (g_p != g_q && g_s <= g_p && g_p <= g_e && g_s <= g_q && g_q <= g_e && g_A[(i) < g_s ? g_p : SW(g_p, i, j)] == g_V && g_A[(i) < g_s ? g_q : SW(g_q, i, j)] == g_W && g_A[g_out] == g_OV)
#ifdef VP_CBMC
double floor(double x) { VP_ASSERT(x >= 0 && x <= 2147483647.0, "floor contract"); return x; }
#endif
#ifdef VP_CBMC
extern int vp_key[__CPROVER_constant_infinity_uint]; /* the rank of each string in the order: arbitrary */
int cmp_c(ObjString *a, ObjString *b) { int x = vp_key[(uintptr_t) a], y = vp_key[(uintptr_t) b]; return x < y ? -1 : x > y; }
#endif
#ifdef VP_CBMC
void qs_c(ObjList *l, int start, int end, int (*partition)(ObjList *, int, int));
#endif
static int g_pk, g_p0, g_q0; static bool g_in, g_in0, g_in1;
#include "vm/datatypes/lists/lists.c"
#include "stub_alloc.h"
#include "stub_vm.h"

#ifdef VP_CBMC
//@entry: s_part
//@ contract=partitionNumberList
//@ what=partitioning swaps elements of the range only, puts elements not above the pivot before those not below it, splits the range properly, and terminates
//@ loopfuncs=partitionNumberList; bmc=no; native=no
void s_part(void) {
    static ObjList l;
    int n = (int) vp_range(3, 1 << 20); /* one spare element stands for the rest of memory */
    l.values.count = n; g_A = l.values.values = vp_cells((size_t) n);
    g_s = (int) vp_range(0, n - 2); g_e = (int) vp_range(1, n - 1); VP_ASSUME(g_s < g_e);
    g_k = (int) vp_range(0, n - 1); g_p = (int) vp_range(g_s, g_e); g_q = (int) vp_range(g_s, g_e); VP_ASSUME(g_p != g_q);
    g_V = g_A[g_p]; g_W = g_A[g_q];
    VP_ASSUME(NUM_OK(g_A[(g_s + g_e) / 2]));
    g_piv = DBL(g_A[(g_s + g_e) / 2]);
    g_out = (int) vp_range(0, n - 1); VP_ASSUME(g_out < g_s || g_out > g_e); g_OV = g_A[g_out];
    int r = partitionNumberList(&l, g_s, g_e);
    VP_ASSERT(g_s <= r && r < g_e, "partition: both parts are smaller than the range");
    VP_ASSERT(VP_IMPLIES(g_s <= g_k && g_k <= r, DBL(g_A[g_k]) <= g_piv), "partition: nothing above the pivot in the first part");
    VP_ASSERT(VP_IMPLIES(r < g_k && g_k <= g_e, DBL(g_A[g_k]) >= g_piv), "partition: nothing below the pivot in the second part");
    VP_ASSERT(g_A[g_p] == g_V && g_A[g_q] == g_W && g_p != g_q, "partition: the elements of the range are rearranged, none lost or duplicated");
    VP_ASSERT(g_A[g_out] == g_OV, "partition: nothing outside the range changes");
    VP_REACH("s_part");
}
//@entry: s_spart
//@ contract=partitionStringList
//@ what=partitioning strings by any total preorder: the same guarantees as for numbers
//@ replace=compareString:cmp_c; loopfuncs=partitionStringList; bmc=no; native=no
void s_spart(void) {
    static ObjList l;
    int n = (int) vp_range(3, 1 << 20);
    l.values.count = n; g_A = l.values.values = vp_cells((size_t) n);
    g_s = (int) vp_range(0, n - 2); g_e = (int) vp_range(1, n - 1); VP_ASSUME(g_s < g_e);
    g_k = (int) vp_range(0, n - 1); g_p = (int) vp_range(g_s, g_e); g_q = (int) vp_range(g_s, g_e); VP_ASSUME(g_p != g_q);
    g_V = g_A[g_p]; g_W = g_A[g_q];
    g_pk = KEY(g_A[(g_s + g_e) / 2]);
    g_out = (int) vp_range(0, n - 1); VP_ASSUME(g_out < g_s || g_out > g_e); g_OV = g_A[g_out];
    int r = partitionStringList(&l, g_s, g_e);
    VP_ASSERT(g_s <= r && r < g_e, "partition: both parts are smaller than the range");
    VP_ASSERT(VP_IMPLIES(g_s <= g_k && g_k <= r, KEY(g_A[g_k]) <= g_pk), "partition: nothing above the pivot in the first part");
    VP_ASSERT(VP_IMPLIES(r < g_k && g_k <= g_e, KEY(g_A[g_k]) >= g_pk), "partition: nothing below the pivot in the second part");
    VP_ASSERT(g_A[g_p] == g_V && g_A[g_q] == g_W && g_p != g_q, "partition: the elements of the range are rearranged, none lost or duplicated");
    VP_ASSERT(g_A[g_out] == g_OV, "partition: nothing outside the range changes");
    VP_REACH("s_spart");
}
#endif
//@entry: s_cmp
//@ contract=compareString
//@ what=strings are compared by their common part first and then by length
//@ loops=off; bmc=no; native_bound=6
#ifdef VP_CBMC
static int g_mc; static const void *g_ma, *g_mb; static size_t g_mn;
int memcmp(const void *a, const void *b, size_t n) { g_ma = a; g_mb = b; g_mn = n; return g_mc; }
#endif
void s_cmp(void) {
    static ObjString a, b;
    a.length = (int) vp_range(0, NM); b.length = (int) vp_range(0, NM);
#if VP_CONCRETE
    a.chars = vp_bytes((size_t) a.length + 1); b.chars = vp_bytes((size_t) b.length + 1);
    for (int i = 0; i < a.length; i++) a.chars[i] = (char) vp_range(0, 1);
    for (int i = 0; i < b.length; i++) b.chars[i] = (char) vp_range(0, 1);
    a.chars[a.length] = b.chars[b.length] = 0;
    int r = compareString(&a, &b), c = 0, m = a.length < b.length ? a.length : b.length;
    for (int i = 0; i < m && !c; i++) c = a.chars[i] - b.chars[i];
    if (!c) c = a.length - b.length;
    VP_ASSERT((r < 0) == (c < 0) && (r > 0) == (c > 0), "compare: lexicographic order");
#else
    static char x[1], y[1]; a.chars = x; b.chars = y;
    g_mc = (int) vp_range(INT32_MIN, INT32_MAX);
    int r = compareString(&a, &b), m = a.length < b.length ? a.length : b.length, c = g_mc ? g_mc : a.length - b.length;
    VP_ASSERT(g_ma == x && g_mb == y && g_mn == (size_t) m, "compare: the common part of both strings is compared");
    VP_ASSERT((r < 0) == (c < 0) && (r > 0) == (c > 0), "compare: lexicographic order");
#endif
    VP_REACH("s_cmp");
}
#ifdef VP_CBMC
/* what s_part and s_spart prove, for two tracked elements V (at g_p) below W (at g_q): elements of the range stay in the
 * range, distinct elements at distinct places, V <= pivot or in the second part, W >= pivot or in the first part */
int partition_c(ObjList *l, int start, int end) {
    (void) l;
    VP_ASSERT(g_s <= start && start < end && end <= g_e, "sort: parts lie inside the range being sorted");
    int r = (int) vp_range(start, end - 1);
    if (start <= g_p && g_p <= end) g_p = (int) vp_range(start, end);
    if (start <= g_q && g_q <= end) g_q = (int) vp_range(start, end);
    VP_ASSUME(g_p != g_q);
    bool pin = start <= g_p && g_p <= end, qin = start <= g_q && g_q <= end;
    VP_ASSUME(!(pin && qin && g_p > r && g_q <= r)); /* V >= pivot >= W would contradict V < W */
    return r;
}
/* contract of quickSort on a smaller range */
void qs_c(ObjList *l, int start, int end, int (*partition)(ObjList *, int, int)) {
    (void) l;
    VP_ASSERT(partition == partition_c, "sort: the same order is used throughout");
    VP_ASSERT(g_s <= start && end <= g_e && end - start < g_e - g_s, "sort: recursion only into a smaller part");
    bool pin = start <= g_p && g_p <= end, qin = start <= g_q && g_q <= end;
    if (pin) g_p = (int) vp_range(start, end);
    if (qin) g_q = (int) vp_range(start, end);
    VP_ASSUME(g_p != g_q);
    if (pin && qin) VP_ASSUME(g_p < g_q);
}
//@entry: s_quick
//@ contract=quickSort
//@ what=for any two elements V below W: after sorting, V is before W; every element stays in the range and nothing outside it moves; the recursion and the loop end
//@ rec=vm/datatypes/lists/lists.c:quickSort:qs_c; havoc=declareListMethods sortList partitionNumberList partitionStringList; loopfuncs=quickSort; bmc=no; native=no
void s_quick(void) {
    static ObjList l;
    g_s = (int) vp_range(0, 1 << 20); g_e = (int) vp_range(-1, 1 << 20); VP_ASSUME(g_e >= g_s - 1);
    g_p0 = g_p = (int) vp_range(0, 1 << 20); g_q0 = g_q = (int) vp_range(0, 1 << 20); VP_ASSUME(g_p != g_q);
    g_in0 = g_s <= g_p && g_p <= g_e; g_in1 = g_s <= g_q && g_q <= g_e; g_in = g_in0 && g_in1;
    quickSort(&l, g_s, g_e, partition_c);
    VP_ASSERT(VP_IMPLIES(g_in, g_s <= g_p && g_p < g_q && g_q <= g_e), "sort: of two elements the smaller comes first");
    VP_ASSERT(g_in0 ? g_s <= g_p && g_p <= g_e : g_p == g_p0, "sort: elements stay in their range");
    VP_ASSERT(g_in1 ? g_s <= g_q && g_q <= g_e : g_q == g_q0, "sort: elements stay in their range");
    VP_REACH("s_quick");
}
void qs0_c(ObjList *l, int start, int end, int (*partition)(ObjList *, int, int)) { (void) l; g_s = start; g_e = end; g_i0 = partition == partitionNumberList ? 1 : partition == partitionStringList ? 2 : 3; }
static bool g_num, g_str;
bool isnum_c(ObjList *l) { (void) l; return g_num; }
bool isstr_c(ObjList *l) { (void) l; return g_str; }
//@entry: s_list
//@ contract=sortList
//@ what=sort() sorts the whole of a list of numbers by number and of a list of strings by string; other lists and any argument are errors that leave the list alone
//@ replace=quickSort:qs0_c,isNumberList:isnum_c,isStringList:isstr_c; loops=off; bmc=no; native=no
void s_list(void) {
    VP_INIT();
    static ObjList l; l.obj.type = OBJ_LIST; l.values.count = (int) vp_range(0, 1 << 20);
    int argc = (int) vp_range(0, 3); g_i0 = 0; g_num = vp_range(0, 1); g_str = vp_range(0, 1); VP_ASSUME(!(g_num && g_str) || l.values.count == 0);
    Value args[1] = {OBJ_VAL(&l)};
    Value r = sortList(NULL, argc, args);
    if (argc || !(g_num || g_str)) VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && g_i0 == 0, "sort: rejected without touching the list");
    else VP_ASSERT(vp_err == 0 && IS_NIL(r) && g_i0 == (g_num ? 1 : 2) && g_s == 0 && g_e == l.values.count - 1, "sort: the whole list, in its own order");
    VP_REACH("s_list");
}
#endif
//@entry: s_sort
//@ contract=sortList quickSort
//@ mode=oracle; native_bound=9
//@ what=executed on up to 9 elements: quickSort puts any numbers in order and keeps each of them; sort() rejects arguments
void s_sort(void) {
    VP_INIT();
    static ObjList l; l.obj.type = OBJ_LIST; VP_OBJ(0, &l);
    int n = (int) vp_range(0, NM4), argc = (int) vp_range(0, 1);
    l.values.count = n; g_A = l.values.values = vp_cells((size_t) n);
    int c[8] = {0};
    for (int i = 0; i < n; i++) { int x = (int) vp_range(0, 5); g_A[i] = numToValue((double) x); c[x]++; }
    Value args[2] = {OBJ_VAL(&l), NIL_VAL};
    Value r = sortList(NULL, argc, args);
    if (argc) VP_ASSERT(vp_err == 1 && IS_EMPTY(r), "sort: no arguments");
    else {
        VP_ASSERT(vp_err == 0 && IS_NIL(r), "sort: accepted");
        for (int i = 0; i + 1 < n; i++) VP_ASSERT(AS_NUMBER(g_A[i]) <= AS_NUMBER(g_A[i + 1]), "sort: in order");
        for (int i = 0; i < n; i++) c[(int) AS_NUMBER(g_A[i])]--;
        for (int x = 0; x < 6; x++) VP_ASSERT(c[x] == 0, "sort: each element as often as before");
    }
    VP_REACH("s_sort");
}
