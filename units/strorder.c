//@unit: string order (value.c compareStringLess, compareStringGreater)
//@cflags: -DVP_KNOWN=2
//@loop: vm/value.c compareStringLess 0/1
//@ assigns i, g_i
//@ inv 0 <= i && i <= g_A.length && i <= g_B.length && ((int) g_k < i ==> g_ac[g_k] == g_bc[g_k]) && 0 <= g_i && g_i <= i
//@ dec g_A.length - i
//@ ghost g_i = i;
//@loop: vm/value.c compareStringGreater 0/1
//@ assigns i, g_i
//@ inv 0 <= i && i <= g_A.length && i <= g_B.length && ((int) g_k < i ==> g_ac[g_k] == g_bc[g_k]) && 0 <= g_i && g_i <= i
//@ dec g_A.length - i
//@ ghost g_i = i;
#include "vm/vm.h"
static ObjString g_A, g_B; static unsigned char *g_ac, *g_bc; static int g_k, g_i;
#include "vm/value.c"
#include "stub_alloc.h"
#if VP_CONCRETE
#define LMAX 6
#else
#define LMAX (1 << 20)
#endif
static void mk(void) {
    g_A.obj.type = g_B.obj.type = OBJ_STRING;
    g_A.length = (int) vp_range(0, LMAX); g_B.length = (int) vp_range(0, LMAX);
    g_ac = vp_bytes((size_t) g_A.length + 1); g_bc = vp_bytes((size_t) g_B.length + 1);
#if VP_CONCRETE
    for (int i = 0; i < g_A.length && i < g_B.length; i++) if (vp_range(0, 3)) g_bc[i] = g_ac[i];
#endif
    g_ac[g_A.length] = 0; g_bc[g_B.length] = 0;
    g_A.chars = (char *) g_ac; g_B.chars = (char *) g_bc;
    VP_OBJ(0, &g_A); VP_OBJ(1, &g_B);
    g_k = (int) vp_range(0, LMAX); g_i = 0;
}
static int minlen(void) { return g_A.length < g_B.length ? g_A.length : g_B.length; }
#if VP_CONCRETE
static int ref(void) { int c = memcmp(g_ac, g_bc, (size_t) minlen()); return c ? c : g_A.length - g_B.length; }
#endif

//@entry: o_less
//@ contract=compareStringLess
//@ what=less holds exactly when, after a common prefix, the first string has ended and the second has not, or its next character is smaller
//@ loopfuncs=compareStringLess; bmc=no
void o_less(void) {
    mk();
    bool r = compareStringLess(OBJ_VAL(&g_B), OBJ_VAL(&g_A));
#if VP_CONCRETE
    VP_ASSERT(r == (ref() < 0), "less: the lexicographic order");
#else
    int m = minlen();
    if (r) VP_ASSERT((g_i < m && g_ac[g_i] < g_bc[g_i] && VP_IMPLIES(g_k < g_i, g_ac[g_k] == g_bc[g_k])) || (g_A.length < g_B.length && VP_IMPLIES(g_k < m, g_ac[g_k] == g_bc[g_k])), "less: a common prefix, then a smaller character or the end");
    else VP_ASSERT((g_i < m && g_ac[g_i] > g_bc[g_i] && VP_IMPLIES(g_k < g_i, g_ac[g_k] == g_bc[g_k])) || (g_A.length >= g_B.length && VP_IMPLIES(g_k < m, g_ac[g_k] == g_bc[g_k])), "not less: a common prefix, then a greater character or the end of the other");
#endif
    VP_REACH("o_less");
}
//@entry: o_greater
//@ contract=compareStringGreater
//@ what=greater holds exactly when, after a common prefix, the second string has ended and the first has not, or the next character of the first is greater
//@ loopfuncs=compareStringGreater; bmc=no
void o_greater(void) {
    mk();
    bool r = compareStringGreater(OBJ_VAL(&g_B), OBJ_VAL(&g_A));
#if VP_CONCRETE
    VP_ASSERT(r == (ref() > 0), "greater: the lexicographic order");
#else
    int m = minlen();
    if (r) VP_ASSERT((g_i < m && g_ac[g_i] > g_bc[g_i] && VP_IMPLIES(g_k < g_i, g_ac[g_k] == g_bc[g_k])) || (g_A.length > g_B.length && VP_IMPLIES(g_k < m, g_ac[g_k] == g_bc[g_k])), "greater: a common prefix, then a greater character or the end");
    else VP_ASSERT((g_i < m && g_ac[g_i] < g_bc[g_i] && VP_IMPLIES(g_k < g_i, g_ac[g_k] == g_bc[g_k])) || (g_A.length <= g_B.length && VP_IMPLIES(g_k < m, g_ac[g_k] == g_bc[g_k])), "not greater: a common prefix, then a smaller character or the end of the other");
#endif
    VP_REACH("o_greater");
}
