//@unit: sorting on the real interpreter
//@entry: r_sort
//@ mode=oracle; vmlib=yes
//@ what=refutation only: sort() on lists of numbers and of strings gives the ordered permutation; other lists are rejected unchanged
#include "rv.h"
#if VP_CONCRETE && !defined(VP_CBMC)
static int cd(const void *a, const void *b) { double x = *(const double *) a, y = *(const double *) b; return x < y ? -1 : x > y; }
static int cs(const void *a, const void *b) { return strcmp((const char *) a, (const char *) b); }
#endif
void r_sort(void) {
#if VP_CONCRETE && !defined(VP_CBMC)
    rv_open();
    int n = (int) vp_range(0, vp_range(0, 3) ? 8 : 60), k = (int) vp_range(0, 3), shape = (int) vp_range(0, 4);
    static double d[64]; static char w[64][16];
    for (int i = 0; i < n; i++) {
        int x = (int) vp_range(-3, 12);
        d[i] = shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? x / 4.0 : shape == 3 ? x * 1e15 : x;
        rv_word(w[i], 0, shape == 0 ? 2 : 9, shape == 1 ? "ab" : "abB\xc3\xa9 ");
    }
    if (k == 0 || k == 2) { P("var l = ["); for (int i = 0; i < n; i++) P("%s%.17g", i ? ", " : "", d[i]); P("];\n"); }
    else { P("var l = ["); for (int i = 0; i < n; i++) P("%s'%s'", i ? ", " : "", w[i]); P("];\n"); }
    if (k >= 2 && n >= 1) {
        int at = (int) vp_range(0, n), bad = (int) vp_range(0, k == 2 ? 3 : 2);
        P("l.insert(%s, %d);\n var l0 = l.copy();\n", bad == 0 ? "nil" : bad == 1 ? "true" : bad == 2 ? "[]" : "'s'", at);
        VP_ASSERT(rv_go() == 0, "sort: the program runs");
        P("l.sort();\n"); VP_ASSERT(rv_go() == 2, "sort: a list with other elements is rejected");
        P("var same = l == l0;\n"); VP_ASSERT(rv_go() == 0 && rv_bool("same", true), "sort: a rejected list is unchanged");
        rv_close(); return;
    }
    if (vp_range(0, 3) == 0) P("var m = l; var r = m.sort(); m = nil;\n"); else P("var r = l.sort();\n");
    VP_ASSERT(rv_go() == 0 && rv_len("l") == n, "sort: accepted, the length is kept");
    ValueArray *v = &AS_LIST(rv_get("l"))->values;
    if (k == 0 || k == 2) { qsort(d, (size_t) n, sizeof *d, cd); for (int i = 0; i < n; i++) VP_ASSERT(vnum(v->values[i], d[i]), "sort: numbers in order, each as often as before"); }
    else { qsort(w, (size_t) n, sizeof *w, cs); for (int i = 0; i < n; i++) VP_ASSERT(vstr(v->values[i], w[i]), "sort: strings in order, each as often as before"); }
    P("l.sort(1);\n"); VP_ASSERT(rv_go() == 2, "sort: takes no arguments");
    rv_close();
#endif
    VP_REACH("r_sort");
}
