//@unit: string order on the real interpreter
//@entry: r_order
//@ mode=oracle; vmlib=yes
//@ what=refutation only: the operators on pairs of strings, as literals and as variables, agree with the lexicographic order
#include "rv.h"
void r_order(void) {
#if VP_CONCRETE
    rv_open();
    char a[60], b[60];
    const char *al = vp_range(0, 2) ? "ab" : "aB\xc3\xa9~ z";
    int n = rv_word(a, 0, 10, al), m = rv_word(b, 0, 10, al);
    if (vp_range(0, 1)) { m = (int) vp_range(0, n); memcpy(b, a, (size_t) m); b[m] = 0; if (vp_range(0, 1)) strcat(b, "c"); m = (int) strlen(b); }
    int c = memcmp(a, b, (size_t) (n < m ? n : m)); if (!c) c = n - m;
    int how = (int) vp_range(0, 2);
    P("var s = '%s'; var t = '%s';\n", a, b);
    if (how == 0) P("var l = s < t; var le = s <= t; var g = s > t; var ge = s >= t; var e = s == t; var ne = s != t;\n");
    if (how == 1) P("var l = '%s' < '%s'; var le = '%s' <= '%s'; var g = '%s' > '%s'; var ge = '%s' >= '%s'; var e = '%s' == '%s'; var ne = '%s' != '%s';\n", a, b, a, b, a, b, a, b, a, b, a, b);
    if (how == 2) P("def f(x, y) { return [x < y, x <= y, x > y, x >= y, x == y, x != y]; } var r = f(s, t); var l = r[0]; var le = r[1]; var g = r[2]; var ge = r[3]; var e = r[4]; var ne = r[5];\n");
    VP_ASSERT(rv_go() == 0, "order: the program runs");
    VP_ASSERT(rv_bool("l", c < 0) && rv_bool("le", c <= 0) && rv_bool("g", c > 0) && rv_bool("ge", c >= 0), "order: < <= > >= are the lexicographic order");
    VP_ASSERT(rv_bool("e", c == 0) && rv_bool("ne", c != 0), "order: equal exactly when neither less nor greater");
    P("var x = '%s' < 1;\n", a); VP_ASSERT(rv_go() == 2, "order: a string is not ordered against other kinds");
    P("var x = s >= nil;\n"); VP_ASSERT(rv_go() == 2, "order: a string is not ordered against other kinds");
    rv_close();
#endif
    VP_REACH("r_order");
}
