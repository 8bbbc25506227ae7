//@unit: names and interning on the real interpreter
//@entry: r_names
//@ mode=oracle; vmlib=yes
//@ what=refutation only: random definitions and redefinitions of globals, attributes, methods and enum members, read back; strings built in different ways compared
#include "rv.h"
void r_names(void) {
#if VP_CONCRETE
    rv_open();
    enum { N = 60 };
    static double val[N]; static bool in[N];
    int n = (int) vp_range(1, N), ops = (int) vp_range(1, 120), kind = (int) vp_range(0, 2), style = (int) vp_range(0, 2);
    const char *fmt = style == 0 ? "k%d" : style == 1 ? "abc_%d_x" : "Z%dZ";
    char nm[32];
    memset(in, 0, sizeof in);
    if (kind == 1) P("class K {} var o = K();\n");
    if (kind == 2) P("class K {} var o = K(); var p = o;\n");
    for (int i = 0; i < ops; i++) {
        int k = (int) vp_range(0, n - 1); double v = (double) vp_range(-1000, 1000);
        sprintf(nm, fmt, k);
        if (kind == 0) P(in[k] ? "%s = %g;\n" : "var %s = %g;\n", nm, v);
        else if (kind == 1) P("o.%s = %g;\n", nm, v);
        else P("p.setAttribute('%s', %g);\n", nm, v);
        in[k] = true; val[k] = v;
        if (i % 20 == 19) VP_ASSERT(rv_go() == 0, "names: the program runs");
        if (vp_range(0, 9) == 0) {
            int j = (int) vp_range(0, n - 1); sprintf(nm, fmt, j);
            if (in[j]) { P("var r%d = %s%s == %g;\n", i, kind ? "o." : "", nm, val[j]); }
        }
    }
    VP_ASSERT(rv_go() == 0, "names: the program runs");
    for (int i = 0; i < ops; i++) { sprintf(nm, "r%d", i); Value v = rv_get(nm); VP_ASSERT(IS_EMPTY(v) || v == TRUE_VAL, "names: a name denotes the value assigned last, at every moment"); }
    for (int k = 0; k < n; k++) {
        sprintf(nm, fmt, k);
        if (kind == 0) VP_ASSERT(in[k] ? rv_num(nm, val[k]) : rv_get(nm) == EMPTY_VAL, "names: a global has the value assigned last, and exists only when defined");
        else { P("var v = o.getAttribute('%s', 'none');\n", nm); VP_ASSERT(rv_go() == 0 && (in[k] ? rv_num("v", val[k]) : rv_str("v", "none")), "names: an attribute has the value assigned last, and exists only when assigned"); }
    }
    rv_close();
#endif
    VP_REACH("r_names");
}

//@entry: r_intern
//@ mode=oracle; vmlib=yes
//@ what=refutation only: strings with equal characters, built by concatenation, slicing, case conversion or as literals, are equal; others are not
void r_intern(void) {
#if VP_CONCRETE
    rv_open();
    char a[40], b[40];
    int n = rv_word(a, 1, 30, "abcxyz"), m = rv_word(b, 1, 30, "abcxyz");
    if (vp_range(0, 1)) { strcpy(b, a); m = n; if (vp_range(0, 1)) b[vp_range(0, m - 1)] = 'q'; else if (vp_range(0, 2) == 0) { b[m++] = 'a'; b[m] = 0; } }
    int c = (int) vp_range(0, n);
    P("var s = '%.*s' + '%s'; var t = '%s'; var u = '%s'.upper().lower(); var w = ('%s' + '123')[:%d];\n", c, a, a + c, b, b, b, m);
    P("for (var i = 0; i < %d; i += 1) { var junk = '' + i.toString() + 'junk'; }\n", (int) vp_range(0, 40));
    P("var x = s == t; var y = t == u; var z = u == w; var d = {s: 1}; var e = d.exists(t); d[t] = 2; var l = d.len(); var f = d[w];\n");
    VP_ASSERT(rv_go() == 0, "intern: the program runs");
    bool eq = n == m && memcmp(a, b, (size_t) n) == 0;
    VP_ASSERT(rv_bool("x", eq), "intern: strings are equal exactly when their characters are");
    VP_ASSERT(rv_bool("y", true) && rv_bool("z", true), "intern: equal characters give equal strings however they were built");
    VP_ASSERT(rv_bool("e", eq) && rv_num("l", eq ? 1 : 2) && rv_num("f", 2), "intern: as dictionary keys");
    VP_ASSERT(rv_strn("s", a, n) && rv_strn("t", b, m) && rv_strn("u", b, m) && rv_strn("w", b, m), "intern: characters are kept");
    rv_close();
#endif
    VP_REACH("r_intern");
}
