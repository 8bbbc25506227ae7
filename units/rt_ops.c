//@unit: operators on the real interpreter
//@entry: r_expr
//@ mode=oracle; vmlib=yes; smoke=8
//@ what=refutation only: random expressions of literals and variables, folded and not, have the value of the same operations on doubles
//@entry: r_types
//@ mode=oracle; vmlib=yes; smoke=5
//@ what=refutation only: every operator on every pair of kinds of operands: values, concatenation of strings and lists, truthiness, or an error
#include "rv.h"
#if VP_CONCRETE && !defined(VP_CBMC)
static double xv[3]; static char xs[4000]; static int xn; static bool xbad;
static const char *OPS[] = {"|", "^", "&", "+", "-", "*", "/", "%", "**"}; static const int PR[] = {1, 2, 3, 4, 4, 5, 5, 5, 6};
/* writes an expression of at least the given precedence (7 unary, 8 primary) and returns its value */
static double gen(int depth, int prec) {
    int k = (int) vp_range(0, depth > 0 ? 9 : 3);
    if (k <= 1 || (xn > 3000)) { static const char *L[] = {"0", "1", "2", "3", "0.5", "0.1", "7", "10", "255", "1000003", "2.75", "0x1f", "1_000"}; static const double V[] = {0, 1, 2, 3, 0.5, 0.1, 7, 10, 255, 1000003, 2.75, 31, 1000}; int i = (int) vp_range(0, 12); xn += sprintf(xs + xn, "%s", L[i]); return V[i]; }
    if (k <= 3) { int i = (int) vp_range(0, 2); xn += sprintf(xs + xn, "%c", "abc"[i]); return xv[i]; }
    if (k == 4) { if (prec > 7) { xn += sprintf(xs + xn, "(-"); double v = gen(depth - 1, 7); xn += sprintf(xs + xn, ")"); return -v; } xn += sprintf(xs + xn, "-"); double v = gen(depth - 1, 7); return -v; }
    int o = (int) (vp_range(0, 3) ? vp_range(3, 8) : vp_range(0, 8)), p = PR[o]; bool par = p < prec || vp_range(0, 5) == 0; double a, b;
    if (par) xn += sprintf(xs + xn, "(");
    a = gen(depth - 1, p); xn += sprintf(xs + xn, " %s ", OPS[o]); b = gen(depth - 1, p + 1);
    if (par) xn += sprintf(xs + xn, ")");
    if (o <= 2 && !(fabs(a) < 2147483647.0 && fabs(b) < 2147483647.0)) { xbad = true; return 0; }
    switch (o) { case 0: return (int) a | (int) b; case 1: return (int) a ^ (int) b; case 2: return (int) a & (int) b; case 3: return a + b; case 4: return a - b; case 5: return a * b; case 6: return a / b; case 7: return fmod(a, b); default: return pow(a, b); }
}
#endif
void r_expr(void) {
#if VP_CONCRETE && !defined(VP_CBMC)
    rv_open();
    for (int i = 0; i < 3; i++) { static const double V[] = {0, 1, -1, 2, 3, 10, 0.1, -7.5, 1e6, 4294967296.0, 1e15, 0.3333, 100, 20}; xv[i] = V[vp_range(0, 13)]; }
    int f = (int) vp_range(0, 3); xn = 0; xs[0] = 0; xbad = false; double v = gen((int) vp_range(0, 5), 0);
    VP_ASSUME(!xbad && xn < 3500);
    char va[200]; sprintf(va, "var a = %.17g; var b = %.17g; var c = %.17g;", xv[0], xv[1], xv[2]);
    for (char *p = va; *p; p++) VP_ASSUME(*p != 'e');
    if (f == 0) P("%s var r = %s;\n", va, xs);
    else if (f == 1) P("%s def f(a, b, c) { return %s; } var r = f(a, b, c);\n", va, xs);
    else if (f == 2) P("def g() { %s def f() { return %s; } return f(); } var r = g();\n", va, xs);
    else P("%s def f(a, b, c) { var t = 'x'; var l = [1, %s, 3]; return l[1]; } var r = f(a, b, c);\n", va, xs);
    VP_ASSERT(rv_go() == 0, "the program runs");
    VP_ASSERT(rv_num("r", v), "expressions: the value of the operations on doubles");
    char w[64]; double q = xv[vp_range(0, 2)]; sprintf(w, "%.17g", q); for (char *p = w; *p; p++) VP_ASSUME(*p != 'e');
    P("%s var q = %s; var z = [(%s) < q, (%s) > q, (%s) <= q, (%s) >= q, (%s) == q, (%s) != q, not (%s), (%s) and q, (%s) or q, (%s) ? 1 : 2];\n", va, w, xs, xs, xs, xs, xs, xs, xs, xs, xs, xs);
    VP_ASSUME(xn < 1200);
    VP_ASSERT(rv_go() == 0, "the program runs");
#define B(i, c) VP_ASSERT(rv_at("z", i) == BOOL_VAL(c), "comparison: as on doubles")
    B(0, v < q); B(1, v > q); B(2, !(v > q)); B(3, !(v < q));
    if (!(v == 0 && q == 0)) { B(4, v == q || (v != v && q != q)); B(5, !(v == q || (v != v && q != q))); }
    B(6, v == 0);
    VP_ASSERT(vnum(rv_at("z", 7), v == 0 ? v : q) && vnum(rv_at("z", 8), v == 0 ? q : v) && vnum(rv_at("z", 9), v == 0 ? 2 : 1), "and, or, ?: select an operand by truthiness");
    rv_close();
#endif
    VP_REACH("r_expr");
}
void r_types(void) {
#if VP_CONCRETE && !defined(VP_CBMC)
    rv_open();
    static const char *T[] = {"3", "true", "false", "nil", "'ab'", "''", "[1, 2]", "[]", "{'a': 1}", "{}", "print", "f", "K", "K()", "E", "set()", "Success(1)", "Error('x')"};
    static const char KIND[] = "nbbNssllddffciertx"; /* one letter per literal */
    static const bool FALSY[] = {0, 0, 1, 1, 0, 1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1};
    const char *pre = "def f() {} class K {} enum E { A } ";
    int i = (int) vp_range(0, 17), j = (int) vp_range(0, 17), o = (int) vp_range(0, 12); static const char *O[] = {"+", "-", "*", "/", "%", "**", "&", "|", "^", "<", ">", "<=", ">="};
    bool var = vp_range(0, 1);
    if (var) P("%s var a = %s; var b = %s; var r = a %s b;\n", pre, T[i], T[j], O[o]); else P("%s var r = %s %s %s;\n", pre, T[i], O[o], T[j]);
    bool nn = KIND[i] == 'n' && KIND[j] == 'n', ss = KIND[i] == 's' && KIND[j] == 's', ll = KIND[i] == 'l' && KIND[j] == 'l';
    int r = rv_go(); bool ok = nn || (ss && (o == 0 || o >= 9)) || (ll && o == 0);
    VP_ASSERT(r == (ok ? 0 : 2), "operators: operands of other types are an error");
    if (ss && o == 0) VP_ASSERT(rv_len("r") == (i == 4 ? 2 : 0) + (j == 4 ? 2 : 0), "strings: + concatenates");
    if (ll && o == 0) VP_ASSERT(rv_len("r") == (i == 6 ? 2 : 0) + (j == 6 ? 2 : 0) && (i != 6 || (vnum(rv_at("r", 0), 1) && vnum(rv_at("r", 1), 2))), "lists: + concatenates");
    P("%s var a = %s; var r = [not a, a and 7, a or 7, a ? 1 : 2]; if (a) { r.push(1); } else { r.push(2); } while (a) { r.push(3); break; }\n", pre, T[i]);
    VP_ASSERT(rv_go() == 0, "the program runs");
    bool fa = FALSY[i];
    VP_ASSERT(rv_at("r", 0) == BOOL_VAL(fa) && vnum(rv_at("r", 3), fa ? 2 : 1) && vnum(rv_at("r", 4), fa ? 2 : 1) && rv_len("r") == (fa ? 5 : 6), "conditions: by truthiness");
    VP_ASSERT(fa ? vnum(rv_at("r", 2), 7) : vnum(rv_at("r", 1), 7), "and, or: by truthiness");
    char w1[30], w2[30]; int n1 = rv_word(w1, 0, 20, "ab c"), n2 = rv_word(w2, 0, 20, "xyz'" + 0); for (int q = 0; q < n2; q++) if (w2[q] == '\'') w2[q] = 'q';
    P("var a = '%s'; var b = '%s'; var r = a + b; var s = a; s += b; var l = [a] + [b, 1] + [nil]; var t = [-(%s)];\n", w1, w2, i == 0 ? "3" : "4");
    VP_ASSERT(rv_go() == 0, "the program runs"); char w[64]; sprintf(w, "%s%s", w1, w2);
    VP_ASSERT(rv_strn("r", w, n1 + n2) && rv_strn("s", w, n1 + n2), "strings: + concatenates");
    VP_ASSERT(rv_len("l") == 4 && vstr(rv_at("l", 0), w1) && vstr(rv_at("l", 1), w2) && vnum(rv_at("l", 2), 1) && rv_at("l", 3) == NIL_VAL, "lists: + concatenates");
    P("%s var r = -%s;\n", pre, T[i]); VP_ASSERT(rv_go() == (KIND[i] == 'n' ? 0 : 2), "minus: numbers only");
    rv_close();
#endif
    VP_REACH("r_types");
}
