//@unit: kinds and truthiness on the real interpreter
//@entry: r_kind
//@ mode=oracle; vmlib=yes
//@ what=refutation only: values of every kind pass through variables, lists, fields and calls unchanged, keep their type name, and are truthy as defined
#include "rv.h"
void r_kind(void) {
#if VP_CONCRETE
    rv_open();
    static const struct { const char *e, *t; bool truthy; } X[] = {
        {"nil", "nil", false}, {"true", "bool", true}, {"false", "bool", false}, {"0", "number", false}, {"-0", "number", false}, {"0.1", "number", true}, {"-3", "number", true},
        {"(0/0)", "number", true}, {"''", "string", false}, {"'a'", "string", true}, {"'0'", "string", true}, {"[]", "list", false}, {"[nil]", "list", true}, {"[[]]", "list", true}, {"{}", "dict", false},
        {"{'a': nil}", "dict", true}, {"set()", "set", false}, {"set(nil)", "set", true}, {"def () => nil", "function", true}, {"K", "class", true}, {"K()", "K", true}, {"E", "enum", true},
        {"rem(['x'], 'l')", "list", false}, {"rem({'x': 1}, 'd')", "dict", false}, {"rem(set('x'), 's')", "set", false}, {"'q'.toNumber()", "result", false}};
    int n = sizeof X / sizeof *X, i = (int) vp_range(0, n - 1), how = (int) vp_range(0, 5);
    P("class K {} enum E { A } def id(x) { return x; }\n"
      "def rem(c, k) { if (k == 'l') { c.remove('x'); } else { c.remove('x'); } return c; }\n");
    P("var a = %s; var b = ", X[i].e);
    P("%s", how == 0 ? "a;" : how == 1 ? "[a][0];" : how == 2 ? "{'k': a}['k'];" : how == 3 ? "id(a);" : how == 4 ? "nil; { const z = a; b = (def () => z)(); }" : "[1, a, 2][-2];");
    P("var t = type(b); var f = not b; var g = b ? 1 : 2; var h = 'no'; if (b) { h = 'yes'; } var w = 0; while (b) { w = 1; break; } var o = (b or 7) == 7; var c = (b and 7) == 7;\n");
    VP_ASSERT(rv_go() == 0, "kind: the program runs");
    Value v = rv_get("b");
    VP_ASSERT(v == rv_get("a"), "kind: a value passes unchanged");
    VP_ASSERT(i == 20 || rv_str("t", X[i].t), "kind: the type name is that of the value");
    bool y = X[i].truthy;
    VP_ASSERT(rv_bool("f", !y) && rv_num("g", y ? 1 : 2) && rv_str("h", y ? "yes" : "no") && rv_num("w", y) && rv_bool("c", y), "truthiness: in every construct");
    VP_ASSERT(rv_bool("o", !y), "truthiness: or");
    rv_close();
#endif
    VP_REACH("r_kind");
}
