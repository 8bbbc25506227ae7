//@unit: string methods on the real interpreter
//@entry: r_str
//@ mode=oracle; vmlib=yes
//@ what=refutation only: every string method on random texts agrees with its definition; wrong arguments are errors; memory is released
#include "rv.h"
#include <ctype.h>
void r_str(void) {
#if VP_CONCRETE
    rv_open();
    char a[80], b[20], c[20], ex[2000]; int n, m, k;
    const char *al = vp_range(0, 1) ? "ab " : "aBz{}. 9_";
    n = rv_word(a, 0, 14, al); m = rv_word(b, 0, 2, "ab {}"); k = rv_word(c, 0, 4, "xab");
    if (vp_range(0, 5) == 0) { m = n; memcpy(b, a, (size_t) n + 1 > 20 ? 19 : (size_t) n + 1); b[19] = 0; m = (int) strlen(b); }
    if (vp_range(0, 3) == 0) { for (int i = 0; i < 3 && n < 60; i++) { memcpy(a + n, b, (size_t) m + 1); n += m; } a[n] = 0; }
    P("var s = '%s'; var t = '%s'; var u = '%s';\n", a, b, c);
    P("var r = [s.len(), s.upper(), s.lower(), s.title(), s.contains(t), s.startsWith(t), s.endsWith(t), s.strip(), s.leftStrip(), s.rightStrip(), s.repeat(3), s.toBool(), s.isUpper(), s.isLower(), s + t, s.repeat(0), s.repeat(1)];\n");
    VP_ASSERT(rv_go() == 0, "the program runs");
    int q = 0;
#define NX rv_at("r", q++)
    VP_ASSERT(vnum(NX, n), "len");
    for (int i = 0; i <= n; i++) ex[i] = (char) toupper(a[i]);
    VP_ASSERT(vstr(NX, ex), "upper");
    for (int i = 0; i <= n; i++) ex[i] = (char) tolower(a[i]);
    VP_ASSERT(vstr(NX, ex), "lower");
    for (int i = 0; i <= n; i++) ex[i] = (char) (i == 0 || a[i - 1] == ' ' ? toupper(a[i]) : tolower(a[i]));
    VP_ASSERT(vstr(NX, ex), "title");
    VP_ASSERT(NX == BOOL_VAL(strstr(a, b) != NULL), "contains");
    VP_ASSERT(NX == BOOL_VAL(strncmp(a, b, (size_t) m) == 0), "startsWith");
    VP_ASSERT(NX == BOOL_VAL(m <= n && strcmp(a + n - m, b) == 0), "endsWith");
    int lo = 0, hi = n; while (lo < n && isspace(a[lo])) lo++; while (hi > 0 && isspace(a[hi - 1])) hi--;
    snprintf(ex, sizeof ex, "%.*s", hi > lo ? hi - lo : 0, a + lo); VP_ASSERT(vstr(NX, ex), "strip");
    VP_ASSERT(vstr(NX, a + lo), "leftStrip");
    snprintf(ex, sizeof ex, "%.*s", hi, a); VP_ASSERT(vstr(NX, ex), "rightStrip");
    snprintf(ex, sizeof ex, "%s%s%s", a, a, a); VP_ASSERT(vstr(NX, ex), "repeat");
    VP_ASSERT(NX == BOOL_VAL(n > 0), "toBool");
    bool up = n > 0, lw = n > 0; for (int i = 0; i < n; i++) if (isalpha(a[i])) { if (!isupper(a[i])) up = false; if (!islower(a[i])) lw = false; }
    VP_ASSERT(NX == BOOL_VAL(up), "isUpper"); VP_ASSERT(NX == BOOL_VAL(lw), "isLower");
    snprintf(ex, sizeof ex, "%s%s", a, b); VP_ASSERT(vstr(NX, ex), "concatenation");
    VP_ASSERT(vstr(NX, ""), "repeat 0"); VP_ASSERT(vstr(NX, a), "repeat 1");
    /* split, replace and count against each other */
    P("var p = s.split(t); var c = s.count(t); var f = s.find(t); var l = s.findLast(t); var w = s.replace(t, u); var k = 0; while (k < p.len()) { k += 1; }\n");
    VP_ASSERT(rv_go() == 0, "the program runs");
    if (m > 0) {
        int parts = 1, all = 0, first = -1, last = -1; for (int i = 0; i + m <= n; i++) if (!memcmp(a + i, b, (size_t) m)) { all++; if (first < 0) first = i; last = i; }
        int e = 0; ex[0] = 0; for (int i = 0; i < n;) if (i + m <= n && !memcmp(a + i, b, (size_t) m)) { memcpy(ex + e, c, (size_t) k); e += k; i += m; parts++; } else ex[e++] = a[i++];
        ex[e] = 0;
        VP_ASSERT(rv_num("k", parts) && rv_num("c", all) && rv_num("f", first) && rv_num("l", last), "split, count, find, findLast");
        VP_ASSERT(rv_str("w", ex), "replace");
    } else VP_ASSERT(rv_num("k", n) && rv_str("w", a), "split and replace with the empty text");
    /* format */
    int holes = (int) vp_range(0, 3), args = vp_range(0, 3) ? holes : (int) vp_range(0, 3); int e = 0; char f[200]; int fn = 0;
    for (int i = 0; i <= holes; i++) { const char *z = vp_range(0, 1) ? "a" : vp_range(0, 1) ? "{" : "} z"; fn += sprintf(f + fn, "%s", z); e += sprintf(ex + e, "%s", z); if (i < holes) { fn += sprintf(f + fn, "{}"); e += sprintf(ex + e, i == 0 ? "%s" : i == 1 ? "7" : "nil", a); } }
    const char *al3[] = {"", "s", "s, 7", "s, 7, nil"};
    P("var g = '%s'.format(%s);\n", f, al3[args]);
    int r = rv_go();
    if (args == holes && args > 0) VP_ASSERT(r == 0 && rv_str("g", ex), "format replaces every placeholder in order"); else VP_ASSERT(r == 2, "format: as many arguments as placeholders, at least one");
    /* toNumber */
    int d = (int) vp_range(-1000, 1000);
    P("var x = '%d'.toNumber().unwrap(); var y = '%d.5'.toNumber().unwrap(); var z = '%dpx'.toNumber().success(); var e = (s + 'q').toNumber().success();\n", d, d, d);
    VP_ASSERT(rv_go() == 0 && rv_num("x", d) && (d == 0 || rv_num("y", d < 0 ? d - 0.5 : d + 0.5)) && rv_bool("z", false) && rv_bool("e", false), "toNumber");
    static const char *bad[] = {"s.len(1)", "s.upper(1)", "s.lower(1)", "s.title(1)", "s.contains(1)", "s.contains()", "s.startsWith(1)", "s.startsWith()", "s.endsWith(nil)", "s.endsWith()", "s.strip(1)", "s.leftStrip(1)", "s.rightStrip(1)", "s.repeat('a')", "s.repeat()", "s.repeat(-1)", "s.count(1)", "s.count()", "s.replace('a')", "s.replace('a', 1)", "s.replace(1, 'a')", "s.find(1)", "s.find('a', 'b')", "s.find()", "s.findLast()", "s.findLast(1)", "s.split(1)", "s.split('a', 'b')", "s.split('a', 1, 2)", "s.format()", "s.isUpper(1)", "s.isLower(1)", "s.collapseSpaces(1)", "s.wrap()", "s.wrap('a')", "s.nosuch()"};
    P("var q = %s;\n", bad[vp_range(0, (int) (sizeof bad / sizeof *bad) - 1)]);
    VP_ASSERT(rv_go() == 2, "wrong arguments are errors");
    P("var h = s;\n"); VP_ASSERT(rv_go() == 0 && rv_str("h", a), "a method never changes its receiver");
    rv_close();
#endif
    VP_REACH("r_str");
}
