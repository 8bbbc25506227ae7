//@unit: equality on the real interpreter
//@entry: r_equal
//@ mode=oracle; vmlib=yes
//@ what=refutation only: two random nested values, the second a copy built in another way or slightly changed, are equal exactly when their structure is
#include "rv.h"
#if VP_CONCRETE
typedef struct T { int k, n; int key[8]; struct T *c[8]; int v; } T; /* k: 0 atom, 1 list, 2 dict, 3 set (atoms) */
static T pool[400]; static int pn;
static const char *AT[] = {"nil", "true", "false", "0", "1", "2", "'a'", "'b'", "''", "1.5", "'1'"};
#define NA 11
static T *mk(int d) {
    T *t = &pool[pn++]; memset(t, 0, sizeof *t);
    t->k = d <= 0 ? 0 : (int) vp_range(0, 3);
    if (t->k == 0) { t->v = (int) vp_range(0, NA - 1); return t; }
    t->n = (int) vp_range(0, 4);
    int used = 0, m = 0;
    for (int i = 0; i < t->n; i++) {
        int key = (int) vp_range(0, NA - 1);
        if (t->k != 1) { if (used >> key & 1) continue; used |= 1 << key; }
        t->key[m] = key;
        if (t->k != 3) t->c[m] = mk(d - 1);
        m++;
    }
    t->n = m;
    return t;
}
static T *cp(T *t) { T *r = &pool[pn++]; *r = *t; for (int i = 0; i < t->n; i++) if (t->c[i]) r->c[i] = cp(t->c[i]); return r; }
static bool eq(T *a, T *b) {
    if (a->k != b->k) return false;
    if (a->k == 0) return a->v == b->v;
    if (a->n != b->n) return false;
    for (int i = 0; i < a->n; i++) {
        int j = i;
        if (a->k != 1) { for (j = 0; j < b->n && b->key[j] != a->key[i]; j++); if (j == b->n) return false; }
        if (a->k != 3 && !eq(a->c[i], b->c[j])) return false;
    }
    return true;
}
/* change one thing somewhere */
static void mut(T *t) {
    if (t->k == 0) { t->v = (int) vp_range(0, NA - 1); return; }
    int w = (int) vp_range(0, 3);
    if (w == 0 && t->n > 0) { t->n--; return; }
    if (w == 1 && t->n < 7) { int key = (int) vp_range(0, NA - 1); for (int i = 0; i < t->n; i++) if (t->k != 1 && t->key[i] == key) return; t->key[t->n] = key; t->c[t->n] = t->k == 3 ? NULL : mk(0); t->n++; return; }
    if (w == 2 && t->n > 0 && t->k != 1) { int key = (int) vp_range(0, NA - 1); for (int i = 0; i < t->n; i++) if (t->key[i] == key) return; t->key[vp_range(0, t->n - 1)] = key; return; }
    if (t->n > 0 && t->k != 3) mut(t->c[vp_range(0, t->n - 1)]);
}
static int tmp;
/* emits statements that build t; returns the variable number */
static int build(T *t, bool odd) {
    int idx[8];
    for (int i = 0; i < t->n; i++) idx[i] = t->c[i] ? build(t->c[i], odd) : 0;
    int me = tmp++;
    if (t->k == 0) { P("var v%d = %s;\n", me, AT[t->v]); return me; }
    int extra = odd ? (int) vp_range(0, 12) : 0, order[8];
    for (int i = 0; i < t->n; i++) order[i] = i;
    if (odd && t->k != 1) for (int i = t->n - 1; i > 0; i--) { int j = (int) vp_range(0, i), x = order[i]; order[i] = order[j]; order[j] = x; }
    P("var v%d = %s;\n", me, t->k == 1 ? "[]" : t->k == 2 ? "{}" : "set()");
    if (odd && t->k != 1) {
        /* churn: members that come and go */
        if (extra) P("for (var i = 0; i < %d; i += 1) { %s }\n", extra, t->k == 2 ? "vX['e' + i.toString()] = i;" : "vX.add('e' + i.toString());");
    }
    for (int i = 0; i < t->n; i++) {
        int o = order[i];
        if (t->k == 1) P("v%d.push(v%d);\n", me, idx[o]);
        if (t->k == 2) P("v%d[%s] = v%d;\n", me, AT[t->key[o]], idx[o]);
        if (t->k == 3) P("v%d.add(%s);\n", me, AT[t->key[o]]);
    }
    if (odd && t->k != 1 && extra) P("for (var i = 0; i < %d; i += 1) { vX.remove('e' + i.toString()); }\n", extra);
    /* name the churned collection */
    for (char *p; (p = strstr(rv_src, "vX")) != NULL;) { char s[16]; int l = sprintf(s, "v%d", me); memmove(p + l, p + 2, strlen(p + 2) + 1); memcpy(p, s, (size_t) l); rv_n += (size_t) (l - 2); }
    return me;
}
#endif
void r_equal(void) {
#if VP_CONCRETE
    rv_open(); pn = 0; tmp = 0;
    T *a = mk((int) vp_range(0, 3)), *b = cp(a);
    int w = (int) vp_range(0, 3);
    if (w == 0) mut(b);
    if (w == 1) b = mk((int) vp_range(0, 2));
    int va = build(a, false);
    VP_ASSERT(rv_go() == 0, "equality: builds");
    int vb = build(b, true);
    VP_ASSERT(rv_go() == 0, "equality: builds");
    P("var e = v%d == v%d; var f = v%d == v%d; var g = v%d == v%d; var h = v%d != v%d; var c = [1, v%d].contains(v%d); var s = 0; switch (v%d) { case v%d: s = 1; default: s = 2; }\n", va, vb, vb, va, va, va, va, vb, va, vb, va, vb);
    P("var m = 0; switch (v%d) { case 77, v%d, 78: m = 1; default: m = 2; }\n", va, vb);
    VP_ASSERT(rv_go() == 0, "equality: runs");
    bool x = eq(a, b);
    bool one = b->k == 0 && b->v == 4;
    VP_ASSERT(rv_bool("e", x), "equality: exactly for the same structure");
    VP_ASSERT(rv_bool("f", x) && rv_bool("g", true) && rv_bool("h", !x), "equality: symmetric, reflexive, != is its negation");
    VP_ASSERT(rv_bool("c", x || one) && rv_num("s", x ? 1 : 2), "equality: also for contains and switch");
    VP_ASSERT(rv_num("m", x ? 1 : 2), "equality: also for a case of several values");
    rv_close();
#endif
    VP_REACH("r_equal");
}
