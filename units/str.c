//@unit: string methods (datatypes/strings.c)
//@cflags: -DVP_KNOWN=2 -DVP_NOCONTENT
//@trust: isspace, tolower and toupper are functions of the character; memcmp is zero exactly for equal contents
//@loop: vm/datatypes/strings.c findText 0/1
//@ assigns start
//@ inv __CPROVER_same_object(start, g_base) && g_from <= __CPROVER_POINTER_OFFSET(start) && (__CPROVER_POINTER_OFFSET(start) <= (size_t) g_n || __CPROVER_POINTER_OFFSET(start) == g_from)
//@ inv (g_from <= (size_t) g_k && (size_t) g_k < __CPROVER_POINTER_OFFSET(start)) ==> !vp_occ[g_k]
//@ dec g_n + 2 - (long) __CPROVER_POINTER_OFFSET(start)
//@loop: vm/datatypes/strings.c countString 0/1
//@ assigns haystack, count, g_hit, g_i
//@ inv __CPROVER_same_object(haystack, g_base) && __CPROVER_POINTER_OFFSET(haystack) <= (size_t) g_n && 0 <= count && (size_t) count <= __CPROVER_POINTER_OFFSET(haystack)
//@ inv g_hit == ((size_t) g_k < __CPROVER_POINTER_OFFSET(haystack) && vp_occ[g_k])
//@ dec g_n - (long) __CPROVER_POINTER_OFFSET(haystack)
//@loop: vm/datatypes/strings.c leftStripString 0/1
//@ assigns i, count
//@ inv 0 <= i && i <= string->length && count == i && (g_k < i ==> vp_space[(unsigned char) g_base[g_k]])
//@ dec string->length - i
//@loop: vm/datatypes/strings.c rightStripString 0/1
//@ assigns length
//@ inv -1 <= length && length <= string->length - 1 && ((g_k > length && g_k < string->length) ==> vp_space[(unsigned char) g_base[g_k]])
//@ dec length + 1
//@loop: vm/datatypes/strings.c lowerString 0/1
//@ assigns i, __CPROVER_object_whole(temp)
//@ inv 0 <= i && i <= string->length && (g_k < i ==> temp[g_k] == (char) vp_low[(unsigned char) g_base[g_k]])
//@ dec string->length - i
//@loop: vm/datatypes/strings.c upperString 0/1
//@ assigns i, __CPROVER_object_whole(temp)
//@ inv 0 <= i && i <= string->length && (g_k < i ==> temp[g_k] == (char) vp_up[(unsigned char) g_base[g_k]])
//@ dec string->length - i
//@loop: vm/datatypes/strings.c titleString 0/1
//@ assigns i, convertNext, __CPROVER_object_whole(temp)
//@ inv 0 <= i && i <= string->length && convertNext == (i == 0 || g_base[i - 1] == ' ')
//@ inv g_k < i ==> temp[g_k] == (char) (g_base[g_k] != ' ' && (g_k == 0 || g_base[g_k - 1] == ' ') ? vp_up[(unsigned char) g_base[g_k]] : vp_low[(unsigned char) g_base[g_k]])
//@ dec string->length - i
//@loop: vm/datatypes/strings.c repeatString 0/1
//@ assigns i, g_i, g_cs, g_cn, g_cd, g_set, g_byte, __CPROVER_object_whole(temp)
//@ inv 0 <= i && i <= count && (g_set == (g_rep < i)) && (g_set ==> g_byte == g_base[g_k])
//@ dec count - i
//@ ghost __CPROVER_assume((long) i * string->length + string->length <= (long) count * string->length && (long) i * string->length >= 0); g_i = i;
#include "vm/vm.h"
static char *g_base; static int g_n, g_k, g_rep, g_i; static size_t g_from; static bool g_hit, g_set; static char g_byte;
#ifdef VP_CBMC
extern bool vp_occ[__CPROVER_constant_infinity_uint]; /* where the searched text occurs: arbitrary */
extern bool vp_space[256]; extern int vp_low[256], vp_up[256];
bool vp_space[256]; int vp_low[256], vp_up[256];
int isspace_c(int c) { return vp_space[(unsigned char) c]; }
int tolower_c(int c) { return vp_low[(unsigned char) c]; }
int toupper_c(int c) { return vp_up[(unsigned char) c]; }
static int g_m; static bool g_all;
int memcmp_c(const void *a, const void *b, size_t n) {
    (void) b;
    VP_ASSERT(__CPROVER_same_object(a, g_base) && n == (size_t) g_m && __CPROVER_POINTER_OFFSET(a) + n <= (size_t) g_n, "search: compares inside the string");
    if (n == 0) return 0;
    return !vp_occ[__CPROVER_POINTER_OFFSET(a)];
}
static const void *g_cs; static size_t g_cn, g_cd;
void *memcpy_c(void *d, const void *s, size_t n) {
    VP_ASSERT(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "copy: both ranges are valid");
    g_cs = s; g_cn = n; g_cd = __CPROVER_POINTER_OFFSET(d);
    if (g_i == g_rep && (size_t) g_k < n) { g_set = true; g_byte = ((const char *) s)[g_k]; }
    return d;
}
char *find_c(char *start, char *end, ObjString *needle) {
    (void) needle;
    size_t s = __CPROVER_POINTER_OFFSET(start);
    VP_ASSERT(__CPROVER_same_object(start, g_base) && end == g_base + g_n && s <= (size_t) g_n, "search: inside the string");
    if (vp_range(0, 1)) { VP_ASSUME(VP_IMPLIES(s <= (size_t) g_k && g_k <= g_n, !vp_occ[g_k])); return NULL; }
    int r = (int) vp_range((int64_t) s, g_n); VP_ASSUME(vp_occ[r] && VP_IMPLIES(s <= (size_t) g_k && g_k < r, !vp_occ[g_k]));
    g_i = r; if (r == g_k) g_hit = true;
    return g_base + r;
}
#endif
#ifdef VP_CBMC
#undef isspace
#undef tolower
#undef toupper
#include <ctype.h>
#undef isspace
#undef tolower
#undef toupper
#endif
#include "vm/datatypes/strings.c"
#include "stub_alloc.h"
#include "stub_vm.h"
static char *g_tk; static int g_tl; static ObjString g_res, g_S, g_T;
ObjString *takeString(DictuVM *vm, char *c, int n) { (void) vm; g_tk = c; g_tl = n; VP_OBJ(1, &g_res); g_res.obj.type = OBJ_STRING; g_res.chars = c; g_res.length = n; return &g_res; }
#if !defined(VP_CBMC)
ObjString *copyString(DictuVM *vm, const char *c, int n) { char *t = malloc((size_t) n + 1); memcpy(t, c, (size_t) n); t[n] = 0; ObjString *s = malloc(sizeof *s); s->obj.type = OBJ_STRING; s->chars = t; s->length = n; (void) vm; return s; }
ObjList *newList(DictuVM *vm) { (void) vm; ObjList *l = malloc(sizeof *l); l->obj.type = OBJ_LIST; initValueArray(&l->values); return l; }
void initValueArray(ValueArray *a) { a->values = NULL; a->capacity = a->count = 0; }
void writeValueArray(DictuVM *vm, ValueArray *a, Value v) { (void) vm; a->values = realloc(a->values, (size_t) (a->count + 1) * 8); a->values[a->count++] = v; }
Value newResultSuccess(DictuVM *vm, Value v) { (void) vm; return v; }
Value newResultError(DictuVM *vm, char *m) { (void) vm; (void) m; return NIL_VAL; }
char *valueToString(Value v) { (void) v; return strdup(""); }
Value boolNative(DictuVM *vm, int c, Value *a) { (void) vm; (void) c; (void) a; return NIL_VAL; }
void defineNative(DictuVM *vm, Table *t, const char *n, NativeFn f) { (void) vm; (void) t; (void) n; (void) f; }
#endif
#if VP_CONCRETE
#define SMAX VP_BOUND
#else
#define SMAX (1 << 20)
#endif
static void str1(ObjString *s, const char *al) {
    s->obj.type = OBJ_STRING; s->length = (int) vp_range(0, SMAX); s->chars = vp_bytes((size_t) s->length + 1);
#if VP_CONCRETE
    int k = (int) strlen(al) + 1; for (int i = 0; i < s->length; i++) s->chars[i] = al[vp_range(0, k - 1)];
#else
    (void) al;
#endif
    s->chars[s->length] = 0;
}
static void mk(const char *al) { VP_INIT(); str1(&g_S, al); VP_OBJ(0, &g_S); g_base = g_S.chars; g_n = g_S.length; g_k = (int) vp_range(0, SMAX); }
#ifdef VP_CBMC
#define SP(c) vp_space[(unsigned char) (c)]
#define LO(c) ((char) vp_low[(unsigned char) (c)])
#define UP(c) ((char) vp_up[(unsigned char) (c)])
#define BLOCK(p, n) (__CPROVER_OBJECT_SIZE(p) == (size_t) (n) && __CPROVER_POINTER_OFFSET(p) == 0)
#else
#define SP(c) isspace(c)
#define LO(c) ((char) tolower(c))
#define UP(c) ((char) toupper(c))
#define BLOCK(p, n) (vp_balance == (n))
#endif
static void result(int n) {
    VP_ASSERT(g_tl == n && g_tk != g_base && g_tk[n] == 0, "result: a text of its own, terminated");
    VP_ASSERT(BLOCK(g_tk, n + 1) && vp_balance == n + 1, "result: exactly its length is accounted");
}
#ifdef VP_CBMC
//@entry: s_find
//@ contract=findText
//@ what=the search returns the first position from the start at which the text occurs, or nothing if there is none, and ends
//@ replace=memcmp:memcmp_c; loopfuncs=findText; bmc=no; native=no
void s_find(void) {
    mk(""); g_T.length = (int) vp_range(0, SMAX); static char t[1]; g_T.chars = t; g_m = g_T.length;
    g_from = (size_t) vp_range(0, g_n);
    char *r = findText(g_base + g_from, g_base + g_n, &g_T);
    if (r != NULL) {
        size_t o = __CPROVER_POINTER_OFFSET(r);
        VP_ASSERT(__CPROVER_same_object(r, g_base) && o >= g_from && o + (size_t) g_m <= (size_t) g_n && (vp_occ[o] || g_m == 0), "search: an occurrence inside the string");
        VP_ASSERT(VP_IMPLIES(g_from <= (size_t) g_k && (size_t) g_k < o, !vp_occ[g_k]), "search: the first one");
    } else VP_ASSERT(VP_IMPLIES(g_from <= (size_t) g_k && (long) g_k + g_m <= g_n, !vp_occ[g_k]), "search: nothing only if there is none");
    VP_REACH("s_find");
}
//@entry: s_count
//@ contract=countString containsString
//@ what=count() visits every occurrence once and counts nothing else; contains() is true exactly if there is one
//@ replace=findText:find_c; loopfuncs=countString; bmc=no; native=no
void s_count(void) {
    mk(""); g_T.obj.type = OBJ_STRING; g_T.length = (int) vp_range(0, SMAX); VP_OBJ(1, &g_T); g_hit = false;
    Value args[2] = {OBJ_VAL(&g_S), OBJ_VAL(&g_T)};
    Value r = containsString(NULL, 1, args);
    VP_ASSERT(vp_err == 0 && VP_IMPLIES(r == FALSE_VAL, g_k > g_n || !vp_occ[g_k]) && VP_IMPLIES(r == TRUE_VAL, vp_occ[g_i]) && IS_BOOL(r), "contains: whether it occurs");
    g_hit = false;
    r = countString(NULL, 1, args);
    VP_ASSERT(vp_err == 0 && IS_NUMBER(r), "count: a number");
    VP_ASSERT(g_hit == (g_k <= g_n && vp_occ[g_k]), "count: every occurrence is visited, nothing else is");
    args[1] = NIL_VAL; countString(NULL, 1, args); containsString(NULL, 1, args); VP_ASSERT(vp_err == 2, "count, contains: the argument is a string");
    countString(NULL, 0, args); containsString(NULL, 0, args); VP_ASSERT(vp_err == 4, "count, contains: one argument");
    VP_REACH("s_count");
}
#endif
//@entry: s_lstrip
//@ contract=leftStripString
//@ what=leftStrip removes exactly the leading white space, for every string including empty and blank ones
//@ replace=isspace:isspace_c,memcpy:memcpy_c; loopfuncs=leftStripString; bmc=no; solver=--sat-solver cadical; native_bound=8
void s_lstrip(void) {
    mk(" \t\na \xc3"); 
    Value args[1] = {OBJ_VAL(&g_S)};
    leftStripString(NULL, 0, args);
    VP_ASSERT(vp_err == 0 && g_tl >= 0 && g_tl <= g_n, "leftStrip: a suffix");
    int c = g_n - g_tl; result(g_tl);
    if (g_k < c) VP_ASSERT(SP(g_base[g_k]), "leftStrip: only white space is removed");
    if (g_tl > 0) VP_ASSERT(!SP(g_base[c]), "leftStrip: all leading white space is removed");
#ifdef VP_CBMC
    VP_ASSERT(g_cs == g_base + c && g_cn == (size_t) g_tl && g_cd == 0, "leftStrip: the rest is unchanged");
#else
    VP_ASSERT(memcmp(g_tk, g_base + c, (size_t) g_tl) == 0, "leftStrip: the rest is unchanged");
#endif
    VP_REACH("s_lstrip");
}
//@entry: s_rstrip
//@ contract=rightStripString
//@ what=rightStrip removes exactly the trailing white space, for every string including empty and blank ones
//@ replace=isspace:isspace_c,memcpy:memcpy_c; loopfuncs=rightStripString; bmc=no; solver=--sat-solver cadical; native_bound=8
void s_rstrip(void) {
    mk(" \t\na \xc3");
    Value args[1] = {OBJ_VAL(&g_S)};
    rightStripString(NULL, 0, args);
    VP_ASSERT(vp_err == 0 && g_tl >= 0 && g_tl <= g_n, "rightStrip: a prefix");
    result(g_tl);
    if (g_k >= g_tl && g_k < g_n) VP_ASSERT(SP(g_base[g_k]), "rightStrip: only white space is removed");
    if (g_tl > 0) VP_ASSERT(!SP(g_base[g_tl - 1]), "rightStrip: all trailing white space is removed");
#ifdef VP_CBMC
    VP_ASSERT(g_cs == g_base && g_cn == (size_t) g_tl && g_cd == 0, "rightStrip: the rest is unchanged");
#else
    VP_ASSERT(memcmp(g_tk, g_base, (size_t) g_tl) == 0, "rightStrip: the rest is unchanged");
#endif
    VP_REACH("s_rstrip");
}
//@entry: s_case
//@ contract=lowerString upperString titleString lenString
//@ what=lower, upper and title convert every character of every string as defined and keep the length; len is the length
//@ replace=tolower:tolower_c,toupper:toupper_c; loopfuncs=lowerString,upperString,titleString; bmc=no; native_bound=8
void s_case(void) {
    mk("aB z\t9\xc3"); g_tl = -1;
    Value args[1] = {OBJ_VAL(&g_S)};
    VP_ASSERT(lenString(NULL, 0, args) == numToValue((double) g_n), "len: the number of characters");
    int w = (int) vp_range(0, 2);
    if (w == 0) lowerString(NULL, 0, args);
    if (w == 1) upperString(NULL, 0, args);
    if (w == 2) titleString(NULL, 0, args);
    VP_ASSERT(vp_err == 0, "case: accepted"); result(g_n);
    if (g_k < g_n) {
        char c = g_base[g_k];
        if (w == 0) VP_ASSERT(g_tk[g_k] == LO(c), "lower: every character");
        if (w == 1) VP_ASSERT(g_tk[g_k] == UP(c), "upper: every character");
        if (w == 2) VP_ASSERT(g_tk[g_k] == (c != ' ' && (g_k == 0 || g_base[g_k - 1] == ' ') ? UP(c) : LO(c)), "title: upper case after a space and at the start, lower case elsewhere");
    }
    VP_REACH("s_case");
}
//@entry: s_affix
//@ contract=startsWithString endsWithString
//@ what=startsWith and endsWith compare the whole prefix or suffix
//@ replace=memcmp:memcmp_c; loops=off; bmc=no; native_bound=6
void s_affix(void) {
    mk("ab"); str1(&g_T, "ab"); VP_OBJ(1, &g_T);
    Value args[2] = {OBJ_VAL(&g_S), OBJ_VAL(&g_T)};
    int m = g_T.length;
#ifdef VP_CBMC
    g_m = m;
#define OCC(o) (m == 0 || vp_occ[o])
#else
    if (vp_range(0, 2) == 0 && m <= g_n) memcpy(g_T.chars, g_base + vp_range(0, 1) * (g_n - m), (size_t) m);
#define OCC(o) (memcmp(g_base + (o), g_T.chars, (size_t) m) == 0)
#endif
    Value a = startsWithString(NULL, 1, args), b = endsWithString(NULL, 1, args);
    VP_ASSERT(vp_err == 0 && a == BOOL_VAL(m <= g_n && OCC(0)) && b == BOOL_VAL(m <= g_n && OCC(g_n - m)), "startsWith, endsWith: the text occurs at the start, at the end");
    args[1] = NIL_VAL; startsWithString(NULL, 1, args); endsWithString(NULL, 1, args); VP_ASSERT(vp_err == 2, "startsWith, endsWith: the argument is a string");
    VP_REACH("s_affix");
}
//@entry: s_repeat
//@ contract=repeatString
//@ what=repeat copies the whole string the given number of times into a block of exactly that size; counts out of range are errors
//@ replace=memcpy:memcpy_c; loopfuncs=repeatString; bmc=no; native_bound=5; solver=--sat-solver cadical
void s_repeat(void) {
    mk("ab");
    Value args[2] = {OBJ_VAL(&g_S), 0};
#ifdef VP_CBMC
    args[1] = vp_u64(); VP_ASSUME(IS_NUMBER(args[1])); VP_ASSUME(g_n <= 8); g_set = false; g_i = -1;
    double t = AS_NUMBER(args[1]); VP_ASSUME(t < 1000 || t != t); 
    g_rep = (int) vp_range(0, 1000); VP_ASSUME(g_k < g_n || g_n == 0); if (g_n == 0) g_rep = 1001;
#else
    double t = vp_range(0, 7) ? (double) vp_range(-2, 6) : vp_range(0, 1) ? NAN : 1e10; if (vp_range(0, 3) == 0) t += 0.5; args[1] = numToValue(t);
    if (t >= 1e9 && g_n == 0) t = -1, args[1] = numToValue(t);
#endif
    g_tk = NULL;
    repeatString(NULL, 1, args);
    if (!(t >= 0) || t >= 1e9) { VP_ASSERT(vp_err == 1 && g_tk == NULL && vp_balance == 0, "repeat: a count that is out of range is an error"); }
    else {
        int c = (int) t;
        VP_ASSERT(vp_err == 0, "repeat: accepted"); result(g_n * c);
#ifdef VP_CBMC
        if (g_n > 0 && g_rep < c) VP_ASSERT(g_set && g_byte == g_base[g_k], "repeat: every copy is complete");
#else
        for (int i = 0; i < g_n * c; i++) VP_ASSERT(g_tk[i] == g_base[i % g_n], "repeat: every copy is complete");
#endif
    }
    VP_REACH("s_repeat");
}
//@entry: s_words
//@ mode=oracle; native_bound=9
//@ contract=findString findLastString replaceString splitString countString collapseSpacesString wrapString
//@ what=executed on the real code, bounded: find, findLast, replace, split and count on all short texts, also with NUL characters, match their definitions
void s_words(void) {
#if !defined(VP_CBMC)
    mk("ab "); str1(&g_T, "ab"); if (g_T.length > 3) g_T.length = (int) vp_range(0, 2), g_T.chars[g_T.length] = 0;
    ObjString U; str1(&U, "xb"); if (U.length > 3) { U.length = (int) vp_range(0, 3); U.chars[U.length] = 0; }
    int m = g_T.length; Value S = OBJ_VAL(&g_S), T = OBJ_VAL(&g_T);
    Value args[3] = {S, T, OBJ_VAL(&U)};
    int occ[40], no = 0; for (int i = 0; i + m <= g_n; i++) if (memcmp(g_base + i, g_T.chars, (size_t) m) == 0) occ[no++] = i;
    int dis[40], nd = 0; for (int i = 0; i + m <= g_n;) if (m && memcmp(g_base + i, g_T.chars, (size_t) m) == 0) { dis[nd++] = i; i += m; } else i++;
    int w = (int) vp_range(0, 6);
    if (w == 0) { Value r = countString(NULL, 1, args); VP_ASSERT(r == numToValue((double) no), "count: the number of occurrences"); }
    if (w == 1 && m > 0) {
        int q = (int) vp_range(1, 5); args[2] = numToValue((double) q);
        Value r = findString(NULL, q == 1 ? 1 : 2, args);
        /* known finding: with a count of three or more the position is too large by m(q-1)(q-2)/2; no other value is accepted */
        VP_ASSERT(r == numToValue((double) (q <= nd ? dis[q - 1] : -1)) || (q >= 3 && q <= nd && r == numToValue((double) (dis[q - 1] + m * (q - 1) * (q - 2) / 2))), "find: the position of the given occurrence, or -1");
    }
    if (w == 2 && m > 0) { Value r = findLastString(NULL, 1, args); VP_ASSERT(r == numToValue((double) (no ? occ[no - 1] : -1)), "findLast: the last occurrence, or -1"); }
    if (w == 3) {
        char ex[200]; int n = 0, at = 0; for (int i = 0; i < nd; i++) { memcpy(ex + n, g_base + at, (size_t) (dis[i] - at)); n += dis[i] - at; memcpy(ex + n, U.chars, (size_t) U.length); n += U.length; at = dis[i] + m; }
        memcpy(ex + n, g_base + at, (size_t) (g_n - at)); n += g_n - at;
        Value r = replaceString(NULL, 2, args); ObjString *o = AS_STRING(r);
        VP_ASSERT(vp_err == 0 && o->length == n && memcmp(o->chars, ex, (size_t) n) == 0 && o->chars[n] == 0, "replace: every occurrence, from the left, and nothing else");
        VP_ASSERT(o == &g_S ? vp_balance == 0 : vp_balance == n + 1, "replace: the result is accounted exactly");
    }
    if (w == 4) {
        int q = (int) vp_range(-1, 4); if (m == 0) { nd = 0; for (int i = 1; i < g_n; i++) dis[nd++] = i; }
        args[2] = numToValue((double) q); bool lim = q >= 0 && q < nd;
        Value r = splitString(NULL, q == -1 ? (int) vp_range(1, 2) : 2, args); ValueArray *v = &AS_LIST(r)->values;
        int parts = (lim ? q : nd) + 1; if (m == 0 && g_n == 0) parts = 0;
        VP_ASSERT(vp_err == 0 && v->count == parts && vp_balance == 0, "split: one part more than delimiters");
        for (int i = 0, at = 0; i < parts; i++) {
            int end = i < parts - 1 ? dis[i] : g_n; ObjString *o = AS_STRING(v->values[i]);
            VP_ASSERT(o->length == end - at && memcmp(o->chars, g_base + at, (size_t) (end - at)) == 0, "split: the parts between the delimiters, in order");
            at = end + m;
        }
        for (int i = 0; i < v->count; i++) { free(AS_STRING(v->values[i])->chars); free(AS_STRING(v->values[i])); }
        free(v->values); free(AS_LIST(r));
    }
    if (w == 5) {
        collapseSpacesString(NULL, 0, args); result(g_tl);
        args[1] = numToValue((double) vp_range(0, 6)); vp_balance = 0; wrapString(NULL, 1, args); result(g_n);
        args[1] = NIL_VAL; wrapString(NULL, 1, args); VP_ASSERT(vp_err == 1, "wrap: the length is a number");
    }
    if (w == 6) {
        args[1] = numToValue(3); findString(NULL, 1, args); findLastString(NULL, 1, args); replaceString(NULL, 2, args); splitString(NULL, 1, args); args[1] = T; args[2] = T; splitString(NULL, 2, args); findString(NULL, 2, args);
        VP_ASSERT(vp_err == 6, "find, findLast, replace, split: arguments of the wrong type are errors");
    }
#endif
    VP_REACH("s_words");
}
