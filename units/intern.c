//@unit: string interning (object.c)
//@loop: vm/object.c hashString 0/1
//@ assigns i, hash
//@ inv 0 <= i && (i <= length || length < 0)
//@ dec length - i
//@cflags: -DVP_KNOWN=1
//@trust: push/pop only protect values from collection
#include "vm/vm.h"
static size_t g_k; static char g_c; static const char *g_src;
#if defined(VP_CBMC) && !defined(VP_BMC)
static void *vp_cpy(void *d, const void *s, size_t n) {
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "VP:copy reads inside the source");
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "VP:copy writes inside the destination");
    if (n && s == (const void *) g_src && g_k < n) ((char *) d)[g_k] = ((const char *) s)[g_k];
    return d;
}
#define memcpy vp_cpy
#endif
#include "vm/object.c"
#undef memcpy
#include "stub_alloc.h"
#include "stub_vm.h"

//@entry: i_hash
//@ contract=hashString
//@ what=the hash reads exactly the characters of the text, for every length, and terminates
//@ loopfuncs=hashString; bmc=no; native_bound=20
#if VP_CONCRETE
#define LMAX 20
#else
#define LMAX (1 << 24)
#endif
void i_hash(void) {
    VP_INIT();
    int n = (int) vp_range(0, LMAX);
    char *s = vp_bytes((size_t) n);
    uint32_t h = hashString(s, n);
#if VP_CONCRETE
    char *t = vp_bytes((size_t) n + 1);
    memcpy(t, s, (size_t) n);
    VP_ASSERT(hashString(t, n) == h && hashString(s, n) == h, "hash: a function of the characters");
#endif
    (void) h;
    VP_REACH("i_hash");
}

#ifdef VP_CBMC
static uint32_t g_hash; static const char *g_text; static int g_n; static ObjString g_found; static bool g_has; static int g_sets, g_cnt_find;
static DictuVM *g_vm; static Table *g_strings;
uint32_t hash_c(const char *key, int length) { VP_ASSERT(length == g_n && key == g_text, "intern: the whole text is hashed"); return g_hash; }
/* contract of tableFindString (enforced in unit table): the interned string with exactly these characters, if there is one */
ObjString *find_c(Table *t, const char *chars, int length, uint32_t hash) {
    VP_ASSERT(t == g_strings && chars == g_text && length == g_n && hash == g_hash, "intern: lookup by text and hash");
    g_cnt_find++;
    return g_has ? &g_found : NULL;
}
static ObjString *g_new;
/* contract of tableSet (enforced in unit table) */
bool tset_c(DictuVM *vm, Table *t, ObjString *key, Value v) {
    VP_ASSERT(vm == g_vm && t == g_strings && IS_NIL(v), "intern: registered in the intern table");
    g_sets++; g_new = key;
    return true;
}
static void common(void) {
    g_vm = malloc(sizeof(DictuVM)); VP_ASSUME(g_vm != NULL);
    g_strings = &g_vm->strings;
    g_n = (int) vp_range(0, LMAX); g_hash = (uint32_t) vp_u64(); g_has = vp_range(0, 1); g_sets = 0; g_cnt_find = 0; g_new = NULL;
    g_k = (size_t) vp_range(0, LMAX);
}
#endif

#ifdef VP_CBMC
//@entry: i_copy
//@ contract=copyString allocateString allocateObject
//@ what=copying a text yields the interned string if there is one, else a new string with exactly its characters, NUL-terminated, registered under its hash
//@ loops=off; replace=hashString:hash_c,tableFindString:find_c,tableSet:tset_c; bmc=no; native=no
void i_copy(void) {
    VP_INIT();
    common();
    char *text = vp_bytes((size_t) g_n); g_text = g_src = text;
    if (g_k < (size_t) g_n) g_c = text[g_k];
    Obj *objs = g_vm->objects;
    ObjString *r = copyString(g_vm, text, g_n);
    if (g_has) VP_ASSERT(r == &g_found && g_sets == 0 && vp_balance == 0 && g_vm->objects == objs, "intern: an existing string is shared");
    else {
        VP_ASSERT(g_sets == 1 && g_new == r && g_cnt_find == 1, "intern: a new string is registered");
        VP_ASSERT(r->length == g_n && r->hash == g_hash && r->obj.type == OBJ_STRING && !r->obj.isDark, "intern: length, hash and kind");
        VP_ASSERT(r->chars != text && r->chars[g_n] == 0, "intern: own, NUL-terminated characters");
        if (g_k < (size_t) g_n) VP_ASSERT(r->chars[g_k] == g_c, "intern: same characters");
        VP_ASSERT(g_vm->objects == (Obj *) r && r->obj.next == objs, "intern: known to the collector");
        VP_ASSERT(vp_balance == (long long) sizeof(ObjString) + g_n + 1, "intern: accounted");
    }
    VP_REACH("i_copy");
}

//@entry: i_take
//@ contract=takeString allocateString allocateObject
//@ what=taking over a text yields the interned string if there is one, releasing the text, else a string that owns the text, registered under its hash
//@ loops=off; replace=hashString:hash_c,tableFindString:find_c,tableSet:tset_c; bmc=no; native=no
void i_take(void) {
    VP_INIT();
    common();
    char *text = vp_bytes((size_t) g_n + 1); g_text = g_src = text;
    if (g_k < (size_t) g_n) g_c = text[g_k];
    vp_balance = g_n + 1;
    ObjString *r = takeString(g_vm, text, g_n);
    if (g_has) VP_ASSERT(r == &g_found && g_sets == 0 && vp_balance == 0, "intern: an existing string is shared and the text released");
    else {
        VP_ASSERT(g_sets == 1 && g_new == r, "intern: a new string is registered");
        VP_ASSERT(r->length == g_n && r->hash == g_hash && r->obj.type == OBJ_STRING && r->chars == text && text[g_n] == 0, "intern: owns its NUL-terminated characters");
        if (g_k < (size_t) g_n) VP_ASSERT(r->chars[g_k] == g_c, "intern: same characters");
        VP_ASSERT(vp_balance == (long long) sizeof(ObjString) + g_n + 1, "intern: accounted");
    }
    VP_REACH("i_take");
}
#endif
