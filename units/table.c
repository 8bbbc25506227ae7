//@unit: name tables (table.c): finite-map semantics by open addressing
//@loop: vm/table.c adjustCapacity 0/2
//@ assigns i, __CPROVER_object_whole(entries)
//@ inv 0 <= i && i <= capacityMask
//@ inv (int) g_s < i ==> S_EMPTY(entries[g_s])
//@ inv (int) g_u < i ==> S_EMPTY(entries[g_u])
//@ inv (int) g_q < i ==> S_EMPTY(entries[g_q])
//@ dec capacityMask - i
//@loop: vm/table.c adjustCapacity 1/2
//@ assigns i, table->count, g_w, g_wset, g_o, g_i, g_m, g_r, __CPROVER_object_whole(entries)
//@ inv 0 <= i && i <= table->capacity
//@ inv 0 <= table->count && table->count <= i
//@ inv (i > (int) g_t && g_hasK) ==> (g_wset && g_w < cap_ && entries[g_w].key == g_K && entries[g_w].value == g_V)
//@ inv g_m == (uint32_t) capacityMask - 1
//@ inv S_EMPTY(entries[g_s]) || (S_LIVE(entries[g_s]) && (int) g_o < i && entries[g_s].key == g_old[g_o].key && entries[g_s].value == g_old[g_o].value)
//@ inv S_EMPTY(entries[g_u]) || S_LIVE(entries[g_u])
//@ inv M_WF(entries, g_s, g_u)
//@ dec table->capacity - i
//@ ghost g_i = (uint32_t) i; __CPROVER_assume(adm(table->entries[i])); __CPROVER_assume(!S_LIVE(table->entries[i]) || !g_hasK || g_i == g_t || table->entries[i].key != g_K);
//@loop: vm/table.c findEntry 0/1
//@ assigns index, tombstone, g_ts, g_ri
//@ inv index < (uint32_t) capacityMask
//@ inv G_dist(index) <= G_dist(g_q)
//@ inv g_hasK ==> G_dist(index) <= G_dist(g_t)
//@ inv G_dist(g_u) < G_dist(index) ==> (!S_EMPTY(entries[g_u]) && entries[g_u].key != key)
//@ inv tombstone == NULL || (tombstone == &entries[g_ts] && g_ts < (uint32_t) capacityMask && G_dist(g_ts) < G_dist(index) && entries[g_ts].key == NULL && !IS_NIL(entries[g_ts].value))
//@ dec (size_t) capacityMask - 1 - G_dist(index)
//@ ghost g_ri = index; if (tombstone == NULL) g_ts = index; __CPROVER_assume(!(g_hasK && G_dist(index) < G_dist(g_t)) || (!S_EMPTY(entries[index]) && entries[index].key != key));
//@loop: vm/table.c tableFindString 0/1
//@ assigns index, g_O.length, g_O.hash, g_eqO
//@ inv index < (uint32_t) table->capacity
//@ inv g_hasT ==> G_dist(index) <= G_dist(g_t)
//@ inv G_dist(index) <= G_dist(g_q)
//@ dec (size_t) table->capacity - 1 - G_dist(index)
//@ ghost g_O.length = nondet_vp_int(); g_O.hash = nondet_vp_u32(); g_eqO = nondet_vp_bool(); __CPROVER_assume(table->entries[index].key == NULL || (g_hasT && index == g_t ? table->entries[index].key == &g_T : table->entries[index].key == &g_O)); __CPROVER_assume(!(g_hasT && G_dist(index) < G_dist(g_t)) || !S_EMPTY(table->entries[index]));
//@loop: vm/table.c tableRemoveWhite 0/1
//@ assigns i, g_del, g_i, g_O.obj.isDark
//@ inv 0 <= i && i <= table->capacity && g_del == (i > (int) g_t && g_hasT && !g_T.obj.isDark)
//@ dec table->capacity - i
//@ ghost g_O.obj.isDark = nondet_vp_bool(); g_i = (uint32_t) i; __CPROVER_assume(table->entries[i].key == NULL || (g_hasT && i == (int) g_t ? table->entries[i].key == &g_T : table->entries[i].key == &g_O));
//@loop: vm/table.c tableAddAll 0/1
//@ assigns i, g_del, g_i
//@ inv 0 <= i && i <= from->capacity && g_del == (i > (int) g_t && g_hasT)
//@ dec from->capacity - i
//@ ghost g_i = (uint32_t) i;
//@loop: vm/table.c grayTable 0/1
//@ assigns i, g_i, g_del, g_wset
//@ inv 0 <= i && i <= table->capacity && g_del == (i > (int) g_t) && g_wset == (i > (int) g_t)
//@ dec table->capacity - i
//@ ghost g_i = (uint32_t) i;
#include "vm/vm.h"
static ObjString g_O, g_T; static bool g_eqT, g_eqO, g_hasT; static const char *g_chars;
static int g_len; static uint32_t g_hash;
int nondet_vp_int(void); uint32_t nondet_vp_u32(void); _Bool nondet_vp_bool(void);
#ifdef VP_CBMC
/* contract of memcmp: zero exactly for equal contents; which contents are equal is arbitrary */
static inline int vp_memcmp(const void *a, const void *b, size_t n) {
#ifdef VP_BMC
    return memcmp(a, b, n);
#else
    VP_ASSERT(b == (const void *) g_chars && n == (size_t) g_len, "intern lookup: the text itself is compared");
    return a == (const void *) g_T.chars ? !g_eqT : !g_eqO;
#endif
}
#define memcmp vp_memcmp
#endif
#define S_EMPTY(e) ((e).key == NULL && IS_NIL((e).value))
#define S_LIVE(e) ((e).key != NULL)
#define M_WF(e, s, u) (!S_LIVE((e)[s]) || !(DIST(vp_hash[(uintptr_t) (e)[s].key], u) < DIST(vp_hash[(uintptr_t) (e)[s].key], s)) || (!S_EMPTY((e)[u]) && (e)[u].key != (e)[s].key))
#define DIST(h, s) ((((uint32_t) (s)) - (h)) & g_m)
#ifdef VP_CBMC
extern uint32_t vp_hash[__CPROVER_constant_infinity_uint]; /* an arbitrary function of the key */
#endif
static uint32_t g_h, g_m, g_t, g_q, g_u, g_s, g_w, g_o, g_i, g_r, cap_, g_ts, g_ri;
static bool g_wset, g_del;
static ObjString *g_K; static Value g_V;
static Entry *g_old;
bool key_ok(ObjString *k);
bool adm(Entry e);
bool WF(Entry *e, uint32_t s, uint32_t u);
static bool g_hasK;
#define G_dist(s) ((((uint32_t) (s)) - g_h) & g_m)
#define G_slot(p) (__CPROVER_POINTER_OFFSET(p) / sizeof(Entry))
#include "vm/table.c"
#undef memcmp
#include "stub_alloc.h"

/* the hash of a key is a field fixed at its creation */
uint32_t hash_c(ObjString *v) {
#if defined(VP_CBMC) && !defined(VP_BMC)
    return vp_hash[(uintptr_t) v];
#else
    return v->hash;
#endif
}
bool key_ok(ObjString *k) { return k != NULL; }
bool adm(Entry e) { return VP_IMPLIES(e.key == NULL, IS_NIL(e.value) || e.value == BOOL_VAL(true)); }

/* representation invariant, instantiated at (s,u): everything on the probe path of a live slot is in use and holds other keys */
bool WF(Entry *e, uint32_t s, uint32_t u) {
    if (!S_LIVE(e[s])) return true;
    uint32_t h = hash_c(e[s].key) & g_m;
    return !(DIST(h, u) < DIST(h, s)) || (!S_EMPTY(e[u]) && e[u].key != e[s].key);
}


#if VP_CONCRETE
#define NPOOL 10
static ObjString pool[NPOOL]; static bool pool_init;
static ObjString *pool_key(int k) { pool[k].hash = (uint32_t) k * 0x9E3779B1u >> 7; return &pool[k]; }
static uint32_t pool_hash(int k) { return (uint32_t) k * 0x9E3779B1u >> 7; }
static ObjString *any_key(void) { return pool_key((int) vp_range(0, NPOOL - 1)); }
#else
static ObjString keyobj;
static ObjString *any_key(void) { ObjString *k = &keyobj; k->hash = (uint32_t) vp_u64(); VP_ASSUME(k->hash == vp_hash[(uintptr_t) k]); return k; }
#endif
static Entry *mk_table(void) {
#if VP_CONCRETE
    uint32_t lg = (uint32_t) vp_range(3, VP_BOUND);
#else
    uint32_t lg = (uint32_t) vp_range(3, 20);
#endif
    cap_ = 1u << lg;
    g_m = cap_ - 1;
    Entry *e = malloc(cap_ * sizeof(Entry));
    VP_ASSUME(e != NULL);
#if VP_CONCRETE
    bool any = false;
    uint32_t hs[1 << VP_BOUND];
    for (uint32_t i = 0; i < cap_; i++) {
        int k = (int) vp_range(-2, NPOOL - 1);
        e[i].key = k < 0 ? NULL : pool_key(k);
        e[i].value = k == -2 ? NIL_VAL : k == -1 ? BOOL_VAL(true) : vp_u64();
        hs[i] = k < 0 ? 0 : pool_hash(k) & g_m;
        any |= k == -2;
    }
    VP_ASSUME(any);
    for (uint32_t i = 0; i < cap_; i++) for (uint32_t j = 0; j < cap_; j++)
        VP_ASSUME(!S_LIVE(e[i]) || !(DIST(hs[i], j) < DIST(hs[i], i)) || (!S_EMPTY(e[j]) && e[j].key != e[i].key));
#endif
    return e;
}
static uint32_t any_slot(void) { return (uint32_t) vp_range(0, cap_ - 1); }

//@entry: h_find
//@ contract=findEntry
//@ what=probe returns the slot holding the key, or else a free slot at the end of an unbroken probe path; it terminates
//@ bmc=no; native_bound=3
//@ loopfuncs=findEntry
//@ checks=bounds-check pointer-check
//@ cost=20
void h_find(void) {
    Entry *e = mk_table();
    ObjString *K = any_key();
    g_h = hash_c(K) & g_m;
    g_t = any_slot(); g_u = any_slot(); g_q = any_slot();
    VP_ASSUME(S_EMPTY(e[g_q]));
    g_hasK = S_LIVE(e[g_t]) && e[g_t].key == K;
    VP_ASSUME(VP_IMPLIES(g_hasK, WF(e, g_t, g_q)) && WF(e, g_t, g_u));
    Entry *r = findEntry(e, (int) cap_, K);
#if VP_CONCRETE
    uint32_t ri = (uint32_t) (r - e);
#else
    uint32_t ri = r == &e[g_ri] ? g_ri : g_ts;
#endif
    VP_ASSERT(ri < cap_ && r == &e[ri], "find: slot in table");
    VP_ASSERT(VP_IMPLIES(g_hasK, ri == g_t), "find: a present key is found at its slot");
    VP_ASSERT(VP_IMPLIES(S_LIVE(e[ri]), e[ri].key == K), "find: a hit holds the key");
    VP_ASSERT(VP_IMPLIES(!S_LIVE(e[ri]) && G_dist(g_u) < G_dist(ri), !S_EMPTY(e[g_u]) && e[g_u].key != K), "find: a miss ends an unbroken probe path");
    VP_REACH("h_find");
}

/* contract of findEntry (enforced by h_find), instantiated at the ghost slots g_t, g_u, g_s */
#ifdef VP_CBMC
void t_dummy(void);
Entry *find_c(Entry *entries, int capacityMask, ObjString *key) {
    g_m = (uint32_t) capacityMask - 1;
    uint32_t h = hash_c(key) & g_m;
    uint32_t r = (uint32_t) vp_u64(); VP_ASSUME(r <= g_m);
    VP_ASSUME(VP_IMPLIES(g_t <= g_m && S_LIVE(entries[g_t]) && entries[g_t].key == key, r == g_t));
    VP_ASSUME(VP_IMPLIES(S_LIVE(entries[r]), entries[r].key == key));
    VP_ASSUME(adm(entries[r]));
    VP_ASSUME(VP_IMPLIES(!S_LIVE(entries[r]) && DIST(h, g_u) < DIST(h, r), !S_EMPTY(entries[g_u]) && entries[g_u].key != key));
    VP_ASSUME(VP_IMPLIES(!S_LIVE(entries[r]), !(S_LIVE(entries[g_s]) && entries[g_s].key == key)));
    VP_ASSUME(VP_IMPLIES(S_LIVE(entries[r]) && S_LIVE(entries[g_s]) && entries[g_s].key == key, r == g_s));
    g_r = r;
    if (r == g_s) g_o = g_i;
    if (key == g_K) { g_w = r; g_wset = true; }
    return &entries[r];
}
/* contract of adjustCapacity (enforced by h_adjust): same map, fresh table without tombstones, representation invariant */
static int g_live; /* ghost: number of live entries; never more than the slot count */
void adjust_c(DictuVM *vm, Table *table, int capacityMask) {
    (void) vm;
    VP_ASSERT(capacityMask >= 8 && (capacityMask & (capacityMask - 1)) == 0, "resize: new capacity is a power of two of at least 8");
    VP_ASSERT(capacityMask > g_live, "resize: new table has a free slot");
    Entry *n = malloc((size_t) capacityMask * sizeof(Entry));
    table->entries = n; table->capacity = capacityMask; cap_ = (uint32_t) capacityMask; g_m = cap_ - 1;
    table->count = g_live;
    g_t = (uint32_t) vp_range(0, capacityMask - 1); g_s = (uint32_t) vp_range(0, capacityMask - 1); g_u = (uint32_t) vp_range(0, capacityMask - 1); /* arbitrary again */
    VP_ASSUME(WF(n, g_s, g_u));
}
#endif

static Table *mk_dict(void) {
    Table *d = malloc(sizeof(Table));
    VP_ASSUME(d != NULL);
    d->entries = mk_table();
    d->capacity = (int) cap_;
    d->count = (int) vp_range(0, 1 << 20);
#ifdef VP_CBMC
    g_live = (int) vp_range(0, 1 << 20);
    VP_ASSUME(g_live <= d->count && d->count <= d->capacity * 0.75);
#endif
    return d;
}

#ifdef VP_CBMC
//@entry: t_get
//@ contract=tableGet
//@ what=lookup returns the value of the slot that holds the name, and fails only if no slot holds it
//@ replace=findEntry:find_c
//@ loops=off; bmc=no; native=no
void t_get(void) {
    Table *d = mk_dict();
    ObjString *K = any_key(); Value v = vp_u64(), v0 = v;
    g_t = any_slot(); g_u = any_slot(); g_s = any_slot();
    bool has = S_LIVE(d->entries[g_t]) && d->entries[g_t].key == K;
    VP_ASSUME(VP_IMPLIES(has, d->count > 0));
    bool ok = tableGet(d, K, &v);
    VP_ASSERT(VP_IMPLIES(has, ok && v == d->entries[g_t].value), "get: a present name yields its value");
    VP_ASSERT(VP_IMPLIES(ok, d->entries[g_r].key == K && v == d->entries[g_r].value), "get: success means some slot holds the name and that value");
    VP_ASSERT(VP_IMPLIES(!ok, v == v0), "get: failure leaves the output alone");
    VP_REACH("t_get");
}

//@entry: t_set
//@ contract=tableSet
//@ what=insertion maps the name to the value, leaves every other slot alone, keeps the representation invariant and a free slot, also across a resize
//@ replace=findEntry:find_c,adjustCapacity:adjust_c
//@ loops=off; bmc=no; native=no
void t_set(void) {
    Table *d = mk_dict();
    bool empty0 = vp_range(0, 1);
    if (empty0) { d->entries = NULL; d->capacity = 0; d->count = 0; g_live = 0; }
    ObjString *K = any_key(); Value V = vp_u64();
    if (!empty0) { g_t = any_slot(); g_u = any_slot(); g_s = any_slot(); VP_ASSUME(WF(d->entries, g_s, g_u)); }
    Entry *e0 = d->entries;
    int c0 = d->count;
    Entry s0, t0;
    if (!empty0) { s0 = d->entries[g_s]; t0 = d->entries[g_t]; }
    bool fresh = tableSet(NULL, d, K, V);
    bool moved = d->entries != e0;
    VP_ASSERT(d->entries[g_r].key == K && d->entries[g_r].value == V, "set: the name maps to the value");
    if (!moved) {
        bool had = S_LIVE(t0) && t0.key == K;
        VP_ASSERT(VP_IMPLIES(had, !fresh), "set: an existing name is not reported as new");
        VP_ASSERT(VP_IMPLIES(g_s != g_r, d->entries[g_s].key == s0.key && d->entries[g_s].value == s0.value), "set: every other slot is unchanged");
        VP_ASSERT(VP_IMPLIES(g_s == g_r && S_LIVE(s0), s0.key == K && !fresh), "set: only the name's own slot is overwritten");
        VP_ASSERT(VP_IMPLIES(g_s == g_r && !S_LIVE(s0), fresh), "set: a name placed in a free slot is new");
        VP_ASSERT(d->count <= c0 + (fresh ? 1 : 0) && VP_IMPLIES(g_s == g_r, d->count >= c0 + (S_EMPTY(s0) ? 1 : 0)), "set: every slot in use is counted");
    } else {
        VP_ASSERT(VP_IMPLIES(g_t != g_r && S_LIVE(d->entries[g_t]), d->entries[g_t].key != K), "set: a single slot holds the name after a resize");
        VP_ASSERT(d->count >= g_live && d->count <= g_live + 1, "set: slot count after resize");
    }
    VP_ASSERT(WF(d->entries, g_s, g_u), "set: representation invariant");
    VP_ASSERT(d->count < d->capacity && d->count <= d->capacity * 0.75, "set: a free slot remains");
    VP_REACH("t_set");
}

//@entry: t_delete
//@ contract=tableDelete
//@ what=deletion removes exactly the name, keeps every other slot and the representation invariant, and reports whether it was present
//@ replace=findEntry:find_c
//@ loops=off; bmc=no; native=no
void t_delete(void) {
    Table *d = mk_dict();
    ObjString *K = any_key();
    g_t = any_slot(); g_u = any_slot(); g_s = any_slot();
    VP_ASSUME(WF(d->entries, g_s, g_u));
    bool had = S_LIVE(d->entries[g_t]) && d->entries[g_t].key == K;
    VP_ASSUME(VP_IMPLIES(had, g_live > 0));
    int c0 = d->count;
    Entry s0 = d->entries[g_s];
    bool ok = tableDelete(NULL, d, K);
    VP_ASSERT(VP_IMPLIES(had, ok), "delete: a present name is deleted");
    VP_ASSERT(VP_IMPLIES(g_s != g_r || !ok, d->entries[g_s].key == s0.key && d->entries[g_s].value == s0.value), "delete: every other slot is unchanged");
    VP_ASSERT(VP_IMPLIES(ok && g_s == g_r, s0.key == K && !S_LIVE(d->entries[g_s])), "delete: the name's slot no longer holds it");
    VP_ASSERT(VP_IMPLIES(ok && S_LIVE(d->entries[g_s]), d->entries[g_s].key != K), "delete: the name is gone");
    VP_ASSERT(WF(d->entries, g_s, g_u), "delete: representation invariant");
    VP_ASSERT(d->count == c0, "delete: the slot stays counted as used");
    VP_REACH("t_delete");
}

//@entry: t_adjust
//@ contract=adjustCapacity
//@ what=resizing keeps exactly the same name/value pairs, drops tombstones and establishes the representation invariant
//@ replace=findEntry:find_c
//@ loopfuncs=adjustCapacity; bmc=no; native=no
//@ checks=; solver=--arrays-uf-always
//@ cost=30
void t_adjust(void) {
    Table *d = mk_dict();
    if (vp_range(0, 1)) { d->entries = NULL; d->capacity = 0; d->count = 0; }
    g_old = d->entries; int om = d->capacity;
    g_t = om == 0 ? 0 : any_slot();
    uint32_t lg = (uint32_t) vp_range(3, 20), ncap = 1u << lg;
    g_hasK = om > 0 && S_LIVE(d->entries[g_t]);
    if (g_hasK) { g_K = d->entries[g_t].key; g_V = d->entries[g_t].value; }
    cap_ = ncap; g_m = ncap - 1;
    g_s = any_slot(); g_u = any_slot(); g_q = g_s; g_wset = false;
    adjustCapacity(NULL, d, (int) ncap);
    Entry *n = d->entries;
    VP_ASSERT(d->capacity == (int) ncap, "resize: capacity");
    VP_ASSERT(VP_IMPLIES(g_hasK, g_wset && n[g_w].key == g_K && n[g_w].value == g_V), "resize: every old entry is in the new table with its value");
    VP_ASSERT(VP_IMPLIES(S_LIVE(n[g_s]), (int) g_o < om), "resize: every new entry comes from an old entry");
    VP_ASSERT(S_LIVE(n[g_s]) || S_EMPTY(n[g_s]), "resize: no tombstones");
    VP_ASSERT(WF(n, g_s, g_u), "resize: representation invariant");
    VP_ASSERT(d->count >= 0 && d->count <= om, "resize: count");
    VP_REACH("t_adjust");
}

//@entry: t_findstring
//@ contract=tableFindString
//@ what=a string with the given characters that is in the intern table is found; what is found has exactly those characters; the search terminates
//@ loopfuncs=tableFindString; bmc=no; native=no
//@ checks=bounds-check pointer-check
//@ cost=20
void t_findstring(void) {
    Table *d = mk_dict();
    g_len = (int) vp_range(0, 1 << 20); g_hash = (uint32_t) vp_u64();
    char text[1], tt[1], ot[1]; g_chars = text;
    g_T.length = g_len; g_T.hash = g_hash; g_T.chars = tt; g_O.chars = ot; g_eqT = true;
    g_h = g_hash & g_m;
    g_t = any_slot(); g_q = any_slot();
    VP_ASSUME(S_EMPTY(d->entries[g_q]));
    if (vp_range(0, 1)) d->entries[g_t].key = &g_T;
    if (vp_range(0, 1)) { uint32_t o = any_slot(); VP_ASSUME(o != g_t && o != g_q); d->entries[o].key = &g_O; }
    g_hasT = d->entries[g_t].key == &g_T;
    VP_ASSUME(VP_IMPLIES(g_hasT, d->count > 0 && !(G_dist(g_q) < G_dist(g_t))));
    VP_ASSUME(VP_IMPLIES(!g_hasT, d->entries[g_t].key != &g_T));
    ObjString *r = tableFindString(d, text, g_len, g_hash);
    VP_ASSERT(VP_IMPLIES(g_hasT, r != NULL), "intern lookup: a present string is found");
    VP_ASSERT(VP_IMPLIES(r != NULL, r->length == g_len && r->hash == g_hash && (r == &g_T ? g_eqT : g_eqO)), "intern lookup: what is found has the same characters");
    VP_REACH("t_findstring");
}

//@entry: t_white
//@ contract=tableRemoveWhite
//@ what=exactly the names whose string was not marked are removed from the intern table
//@ replace=tableDelete:del_c; loopfuncs=tableRemoveWhite; bmc=no; native=no
static Table *g_tab;
bool del_c(DictuVM *vm, Table *table, ObjString *key) {
    (void) vm;
    VP_ASSERT(table == g_tab && key == table->entries[g_i].key && key != NULL && !key->obj.isDark, "sweep: only unmarked strings are removed");
    if (g_i == g_t) g_del = true;
    return true;
}
void t_white(void) {
    Table *d = mk_dict(); g_tab = d;
    g_t = any_slot(); g_del = false;
    if (vp_range(0, 1)) d->entries[g_t].key = &g_T;
    if (vp_range(0, 1)) { uint32_t o = any_slot(); VP_ASSUME(o != g_t); d->entries[o].key = &g_O; }
    g_hasT = d->entries[g_t].key == &g_T;
    VP_ASSUME(d->entries[g_t].key == NULL || g_hasT);
    g_T.obj.isDark = vp_range(0, 1);
    tableRemoveWhite(NULL, d);
    VP_ASSERT(g_del == (g_hasT && !g_T.obj.isDark), "sweep: every unmarked string is removed, every marked one kept");
    VP_REACH("t_white");
}

//@entry: t_addall
//@ contract=tableAddAll
//@ what=every entry of the source is set in the destination with its value
//@ replace=tableSet:set_c; loopfuncs=tableAddAll; bmc=no; native=no
static Table *g_from;
bool set_c(DictuVM *vm, Table *table, ObjString *key, Value value) {
    (void) vm;
    VP_ASSERT(table == g_tab && key == g_from->entries[g_i].key && key != NULL && value == g_from->entries[g_i].value, "copy: entries are set with their own value");
    if (g_i == g_t) g_del = true;
    return true;
}
void t_addall(void) {
    Table *d = mk_dict(); g_from = d; Table to; g_tab = &to; initTable(&to);
    VP_ASSERT(to.count == 0 && to.capacity == 0 && to.entries == NULL, "a new table is empty");
    g_t = any_slot(); g_hasT = d->entries[g_t].key != NULL; g_del = false;
    tableAddAll(NULL, d, &to);
    VP_ASSERT(g_del == g_hasT, "copy: every entry is copied");
    VP_REACH("t_addall");
}

//@entry: t_gray
//@ contract=grayTable
//@ what=a collection marks the name and the value of every entry
//@ replace=grayObject:grayo_c,grayValue:grayv_c; loopfuncs=grayTable; bmc=no; native=no
void grayo_c(DictuVM *vm, Obj *o) { (void) vm; VP_ASSERT(o == (Obj *) g_tab->entries[g_i].key, "mark: the entry's name"); if (g_i == g_t) g_del = true; }
void grayv_c(DictuVM *vm, Value v) { (void) vm; VP_ASSERT(v == g_tab->entries[g_i].value, "mark: the entry's value"); if (g_i == g_t) g_wset = true; }
void t_gray(void) {
    Table *d = mk_dict(); g_tab = d; g_t = any_slot(); g_del = g_wset = false;
    VP_ASSUME(S_LIVE(d->entries[g_t]));
    grayTable(NULL, d);
    VP_ASSERT(g_del && g_wset, "mark: every entry's name and value are marked");
    VP_REACH("t_gray");
}

//@entry: t_free
//@ contract=freeTable initTable
//@ what=releasing a table returns the memory of all its slots and leaves it empty
//@ loops=off; bmc=no; native=no
void t_free(void) {
    Table *d = mk_dict();
    vp_balance = (long long) d->capacity * (long long) sizeof(Entry);
    freeTable(NULL, d);
    VP_ASSERT(vp_balance == 0 && d->entries == NULL && d->count == 0 && d->capacity == 0, "release: all memory is returned");
    VP_REACH("t_free");
}
#endif

//@entry: o_history
//@ mode=oracle
//@ what=refutation only: histories of set/get/delete/intern lookup on the real code against a reference map
void o_history(void) {
#if VP_CONCRETE
    enum { N = 40 };
    static char names[N][8]; static ObjString strs[N];
    Table d; initTable(&d);
    Value mv[N]; bool in[N];
    int spread = (int) vp_range(1, 30);
    for (int i = 0; i < N; i++) { in[i] = false; snprintf(names[i], 8, "n%d", i); strs[i].obj.type = OBJ_STRING; strs[i].obj.isDark = true; strs[i].chars = names[i]; strs[i].length = (int) strlen(names[i]); strs[i].hash = (uint32_t) (i * 7 % spread); }
    int ops = (int) vp_range(1, 150), span = (int) vp_range(1, N), delbias = (int) vp_range(1, 6);
    for (int o = 0; o < ops; o++) {
        int k = (int) vp_range(0, span - 1), what = (int) vp_range(0, 9);
        if (what == 9) {
            for (int i = 0; i < N; i++) strs[i].obj.isDark = vp_range(0, 5) != 0;
            tableRemoveWhite(NULL, &d);
            for (int i = 0; i < N; i++) if (!strs[i].obj.isDark) in[i] = false;
        } else if (what < delbias) {
            bool r = tableDelete(NULL, &d, &strs[k]);
            VP_ASSERT(r == in[k], "history: delete reports presence");
            in[k] = false;
        } else {
            Value v = vp_range(0, 3) ? vp_u64() : NIL_VAL;
            bool r = tableSet(NULL, &d, &strs[k], v);
            VP_ASSERT(r == !in[k], "history: set reports a new name");
            in[k] = true; mv[k] = v;
        }
        int live = 0, seen = 0;
        for (int i = 0; i < N; i++) live += in[i];
        for (int i = 0; i < d.capacity; i++) if (d.entries[i].key != NULL) seen++;
        VP_ASSERT(seen == live, "history: live slots");
        for (int i = 0; i < span; i++) {
            Value v = 0x1234;
            bool r = tableGet(&d, &strs[i], &v);
            VP_ASSERT(r == in[i] && (!r || v == mv[i]), "history: lookup");
            ObjString *f = tableFindString(&d, names[i], strs[i].length, strs[i].hash);
            VP_ASSERT(f == (in[i] ? &strs[i] : NULL), "history: intern lookup");
            VP_ASSERT(tableFindString(&d, names[i], strs[i].length - 1, strs[i].hash) == NULL || strs[i].length == 3, "history: intern lookup of a prefix");
        }
    }
    if (d.entries) free(d.entries);
#endif
    VP_REACH("o_history");
}

//@entry: o_bulk
//@ mode=oracle
//@ what=refutation only: many names set, some deleted, some set again, all read back
void o_bulk(void) {
#if VP_CONCRETE
    enum { N = 5000 };
    static ObjString strs[N]; static unsigned char in[N];
    Table d; initTable(&d);
    int n = (int) vp_range(1, vp_range(0, 3) ? 200 : N), step = (int) vp_range(1, 9), mul = (int) vp_range(0, 2);
    uint32_t m = mul == 0 ? 1u : mul == 1 ? 2654435761u : 4096u;
    for (int i = 0; i < n; i++) { strs[i].hash = (uint32_t) i * m; tableSet(NULL, &d, &strs[i], numToValue(i)); in[i] = 1; }
    for (int i = 0; i < n; i += step) { VP_ASSERT(tableDelete(NULL, &d, &strs[i]), "bulk: delete"); in[i] = 0; }
    for (int i = 0; i < n; i += step * 2) { VP_ASSERT(tableSet(NULL, &d, &strs[i], numToValue(i)), "bulk: set again"); in[i] = 1; }
    int seen = 0, live = 0;
    for (int i = 0; i < n; i++) { Value v = 0; bool r = tableGet(&d, &strs[i], &v); VP_ASSERT(r == in[i] && (!r || v == numToValue(i)), "bulk: lookup"); live += in[i]; }
    for (int i = 0; i < d.capacity; i++) seen += d.entries[i].key != NULL;
    VP_ASSERT(seen == live, "bulk: live slots");
    free(d.entries);
#endif
    VP_REACH("o_bulk");
}
