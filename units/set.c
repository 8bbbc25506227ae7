//@unit: set hash table (value.c): finite-set semantics by open addressing
//@loop: vm/value.c adjustSetCapacity 0/2
//@ assigns i, __CPROVER_object_whole(entries)
//@ inv 0 <= i && i <= capacityMask + 1
//@ inv (int) g_s < i ==> S_EMPTY(entries[g_s])
//@ inv (int) g_u < i ==> S_EMPTY(entries[g_u])
//@ inv (int) g_q < i ==> S_EMPTY(entries[g_q])
//@ dec capacityMask + 1 - i
//@loop: vm/value.c adjustSetCapacity 1/2
//@ assigns i, set->count, g_w, g_wset, g_o, g_i, g_m, g_r, __CPROVER_object_whole(entries)
//@ inv 0 <= i && i <= set->capacityMask + 1
//@ inv 0 <= set->count && set->count <= i
//@ inv (i > (int) g_t && g_hasK) ==> (g_wset && g_w < cap_ && entries[g_w].value == g_K)
//@ inv g_m == (uint32_t) capacityMask
//@ inv S_EMPTY(entries[g_s]) || (S_LIVE(entries[g_s]) && (int) g_o < i && entries[g_s].value == g_old[g_o].value)
//@ inv S_EMPTY(entries[g_u]) || S_LIVE(entries[g_u])
//@ inv M_WF(entries, g_s, g_u)
//@ dec set->capacityMask + 1 - i
//@ ghost g_i = (uint32_t) i; __CPROVER_assume(adm(set->entries[i])); __CPROVER_assume(!S_LIVE(set->entries[i]) || !g_hasK || g_i == g_t || set->entries[i].value != g_K);
//@loop: vm/value.c findSetEntry 0/1
//@ assigns index, tombstone
//@ inv index <= (uint32_t) capacityMask
//@ inv G_dist(index) <= G_dist(g_q)
//@ inv g_hasK ==> G_dist(index) <= G_dist(g_t)
//@ inv G_dist(g_u) < G_dist(index) ==> (!S_EMPTY(entries[g_u]) && entries[g_u].value != value)
//@ inv tombstone == NULL || (__CPROVER_same_object(tombstone, entries) && __CPROVER_POINTER_OFFSET(tombstone) % sizeof(SetItem) == 0 && G_slot(tombstone) <= (size_t) capacityMask && G_dist(G_slot(tombstone)) < G_dist(index) && IS_EMPTY(tombstone->value) && tombstone->deleted)
//@ dec (size_t) capacityMask - G_dist(index)
//@ ghost __CPROVER_assume(!(g_hasK && G_dist(index) < G_dist(g_t)) || (!S_EMPTY(entries[index]) && entries[index].value != value));
#include "vm/vm.h"
#define S_EMPTY(e) (IS_EMPTY((e).value) && !(e).deleted)
#define S_LIVE(e) (!IS_EMPTY((e).value))
#define M_WF(e, s, u) (!S_LIVE((e)[s]) || !(DIST(vp_hash[(e)[s].value], u) < DIST(vp_hash[(e)[s].value], s)) || (!S_EMPTY((e)[u]) && (e)[u].value != (e)[s].value))
#define DIST(h, s) ((((uint32_t) (s)) - (h)) & g_m)
#ifdef VP_CBMC
extern uint32_t vp_hash[__CPROVER_constant_infinity_uint]; /* an arbitrary function of the key */
#endif
static uint32_t g_h, g_m, g_t, g_q, g_u, g_s, g_w, g_o, g_i, g_r, cap_;
static bool g_wset;
static Value g_K;
static SetItem *g_old;
bool key_ok(Value k);
bool adm(SetItem e);
bool WF(SetItem *e, uint32_t s, uint32_t u);
static bool g_hasK;
#define G_dist(s) ((((uint32_t) (s)) - g_h) & g_m)
#define G_slot(p) (__CPROVER_POINTER_OFFSET(p) / sizeof(SetItem))
#include "vm/value.c"
#include "stub_alloc.h"

/* contract of hashValue: a pure function of the key; contract of valuesEqual on admissible keys: identity */
uint32_t hash_c(Value v) {
#if defined(VP_CBMC) && !defined(VP_BMC)
    return vp_hash[v];
#else
    return hashValue(v);
#endif
}
bool eq_c(Value a, Value b) { return a == b; }

bool key_ok(Value k) { return !IS_EMPTY(k) && (!VP_CONCRETE || !IS_OBJ(k)); }
bool adm(SetItem e) { return VP_IMPLIES(!IS_EMPTY(e.value), key_ok(e.value) && !e.deleted); }

/* representation invariant, instantiated at (s,u): everything on the probe path of a live slot is in use and holds other keys */
bool WF(SetItem *e, uint32_t s, uint32_t u) {
    if (!S_LIVE(e[s])) return true;
    uint32_t h = hash_c(e[s].value) & g_m;
    return !(DIST(h, u) < DIST(h, s)) || (!S_EMPTY(e[u]) && e[u].value != e[s].value);
}


#if VP_CONCRETE
#define NPOOL 10
static Value pool_key(int k) { return k == 0 ? NIL_VAL : k == 1 ? BOOL_VAL(true) : k == 2 ? BOOL_VAL(false) : numToValue((double) k - 2); }
static uint32_t pool_hash(int k) {
    switch (k) { case 0: return hashBits(NIL_VAL); case 1: return hashBits(TRUE_VAL); case 2: return hashBits(FALSE_VAL); case 3: return hashBits(numToValue(1)); case 4: return hashBits(numToValue(2));
        case 5: return hashBits(numToValue(3)); case 6: return hashBits(numToValue(4)); case 7: return hashBits(numToValue(5)); case 8: return hashBits(numToValue(6)); default: return hashBits(numToValue(7)); }
}
static Value any_key(void) { return pool_key((int) vp_range(0, NPOOL - 1)); }
#else
static Value any_key(void) { Value k = vp_u64(); VP_ASSUME(key_ok(k)); return k; }
#endif
static SetItem *mk_table(void) {
#if VP_CONCRETE
    uint32_t lg = (uint32_t) vp_range(3, VP_BOUND);
#else
    uint32_t lg = (uint32_t) vp_range(3, 20);
#endif
    cap_ = 1u << lg;
    g_m = cap_ - 1;
    SetItem *e = malloc(cap_ * sizeof(SetItem));
    VP_ASSUME(e != NULL);
#if VP_CONCRETE
    bool any = false;
    uint32_t hs[1 << VP_BOUND];
    for (uint32_t i = 0; i < cap_; i++) {
        int k = (int) vp_range(-2, NPOOL - 1);
        e[i].value = k < 0 ? EMPTY_VAL : pool_key(k);
        e[i].deleted = k == -1;
        hs[i] = k < 0 ? 0 : pool_hash(k) & g_m;
        any |= k == -2;
    }
    VP_ASSUME(any);
    for (uint32_t i = 0; i < cap_; i++) for (uint32_t j = 0; j < cap_; j++)
        VP_ASSUME(!S_LIVE(e[i]) || !(DIST(hs[i], j) < DIST(hs[i], i)) || (!S_EMPTY(e[j]) && e[j].value != e[i].value));
#endif
    return e;
}
static uint32_t any_slot(void) { return (uint32_t) vp_range(0, cap_ - 1); }

//@entry: h_find
//@ contract=findSetEntry
//@ what=probe returns the slot holding the key, or else a free slot at the end of an unbroken probe path; it terminates
//@ replace=hashValue:hash_c,valuesEqual:eq_c
//@ bound=3; bmc_unwind=10
//@ loopfuncs=findSetEntry
//@ checks=bounds-check pointer-check
//@ cost=20
void h_find(void) {
    SetItem *e = mk_table();
    Value K = any_key();
    g_h = hash_c(K) & g_m;
    g_t = any_slot(); g_u = any_slot(); g_q = any_slot();
    VP_ASSUME(S_EMPTY(e[g_q]));
    g_hasK = S_LIVE(e[g_t]) && e[g_t].value == K;
    VP_ASSUME(VP_IMPLIES(g_hasK, WF(e, g_t, g_q)) && WF(e, g_t, g_u));
    SetItem *r = findSetEntry(e, g_m, K);
    uint32_t ri = (uint32_t) (r - e);
    VP_ASSERT(ri < cap_, "find: slot in table");
    VP_ASSERT(VP_IMPLIES(g_hasK, ri == g_t), "find: a present key is found at its slot");
    VP_ASSERT(VP_IMPLIES(S_LIVE(e[ri]), e[ri].value == K), "find: a hit holds the key");
    VP_ASSERT(VP_IMPLIES(!S_LIVE(e[ri]) && G_dist(g_u) < G_dist(ri), !S_EMPTY(e[g_u]) && e[g_u].value != K), "find: a miss ends an unbroken probe path");
    VP_REACH("h_find");
}

/* contract of findSetEntry (enforced by h_find), instantiated at the ghost slots g_t, g_u, g_s */
#ifdef VP_CBMC
SetItem *find_c(SetItem *entries, int capacityMask, Value key) {
    g_m = (uint32_t) capacityMask;
    uint32_t h = hash_c(key) & g_m;
    uint32_t r = (uint32_t) vp_u64(); VP_ASSUME(r <= g_m);
    VP_ASSUME(VP_IMPLIES(g_t <= g_m && S_LIVE(entries[g_t]) && entries[g_t].value == key, r == g_t));
    VP_ASSUME(VP_IMPLIES(S_LIVE(entries[r]), entries[r].value == key));
    VP_ASSUME(adm(entries[r]));
    VP_ASSUME(VP_IMPLIES(!S_LIVE(entries[r]) && DIST(h, g_u) < DIST(h, r), !S_EMPTY(entries[g_u]) && entries[g_u].value != key));
    VP_ASSUME(VP_IMPLIES(!S_LIVE(entries[r]), !(S_LIVE(entries[g_s]) && entries[g_s].value == key)));
    VP_ASSUME(VP_IMPLIES(S_LIVE(entries[r]) && S_LIVE(entries[g_s]) && entries[g_s].value == key, r == g_s));
    g_r = r;
    if (r == g_s) g_o = g_i;
    if (key == g_K) { g_w = r; g_wset = true; }
    return &entries[r];
}
/* contract of adjustSetCapacity (enforced by h_adjust): same map, fresh table without tombstones, representation invariant */
static SetItem *g_new; static int g_newcount;
void adjust_c(DictuVM *vm, ObjSet *dict, int capacityMask) {
    (void) vm;
    VP_ASSERT(capacityMask >= 7 && ((capacityMask + 1) & capacityMask) == 0, "resize: new capacity is a power of two of at least 8");
    VP_ASSERT(capacityMask + 1 > dict->activeCount, "resize: new table has a free slot");
    SetItem *n = malloc(((size_t) capacityMask + 1) * sizeof(SetItem));
    dict->entries = n; dict->capacityMask = capacityMask; cap_ = (uint32_t) capacityMask + 1; g_m = (uint32_t) capacityMask;
    int c = (int) vp_u64(); VP_ASSUME(c >= 0 && c == dict->activeCount);
    dict->count = c;
    g_t = (uint32_t) vp_range(0, capacityMask); g_s = (uint32_t) vp_range(0, capacityMask); g_u = (uint32_t) vp_range(0, capacityMask); /* arbitrary again */
    g_new = n;
    VP_ASSUME(WF(n, g_s, g_u));
}
#endif

static ObjSet *mk_set(void) {
    ObjSet *d = malloc(sizeof(ObjSet));
    VP_ASSUME(d != NULL);
    d->entries = mk_table();
    d->capacityMask = (int) g_m;
    d->count = (int) vp_range(0, 1 << 20);
    d->activeCount = (int) vp_range(0, 1 << 20);
    VP_ASSUME(d->activeCount <= d->count && d->count <= d->capacityMask);
    return d;
}

//@entry: h_get
//@ contract=setGet
//@ what=lookup returns the value of the slot that holds the key, and fails only if no slot holds it
//@ replace=findSetEntry:find_c,hashValue:hash_c
//@ loops=off; bmc=no; native=no
void h_get(void) {
    ObjSet *d = mk_set();
    Value K = any_key();
    g_t = any_slot(); g_u = any_slot(); g_s = any_slot();
    bool has = S_LIVE(d->entries[g_t]) && d->entries[g_t].value == K;
    VP_ASSUME(VP_IMPLIES(has, d->count > 0));
    bool ok = setGet(d, K);
    VP_ASSERT(VP_IMPLIES(has, ok), "get: a member is found");
    VP_ASSERT(VP_IMPLIES(ok, d->entries[g_r].value == K), "get: success means some slot holds the value");
    VP_REACH("h_get");
}

//@entry: h_set
//@ contract=setInsert
//@ what=insertion maps the key to the value, leaves every other slot alone, keeps the representation invariant, the counts and a free slot, also across a resize
//@ replace=findSetEntry:find_c,adjustSetCapacity:adjust_c,hashValue:hash_c
//@ loops=off; bmc=no; native=no
void h_set(void) {
    ObjSet *d = mk_set();
    bool empty0 = vp_range(0, 1);
    if (empty0) { d->entries = NULL; d->capacityMask = -1; d->count = d->activeCount = 0; }
    Value K = any_key();
    if (!empty0) {
        g_t = any_slot(); g_u = any_slot(); g_s = any_slot();
        VP_ASSUME(WF(d->entries, g_s, g_u) && adm(d->entries[g_s]));
        VP_ASSUME(d->count <= d->capacityMask * 0.75 + 1); /* load-factor invariant of every table this code builds */
    }
    SetItem *e0 = d->entries;
    int n0 = d->activeCount, c0 = d->count;
    SetItem s0, t0;
    if (!empty0) { s0 = d->entries[g_s]; t0 = d->entries[g_t]; }
    bool fresh = setInsert(NULL, d, K);
    bool moved = d->entries != e0;
    VP_ASSERT(d->entries[g_r].value == K && !d->entries[g_r].deleted, "set: the value is a member");
    if (!moved) {
        bool had = S_LIVE(t0) && t0.value == K;
        VP_ASSERT(VP_IMPLIES(had, !fresh), "set: an existing key is not reported as new");
        VP_ASSERT(VP_IMPLIES(g_s != g_r, d->entries[g_s].value == s0.value && d->entries[g_s].deleted == s0.deleted), "set: every other slot is unchanged");
        VP_ASSERT(VP_IMPLIES(g_s == g_r && S_LIVE(s0), s0.value == K && !fresh), "set: only the key's own slot is overwritten");
        VP_ASSERT(VP_IMPLIES(g_s == g_r && !S_LIVE(s0), fresh), "set: a key placed in a free slot is new");
        VP_ASSERT(d->count == c0 + (fresh ? 1 : 0), "set: slot count");
    } else {
        VP_ASSERT(VP_IMPLIES(g_t != g_r && S_LIVE(d->entries[g_t]), d->entries[g_t].value != K), "set: a single slot holds the key after a resize");
        VP_ASSERT(d->count == n0 + (fresh ? 1 : 0), "set: slot count after resize");
    }
    VP_ASSERT(d->activeCount == n0 + (fresh ? 1 : 0), "set: number of entries");
    VP_ASSERT(WF(d->entries, g_s, g_u), "set: representation invariant");
    VP_ASSERT(d->count <= d->capacityMask, "set: a free slot remains");
    VP_ASSERT(d->count <= d->capacityMask * 0.75 + 1, "set: load factor bound");
    VP_REACH("h_set");
}

//@entry: h_delete
//@ contract=setDelete
//@ what=deletion removes exactly the key, keeps every other slot and the representation invariant, and reports whether the key was present
//@ replace=findSetEntry:find_c,adjustSetCapacity:adjust_c,hashValue:hash_c
//@ loops=off; bmc=no; native=no
void h_delete(void) {
    ObjSet *d = mk_set();
    Value K = any_key();
    g_t = any_slot(); g_u = any_slot(); g_s = any_slot();
    VP_ASSUME(WF(d->entries, g_s, g_u) && adm(d->entries[g_s]));
    VP_ASSUME(d->count <= d->capacityMask * 0.75 + 1);
    bool had = S_LIVE(d->entries[g_t]) && d->entries[g_t].value == K;
    VP_ASSUME(VP_IMPLIES(had, d->activeCount > 0));
    SetItem *e0 = d->entries;
    int n0 = d->activeCount, c0 = d->count;
    SetItem s0 = e0[g_s];
    uint32_t s = g_s, u = g_u;
    bool ok = setDelete(NULL, d, K);
    VP_ASSERT(VP_IMPLIES(had, ok), "delete: a present key is deleted");
    VP_ASSERT(d->activeCount == n0 - (ok ? 1 : 0), "delete: number of entries");
    VP_ASSERT(VP_IMPLIES(s != g_r || !ok, e0[s].value == s0.value && e0[s].deleted == s0.deleted), "delete: every other slot is unchanged");
    VP_ASSERT(VP_IMPLIES(ok, s0.value == K || s != g_r), "delete: success means the slot held the key");
    VP_ASSERT(VP_IMPLIES(ok && s == g_r, !S_LIVE(e0[s])), "delete: the slot no longer holds a key");
    if (d->entries == e0) {
        VP_ASSERT(d->count == c0, "delete: slot count");
        VP_ASSERT(VP_IMPLIES(ok && S_LIVE(e0[s]), e0[s].value != K), "delete: the key is gone");
        VP_ASSERT(WF(e0, s, u), "delete: representation invariant");
    }
    VP_ASSERT(d->count <= d->capacityMask && d->count <= d->capacityMask * 0.75 + 1, "delete: a free slot remains");
    VP_REACH("h_delete");
}

//@entry: h_adjust
//@ contract=adjustSetCapacity
//@ what=resizing keeps exactly the same key/value pairs, drops tombstones and establishes the representation invariant
//@ replace=findSetEntry:find_c,hashValue:hash_c
//@ loopfuncs=adjustSetCapacity; bmc=no; native=no
//@ checks=; solver=--arrays-uf-always
//@ cost=30
void h_adjust(void) {
    ObjSet *d = mk_set();
    if (vp_range(0, 1)) { d->entries = NULL; d->capacityMask = -1; d->count = d->activeCount = 0; }
    g_old = d->entries; int om = d->capacityMask;
    g_t = om < 0 ? 0 : any_slot();
    uint32_t lg = (uint32_t) vp_range(3, 20), ncap = 1u << lg;
    g_hasK = om >= 0 && S_LIVE(d->entries[g_t]) ;
    if (g_hasK) { g_K = d->entries[g_t].value; VP_ASSUME(key_ok(g_K)); }
    cap_ = ncap; g_m = ncap - 1;
    g_s = any_slot(); g_u = any_slot(); g_q = g_s; g_wset = false;
    adjustSetCapacity(NULL, d, (int) ncap - 1);
    SetItem *n = d->entries;
    VP_ASSERT(d->capacityMask == (int) ncap - 1, "resize: capacity");
    VP_ASSERT(VP_IMPLIES(g_hasK, g_wset && n[g_w].value == g_K), "resize: every old entry is in the new table with its value");
    VP_ASSERT(VP_IMPLIES(S_LIVE(n[g_s]), (int) g_o <= om), "resize: every new entry comes from an old entry");
    VP_ASSERT(S_LIVE(n[g_s]) || S_EMPTY(n[g_s]), "resize: no tombstones");
    VP_ASSERT(WF(n, g_s, g_u), "resize: representation invariant");
    VP_ASSERT(d->count >= 0 && d->count <= om + 1, "resize: count");
    VP_REACH("h_adjust");
}

//@entry: o_history
//@ mode=oracle
//@ what=refutation only: histories of insertion/membership/removal on the real code against a reference set
void o_history(void) {
    enum { N = 40 };
    ObjSet d; memset(&d, 0, sizeof d); d.capacityMask = -1;
    ObjString strs[8]; memset(strs, 0, sizeof strs);
    Value keys[N]; bool in[N]; int live = 0;
    for (int i = 0; i < 8; i++) { strs[i].obj.type = OBJ_STRING; strs[i].hash = (uint32_t) vp_range(0, 20); }
    for (int i = 0; i < N; i++) { in[i] = false; keys[i] = i < 8 ? OBJ_VAL(&strs[i]) : i == 8 ? NIL_VAL : i == 9 ? TRUE_VAL : i == 10 ? FALSE_VAL : numToValue((double) (i - 12) * (i % 3 ? 1 : 0.5)); }
    int ops = (int) vp_range(1, 120), span = (int) vp_range(1, N), delbias = (int) vp_range(1, 6);
    for (int o = 0; o < ops; o++) {
        int k = (int) vp_range(0, span - 1), what = (int) vp_range(0, 7);
        if (what < delbias) {
            bool r = setDelete(NULL, &d, keys[k]);
            VP_ASSERT(r == in[k], "history: removal reports membership");
            if (in[k]) live--;
            in[k] = false;
        } else {
            bool r = setInsert(NULL, &d, keys[k]);
            VP_ASSERT(r == !in[k], "history: insertion reports a new member");
            if (!in[k]) live++;
            in[k] = true;
        }
        VP_ASSERT(d.activeCount == live, "history: number of members");
        int seen = 0;
        for (int i = 0; i <= d.capacityMask; i++) if (!IS_EMPTY(d.entries[i].value) && !d.entries[i].deleted) seen++;
        VP_ASSERT(seen == live, "history: live slots");
        for (int i = 0; i < span; i++) VP_ASSERT(setGet(&d, keys[i]) == in[i], "history: membership");
    }
    VP_REACH("o_history");
}
