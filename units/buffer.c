//@unit: byte buffers (optionals/buffer.c)
//@cflags: -DVP_KNOWN=2
//@trust: little-endian host (IS_BIG_ENDIAN is false), as on every supported platform
//@loop: optionals/buffer.c bufferSubArray 0/1
//@ assigns i, __CPROVER_object_whole(nb->bytes)
//@ inv 0 <= i && i <= length && (g_k < i ==> nb->bytes[g_k] == buffer->bytes[start + g_k])
//@ dec length - i
//@loop: optionals/buffer.c bufferValues 0/1
//@ assigns i, g_cnt, g_got
//@ inv 0 <= i && i <= buffer->size && g_cnt == i && (g_k < i ==> g_got == buffer->bytes[g_k])
//@ dec buffer->size - i
#include "vm/vm.h"
#include <math.h>
static int g_k, g_cnt, g_got;
#include "optionals/buffer.c"
static int vp_ok; static Value vp_res; static long long vp_bal2;
#if VP_CONCRETE
#define SMAX VP_BOUND
#else
#define SMAX (1 << 20)
#endif
#include "stub_vm.h"
static size_t g_off; static int g_rs;
void *reallocate(DictuVM *vm, void *previous, size_t oldSize, size_t newSize) {
    (void) vm;
#if defined(VP_CBMC) && !defined(VP_BMC)
    if (newSize == 0) return NULL;
    uint8_t *n = malloc(newSize);
    if (previous != NULL && g_off < oldSize && g_off < newSize) n[g_off] = ((uint8_t *) previous)[g_off];
    vp_bal2 += (long long) newSize - (long long) oldSize;
    return n;
#else
    vp_bal2 += (long long) newSize - (long long) oldSize;
    if (newSize == 0) { free(previous); return NULL; }
    void *n = realloc(previous, newSize); VP_ASSUME(n != NULL); return n;
#endif
}
Value newResultSuccess(DictuVM *vm, Value v) { (void) vm; vp_ok = 1; vp_res = v; return NIL_VAL; }
Value newResultError(DictuVM *vm, char *m) { (void) vm; (void) m; vp_ok = 2; return NIL_VAL; }
static ObjAbstract g_abs, g_abs2; static Buffer g_b, g_nb; static ObjString g_str;
static const char *g_cs; static int g_cl;
ObjString *copyString(DictuVM *vm, const char *c, int n) { (void) vm; g_cs = c; g_cl = n; return &g_str; }
ObjList *newList(DictuVM *vm) { (void) vm; static ObjList l; return &l; }
void writeValueArray(DictuVM *vm, ValueArray *a, Value v) { (void) vm; (void) a; if (g_cnt == g_k) g_got = (int) AS_NUMBER(v); g_cnt++; }
ObjAbstract *newAbstract(DictuVM *vm, AbstractFreeFn f, AbstractTypeFn t) { (void) vm; g_abs2.func = f; g_abs2.type = t; return &g_abs2; }
void defineNative(DictuVM *vm, Table *t, const char *n, NativeFn f) { (void) vm; (void) t; (void) n; (void) f; }
ObjModule *newModule(DictuVM *vm, ObjString *n) { (void) vm; (void) n; static ObjModule m; return &m; }
static Buffer *mk(void) {
    VP_INIT(); vp_ok = 0; vp_bal2 = 0;
    g_abs.obj.type = OBJ_ABSTRACT; g_abs.data = &g_b; VP_OBJ(0, &g_abs);
    g_b.size = (int) vp_range(0, SMAX); g_b.bigEndian = false; g_b.bytes = vp_bytes((size_t) g_b.size);
    g_k = (int) vp_range(0, SMAX); g_off = (size_t) g_k;
    return &g_b;
}
/* any number: an index or size argument */
static Value anynum(void) {
#if VP_CONCRETE
    int c = (int) vp_range(0, 9);
    double d = (double) vp_range(-3, SMAX + 3);
    return numToValue(c == 0 ? NAN : c == 1 ? INFINITY : c == 2 ? -INFINITY : c == 3 ? d + 0.5 : c == 4 ? 1e300 : c == 5 ? -1e19 : c == 6 ? 4294967296.0 : d);
#else
    Value v = vp_u64(); VP_ASSUME(IS_NUMBER(v)); return v;
#endif
}
static bool inside(double i, int len) { return i >= 0 && i < 2147483648.0 && (long long) i + len <= g_b.size; }
typedef Value (*bf)(DictuVM *, int, Value *);
static void pair(bf w, bf r, bool be, int len, double v, const uint8_t *le) {
    Value args[3] = {OBJ_VAL(&g_abs), anynum(), numToValue(v)};
    double ix = AS_NUMBER(args[1]);
    int argc = (int) vp_range(0, 3), n = g_b.size;
    if (argc != 2) { w(NULL, argc, args); VP_ASSERT(vp_err == 1, "write: takes an index and a value"); return; }
    uint8_t old = 0; if (g_k < n) old = g_b.bytes[g_k];
    w(NULL, 2, args);
    VP_ASSERT(vp_err == 0 && g_b.size == n && !g_b.bigEndian, "write: accepted arguments");
    VP_ASSERT(vp_ok == (inside(ix, len) ? 1 : 2), "write: rejected exactly when a byte would lie outside the buffer");
    if (vp_ok == 2) { if (g_k < n) VP_ASSERT(g_b.bytes[g_k] == old, "write: a rejected write changes nothing"); return; }
    VP_ASSERT(vp_res == args[2], "write: returns the value that was set");
    int o = (int) ix;
    if (g_k < n) {
        if (g_k >= o && g_k < o + len) VP_ASSERT(g_b.bytes[g_k] == le[be ? len - 1 - (g_k - o) : g_k - o], "write: the bytes lie in the given order");
        else VP_ASSERT(g_b.bytes[g_k] == old, "write: no other byte changes");
    }
    vp_ok = 0; vp_res = 0;
    args[2] = NIL_VAL;
    old = 0; if (g_k < n) old = g_b.bytes[g_k];
    r(NULL, 1, args);
    VP_ASSERT(vp_ok == 1 && vp_err == 0 && vp_res == numToValue(v), "read: the value written is read back");
    VP_ASSERT(!g_b.bigEndian && g_b.size == n, "read: the buffer keeps its shape");
    if (g_k < n) VP_ASSERT(g_b.bytes[g_k] == old, "read: changes nothing");
}
static void readany(bf r, int len) {
    Value args[2] = {OBJ_VAL(&g_abs), anynum()};
    double ix = AS_NUMBER(args[1]); int n = g_b.size;
    uint8_t old = 0; if (g_k < n) old = g_b.bytes[g_k];
    r(NULL, 1, args);
    VP_ASSERT(vp_err == 0 && (vp_ok == 2 || (vp_ok == 1 && inside(ix, len))), "read: nothing outside the buffer is read");
    if (vp_ok == 1) VP_ASSERT(IS_NUMBER(vp_res), "read: whatever the bytes, the result is a number");
    else VP_ASSERT(len == 8 || !inside(ix, len), "read: only accesses outside the buffer are rejected");
    if (g_k < n) VP_ASSERT(g_b.bytes[g_k] == old, "read: changes nothing");
    args[1] = NIL_VAL; r(NULL, 1, args); VP_ASSERT(vp_err == 1, "read: the index is a number");
    r(NULL, 0, args); VP_ASSERT(vp_err == 2, "read: takes one argument");
}
#define E(name, T, V, wl, wb, rl, rb) void name(void) { mk(); T x = (T) (V); uint8_t le[8]; memcpy(le, &x, sizeof x); bool be = (bool) vp_range(0, 1); \
    if (vp_range(0, 1)) pair(be ? wb : wl, be ? rb : rl, be, (int) sizeof x, (double) x, le); else readany(be ? rb : rl, (int) sizeof x); VP_REACH(#name); }

//@entry: b_u16
//@ contract=bufferWriteUint16LE bufferWriteUint16BE bufferReadUint16LE bufferReadUint16BE writeInternal getReadPtr ensureSize swap runBigEndian
//@ what=two-byte unsigned access in both byte orders: in bounds or rejected, bytes in order, other bytes kept, read back unchanged
//@ loops=off; solver=--sat-solver cadical; unwind=9; bmc=no; native_bound=20
E(b_u16, uint16_t, vp_range(0, 65535), bufferWriteUint16LE, bufferWriteUint16BE, bufferReadUint16LE, bufferReadUint16BE)
//@entry: b_i16
//@ contract=bufferWriteint16LE bufferWriteint16BE bufferReadint16LE bufferReadint16BE
//@ what=two-byte signed access in both byte orders
//@ loops=off; solver=--sat-solver cadical; unwind=9; bmc=no; native_bound=20
E(b_i16, int16_t, vp_range(-32768, 32767), bufferWriteint16LE, bufferWriteint16BE, bufferReadint16LE, bufferReadint16BE)
//@entry: b_u32
//@ contract=bufferWriteUint32LE bufferWriteUint32BE bufferReadUint32LE bufferReadUint32BE
//@ what=four-byte unsigned access in both byte orders
//@ loops=off; solver=--sat-solver cadical; unwind=9; bmc=no; native_bound=20
E(b_u32, uint32_t, vp_range(0, 4294967295LL), bufferWriteUint32LE, bufferWriteUint32BE, bufferReadUint32LE, bufferReadUint32BE)
//@entry: b_i32
//@ contract=bufferWriteint32LE bufferWriteint32BE bufferReadint32LE bufferReadint32BE
//@ what=four-byte signed access in both byte orders
//@ loops=off; solver=--sat-solver cadical; unwind=9; bmc=no; native_bound=20
E(b_i32, int32_t, vp_range(INT32_MIN, INT32_MAX), bufferWriteint32LE, bufferWriteint32BE, bufferReadint32LE, bufferReadint32BE)
//@entry: b_u64
//@ contract=bufferWriteUint64LE bufferWriteUint64BE bufferReadUint64LE bufferReadUint64BE
//@ what=eight-byte unsigned access in both byte orders, for the documented range up to 2^53
//@ loops=off; solver=--sat-solver cadical; unwind=9; bmc=no; native_bound=20
E(b_u64, uint64_t, vp_range(0, 9007199254740992LL), bufferWriteUint64LE, bufferWriteUint64BE, bufferReadUint64LE, bufferReadUint64BE)
//@entry: b_i64
//@ contract=bufferWriteint64LE bufferWriteint64BE bufferReadint64LE bufferReadint64BE
//@ what=eight-byte signed access in both byte orders, for the documented range up to 2^53
//@ loops=off; solver=--sat-solver cadical; unwind=9; bmc=no; native_bound=20
E(b_i64, int64_t, vp_range(-9007199254740992LL, 9007199254740992LL), bufferWriteint64LE, bufferWriteint64BE, bufferReadint64LE, bufferReadint64BE)
//@entry: b_f32
//@ contract=bufferWritefloat32LE bufferWritefloat32BE bufferReadfloat32LE bufferReadfloat32BE
//@ what=float access in both byte orders, for every float; any bytes read give a number
//@ loops=off; solver=--sat-solver cadical; unwind=9; bmc=no; native_bound=20
static float anyfloat(void) { uint32_t u = (uint32_t) vp_u64(); float f; memcpy(&f, &u, 4); if (f != f) f = 0.25f; return f; }
E(b_f32, float, anyfloat(), bufferWritefloat32LE, bufferWritefloat32BE, bufferReadfloat32LE, bufferReadfloat32BE)
//@entry: b_f64
//@ contract=bufferWritefloat64LE bufferWritefloat64BE bufferReadfloat64LE bufferReadfloat64BE
//@ what=double access in both byte orders, for every double; any bytes read give a number
//@ loops=off; solver=--sat-solver cadical; unwind=9; bmc=no; native_bound=20
static double anydouble(void) { double f = vp_double(); if (f != f) f = 0.25; return f; }
E(b_f64, double, anydouble(), bufferWritefloat64LE, bufferWritefloat64BE, bufferReadfloat64LE, bufferReadfloat64BE)
//@entry: b_i8
//@ contract=bufferWriteint8 bufferReadint8
//@ what=one-byte signed access
//@ loops=off; solver=--sat-solver cadical; unwind=9; bmc=no; native_bound=20
E(b_i8, int8_t, vp_range(-128, 127), bufferWriteint8, bufferWriteint8, bufferReadint8, bufferReadint8)

#ifdef VP_CBMC
static size_t g_set0, g_setn;
void *memset_c(void *d, int c, size_t n) { g_set0 = __CPROVER_POINTER_OFFSET(d); g_setn = n; VP_ASSERT(c == 0 && __CPROVER_w_ok(d, n), "resize: clears inside the block"); return d; }
#endif
#ifdef VP_CBMC
static const void *g_cps; static size_t g_cpd, g_cpn; static bool g_cp;
void *memcpy_c(void *d, const void *s, size_t n) { VP_ASSERT(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "copy: both ranges are valid"); g_cp = true; g_cps = s; g_cpd = __CPROVER_POINTER_OFFSET(d); VP_ASSERT(__CPROVER_same_object(d, g_b.bytes), "copy: into the buffer"); g_cpn = n; return d; }
#endif
ObjAbstract *nb_c(DictuVM *vm, double c) { (void) vm; VP_ASSERT(c >= 1 && c <= SMAX, "subarray: a valid size"); g_nb.size = (int) c; g_nb.bytes = vp_bytes((size_t) c); g_abs2.data = &g_nb; return &g_abs2; }
//@entry: b_byte
//@ contract=bufferGet bufferSet bufferLen
//@ what=get and set address exactly the given byte and reject every other index
//@ loops=off; solver=--sat-solver cadical; bmc=no; native_bound=12
void b_byte(void) {
    mk();
    int x = (int) vp_range(0, 255), n = g_b.size, argc = (int) vp_range(0, 3);
    Value args[3] = {OBJ_VAL(&g_abs), anynum(), numToValue((double) x)};
    double ix = AS_NUMBER(args[1]);
    uint8_t old = 0; if (g_k < n) old = g_b.bytes[g_k];
    VP_ASSERT(bufferLen(NULL, 0, args) == numToValue((double) n) && vp_err == 0, "len: the number of bytes");
    if (vp_range(0, 1)) {
        bufferGet(NULL, argc, args);
        if (argc != 1) VP_ASSERT(vp_err == 1, "get: takes one argument");
        else { VP_ASSERT(vp_err == 0 && vp_ok == (inside(ix, 1) ? 1 : 2), "get: rejected exactly outside the buffer");
            if (vp_ok == 1 && (int) ix == g_k) VP_ASSERT(vp_res == numToValue((double) old), "get: the byte at the index"); }
        if (g_k < n) VP_ASSERT(g_b.bytes[g_k] == old, "get: changes nothing");
    } else {
        bufferSet(NULL, argc, args);
        if (argc != 2) VP_ASSERT(vp_err == 1, "set: takes two arguments");
        else VP_ASSERT(vp_err == 0 && vp_ok == (inside(ix, 1) ? 1 : 2), "set: rejected exactly outside the buffer");
        if (vp_ok == 1) VP_ASSERT(vp_res == args[2], "set: returns the value");
        if (g_k < n) VP_ASSERT(g_b.bytes[g_k] == (vp_ok == 1 && (int) ix == g_k ? x : old), "set: exactly the addressed byte");
    }
    VP_REACH("b_byte");
}
//@entry: b_resize
//@ contract=bufferResize freeBuffer
//@ what=resizing keeps every byte that still fits, new bytes are zero, the size is exact and accounted; a size below one byte or too large is rejected
//@ loops=off; solver=--sat-solver cadical; bmc=no; native_bound=12
//@ replace=memset:memset_c
void b_resize(void) {
    mk(); VP_ASSUME(g_b.size >= 1);
    Value args[2] = {OBJ_VAL(&g_abs), anynum()};
    double c = AS_NUMBER(args[1]); int n = g_b.size;
    VP_ASSUME(!(c >= 1 && c < 2147483647.0) || c < SMAX * 2.0);
    uint8_t old = 0; if (g_k < n) old = g_b.bytes[g_k];
    bufferResize(NULL, 1, args);
    VP_ASSERT(vp_err == 0 && vp_ok == (c >= 1 && c < 2147483647.0 ? 1 : 2), "resize: accepted exactly for sizes from 1 to the maximum");
    if (vp_ok == 1) {
        VP_ASSERT(g_b.size == (int) c && vp_res == args[0], "resize: the new size");
        VP_ASSERT(vp_bal2 == (long long) g_b.size - n, "resize: accounted exactly");
        if (g_k < n && g_k < g_b.size) VP_ASSERT(g_b.bytes[g_k] == old, "resize: remaining bytes are kept");
#if VP_CONCRETE
        if (g_k >= n && g_k < g_b.size) VP_ASSERT(g_b.bytes[g_k] == 0, "resize: added bytes are zero");
#else
        if (g_b.size > n) VP_ASSERT(g_set0 == (size_t) n && g_setn >= (size_t) (g_b.size - n), "resize: added bytes are zero");
#endif
    } else { VP_ASSERT(g_b.size == n && vp_bal2 == 0, "resize: a rejected resize changes nothing"); if (g_k < n) VP_ASSERT(g_b.bytes[g_k] == old, "resize: a rejected resize changes nothing"); }
    VP_REACH("b_resize");
}
//@entry: b_new
//@ contract=newBuffer newBufferObj
//@ what=a new buffer has the requested number of zero bytes; other sizes are rejected
//@ loops=off; solver=--sat-solver cadical; bmc=no; native_bound=12
//@ replace=memset:memset_c
void b_new(void) {
    mk();
    Value args[1] = {anynum()};
    double c = AS_NUMBER(args[0]);
    VP_ASSUME(!(c >= 1 && c < 2147483647.0) || c < SMAX * 2.0);
    g_abs2.data = NULL;
    newBuffer(NULL, 1, args);
    VP_ASSERT(vp_err == 0 && vp_ok == (c >= 1 && c < 2147483647.0 ? 1 : 2), "new: accepted exactly for sizes from 1 to the maximum");
    if (vp_ok == 1) {
        Buffer *b = g_abs2.data;
        VP_ASSERT(b != NULL && b->size == (int) c && !b->bigEndian && g_abs2.func == freeBuffer, "new: the requested size");
        VP_ASSERT(vp_bal2 == (long long) b->size + (long long) sizeof(Buffer), "new: accounted exactly");
#if VP_CONCRETE
        if (g_k < b->size) VP_ASSERT(b->bytes[g_k] == 0, "new: the bytes are zero");
#else
        VP_ASSERT(g_set0 == 0 && g_setn >= (size_t) b->size && __CPROVER_OBJECT_SIZE(b->bytes) == (size_t) b->size, "new: the bytes are zero");
#endif
    }
    VP_REACH("b_new");
}
//@entry: b_string
//@ contract=bufferWriteString
//@ what=writing a string copies its bytes at the index or, if it does not fit, is rejected
//@ loops=off; solver=--sat-solver cadical; bmc=no; native_bound=12
//@ replace=memcpy:memcpy_c
void b_string(void) {
    mk();
    g_str.obj.type = OBJ_STRING; g_str.length = (int) vp_range(0, SMAX); g_str.chars = vp_bytes((size_t) g_str.length + 1); VP_OBJ(1, &g_str);
    Value args[3] = {OBJ_VAL(&g_abs), anynum(), OBJ_VAL(&g_str)};
    double ix = AS_NUMBER(args[1]); int n = g_b.size;
    uint8_t old = 0; if (g_k < n) old = g_b.bytes[g_k];
    bufferWriteString(NULL, 2, args);
    VP_ASSERT(vp_err == 0 && (vp_ok == 1) <= inside(ix, g_str.length), "writeString: nothing is written outside the buffer");
    if (inside(ix, g_str.length) && (double) (int) ix == ix && ix < n) VP_ASSERT(vp_ok == 1, "writeString: accepted when it fits");
#if VP_CONCRETE
    if (g_k < n) VP_ASSERT(g_b.bytes[g_k] == (vp_ok == 1 && g_k >= (int) ix && g_k < (int) ix + g_str.length ? (uint8_t) g_str.chars[g_k - (int) ix] : old), "writeString: exactly the bytes of the string");
#else
    VP_ASSERT(g_cp == (vp_ok == 1), "writeString: a rejected write changes nothing");
    if (g_cp) VP_ASSERT(g_cps == g_str.chars && g_cpn == (size_t) g_str.length && g_cpd == (size_t) (int) ix, "writeString: exactly the bytes of the string");
    (void) old;
#endif
    VP_REACH("b_string");
}
//@entry: b_range
//@ contract=bufferReadString bufferString
//@ what=a text read from a buffer is exactly the addressed range, inside the buffer
//@ loops=off; solver=--sat-solver cadical; bmc=no; native_bound=12
void b_range(void) {
    mk(); g_cs = NULL;
    Value args[3] = {OBJ_VAL(&g_abs), anynum(), anynum()};
    double a = AS_NUMBER(args[1]), z = AS_NUMBER(args[2]); int argc = (int) vp_range(0, 2), n = g_b.size;
    if (argc < 1) a = 0;
    if (argc < 2) z = n;
    bufferReadString(NULL, argc, args);
    bool in = a >= 0 && z >= 0 && a <= n && z <= n && (int) a < (int) z;
    VP_ASSERT(vp_err == 0 && vp_ok == (in ? 1 : 2), "readString: accepted exactly for a non-empty range inside the buffer");
    if (in) VP_ASSERT(g_cs == (char *) g_b.bytes + (int) a && g_cl == (int) z - (int) a, "readString: exactly the addressed bytes");
    bufferString(NULL, 0, args); VP_ASSERT(vp_err == 0 && g_cs == (char *) g_b.bytes && g_cl == n, "string: all bytes");
    VP_REACH("b_range");
}
//@entry: b_sub
//@ contract=bufferSubArray
//@ what=a sub-buffer has storage of its own and exactly the addressed bytes
//@ loopfuncs=bufferSubArray; replace=newBufferObj:nb_c; bmc=no; native_bound=12
void b_sub(void) {
    mk();
    Value args[3] = {OBJ_VAL(&g_abs), anynum(), anynum()};
    double a = AS_NUMBER(args[1]), z = AS_NUMBER(args[2]); int argc = (int) vp_range(0, 2), n = g_b.size;
    if (argc < 1) a = 0;
    if (argc < 2) z = n;
    uint8_t old = 0; if (g_k < n) old = g_b.bytes[g_k];
    bufferSubArray(NULL, argc, args);
    bool in = a >= 0 && z >= 0 && a <= n && z <= n && (int) a < (int) z;
    VP_ASSERT(vp_err == 0 && vp_ok == (in ? 1 : 2), "subarray: accepted exactly for a non-empty range inside the buffer");
    if (in) {
        Buffer *b = g_abs2.data;
        VP_ASSERT(vp_res == OBJ_VAL(&g_abs2) && b->size == (int) z - (int) a && b->bytes != g_b.bytes, "subarray: a buffer of the length of the range");
        if (g_k < b->size) VP_ASSERT(b->bytes[g_k] == g_b.bytes[(int) a + g_k], "subarray: exactly the addressed bytes");
    }
    if (g_k < n) VP_ASSERT(g_b.bytes[g_k] == old, "subarray: the original is unchanged");
    VP_REACH("b_sub");
}
//@entry: b_values
//@ contract=bufferValues
//@ what=values() lists every byte in order
//@ loopfuncs=bufferValues; solver=--sat-solver cadical; bmc=no; native_bound=12
void b_values(void) {
    mk(); g_cnt = 0; g_got = -1;
    Value args[1] = {OBJ_VAL(&g_abs)};
    Value r = bufferValues(NULL, 0, args);
    VP_ASSERT(vp_err == 0 && IS_OBJ(r) && g_cnt == g_b.size, "values: one element per byte");
    if (g_k < g_b.size) VP_ASSERT(g_got == g_b.bytes[g_k], "values: each byte in order");
    VP_REACH("b_values");
}
