//@unit: Base64 (optionals/base64)
//@cflags: -DVP_KNOWN=3 -DVP_NOCONTENT
//@loop: optionals/base64/base64Lib.c b64e_size 0/1
//@ assigns i, j
//@ inv i <= in_size && 3 * (unsigned long) j >= i && 3 * (unsigned long) j <= (unsigned long) i + 2 && (i % 3 == 0) == (3 * (unsigned long) j == i)
//@ dec in_size - i
//@loop: optionals/base64/base64Lib.c b64_encode 0/1
//@ assigns i, j, k, s, __CPROVER_object_whole(out)
//@ inv i <= in_len && j < 3 && (k & 3) == 0 && i == 3 * (k >> 2) + j
//@ inv (j > 0 ==> s[0] == in[i - j]) && (j > 1 ==> s[1] == in[i - 1])
//@ inv g_q < (k >> 2) ==> (out[4 * g_q] == g_e[0] && out[4 * g_q + 1] == g_e[1] && out[4 * g_q + 2] == g_e[2] && out[4 * g_q + 3] == g_e[3])
//@ dec in_len - i
//@loop: optionals/base64/base64Lib.c b64_decode 0/1
//@ assigns i, j, k, s, __CPROVER_object_whole(out)
//@ inv i <= in_len && j == (i & 3) && k <= 3 * (i >> 2)
//@ inv (g_enc && j > 0 ==> s[0] < 64) && (g_enc && j > 1 ==> s[1] < 64) && (g_enc && j > 2 ==> (i + 1 < in_len ? s[2] < 64 : s[2] == g_lz))
//@ inv (g_enc && (i >> 2) == g_q) ==> ((j > 0 ==> s[0] == g_u[0]) && (j > 1 ==> s[1] == g_u[1]) && (j > 2 ==> s[2] == g_u[2]))
//@ inv (g_enc && i < in_len) ==> k == 3 * (i >> 2)
//@ inv (g_enc && i == in_len) ==> k == 3 * (in_len >> 2) - g_pad
//@ inv (g_enc && g_q < (i >> 2)) ==> (out[3 * g_q] == g_d[0] && (g_u[2] != 64 ==> out[3 * g_q + 1] == g_d[1]) && ((g_u[2] != 64 && g_u[3] != 64) ==> out[3 * g_q + 2] == g_d[2]))
//@ dec in_len - i
//@ ghost __CPROVER_assume(!g_enc || i + 2 >= in_len || in[i] != '=');
#include "vm/vm.h"
/* the alphabet of RFC 4648 and its inverse, by definition */
static unsigned char ch(unsigned x) { return (unsigned char) (x < 26 ? 'A' + x : x < 52 ? 'a' + (x - 26) : x < 62 ? '0' + (x - 52) : x == 62 ? '+' : '/'); }
static int un(unsigned char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : c == '=' ? 64 : 0; }
static unsigned g_q, g_u[4], g_lz, g_pad; static unsigned char g_a, g_b, g_c, g_e[4], g_d[3]; static bool g_enc;
#include "optionals/base64/base64Lib.c"
#include "stub_alloc.h"
#include "stub_vm.h"
static const void *g_in; static unsigned g_len; static char *g_out; static int g_r;
unsigned int b64_encode_c(const unsigned char *in, unsigned int n, unsigned char *out) {
    VP_ASSERT(in == g_in && n == g_len, "encode: the whole text");
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_w_ok(out, 4 * ((n + 2) / 3) + 1), "encode: the result fits");
#endif
    g_out = (char *) out; g_r = (int) vp_range(0, 4 * ((n + 2) / 3)); return (unsigned) g_r;
}
unsigned int b64_decode_c(const unsigned char *in, unsigned int n, unsigned char *out) {
    VP_ASSERT(in == g_in && n == g_len, "decode: the whole text");
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_w_ok(out, 3 * (n / 4)), "decode: the result fits");
#endif
    g_out = (char *) out; g_r = (int) vp_range(0, 3 * (n / 4)); return (unsigned) g_r;
}
static ObjString g_S, g_R; static char *g_copy; static int g_cn;
ObjString *copyString(DictuVM *vm, const char *c, int n) {
    (void) vm; VP_OBJ(1, &g_R); g_cn = n;
#ifdef VP_CBMC
    VP_ASSERT(c == g_out && n == g_r, "the result is what the codec wrote, all of it");
    g_copy = (char *) c;
#else
    g_copy = malloc((size_t) n + 1); memcpy(g_copy, c, (size_t) n); g_copy[n] = 0;
#endif
    g_R.obj.type = OBJ_STRING; g_R.length = n; return &g_R;
}
ObjModule *newModule(DictuVM *vm, ObjString *s) { (void) vm; (void) s; return NULL; }
void defineNative(DictuVM *vm, Table *t, const char *n, NativeFn f) { (void) vm; (void) t; (void) n; (void) f; }
#include "optionals/base64.c"
#if VP_CONCRETE
#define NMAX VP_BOUND
#else
#define NMAX (1u << 20)
#endif
//@entry: b_size
//@ contract=b64e_size b64d_size
//@ what=the size of the encoded form is four for every started group of three, for every length
//@ loopfuncs=b64e_size; native_bound=100
void b_size(void) {
    VP_INIT();
    unsigned n = (unsigned) vp_range(0, NMAX);
    unsigned e = b64e_size(n);
    VP_ASSERT((e & 3) == 0 && 3ul * (e >> 2) >= n && 3ul * (e >> 2) <= n + 2ul, "size: four for every started group of three");
    VP_ASSERT(b64d_size(n) >= 3 * (n / 4), "size: room for every decoded group");
    VP_REACH("b_size");
}
/* the verifier compares with the table itself; b_inverse proves the table to be the alphabet */
#ifdef VP_CBMC
#define CHR(x) b64_chr[x]
#else
#define CHR(x) ch(x)
#endif
//@entry: b_encode
//@ contract=b64_encode
//@ what=encoding any text of any length gives exactly its standard padded form and stays inside its buffers
//@ loopfuncs=b64_encode; native_bound=12
void b_encode(void) {
    VP_INIT();
    unsigned n = (unsigned) vp_range(0, NMAX), m = (n + 2) / 3 * 4;
    unsigned char *in = vp_bytes(n ? n : 1), *out = vp_bytes(m + 1);
    unsigned full = n / 3, left = n - 3 * full;
    g_q = (unsigned) vp_range(0, (int64_t) m / 4);
    g_a = 3 * g_q < n ? in[3 * g_q] : 0; g_b = 3 * g_q + 1 < n ? in[3 * g_q + 1] : 0; g_c = 3 * g_q + 2 < n ? in[3 * g_q + 2] : 0;
    g_e[0] = CHR(g_a >> 2); g_e[1] = CHR((g_a & 3u) << 4 | g_b >> 4); g_e[2] = CHR((g_b & 15u) << 2 | g_c >> 6); g_e[3] = CHR(g_c & 63u);
    unsigned k = b64_encode(in, n, out);
    VP_ASSERT(k == m && out[m] == 0, "encode: the length of the standard form, terminated");
    if (g_q < full || (g_q == full && left > 0)) {
        int have = g_q < full ? 3 : (int) left;
        VP_ASSERT(out[4 * g_q] == CHR(g_a >> 2) && out[4 * g_q + 1] == CHR((g_a & 3u) << 4 | g_b >> 4), "encode: the first two digits of a group");
        VP_ASSERT(out[4 * g_q + 2] == (have > 1 ? CHR((g_b & 15u) << 2 | g_c >> 6) : '='), "encode: the third digit of a group or padding");
        VP_ASSERT(out[4 * g_q + 3] == (have > 2 ? CHR(g_c & 63u) : '='), "encode: the fourth digit of a group or padding");
    }
    VP_REACH("b_encode");
}
//@entry: b_decode
//@ contract=b64_decode b64_int
//@ what=decoding any text stays inside its buffers; every group of a padded text decodes to the bytes its digits stand for, and the length is exact
//@ loopfuncs=b64_decode; native_bound=12
void b_decode(void) {
    VP_INIT();
    unsigned n = (unsigned) vp_range(0, NMAX);
    unsigned char *in = vp_bytes(n ? n : 1), *out = vp_bytes(3 * (n / 4) + 1);
    g_enc = vp_range(0, 1) != 0;
    if (g_enc) VP_ASSUME((n & 3) == 0);
    unsigned pad = 0;
#if VP_CONCRETE
    for (unsigned i = 0; i < n; i++) if (vp_range(0, 3)) in[i] = ch((unsigned) vp_range(0, 63));
    if (g_enc) { for (unsigned i = 0; i + 2 < n; i++) if (in[i] == '=') in[i] = '/'; }
#endif
    if (g_enc && n) { unsigned p = (unsigned) vp_range(0, 2); if (p) in[n - 1] = '='; if (p == 2) in[n - 2] = '='; pad = in[n - 2] == '=' ? 2 : in[n - 1] == '=' ? 1 : 0; }
    if (g_enc && n) VP_ASSUME(in[n - 2] != '=' || in[n - 1] == '=');
    g_q = (unsigned) vp_range(0, NMAX / 4);
    bool has = 4 * g_q + 3 < n;
    for (unsigned t = 0; t < 4; t++) g_u[t] = has ? (unsigned) un(in[4 * g_q + t]) : 0;
    g_d[0] = (unsigned char) (g_u[0] << 2 | g_u[1] >> 4); g_d[1] = (unsigned char) (g_u[1] << 4 | g_u[2] >> 2); g_d[2] = (unsigned char) (g_u[2] << 6 | g_u[3]);
    g_pad = pad; g_lz = n > 1 ? (unsigned) un(in[n - 2]) : 0;
    if (g_enc && has) { VP_ASSUME(g_u[0] != 64 && g_u[1] != 64); if (4 * g_q + 4 < n) VP_ASSUME(g_u[2] != 64 && g_u[3] != 64); }
    unsigned k = b64_decode(in, n, out);
    VP_ASSERT(k <= 3 * (n / 4), "decode: never more than three bytes per group");
    if (g_enc) {
        VP_ASSERT(k == 3 * (n / 4) - pad, "decode: three bytes per group, less the padding");
        if (has) {
            VP_ASSERT(out[3 * g_q] == g_d[0], "decode: first byte of a group");
            if (g_u[2] != 64) VP_ASSERT(out[3 * g_q + 1] == g_d[1], "decode: second byte of a group");
            if (g_u[2] != 64 && g_u[3] != 64) VP_ASSERT(out[3 * g_q + 2] == g_d[2], "decode: third byte of a group");
        }
    }
    VP_REACH("b_decode");
}
//@entry: b_inverse
//@ contract=b64_int
//@ what=the digits of a group of one, two or three bytes decode to those bytes: with b_encode and b_decode, decoding inverts encoding
//@ loops=off; native_bound=4
void b_inverse(void) {
    VP_INIT();
    unsigned x = (unsigned) vp_range(0, 63), c = (unsigned) vp_range(0, 255);
    VP_ASSERT(b64_chr[x] == ch(x) && un(ch(x)) == (int) x && ch(x) != '=', "alphabet: as in RFC 4648, every digit distinct from padding");
    VP_ASSERT((int) b64_int(c) == un((unsigned char) c), "alphabet: the inverse");
    unsigned a = (unsigned) vp_range(0, 255), b = (unsigned) vp_range(0, 255), d = (unsigned) vp_range(0, 255);
    unsigned char w = ch(a >> 2), y = ch((a & 3) << 4 | b >> 4), z = ch((b & 15) << 2 | d >> 6), u = ch(d & 63);
    VP_ASSERT((unsigned char) (un(w) << 2 | un(y) >> 4) == a && (unsigned char) (un(y) << 4 | un(z) >> 2) == b && (unsigned char) (un(z) << 6 | un(u)) == d, "group: decodes to the bytes it encodes");
    VP_REACH("b_inverse");
}
//@entry: b_native
//@ contract=encode decode
//@ what=encode() and decode() pass the whole text to the codec with room for the result, return what it wrote and release their buffer; other arguments are errors
//@ replace=b64_encode:b64_encode_c,b64_decode:b64_decode_c; loopfuncs=b64e_size; native=no
void b_native(void) {
    VP_INIT();
    g_S.obj.type = OBJ_STRING; g_S.length = (int) vp_range(0, NMAX); char *t = vp_bytes((size_t) g_S.length + 1); g_S.chars = t; VP_OBJ(0, &g_S);
    Value args[1] = {OBJ_VAL(&g_S)}; g_in = t; g_len = (unsigned) g_S.length;
    bool e = vp_range(0, 1) != 0;
    Value r = e ? encode(NULL, 1, args) : decode(NULL, 1, args);
    VP_ASSERT(vp_err == 0 && IS_STRING(r) && g_R.length == g_r && vp_balance == 0, "encode, decode: the text the codec wrote; the buffer is released");
    args[0] = NIL_VAL; encode(NULL, 1, args); decode(NULL, 1, args); VP_ASSERT(vp_err == 2, "encode, decode: the argument is a string");
    encode(NULL, 0, args); decode(NULL, 2, args); VP_ASSERT(vp_err == 4, "encode, decode: one argument");
    VP_REACH("b_native");
}
