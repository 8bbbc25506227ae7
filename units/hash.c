//@unit: SHA-256 and HMAC (optionals/hashlib)
//@cflags: -DVP_KNOWN=3
//@loop: optionals/hashlib/sha256.c tc_sha256_update 0/1
//@ assigns datalen, data, __CPROVER_object_whole(s), g_blocks, g_byte
//@ inv datalen <= g_len && __CPROVER_same_object(data, g_data) && data == g_data + (g_len - datalen)
//@ inv s->leftover_offset == ((g_l0 + (g_len - datalen)) & 63) && g_blocks == ((g_l0 + (g_len - datalen)) >> 6) && s->bits_hashed == g_bits0 + 512 * (uint64_t) g_blocks
//@ inv (g_off < s->leftover_offset) ==> s->leftover[g_off] == ((g_blocks << 6) + g_off < g_l0 ? g_lo : g_data[(g_blocks << 6) + g_off - g_l0])
//@ inv (g_blocks == 0 && g_off < g_l0) ==> s->leftover[g_off] == g_lo
//@ inv (g_blocks > g_q) ==> g_byte == ((g_q << 6) + g_off < g_l0 ? g_lo : g_data[(g_q << 6) + g_off - g_l0])
//@ dec datalen
//@loop: optionals/hashlib/sha256.c compress 0/2
//@ assigns i, n, t1, t2, a, b, c, d, e, f, g, h, data, work_space, g_W, g_st
//@ inv i <= 16 && data == g_in + 4 * i && __CPROVER_same_object(data, g_in) && a == g_st[0] && b == g_st[1] && c == g_st[2] && d == g_st[3] && e == g_st[4] && f == g_st[5] && g == g_st[6] && h == g_st[7]
//@ inv (i > 0 ==> work_space[0] == g_W[0]) && (i > 1 ==> work_space[1] == g_W[1]) && (i > 2 ==> work_space[2] == g_W[2]) && (i > 3 ==> work_space[3] == g_W[3]) && (i > 4 ==> work_space[4] == g_W[4]) && (i > 5 ==> work_space[5] == g_W[5]) && (i > 6 ==> work_space[6] == g_W[6]) && (i > 7 ==> work_space[7] == g_W[7]) && (i > 8 ==> work_space[8] == g_W[8]) && (i > 9 ==> work_space[9] == g_W[9]) && (i > 10 ==> work_space[10] == g_W[10]) && (i > 11 ==> work_space[11] == g_W[11]) && (i > 12 ==> work_space[12] == g_W[12]) && (i > 13 ==> work_space[13] == g_W[13]) && (i > 14 ==> work_space[14] == g_W[14]) && (i > 15 ==> work_space[15] == g_W[15])
//@ dec 16 - i
//@ ghost g_W[i] = (uint32_t) g_in[4 * i] << 24 | (uint32_t) g_in[4 * i + 1] << 16 | (uint32_t) g_in[4 * i + 2] << 8 | g_in[4 * i + 3]; vp_round(i);
//@loop: optionals/hashlib/sha256.c compress 1/2
//@ assigns i, s0, s1, t1, t2, a, b, c, d, e, f, g, h, work_space, g_W, g_st
//@ inv 16 <= i && i <= 64 && a == g_st[0] && b == g_st[1] && c == g_st[2] && d == g_st[3] && e == g_st[4] && f == g_st[5] && g == g_st[6] && h == g_st[7]
//@ inv work_space[0] == g_W[0] && work_space[1] == g_W[1] && work_space[2] == g_W[2] && work_space[3] == g_W[3] && work_space[4] == g_W[4] && work_space[5] == g_W[5] && work_space[6] == g_W[6] && work_space[7] == g_W[7] && work_space[8] == g_W[8] && work_space[9] == g_W[9] && work_space[10] == g_W[10] && work_space[11] == g_W[11] && work_space[12] == g_W[12] && work_space[13] == g_W[13] && work_space[14] == g_W[14] && work_space[15] == g_W[15]
//@ dec 64 - i
//@ ghost g_W[i & 15] = g_W[i & 15] + (ss0(g_W[(i - 15) & 15]) + ss1(g_W[(i - 2) & 15]) + g_W[(i - 7) & 15]); vp_round(i);
#include "vm/vm.h"
/* FIPS 180-4, by definition; the constants were computed from the roots of the first primes */
static const uint32_t SK[64] = {0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0xfc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x6ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
static const uint32_t SH[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};

static uint32_t rr(uint32_t x, unsigned n) { return x >> n | x << (32 - n); }
static uint32_t ss0(uint32_t x) { return rr(x, 7) ^ rr(x, 18) ^ x >> 3; }
static uint32_t ss1(uint32_t x) { return rr(x, 17) ^ rr(x, 19) ^ x >> 10; }
static uint32_t g_W[16], g_st[8];
static void vp_round(unsigned t) {
    uint32_t a = g_st[0], b = g_st[1], c = g_st[2], d = g_st[3], e = g_st[4], f = g_st[5], g = g_st[6], h = g_st[7];
    uint32_t t1 = g_W[t & 15] + (h + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + SK[t]);
    uint32_t t2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
    g_st[7] = g; g_st[6] = f; g_st[5] = e; g_st[4] = d + t1; g_st[3] = c; g_st[2] = b; g_st[1] = a; g_st[0] = t1 + t2;
}
/* the whole digest, for execution */
static void vp_sha(const uint8_t *p, size_t n, uint8_t *out) {
    uint32_t H[8]; memcpy(H, SH, 32); size_t m = (n + 9 + 63) / 64 * 64; uint8_t *b = calloc(m, 1); memcpy(b, p, n); b[n] = 0x80;
    for (int i = 0; i < 8; i++) b[m - 1 - i] = (uint8_t) ((uint64_t) n * 8 >> 8 * i);
    for (size_t k = 0; k < m; k += 64) {
        memcpy(g_st, H, 32);
        for (unsigned t = 0; t < 64; t++) {
            if (t < 16) { g_W[t] = 0; for (int z = 0; z < 4; z++) g_W[t] = g_W[t] << 8 | b[k + 4 * t + (unsigned) z]; }
            else g_W[t & 15] = ss1(g_W[(t - 2) & 15]) + g_W[(t - 7) & 15] + ss0(g_W[(t - 15) & 15]) + g_W[t & 15];
            vp_round(t);
        }
        for (int i = 0; i < 8; i++) H[i] += g_st[i];
    }
    for (int i = 0; i < 32; i++) out[i] = (uint8_t) (H[i / 4] >> (24 - 8 * (i % 4)));
    free(b);
}
static const uint8_t *g_data, *g_in; static size_t g_len, g_l0, g_blocks, g_q, g_off; static uint64_t g_bits0; static uint8_t g_byte, g_lo; static unsigned g_iv[8];
static uint8_t g_blk[2][64];
/* contract of compress: reads one block of 64 bytes and replaces the chaining value */
static void *g_state_iv;
void compress_c(unsigned *iv, const uint8_t *data) {
    VP_ASSERT((void *) iv == g_state_iv, "blocks are absorbed by the chaining value of the state");
    if (g_blocks == g_q) g_byte = data[g_off];
    g_blocks++;
#ifdef VP_CBMC
    iv[0] = (unsigned) vp_u64();
#endif
}
void compress_f(unsigned *iv, const uint8_t *data) { /* the same, for the last blocks: the bytes are kept */
    VP_ASSERT((void *) iv == g_state_iv && g_blocks < 2, "at most two blocks are absorbed at the end");
    for (int i = 0; i < 64; i++) g_blk[g_blocks][i] = data[i];
    g_blocks++;
    for (int i = 0; i < 8; i++) { iv[i] = (unsigned) vp_u64(); g_iv[i] = iv[i]; }
}
#include "stub_alloc.h"
#include "stub_vm.h"
#include "optionals/hashlib/utils.c"
#include "optionals/hashlib/sha256.c"
struct tc_hmac_state_struct;
int init_c(TCSha256State_t s); int update_c(TCSha256State_t s, const uint8_t *d, size_t n); int final_c(uint8_t *o, TCSha256State_t s);
#include "optionals/hashlib/hmac.c"
/* contracts of the three functions: a hash is a sequence of pieces between an init and a final; what it absorbed is kept */
struct vp_hash { int pieces; const uint8_t *p[3]; size_t n[3]; uint8_t b[3]; uint8_t out[32]; bool open; };
static struct vp_hash g_h[4]; static int g_nh; static void *g_hs;
int init_c(TCSha256State_t s) { if ((void *) s != g_hs) return 1; VP_ASSERT(g_nh < 3, "hmac: three hashes at most"); g_h[g_nh].pieces = 0; g_h[g_nh].open = true; g_nh++; return 1; }
int update_c(TCSha256State_t s, const uint8_t *d, size_t n) {
    if ((void *) s != g_hs) return 1;
    VP_ASSERT(g_nh > 0 && g_h[g_nh - 1].open && g_h[g_nh - 1].pieces < 2, "hmac: pieces of a hash");
    struct vp_hash *h = &g_h[g_nh - 1]; h->p[h->pieces] = d; h->n[h->pieces] = n; h->b[h->pieces] = g_off < n && n <= 64 ? d[g_off] : 0; /* longer pieces are passed on unread */ h->pieces++; return 1;
}
int final_c(uint8_t *o, TCSha256State_t s) {
    struct vp_hash *h = g_nh > 0 ? &g_h[g_nh - 1] : &g_h[3];
    for (int i = 0; i < 32; i++) { uint8_t x = (uint8_t) vp_u64(); o[i] = x; if ((void *) s == g_hs) h->out[i] = x; }
    if ((void *) s == g_hs) { VP_ASSERT(g_nh > 0 && h->open, "hmac: a hash is finished once"); h->open = false; }
    return 1;
}
#if VP_CONCRETE
#define NMAX VP_BOUND
#else
#define NMAX (1 << 20)
#endif
//@entry: h_init
//@ contract=tc_sha256_init
//@ what=a hash starts with the standard chaining value, nothing absorbed
//@ loops=off; native_bound=4
void h_init(void) {
    VP_INIT(); struct tc_sha256_state_struct s;
    VP_ASSERT(tc_sha256_init(&s) == 1 && s.bits_hashed == 0 && s.leftover_offset == 0, "init: empty");
    int i = (int) vp_range(0, 7); VP_ASSERT(s.iv[i] == SH[i], "init: the standard chaining value");
    VP_REACH("h_init");
}
//@entry: h_update
//@ contract=tc_sha256_update
//@ what=for every length and every amount already waiting, the blocks absorbed are exactly the stream of bytes cut into pieces of 64, whatever the division into calls
//@ replace=compress:compress_c; loopfuncs=tc_sha256_update; native=no; solver=--sat-solver cadical
void h_update(void) {
    VP_INIT(); struct tc_sha256_state_struct s;
    g_len = (size_t) vp_range(1, NMAX); uint8_t *d = vp_bytes(g_len); g_data = d;
    g_l0 = (size_t) vp_range(0, 63); s.leftover_offset = g_l0; g_bits0 = vp_u64(); VP_ASSUME((g_bits0 & 511) == 0 && g_bits0 < (1ull << 40)); s.bits_hashed = g_bits0;
    g_off = (size_t) vp_range(0, 63); g_q = (size_t) vp_range(0, NMAX / 64 + 1); g_lo = s.leftover[g_off]; g_blocks = 0; g_state_iv = s.iv;
    VP_ASSERT(tc_sha256_update(&s, d, g_len) == 1, "update: accepted");
    size_t p = g_l0 + g_len;
    VP_ASSERT(g_blocks == p >> 6 && s.leftover_offset == (p & 63) && s.bits_hashed == g_bits0 + 512 * (uint64_t) (p >> 6), "update: every full block is absorbed and counted, the rest waits");
    if (g_q < g_blocks) { size_t x = (g_q << 6) + g_off; VP_ASSERT(g_byte == (x < g_l0 ? g_lo : d[x - g_l0]), "update: every absorbed block is the next 64 bytes of the stream"); }
    if (g_off < s.leftover_offset) { size_t x = (g_blocks << 6) + g_off; VP_ASSERT(s.leftover[g_off] == (x < g_l0 ? g_lo : d[x - g_l0]), "update: the waiting bytes are the rest of the stream"); }
    VP_REACH("h_update");
}
//@entry: h_final
//@ contract=tc_sha256_final _set
//@ what=the end of every message is padded with a one bit, zeros and the length in bits, in one or two blocks; the digest is the chaining value, big endian
//@ replace=compress:compress_f; loops=off; unwind=65; native=no; solver=--sat-solver cadical
void h_final(void) {
    VP_INIT(); struct tc_sha256_state_struct s;
    size_t o = (size_t) vp_range(0, 63); s.leftover_offset = o; uint64_t bits = vp_u64(); VP_ASSUME((bits & 511) == 0 && bits < (1ull << 60)); s.bits_hashed = bits;
    uint8_t was[64]; for (int i = 0; i < 64; i++) was[i] = s.leftover[i];
    g_blocks = 0; g_state_iv = s.iv; uint8_t out[32];
    VP_ASSERT(tc_sha256_final(out, &s) == 1, "final: accepted");
    int nb = o < 56 ? 1 : 2; VP_ASSERT((int) g_blocks == nb, "final: one block, or two if the length does not fit");
    int b = (int) vp_range(0, nb - 1), i = (int) vp_range(0, 63), x = b * 64 + i;
    uint64_t total = bits + 8 * o; uint8_t want = x < (int) o ? was[x] : x == (int) o ? 0x80 : x < nb * 64 - 8 ? 0 : (uint8_t) (total >> 8 * (nb * 64 - 1 - x));
    VP_ASSERT(g_blk[b][i] == want, "final: the padding of FIPS 180-4");
    int k = (int) vp_range(0, 31); VP_ASSERT(out[k] == (uint8_t) (g_iv[k / 4] >> (24 - 8 * (k % 4))), "final: the digest is the chaining value");
    VP_REACH("h_final");
}
//@entry: h_compress
//@ contract=compress BigEndian ROTR
//@ what=one block is absorbed as FIPS 180-4 says: schedule, sixty-four rounds, addition to the chaining value
//@ loopfuncs=compress; unwind=17; native=no; solver=--sat-solver cadical
void h_compress(void) {
    VP_INIT(); unsigned iv[8], was[8]; uint8_t d[64];
    for (int i = 0; i < 8; i++) { iv[i] = was[i] = (unsigned) vp_u64(); g_st[i] = was[i]; }
    g_in = d;
    compress(iv, d);
    int k = (int) vp_range(0, 7); VP_ASSERT(iv[k] == was[k] + g_st[k], "compress: the chaining value plus the state after sixty-four rounds");
    VP_REACH("h_compress");
}
//@entry: h_hmac
//@ contract=tc_hmac_set_key rekey tc_hmac_init tc_hmac_update tc_hmac_final
//@ what=for every key length, the keyed digest is H(K^opad, H(K^ipad, text)), K the key padded with zeros or its digest if it is longer than a block
//@ replace=tc_sha256_init:init_c,tc_sha256_update:update_c,tc_sha256_final:final_c; loops=off; unwind=65; native=no; timeout=500; cost=200
void h_hmac(void) {
    VP_INIT(); static struct tc_hmac_state_struct h; g_hs = &h.hash_state; g_nh = 0;
    size_t kn = (size_t) vp_range(0, NMAX), n = (size_t) vp_range(0, NMAX); static uint8_t kb[64], tb[64]; for (int i = 0; i < 64; i++) kb[i] = (uint8_t) vp_u64();
    uint8_t *key = kn <= 64 ? kb + (64 - kn) : kb, *text = n <= 64 ? tb + (64 - n) : tb;
    g_off = (size_t) vp_range(0, 63); uint8_t out[32];
    VP_ASSERT(tc_hmac_set_key(&h, key, (unsigned) kn) == 1, "hmac: every key is accepted");
    bool lng = kn > 64; VP_ASSERT(g_nh == (lng ? 1 : 0), "hmac: only a key longer than a block is hashed");
    if (lng) VP_ASSERT(g_h[0].pieces == 1 && g_h[0].p[0] == key && g_h[0].n[0] == kn && !g_h[0].open, "hmac: the whole key is hashed");
    uint8_t K = lng ? (g_off < 32 ? g_h[0].out[g_off] : 0) : g_off < kn ? key[g_off] : 0; uint8_t o1 = lng ? g_h[0].out[0] : 0; (void) o1;
    int f = g_nh;
    VP_ASSERT(tc_hmac_init(&h) == 1 && tc_hmac_update(&h, text, (unsigned) n) == 1 && tc_hmac_final(out, 32, &h) == 1, "hmac: accepted");
    VP_ASSERT(g_nh == f + 2 && !g_h[f].open && !g_h[f + 1].open, "hmac: an inner and an outer hash");
    struct vp_hash *a = &g_h[f], *b = &g_h[f + 1];
    VP_ASSERT(a->pieces == 2 && a->n[0] == 64 && a->b[0] == (uint8_t) (K ^ 0x36) && a->p[1] == text && a->n[1] == n, "hmac: the inner hash is of the key with the inner pad and the text");
    VP_ASSERT(b->pieces == 2 && b->n[0] == 64 && b->b[0] == (uint8_t) (K ^ 0x5c) && b->n[1] == 32 && VP_IMPLIES(g_off < 32, b->b[1] == a->out[g_off & 31]), "hmac: the outer hash is of the key with the outer pad and the inner digest");
    VP_ASSERT(VP_IMPLIES(g_off < 32, out[g_off & 31] == b->out[g_off & 31]), "hmac: the tag is the outer digest");
    VP_ASSERT(tc_hmac_final(out, 31, &h) == 0, "hmac: a tag of another length is refused");
    VP_REACH("h_hmac");
}
//@entry: h_compare
//@ contract=_compare
//@ what=two digests are equal exactly if all bytes are
//@ mode=oracle; native_bound=8
void h_compare(void) {
    VP_INIT(); int n = (int) vp_range(0, 8); uint8_t a[8], b[8]; for (int i = 0; i < 8; i++) { a[i] = (uint8_t) vp_range(0, 255); b[i] = vp_range(0, 9) ? a[i] : (uint8_t) vp_range(0, 255); }
    VP_ASSERT((_compare(a, b, (size_t) n) == 0) == (memcmp(a, b, (size_t) n) == 0), "compare: equal exactly if all bytes are");
    VP_REACH("h_compare");
}
//@entry: h_whole
//@ mode=oracle; native_bound=300
//@ what=refutation only: whole digests of random messages divided at random equal the definition
void h_whole(void) {
#if VP_CONCRETE
    VP_INIT(); int n = (int) vp_range(0, vp_range(0, 3) ? 140 : 300), at = 0; uint8_t d[301], out[32], ex[32]; for (int i = 0; i < n; i++) d[i] = (uint8_t) vp_range(0, 255);
    struct tc_sha256_state_struct s; tc_sha256_init(&s);
    while (at < n) { int k = (int) vp_range(1, vp_range(0, 1) ? n - at : (n - at < 70 ? n - at : 70)); tc_sha256_update(&s, d + at, (size_t) k); at += k; }
    tc_sha256_final(out, &s); vp_sha(d, (size_t) n, ex);
    VP_ASSERT(memcmp(out, ex, 32) == 0, "digest: as defined, whatever the division");
    int kn = (int) vp_range(0, 100); uint8_t key[101], K[64] = {0}, in[500]; for (int i = 0; i < kn; i++) key[i] = (uint8_t) vp_range(0, 255);
    if (kn > 64) vp_sha(key, (size_t) kn, K); else memcpy(K, key, (size_t) kn);
    for (int i = 0; i < 64; i++) in[i] = K[i] ^ 0x36;
    memcpy(in + 64, d, (size_t) n); vp_sha(in, 64 + (size_t) n, ex); for (int i = 0; i < 64; i++) in[i] = K[i] ^ 0x5c;
    memcpy(in + 64, ex, 32); vp_sha(in, 96, ex);
    struct tc_hmac_state_struct h; memset(&h, 0x55, sizeof h); tc_hmac_set_key(&h, key, (unsigned) kn); tc_hmac_init(&h); tc_hmac_update(&h, d, (unsigned) n); tc_hmac_final(out, 32, &h);
    VP_ASSERT(memcmp(out, ex, 32) == 0, "keyed digest: RFC 2104 for every key length");
#endif
    VP_REACH("h_whole");
}
