//@unit: Hashlib on the real interpreter
//@entry: r_hash
//@ mode=oracle; vmlib=yes
//@ what=refutation only: sha256() and hmac() of random texts, also with NUL characters, in both forms, are the digests by definition
#include "rv.h"
#if VP_CONCRETE && !defined(VP_CBMC)
static uint32_t R(uint32_t x, unsigned n) { return x >> n | x << (32 - n); }
static uint32_t KK[64], HH[8];
static void roots(void) { /* fractional parts of the roots of the first primes */
    if (KK[0]) return;
    int n = 0; for (int p = 2; n < 64; p++) { int q = 2; while (q < p && p % q) q++; if (q < p) continue;
        long double c = cbrtl((long double) p), s = sqrtl((long double) p); KK[n] = (uint32_t) ((c - (int) c) * 4294967296.0L); if (n < 8) HH[n] = (uint32_t) ((s - (int) s) * 4294967296.0L); n++; }
}
static void sha(const uint8_t *p, size_t n, uint8_t *out) {
    roots(); uint32_t H[8], w[64]; memcpy(H, HH, 32); size_t m = (n + 9 + 63) / 64 * 64; uint8_t b[1024] = {0}; memcpy(b, p, n); b[n] = 0x80;
    for (int i = 0; i < 8; i++) b[m - 1 - i] = (uint8_t) ((uint64_t) n * 8 >> 8 * i);
    for (size_t k = 0; k < m; k += 64) {
        uint32_t s[8]; memcpy(s, H, 32);
        for (unsigned t = 0; t < 64; t++) {
            if (t < 16) w[t] = (uint32_t) b[k + 4 * t] << 24 | b[k + 4 * t + 1] << 16 | b[k + 4 * t + 2] << 8 | b[k + 4 * t + 3];
            else w[t] = (R(w[t - 2], 17) ^ R(w[t - 2], 19) ^ w[t - 2] >> 10) + w[t - 7] + (R(w[t - 15], 7) ^ R(w[t - 15], 18) ^ w[t - 15] >> 3) + w[t - 16];
            uint32_t t1 = s[7] + (R(s[4], 6) ^ R(s[4], 11) ^ R(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + KK[t] + w[t], t2 = (R(s[0], 2) ^ R(s[0], 13) ^ R(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
            for (int i = 7; i > 0; i--) s[i] = s[i - 1];
            s[4] += t1; s[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) H[i] += s[i];
    }
    for (int i = 0; i < 32; i++) out[i] = (uint8_t) (H[i / 4] >> (24 - 8 * (i % 4)));
}
#endif
void r_hash(void) {
#if VP_CONCRETE && !defined(VP_CBMC)
    rv_open();
    int n = (int) vp_range(0, vp_range(0, 1) ? 140 : 70), kn = (int) vp_range(0, vp_range(0, 1) ? 100 : 66); uint8_t d[160], k[120], K[64] = {0}, in[400], ex[32]; char sd[700], sk[500], hx[80]; int q = 0;
    sd[0] = sk[0] = 0;
    for (int i = 0; i < n; i++) { d[i] = (uint8_t) vp_range(0, 255); q += sprintf(sd + q, "\\x%02x", d[i]); }
    q = 0; for (int i = 0; i < kn; i++) { k[i] = (uint8_t) vp_range(0, 255); q += sprintf(sk + q, "\\x%02x", k[i]); }
    P("import Hashlib;\nvar d = \"%s\"; var k = \"%s\"; var h = Hashlib.sha256(d); var m = Hashlib.hmac(k, d); var r = Hashlib.hmac(k, d, true); var f = Hashlib.hmac(k, d, false); var v = [Hashlib.verify(h, h), Hashlib.verify(h, m), Hashlib.verify(h, h + 'a')];\n", sd, sk);
    VP_ASSERT(rv_go() == 0, "the program runs");
    sha(d, (size_t) n, ex); for (int i = 0; i < 32; i++) sprintf(hx + 2 * i, "%02x", ex[i]);
    VP_ASSERT(rv_str("h", hx), "sha256: the digest in lower-case digits");
    if (kn > 64) sha(k, (size_t) kn, K); else memcpy(K, k, (size_t) kn);
    for (int i = 0; i < 64; i++) in[i] = K[i] ^ 0x36;
    memcpy(in + 64, d, (size_t) n); sha(in, 64 + (size_t) n, ex); for (int i = 0; i < 64; i++) in[i] = K[i] ^ 0x5c;
    memcpy(in + 64, ex, 32); sha(in, 96, ex); for (int i = 0; i < 32; i++) sprintf(hx + 2 * i, "%02x", ex[i]);
    VP_ASSERT(rv_str("m", hx) && rv_str("f", hx) && rv_strn("r", (char *) ex, 32), "hmac: the keyed digest, in digits and raw");
    VP_ASSERT(rv_at("v", 0) == TRUE_VAL && rv_at("v", 1) == FALSE_VAL && rv_at("v", 2) == FALSE_VAL, "verify: equal texts only");
    static const char *bad[] = {"sha256(1)", "sha256()", "hmac('a')", "hmac(1, 'a')", "hmac('a', nil)", "hmac('a', 'b', 1)", "verify('a')", "verify(1, 'a')"};
    P("import Hashlib;\nHashlib.%s;\n", bad[vp_range(0, 7)]); VP_ASSERT(rv_go() == 2, "wrong arguments are errors");
    rv_close();
#endif
    VP_REACH("r_hash");
}
