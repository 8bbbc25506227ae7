//@unit: Base64 on the real interpreter
//@entry: r_base64
//@ mode=oracle; vmlib=yes
//@ what=refutation only: random texts, also with NUL characters, encode to their standard form and decode back; arbitrary texts decode without touching foreign memory
#include "rv.h"
void r_base64(void) {
#if VP_CONCRETE
    rv_open();
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    int n = (int) vp_range(0, 20); unsigned char b[24] = {0}; char ex[40], src[200]; int e = 0, q = 0;
    for (int i = 0; i < n; i++) { b[i] = (unsigned char) vp_range(0, 255); q += sprintf(src + q, "\\x%02x", b[i]); }
    src[q] = 0;
    for (int i = 0; i < n; i += 3) {
        ex[e++] = A[b[i] >> 2]; ex[e++] = A[(b[i] & 3) << 4 | b[i + 1] >> 4];
        ex[e++] = i + 1 < n ? A[(b[i + 1] & 15) << 2 | b[i + 2] >> 6] : '='; ex[e++] = i + 2 < n ? A[b[i + 2] & 63] : '=';
    }
    ex[e] = 0;
    P("import Base64;\nvar s = \"%s\";\nvar e = Base64.encode(s); var d = Base64.decode(e);\n", src);
    VP_ASSERT(rv_go() == 0 && rv_str("e", ex), "encode: the standard padded form");
    VP_ASSERT(rv_strn("d", (char *) b, n), "decode: the original text");
    char w[40]; rv_word(w, 0, 30, "AZaz09+/==-_ !");
    P("import Base64;\nvar x = Base64.decode('%s'); var k = x.len();\n", w);
    VP_ASSERT(rv_go() == 0 && rv_d("k") <= 3 * (strlen(w) / 4), "decode: any text");
    P("import Base64;\nvar x = Base64.%s;\n", vp_range(0, 1) ? "encode(1)" : vp_range(0, 1) ? "decode(nil)" : vp_range(0, 1) ? "encode()" : "decode('a', 'b')");
    VP_ASSERT(rv_go() == 2, "wrong arguments are errors");
    rv_close();
#endif
    VP_REACH("r_base64");
}
