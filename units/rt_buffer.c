//@unit: buffers on the real interpreter
//@entry: r_buffer
//@ mode=oracle; vmlib=yes
//@ what=refutation only: programs of writes, reads, resizes and copies agree with an array of bytes; accesses outside are rejected
#include "rv.h"
void r_buffer(void) {
#if VP_CONCRETE && !defined(VP_CBMC)
    rv_open();
    static uint8_t m[256]; int n = (int) vp_range(1, 24); memset(m, 0, sizeof m);
    P("import Buffer;\nvar b = Buffer.new(%d).unwrap();\nvar l = [];\n", n);
    static char ex[40][700]; int nx = 0; /* expected value of each element of l, as text */
    int steps = (int) vp_range(1, 8);
    static const char *T[] = {"UInt16", "Int16", "UInt32", "Int32", "UInt64", "Int64", "Float", "Double", "Int8"};
    static const int W[] = {2, 2, 4, 4, 8, 8, 4, 8, 1};
    for (int s = 0; s < steps; s++) {
        int op = (int) vp_range(0, 9);
        if (op <= 5) {
            int t = (int) vp_range(0, 8), be = t == 8 ? 0 : (int) vp_range(0, 1), o = (int) vp_range(-2, n + 1), w = W[t];
            const char *e = t == 8 ? "" : be ? "BE" : "LE";
            double v; uint8_t by[8]; int64_t x = 0;
            int big = (int) vp_range(0, 2);
            if (t == 0) { uint16_t y = (uint16_t) vp_range(0, 65535); v = y; memcpy(by, &y, 2); }
            else if (t == 1) { int16_t y = (int16_t) vp_range(-32768, 32767); v = y; memcpy(by, &y, 2); }
            else if (t == 2) { uint32_t y = (uint32_t) vp_range(0, 4294967295LL); v = y; memcpy(by, &y, 4); }
            else if (t == 3) { int32_t y = (int32_t) vp_range(INT32_MIN, INT32_MAX); v = y; memcpy(by, &y, 4); }
            else if (t == 4) { x = vp_range(0, big == 0 ? 9007199254740992LL : big == 1 ? 65536 : 4294967296LL * 3); v = (double) x; memcpy(by, &x, 8); }
            else if (t == 5) { int64_t lim = big == 0 ? 9007199254740992LL : big == 1 ? 300 : 4294967296LL * 3; x = vp_range(-lim, lim); v = (double) x; memcpy(by, &x, 8); }
            else if (t == 6) { float f = (float) vp_range(-100000, 100000) / 64.0f; v = f; memcpy(by, &f, 4); }
            else if (t == 7) { v = (double) vp_range(-100000000000LL, 100000000000LL) / 1024.0; memcpy(by, &v, 8); }
            else { int8_t y = (int8_t) vp_range(-128, 127); v = y; memcpy(by, &y, 1); }
            if (be) for (int i = 0; i < w / 2; i++) { uint8_t c = by[i]; by[i] = by[w - 1 - i]; by[w - 1 - i] = c; }
            bool in = o >= 0 && o + w <= n;
            P("var r = b.write%s%s(%d, %.17g); l.push(r.success());", T[t], e, o, v);
            snprintf(ex[nx++], 99, "%s", in ? "true" : "false");
            if (in) {
                memcpy(m + o, by, (size_t) w);
                P("l.push(r.unwrap() == %.17g and b.read%s%s(%d).unwrap() == %.17g);\n", v, T[t], e, o, v); snprintf(ex[nx++], 99, "true");
            } else { P("l.push(b.read%s%s(%d).success());\n", T[t], e, o); snprintf(ex[nx++], 99, "false"); }
        } else if (op == 6) {
            int k = (int) vp_range(1, 30); for (int i = n; i < k; i++) m[i] = 0; 
            P("l.push(b.resize(%d).success()); l.push(b.len());\n", k); snprintf(ex[nx++], 99, "true"); snprintf(ex[nx++], 99, "%d", k);
            for (int i = k; i < 256; i++) m[i] = 0;
            n = k;
        } else if (op == 7) {
            int o = (int) vp_range(-1, n + 1), v = (int) vp_range(0, 255); bool in = o >= 0 && o < n;
            P("l.push(b.set(%d, %d).success()); l.push(b.get(%d).success());\n", o, v, o); if (in) m[o] = (uint8_t) v;
            snprintf(ex[nx++], 99, "%s", in ? "true" : "false"); snprintf(ex[nx++], 99, "%s", in ? "true" : "false");
            if (in) { P("l.push(b.get(%d).unwrap());\n", o); snprintf(ex[nx++], 99, "%d", v); }
        } else if (op == 8) {
            char w[12]; int k = rv_word(w, 0, 8, "abC "), o = (int) vp_range(-1, n + 1); bool in = o >= 0 && o < n && o + k <= n;
            P("l.push(b.writeString(%d, '%s').success());\n", o, w); snprintf(ex[nx++], 99, "%s", in ? "true" : "false");
            if (in) memcpy(m + o, w, (size_t) k);
        } else {
            int a = (int) vp_range(-1, n), z = (int) vp_range(-1, n + 1); bool in = a >= 0 && z >= 0 && a < z && z <= n;
            P("var q = b.subarray(%d, %d); l.push(q.success());\n", a, z); snprintf(ex[nx++], 99, "%s", in ? "true" : "false");
            if (in) {
                P("var sv = q.unwrap().values(); l.push(sv.toString()); q.unwrap().set(0, %d);\n", (m[a] + 1) & 255);
                char *p = ex[nx++]; p += sprintf(p, "["); for (int i = a; i < z; i++) p += sprintf(p, "%s%d", i > a ? ", " : "", m[i]); sprintf(p, "]");
            }
        }
        if (nx > 34) break;
    }
    P("var all = b.values(); l = l.map(def (x) => type(x) == 'string' ? x : x.toString());\n");
    VP_ASSERT(rv_go() == 0, "buffer: the program runs");
    ValueArray *v = &AS_LIST(rv_get("l"))->values;
    VP_ASSERT(v->count == nx, "buffer: all steps done");
    for (int i = 0; i < nx; i++) VP_ASSERT(vstr(v->values[i], ex[i]), "buffer: each step as on an array of bytes");
    ValueArray *a = &AS_LIST(rv_get("all"))->values;
    VP_ASSERT(a->count == n, "buffer: the length");
    for (int i = 0; i < n; i++) VP_ASSERT(vnum(a->values[i], m[i]), "buffer: every byte as written");
    rv_close();
#endif
    VP_REACH("r_buffer");
}
//@entry: r_bufread
//@ mode=oracle; vmlib=yes
//@ what=refutation only: any bytes are read as numbers; strings read back are exactly the addressed bytes
void r_bufread(void) {
#if VP_CONCRETE && !defined(VP_CBMC)
    rv_open();
    P("import Buffer;\nvar b = Buffer.new(8).unwrap();\n");
    for (int i = 0; i < 8; i++) P("b.set(%d, %d);", i, vp_range(0, 1) ? 255 : (int) vp_range(0, 255));
    P("\nvar l = [b.readDoubleLE(0).unwrap(), b.readDoubleBE(0).unwrap(), b.readFloatLE(0).unwrap(), b.readFloatBE(0).unwrap(), b.readFloatLE(4).unwrap(), b.readFloatBE(4).unwrap()];\n");
    P("var l2 = ["); for (int i = 0; i < 6; i++) P("%stype(l[%d])", i ? ", " : "", i); P("];\n");
    char w[40]; int k = rv_word(w, 1, 30, "abcdefgh"), a = (int) vp_range(0, k - 1), z = (int) vp_range(a + 1, k);
    P("var s = Buffer.fromString('%s').unwrap(); var t = s.readString(%d, %d).unwrap(); var u = s.string(); var y = s.readString(%d).unwrap(); var x = s.readString(-1).success() or s.readString(0, %d).success() or s.readString(%d).success() or s.readString(0/0).success() or s.get(0/0).success() or s.get(-0.5).success() or s.subarray(-1).success() or s.subarray(0/0).success() or s.readInt8(0/0).success() or Buffer.new(0/0).success() or s.writeInt8(%d, 1).success() or s.writeInt8(1e300, 1).success();\n", w, a, z, a, k + 1, k, k);
    VP_ASSERT(rv_go() == 0, "buffer: the program runs");
    for (int i = 0; i < 6; i++) VP_ASSERT(vstr(AS_LIST(rv_get("l2"))->values.values[i], "number"), "buffer: any bytes are read as a number");
    VP_ASSERT(rv_strn("t", w + a, z - a) && rv_str("u", w) && rv_strn("y", w + a, k - a), "buffer: strings are exactly the addressed bytes");
    VP_ASSERT(rv_bool("x", false), "buffer: ranges outside are rejected");
    rv_close();
#endif
    VP_REACH("r_bufread");
}
