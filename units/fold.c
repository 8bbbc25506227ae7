//@unit: constant folding and emission (compiler.c foldBinary, foldUnary; chunk.c; vm.c concatenate)
//@cflags: -DVP_KNOWN=3
#include "vm/vm.h"
#ifdef VP_CBMC
#include "vm/compiler.c"
static Compiler g_c; static ObjFunction g_f; static Parser g_p; static uint8_t g_code[8]; static Value g_k[8];
static double g_pa, g_pb, g_pr; static int g_pc;
double pow_c(double a, double b) { g_pa = a; g_pb = b; g_pc++; return g_pr; }
float powf_c(float a, float b) { VP_ASSERT(0, "folding: powers are computed in double precision"); return a; }
double fmod_c(double a, double b) { g_pa = a; g_pb = b; g_pc += 100; return g_pr; }
static bool same(double x, double d) { return x == d ? __builtin_signbit(x) == __builtin_signbit(d) : (x != x && d != d); }
static void setup(void) {
    g_c.function = &g_f; g_c.parser = &g_p; g_f.chunk.code = g_code; g_f.chunk.capacity = 8; g_f.chunk.count = (int) vp_range(4, 8); g_f.chunk.constants.values = g_k; g_f.chunk.constants.capacity = 8;
    g_f.chunk.constants.count = (int) vp_range(0, 8);
    for (int i = 0; i < 8; i++) { g_code[i] = (uint8_t) vp_u64(); g_k[i] = vp_u64(); }
}
//@entry: f_binary
//@ contract=foldBinary
//@ what=two operands are replaced by their value only if the code ends with exactly the two constants of the operation, and the value is the one computed at run time; otherwise nothing changes
//@ replace=pow:pow_c,fmod:fmod_c; loops=off; unwind=9; native=no; bmc=no; solver=--smt2 --cvc5 --fpa
void f_binary(void) {
    setup(); Chunk *ch = &g_f.chunk; int n = ch->count, m = ch->constants.count;
    static const LangTokenType T[] = {TOKEN_PLUS, TOKEN_MINUS, TOKEN_STAR, TOKEN_SLASH, TOKEN_PERCENT, TOKEN_STAR_STAR};
    int k = (int) vp_range(0, 6); LangTokenType t = k == 6 ? TOKEN_AMPERSAND : T[k];
    /* a byte that is an instruction of its own or an operand: only the positions of instructions are known to the compiler.
     * requires: the last token is a number, so either the code ends with a constant instruction whose constant is the last one,
     * or with the last byte of an operator */
    uint8_t i1 = g_code[n - 3], i2 = g_code[n - 1]; bool two = g_code[n - 2] == OP_CONSTANT && g_code[n - 4] == OP_CONSTANT && i1 + 1 == i2;
    VP_ASSUME(!two || i2 < m);
    VP_ASSUME(!two || (IS_NUMBER(g_k[i1 & 7]) && IS_NUMBER(g_k[i2 & 7])));
    /* the positions the compiler may look at are constants only if they are in the pool */
    double a = AS_NUMBER(g_k[i1 & 7]), b = AS_NUMBER(g_k[i2 & 7]); g_pc = 0; g_pr = vp_double(); VP_ASSUME(IS_NUMBER(numToValue(g_pr)));
    uint8_t c0 = g_code[0], c1 = g_code[1], cn4 = g_code[n - 4];
    int w = (int) vp_range(0, 7); Value kw = g_k[w];
    bool r = foldBinary(&g_c, t);
    VP_ASSERT(VP_IMPLIES(r, two && k != 6), "folding: only two constants that follow each other");
    if (r) {
        VP_ASSERT(ch->count == n - 2 && g_code[n - 4] == OP_CONSTANT && g_code[n - 3] == i1 && ch->constants.count == m - 1, "folding: one constant instruction remains, and one constant less");
        double v = AS_NUMBER(g_k[i1 & 7]);
        VP_ASSERT(k > 3 || same(v, k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b), "folding: the value is the one of the run-time operation");
        VP_ASSERT(k <= 3 || (g_pc == (k == 4 ? 100 : 1) && same(g_pa, a) && same(g_pb, b) && same(v, g_pr)), "folding: remainders and powers are computed as at run time");
        VP_ASSERT(w == i1 || g_k[w] == kw, "folding: no other constant changes");
    } else VP_ASSERT(ch->count == n && ch->constants.count == m && g_k[w] == kw && g_code[n - 1] == i2 && g_code[n - 3] == i1, "folding: otherwise nothing changes");
    VP_ASSERT(n == 4 || g_code[0] == c0, "folding: earlier code is unchanged");
    VP_REACH("f_binary");
}
//@entry: f_unary
//@ contract=foldUnary
//@ what=a minus before a number literal negates its constant, not before true or false exchanges them; nothing else is folded
//@ loops=off; unwind=9; native=no; bmc=no; solver=--smt2 --cvc5 --fpa
void f_unary(void) {
    setup(); Chunk *ch = &g_f.chunk; int n = ch->count, m = ch->constants.count;
    int tk = (int) vp_range(0, TOKEN_ERROR); bool minus = vp_range(0, 1); g_p.previous.type = tk; int w = (int) vp_range(0, 7), z = (int) vp_range(0, 7);
    uint8_t last = g_code[n - 1], cz = g_code[z]; VP_ASSUME(tk != TOKEN_NUMBER || (last < m && g_code[n - 2] == OP_CONSTANT && IS_NUMBER(g_k[last & 7])));
    VP_ASSUME(!(tk == TOKEN_TRUE || tk == TOKEN_FALSE) || last == (tk == TOKEN_TRUE ? OP_TRUE : OP_FALSE));
    double d = AS_NUMBER(g_k[last & 7]); Value kw = g_k[w];
    bool r = foldUnary(&g_c, minus ? TOKEN_MINUS : TOKEN_NOT);
    VP_ASSERT(ch->count == n && ch->constants.count == m, "folding: in place");
    VP_ASSERT(VP_IMPLIES(r, minus ? tk == TOKEN_NUMBER : tk == TOKEN_TRUE || tk == TOKEN_FALSE), "folding: literals only");
    VP_ASSERT(!r || !minus || same(AS_NUMBER(g_k[last & 7]), -d), "folding: the negated constant");
    VP_ASSERT(!r || minus || g_code[n - 1] == (tk == TOKEN_TRUE ? OP_FALSE : OP_TRUE), "folding: the opposite");
    VP_ASSERT((r && minus && w == last) || g_k[w] == kw, "folding: no other constant changes");
    VP_ASSERT((r && !minus && z == n - 1) || g_code[z] == cz, "folding: no other code changes");
    VP_REACH("f_unary");
}
#endif
