//@unit: operators (vm.c run: one instruction at a time; concatenate)
//@cflags: -DVP_KNOWN=3
#include "step.h"
#ifdef VP_CBMC
#define NUM(v) AS_NUMBER(v)
static Value num(void) { Value v = vp_u64(); VP_ASSUME(IS_NUMBER(v)); return v; }
static Value g_a, g_b; static double g_pa, g_pb, g_pr; static int g_pc, g_r;
double pow_c(double a, double b) { g_pa = a; g_pb = b; g_pc++; return g_pr; }
float powf_c(float a, float b) { VP_ASSERT(0, "power: computed in double precision"); return a; }
double fmod_c(double a, double b) { g_pa = a; g_pb = b; g_pc += 100; return g_pr; }
static void bin(uint8_t op) { st_begin(3); st_s[0] = NIL_VAL; st_s[1] = g_a; st_s[2] = g_b; st_err = 0; st_op(op); g_r = st_run(); }
/* the same double: equal with the same sign, or both not a number */
static bool same(Value v, double d) { double x = NUM(v); return x == d ? __builtin_signbit(x) == __builtin_signbit(d) : (x != x && d != d); }
#define DONE (g_r == INTERPRET_OK && st_err == 0 && st_top() == 2 && st_s[0] == NIL_VAL)
//@entry: o_add
//@ contract=run
//@ what=+ on numbers is the addition of doubles
//@ replace=runtimeError:st_error_c,concatenate:st_concat_c,newList:st_newList_c,writeValueArray:st_wva_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c; loops=off; unwind=2; native=no; bmc=no; solver=--smt2 --cvc5 --fpa
void o_add(void) { g_a = num(); g_b = num(); bin(OP_ADD); VP_ASSERT(DONE && same(st_s[1], NUM(g_a) + NUM(g_b)), "+: the sum replaces both operands"); VP_REACH("o_add"); }
//@entry: o_sub
//@ contract=run
//@ what=- on numbers is the subtraction of doubles
//@ replace=runtimeError:st_error_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c; loops=off; unwind=2; native=no; bmc=no; solver=--smt2 --cvc5 --fpa
void o_sub(void) { g_a = num(); g_b = num(); bin(OP_SUBTRACT); VP_ASSERT(DONE && same(st_s[1], NUM(g_a) - NUM(g_b)), "-: the difference replaces both operands"); VP_REACH("o_sub"); }
//@entry: o_mul
//@ contract=run
//@ what=* on numbers is the multiplication of doubles
//@ replace=runtimeError:st_error_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c; loops=off; unwind=2; native=no; bmc=no; solver=--smt2 --cvc5 --fpa
void o_mul(void) { g_a = num(); g_b = num(); bin(OP_MULTIPLY); VP_ASSERT(DONE && same(st_s[1], NUM(g_a) * NUM(g_b)), "*: the product replaces both operands"); VP_REACH("o_mul"); }
//@entry: o_div
//@ contract=run
//@ what=/ on numbers is the division of doubles
//@ replace=runtimeError:st_error_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c; loops=off; unwind=2; native=no; bmc=no; solver=--smt2 --cvc5 --fpa
void o_div(void) { g_a = num(); g_b = num(); bin(OP_DIVIDE); VP_ASSERT(DONE && same(st_s[1], NUM(g_a) / NUM(g_b)), "/: the quotient replaces both operands"); VP_REACH("o_div"); }
//@entry: o_pow
//@ contract=run
//@ what=** and % call pow and fmod once with the left and the right operand, in double precision, and yield their result
//@ replace=runtimeError:st_error_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c,pow:pow_c,fmod:fmod_c; loops=off; unwind=2; native=no; bmc=no
void o_pow(void) {
    g_a = num(); g_b = num(); g_pc = 0; Value w = num(); g_pr = NUM(w); bool p = vp_range(0, 1);
    if (p) bin(OP_POW); else bin(OP_MOD);
    VP_ASSERT(g_pc == (p ? 1 : 100) && numToValue(g_pa) == g_a && numToValue(g_pb) == g_b, "power, remainder: of the left and the right operand");
    VP_ASSERT(DONE && st_s[1] == w, "power, remainder: the result replaces both operands");
    VP_REACH("o_pow");
}
//@entry: o_cmp
//@ contract=run
//@ what=< and > on numbers are the comparisons of doubles
//@ replace=runtimeError:st_error_c,compareStringLess:st_cmpl_c,compareStringGreater:st_cmpl_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c; loops=off; unwind=2; native=no; bmc=no
void o_cmp(void) {
    g_a = num(); g_b = num();
    bool l = vp_range(0, 1), w = l ? NUM(g_a) < NUM(g_b) : NUM(g_a) > NUM(g_b);
    if (l) bin(OP_LESS); else bin(OP_GREATER);
    VP_ASSERT(DONE && st_s[1] == BOOL_VAL(w), "comparison: of the left with the right operand");
    VP_REACH("o_cmp");
}
static int g_which; static bool g_ans; static ObjString g_sa, g_sb; static int g_calls;
bool less_c(Value first, Value second) { VP_ASSERT(g_which == 0 && first == g_b && second == g_a, "< on strings: right operand first, as the contract of compareStringLess says"); g_calls++; return g_ans; }
bool greater_c(Value first, Value second) { VP_ASSERT(g_which == 1 && first == g_b && second == g_a, "> on strings: right operand first, as the contract of compareStringGreater says"); g_calls++; return g_ans; }
bool equal_c(Value a, Value b) { VP_ASSERT((a == g_a && b == g_b) || (a == g_b && b == g_a), "==: compares the operands"); g_calls++; return g_ans; }
//@entry: o_strcmp
//@ contract=run
//@ what=< and > on strings and == on all values yield the comparison of the operands
//@ replace=runtimeError:st_error_c,compareStringLess:less_c,compareStringGreater:greater_c,valuesEqual:equal_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c; loops=off; unwind=2; native=no; bmc=no
void o_strcmp(void) {
    g_sa.obj.type = g_sb.obj.type = OBJ_STRING; VP_OBJ(0, &g_sa); VP_OBJ(1, &g_sb); VP_OBJ(2, &g_sa);
    g_a = OBJ_VAL(&g_sa); g_b = OBJ_VAL(&g_sb); g_which = (int) vp_range(0, 2); g_ans = vp_range(0, 1); g_calls = 0;
    if (g_which == 2) { g_a = vp_u64(); g_b = vp_u64(); bin(OP_EQUAL); }
    else if (g_which) bin(OP_GREATER); else bin(OP_LESS);
    VP_ASSERT(DONE && g_calls == 1 && st_s[1] == BOOL_VAL(g_ans), "comparison: the answer replaces both operands");
    VP_REACH("o_strcmp");
}
//@entry: o_bit
//@ contract=run
//@ what=& | ^ on integers in the range of int are the bitwise operations
//@ replace=runtimeError:st_error_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c; loops=off; unwind=2; native=no; bmc=no; solver=--smt2 --cvc5 --fpa
void o_bit(void) {
    int k = (int) vp_range(0, 2); g_a = num(); g_b = num();
    VP_ASSUME(NUM(g_a) > -2147483649.0 && NUM(g_a) < 2147483648.0 && NUM(g_b) > -2147483649.0 && NUM(g_b) < 2147483648.0);
    int x = (int) NUM(g_a), y = (int) NUM(g_b);
    if (k == 0) bin(OP_BITWISE_AND); else if (k == 1) bin(OP_BITWISE_OR); else bin(OP_BITWISE_XOR);
    VP_ASSERT(DONE && same(st_s[1], k == 0 ? (x & y) : k == 1 ? (x | y) : (x ^ y)), "bitwise: the result replaces both operands");
    VP_REACH("o_bit");
}
bool falsey_c(Value v) { VP_ASSERT(v == g_b, "not: of the operand"); g_calls++; return g_ans; }
//@entry: o_unary
//@ contract=run
//@ what=unary minus negates, ! is the opposite of truthiness; - of anything else is an error
//@ replace=runtimeError:st_error_c,isFalsey:falsey_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c; loops=off; unwind=2; native=no; bmc=no
void o_unary(void) {
    g_a = NIL_VAL; g_b = vp_u64(); g_calls = 0; g_ans = vp_range(0, 1);
    if (vp_range(0, 1)) { bin(OP_NOT); VP_ASSERT(g_r == INTERPRET_OK && st_top() == 3 && g_calls == 1 && st_s[2] == BOOL_VAL(g_ans), "not: the answer replaces the operand"); }
    else { bin(OP_NEGATE);
        if (IS_NUMBER(g_b)) VP_ASSERT(g_r == INTERPRET_OK && !st_err && st_top() == 3 && same(st_s[2], -NUM(g_b)), "minus: the negated number replaces the operand");
        else VP_ASSERT(g_r == INTERPRET_RUNTIME_ERROR && st_err == 1, "minus: other types are an error");
    }
    VP_REACH("o_unary");
}
//@entry: o_types
//@ contract=run
//@ what=operands of other types are an error, for every operator
//@ replace=runtimeError:st_error_c,concatenate:st_concat_c,newList:st_newList_c,writeValueArray:st_wva_c,compareStringLess:st_cmpl_c,compareStringGreater:st_cmpl_c,valueTypeToString:st_typename_c,reallocate:st_free_c,closeUpvalues:st_close_c,pow:pow_c,fmod:fmod_c; loops=off; unwind=2; native=no; bmc=no
void o_types(void) {
    static Obj oa, ob; oa.type = (int) vp_range(0, OBJ_UPVALUE); ob.type = (int) vp_range(0, OBJ_UPVALUE); VP_OBJ(0, &oa); VP_OBJ(1, &ob); VP_OBJ(2, &oa);
    g_a = vp_range(0, 1) ? OBJ_VAL(&oa) : vp_u64(); g_b = vp_range(0, 1) ? OBJ_VAL(&ob) : vp_u64();
    VP_ASSUME(!IS_OBJ(g_a) || g_a == OBJ_VAL(&oa)); VP_ASSUME(!IS_OBJ(g_b) || g_b == OBJ_VAL(&ob));
    VP_ASSUME(!(IS_NUMBER(g_a) && IS_NUMBER(g_b)) && !(IS_STRING(g_a) && IS_STRING(g_b)) && !(IS_LIST(g_a) && IS_LIST(g_b)));
    int k = (int) vp_range(0, 10);
    if (k == 0) bin(OP_ADD); else if (k == 1) bin(OP_SUBTRACT); else if (k == 2) bin(OP_MULTIPLY); else if (k == 3) bin(OP_DIVIDE); else if (k == 4) bin(OP_POW); else if (k == 5) bin(OP_MOD);
    else if (k == 6) bin(OP_BITWISE_AND); else if (k == 7) bin(OP_BITWISE_OR); else if (k == 8) bin(OP_BITWISE_XOR); else if (k == 9) bin(OP_LESS); else bin(OP_GREATER);
    VP_ASSERT(g_r == INTERPRET_RUNTIME_ERROR && st_err == 1, "operators: operands of other types are an error");
    VP_REACH("o_types");
}
#endif
