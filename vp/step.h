/* One instruction of the real run(): the frame starts at a concrete instruction followed by RETURN, all operands are
 * unconstrained.  The source's own switch form of the dispatch is used (COMPUTED_GOTO off); the handlers are the same. */
#ifndef STEP_H
#define STEP_H
#include "vm/common.h"
#undef COMPUTED_GOTO
#include "vm/vm.c"
#define ST_MAX 16
static Value st_s[ST_MAX], st_k[8]; static uint8_t st_c[32]; static int st_lines[32];
static ObjFunction st_f; static ObjClosure st_cl; static ObjModule st_m; static ObjString st_mn; static CallFrame st_fr[4]; static DictuVM st_vm;
static ObjUpvalue *st_up[4];
static int st_n;
static void st_op(uint8_t b) { st_c[st_n++] = b; }
/* the stack holds n values; the frame's slots begin at the bottom */
static void st_begin(int n) {
    st_n = 0;
    static char mn[] = "m"; st_mn.chars = mn; st_mn.length = 1; st_mn.obj.type = OBJ_STRING; st_m.obj.type = OBJ_MODULE; st_m.name = &st_mn;
    st_f.obj.type = OBJ_FUNCTION; st_f.chunk.code = st_c; st_f.chunk.lines = st_lines; st_f.chunk.constants.values = st_k; st_f.chunk.constants.count = st_f.chunk.constants.capacity = 8; st_f.module = &st_m; st_f.name = NULL;
    st_cl.obj.type = OBJ_CLOSURE; st_cl.function = &st_f; st_cl.upvalues = st_up;
    st_fr[0].closure = &st_cl; st_fr[0].ip = st_c; st_fr[0].slots = st_s;
    st_vm.frames = st_fr; st_vm.frameCount = 1; st_vm.frameCapacity = 4; st_vm.stackTop = st_s + n; st_vm.openUpvalues = NULL;
}
static int st_run(void) { st_op(OP_RETURN); return run(&st_vm); }
/* number of values on the stack when the instruction was done */
#define st_top() ((int) (st_vm.stackTop - st_s) + 2)
#ifdef VP_CBMC
static int st_err;
void st_error_c(DictuVM *vm, const char *format, ...) { (void) vm; (void) format; st_err++; }
/* the instruction under contract does not use this service for these operands */
#define ST_NO(name, args) name args { VP_ASSERT(0, "instruction: an unrelated service is used"); VP_ASSUME(0); return 0; }
ObjList *ST_NO(st_newList_c, (DictuVM *vm))
void st_concat_c(DictuVM *vm) { VP_ASSERT(0, "instruction: an unrelated service is used"); VP_ASSUME(0); }
void st_wva_c(DictuVM *vm, ValueArray *a, Value v) { VP_ASSERT(0, "instruction: an unrelated service is used"); VP_ASSUME(0); }
bool ST_NO(st_cmpl_c, (Value a, Value b))
void st_close_c(DictuVM *vm, Value *last) { (void) vm; (void) last; }
static char st_tn[2];
char *st_typename_c(DictuVM *vm, Value v, int *n) { (void) vm; (void) v; *n = 1; return st_tn; }
void *st_free_c(DictuVM *vm, void *p, size_t o, size_t n) { (void) vm; VP_ASSERT(p == st_tn && n == 0, "operand errors: only the type name is released"); (void) o; return NULL; }
#endif
#endif
