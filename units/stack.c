//@unit: stack (optionals/stack.c): LIFO sequence
//@loop: optionals/stack.c grayStack 0/1
//@ assigns i, vp_grayed, gray_n
//@ inv 0 <= i && i <= stack->top && gray_n == i && vp_grayed == (i > g_k)
//@ dec stack->top - i
//@cflags: -DVP_KNOWN=1
//@trust: newAbstract, newModule, defineNative, result constructors: not part of the sequence contract
#define VP_GHOST_COPY 1
#define VP_CELLS 1
#include "vm/vm.h"
#include "stub_mem.h"
static int g_k, gray_n;
static Value g_V;
static bool vp_grayed;
size_t vp_keep_off;
#include "optionals/stack.c"
#include "stub_alloc.h"
#include "stub_vm.h"
void grayValue(DictuVM *vm, Value v) { (void) vm; if (gray_n++ == g_k) { VP_ASSERT(v == g_V, "mark: the elements in order"); vp_grayed = true; } }
#ifdef VP_CBMC
void gray_c(DictuVM *vm, Value v) { (void) vm; if (gray_n++ == g_k) { VP_ASSERT(v == g_V, "mark: the elements in order"); vp_grayed = true; } }
#endif
#if VP_CONCRETE
#define CAPMAX (2 * VP_BOUND)
#else
#define CAPMAX (1 << 20)
#endif
static ObjAbstract absobj;
static Stack *mk_stack(void) {
    Stack *s = malloc(sizeof(Stack));
    VP_ASSUME(s != NULL);
    s->capacity = (int) vp_range(0, CAPMAX);
    s->top = (int) vp_range(0, s->capacity);
    s->ds = vp_cells((size_t) s->capacity);
    absobj.obj.type = OBJ_ABSTRACT; absobj.data = s; VP_OBJ(0, &absobj);
    return s;
}

//@entry: s_push
//@ contract=stackPush
//@ what=push puts the value on top and keeps every other element, also when the storage grows
//@ loops=off; bmc=no; native_bound=9; cost=10
void s_push(void) {
    VP_INIT();
    Stack *s = mk_stack();
    Value args[2] = {OBJ_VAL(&absobj), vp_u64()};
    int argc = (int) vp_range(0, 3), n = s->top, c = s->capacity, k = (int) vp_range(0, CAPMAX);
    Value x = 0;
    if (k < n) { x = s->ds[k]; vp_keep_off = (size_t) k * sizeof(Value); }
    Value r = stackPush(NULL, argc, args);
    if (argc != 1) VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && s->top == n, "push: wrong argument count is an error and changes nothing");
    else {
        VP_ASSERT(vp_err == 0 && s->top == n + 1 && s->top <= s->capacity, "push: one more element");
        if (k < n) VP_ASSERT(s->ds[k] == x, "push: every other element is unchanged");
        VP_ASSERT(s->ds[n] == args[1], "push: the value is on top");
        VP_ASSERT(vp_balance == ((long long) s->capacity - c) * (long long) sizeof(Value), "push: growth is accounted");
    }
    VP_REACH("s_push");
}

//@entry: s_pop
//@ contract=stackPop
//@ what=pop returns the top element and keeps the others, also when the storage shrinks; popping an empty stack is an error
//@ loops=off; bmc=no; native_bound=17; cost=10
void s_pop(void) {
    VP_INIT();
    Stack *s = mk_stack();
    Value args[1] = {OBJ_VAL(&absobj)};
    int argc = (int) vp_range(0, 2), n = s->top, c = s->capacity, k = (int) vp_range(0, CAPMAX);
    Value x = 0, h = n > 0 ? s->ds[n - 1] : 0;
    if (k < n) { x = s->ds[k]; vp_keep_off = (size_t) k * sizeof(Value); }
    Value r = stackPop(NULL, argc, args);
    if (argc != 0 || n == 0) VP_ASSERT(vp_err == 1 && IS_EMPTY(r) && s->top == n, "pop: wrong use is an error and changes nothing");
    else {
        VP_ASSERT(vp_err == 0 && r == h, "pop: the top element is returned");
        VP_ASSERT(s->top == n - 1 && s->top <= s->capacity, "pop: one element fewer");
        if (k < n - 1) VP_ASSERT(s->ds[k] == x, "pop: every other element is unchanged");
        VP_ASSERT(vp_balance == ((long long) s->capacity - c) * (long long) sizeof(Value), "pop: shrinking is accounted");
    }
    VP_REACH("s_pop");
}

//@entry: s_observe
//@ contract=stackLen stackIsEmpty stackIsFull stackCap stackPeek freeStack
//@ what=length, emptiness, fullness and top report the sequence; releasing a stack returns all its memory
//@ loops=off; bmc=no; native_bound=8
void s_observe(void) {
    VP_INIT();
    Stack *s = mk_stack();
    vp_balance = (long long) (sizeof(Stack) + s->capacity * sizeof(Value));
    Value args[1] = {OBJ_VAL(&absobj)};
    int n = s->top, argc = (int) vp_range(0, 1);
    Value a = stackLen(NULL, argc, args), b = stackIsEmpty(NULL, argc, args), c = stackIsFull(NULL, argc, args), d = stackCap(NULL, argc, args);
    if (argc) VP_ASSERT(vp_err == 4 && IS_EMPTY(a) && IS_EMPTY(b) && IS_EMPTY(c) && IS_EMPTY(d), "observers: wrong argument count is an error");
    else VP_ASSERT(vp_err == 0 && a == numToValue((double) n) && b == BOOL_VAL(n == 0) && c == BOOL_VAL(n == s->capacity) && d == numToValue((double) s->capacity), "observers: length, emptiness, fullness, capacity");
    vp_err = 0;
    Value h = n > 0 ? s->ds[n - 1] : 0;
    Value p = stackPeek(NULL, argc, args);
    if (argc || n == 0) VP_ASSERT(vp_err == 1 && IS_EMPTY(p), "peek: wrong use is an error");
    else VP_ASSERT(vp_err == 0 && p == h, "peek: the top element");
    VP_ASSERT(s->top == n, "observers: nothing changes");
    freeStack(NULL, &absobj);
    VP_ASSERT(vp_balance == 0, "release: all accounted memory is returned");
    VP_REACH("s_observe");
}

//@entry: s_gray
//@ contract=grayStack
//@ what=a collection marks every element of the stack
//@ loopfuncs=grayStack; replace=grayValue:gray_c; bmc=no; native_bound=8
void s_gray(void) {
    VP_INIT();
    Stack *s = mk_stack();
    g_k = (int) vp_range(0, CAPMAX); vp_grayed = false; gray_n = 0;
    if (g_k < s->top) g_V = s->ds[g_k];
    grayStack(NULL, &absobj);
    VP_ASSERT(vp_grayed == (g_k < s->top), "mark: every element is marked");
    VP_REACH("s_gray");
}

//@entry: s_new
//@ contract=newStackObj
//@ what=a new stack is empty with the requested capacity, and accounts for its memory
//@ loops=off; bmc=no; native_bound=8
ObjAbstract *newAbstract(DictuVM *vm, AbstractFreeFn func, AbstractTypeFn type) {
    (void) vm; absobj.obj.type = OBJ_ABSTRACT; absobj.data = NULL; absobj.func = func; absobj.type = type; absobj.grayFunc = NULL; return &absobj;
}
void defineNative(DictuVM *vm, Table *table, const char *name, NativeFn function) { (void) vm; (void) table; (void) name; (void) function; }
void s_new(void) {
    VP_INIT();
    int cap = (int) vp_range(1, CAPMAX);
    ObjAbstract *a = newStackObj(NULL, cap);
    Stack *s = (Stack *) a->data;
    VP_ASSERT(s->top == 0 && s->capacity == cap && a->func == freeStack && a->grayFunc == grayStack, "new stack: empty, with its release and marking functions");
    VP_ASSERT(vp_balance == (long long) (sizeof(Stack) + cap * sizeof(Value)), "new stack: accounted");
    s->ds[cap - 1] = NIL_VAL;
    VP_REACH("s_new");
}
