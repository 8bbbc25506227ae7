/* Contracts of VM services used by native methods: runtimeError reports (ghost counter) and returns; push/pop protect
 * values from collection only; defineNative only fills a method table. */
#ifndef STUB_VM_H
#define STUB_VM_H
#define VP_INIT() do { vp_err = 0; VP_INIT_BALANCE(); } while (0)
#ifdef STUB_ALLOC_H
#define VP_INIT_BALANCE() (vp_balance = 0)
#else
#define VP_INIT_BALANCE() ((void) 0)
#endif
static int vp_err; /* ghost: number of errors reported */
void runtimeError(DictuVM *vm, const char *format, ...) { (void) vm; (void) format; vp_err++; }
#ifndef STUB_VM_STACK
void push(DictuVM *vm, Value value) { (void) vm; (void) value; }
Value pop(DictuVM *vm) { (void) vm; return NIL_VAL; }
#endif
#endif
