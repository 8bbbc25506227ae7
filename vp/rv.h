/* Real machine: the whole interpreter of /repo/src, compiled with ASan/UBSan, driven through its public entry points.
 * Used only by oracle entries (contract clauses executed on the real code, labelled bounded, never counted as proved). */
#ifndef RV_H
#define RV_H
#if VP_CONCRETE && !defined(VP_CBMC)
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#include <sys/mman.h>
#include "vm/vm.h"
#include "vm/memory.h"
#include "vm/object.h"
#include "vm/compiler.h"
#include "include/dictu_include.h"
/* left out of the library: bindings to operating system services */
Value createSocketModule(DictuVM *vm) { (void) vm; return EMPTY_VAL; }
Value createSqliteModule(DictuVM *vm) { (void) vm; return EMPTY_VAL; }
Value createProcessModule(DictuVM *vm) { (void) vm; return EMPTY_VAL; }
Value createFFIModule(DictuVM *vm) { (void) vm; return EMPTY_VAL; }
void __sanitizer_set_report_fd(void *fd);
static DictuVM *rvm;
static int rv_e2 = -1, rv_null = -1, rv_out = -1;
static char rv_src[1 << 18]; static size_t rv_n;
static char rv_text[1 << 16]; static long rv_lost;
static void rv_clear(void) { fflush(stdout); if (ftruncate(rv_out, 0)) {} lseek(rv_out, 0, SEEK_SET); }
/* everything printed so far */
static const char *rv_printed(void) {
    fflush(stdout);
    ssize_t n = pread(rv_out, rv_text, sizeof rv_text - 1, 0);
    rv_text[n < 0 ? 0 : n] = 0;
    return rv_text;
}
static void rv_free(void) {
    rv_clear();
    dictuFreeVM(rvm); rvm = NULL;
    rv_lost = 0; sscanf(rv_printed(), "Total bytes lost: %ld", &rv_lost);
    rv_clear();
}
static void rv_open(void) {
    if (rv_null < 0) { rv_null = open("/dev/null", O_WRONLY); rv_e2 = dup(2); rv_out = memfd_create("out", 0); __sanitizer_set_report_fd((void *) (intptr_t) rv_e2); fflush(NULL); if (!getenv("VP_SHOW")) dup2(rv_null, 2); dup2(rv_out, 1); }
    rv_clear();
    if (rvm) rv_free();
    static char *av[] = {"dictu", NULL};
    rvm = dictuInitVM(false, 1, av);
    rv_n = 0; rv_src[0] = 0;
}
static void __attribute__((format(printf, 1, 2))) P(const char *f, ...) {
    va_list a; va_start(a, f);
    rv_n += (size_t) vsnprintf(rv_src + rv_n, sizeof rv_src - rv_n, f, a);
    va_end(a);
    VP_ASSUME(rv_n < sizeof rv_src - 1);
}
/* runs the accumulated source as a module of its own; 0 ok, 1 compile error, 2 runtime error */
static int rv_go(void) {
    rvm->stackTop = rvm->stack; rvm->frameCount = 0;
    if (getenv("VP_SHOW")) fprintf(stderr, "--- %s\n", rv_src);
    char *s = strdup(rv_src); /* exact-size copy: reads beyond the text are detected */
    int r = dictuInterpret(rvm, "./main", s);
    free(s);
    rv_n = 0; rv_src[0] = 0;
    return r;
}
static Value rv_get(const char *name) {
    ObjString *m = copyString(rvm, "./main", 6);
    Value mv; VP_ASSERT(tableGet(&rvm->modules, m, &mv), "module exists");
    ObjString *n = copyString(rvm, name, (int) strlen(name));
    Value v;
    if (!tableGet(&AS_MODULE(mv)->values, n, &v)) return EMPTY_VAL;
    return v;
}
static bool rv_num(const char *n, double d) { Value v = rv_get(n); return IS_NUMBER(v) && (AS_NUMBER(v) == d || (isnan(d) && isnan(AS_NUMBER(v)))); }
static double rv_d(const char *n) { Value v = rv_get(n); return IS_NUMBER(v) ? AS_NUMBER(v) : NAN; }
static bool rv_bool(const char *n, bool b) { Value v = rv_get(n); return IS_BOOL(v) && AS_BOOL(v) == b; }
static bool rv_strn(const char *n, const char *s, int len) { Value v = rv_get(n); return IS_STRING(v) && AS_STRING(v)->length == len && memcmp(AS_CSTRING(v), s, (size_t) len) == 0 && AS_CSTRING(v)[len] == 0; }
static bool rv_str(const char *n, const char *s) { return rv_strn(n, s, (int) strlen(s)); }
static bool vstr(Value v, const char *s) { return IS_STRING(v) && AS_STRING(v)->length == (int) strlen(s) && memcmp(AS_CSTRING(v), s, strlen(s)) == 0 && AS_CSTRING(v)[strlen(s)] == 0; }
static bool vnum(Value v, double d) { return IS_NUMBER(v) && (AS_NUMBER(v) == d || (isnan(d) && isnan(AS_NUMBER(v)))); }
static int rv_len(const char *n) { Value v = rv_get(n); return IS_LIST(v) ? AS_LIST(v)->values.count : IS_STRING(v) ? AS_STRING(v)->length : -1; }
static Value rv_at(const char *n, int i) { Value v = rv_get(n); return IS_LIST(v) && i < AS_LIST(v)->values.count ? AS_LIST(v)->values.values[i] : EMPTY_VAL; }
/* a random string over the alphabet */
static int rv_word(char *buf, int min, int max, const char *alpha) {
    int n = (int) vp_range(min, max), m = (int) strlen(alpha);
    for (int i = 0; i < n; i++) buf[i] = alpha[vp_range(0, m - 1)];
    buf[n] = 0;
    return n;
}
/* releases everything: the accounted memory must come back to zero */
static void rv_close(void) {
    rv_free();
    VP_ASSERT(rv_lost == 0, "releasing everything brings the accounted memory back to zero");
}
#endif
#endif
