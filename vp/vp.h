/* Contract vocabulary shared by every unit.
 *
 * The same unit text is built three ways:
 *   VP_CBMC          goto-cc; the verifier discharges every obligation (loop contracts injected in the real source)
 *   VP_CBMC+VP_BMC   goto-cc; loops unrolled to a stated bound, used for refutation and for labelled-bounded stand-ins
 *   (neither)        gcc + ASan/UBSan; replays a verifier counterexample, or searches concrete inputs, on the real code
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_CBMC
uint64_t nondet_vp_u64(void);
extern uint64_t vp_log_in;
uint64_t vp_log_in;
#ifdef VP_BMC
#define VP_LOG(x) (vp_log_in = (x))
#else
#define VP_LOG(x) ((void) (x))
#endif
static inline uint64_t vp_u64(void) { uint64_t vp_r = nondet_vp_u64(); VP_LOG(vp_r); return vp_r; }
static inline int64_t vp_range(int64_t lo, int64_t hi) {
    uint64_t vp_r = nondet_vp_u64();
    __CPROVER_assume((int64_t) vp_r >= lo && (int64_t) vp_r <= hi);
    VP_LOG(vp_r);
    return (int64_t) vp_r;
}
static inline double vp_double(void) {
    union { uint64_t u; double d; } vp_c;
    vp_c.u = vp_u64();
    return vp_c.d;
}
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, n) __CPROVER_assert(c, "VP:" n)
/* vacuity guard: must be reported as failing (= reachable) by the verifier */
#define VP_REACH(n) __CPROVER_assert(0, "VPREACH:" n)
#define VP_UF(name) __CPROVER_uninterpreted_##name
#ifdef VP_BMC
#define VP_CONCRETE 1
#else
#define VP_CONCRETE 0
#endif
#define VP_IMPLIES(a, b) (!(a) || (b))
#else
#define VP_CONCRETE 1
uint64_t vp_u64(void);
int64_t vp_range(int64_t lo, int64_t hi);
double vp_double(void);
void vp_assume_failed(void) __attribute__((noreturn));
void vp_assert_failed(const char *n) __attribute__((noreturn));
#define VP_ASSUME(c) do { if (!(c)) vp_assume_failed(); } while (0)
#define VP_ASSERT(c, n) do { if (!(c)) vp_assert_failed(n); } while (0)
#define VP_REACH(n) vp_reached(n)
void vp_reached(const char *n);
#define VP_IMPLIES(a, b) (!(a) || (b))
#endif

/* exact-size heap array of n elements with unconstrained content */
static inline void *vp_bytes(size_t n) {
    uint8_t *vp_p = malloc(n ? n : 1);
    VP_ASSUME(vp_p != NULL);
#if VP_CONCRETE
    for (size_t vp_i = 0; vp_i < n; vp_i++) vp_p[vp_i] = (uint8_t) vp_range(0, 255);
#endif
    return vp_p;
}
/* array of n 8-byte cells, typed for the verifier */
static inline uint64_t *vp_cells(size_t n) {
    uint64_t *vp_p = malloc(n * sizeof(uint64_t));
    VP_ASSUME(vp_p != NULL);
#if VP_CONCRETE
    for (size_t vp_i = 0; vp_i < n; vp_i++) vp_p[vp_i] = vp_u64();
#endif
    return vp_p;
}
#ifndef VP_MAX
#if VP_CONCRETE
#define VP_MAX VP_BOUND
#endif
#endif
#endif
