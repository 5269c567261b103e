/* Verification harness interface.  One harness source, two builds:
 *   - goto-cc/CBMC  (VF_CBMC): V_* inputs are symbolic, V_ASSERT is a proof obligation;
 *   - gcc           (native replay): inputs come from the counterexample file. */
#ifndef V_H
#define V_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>

#ifdef VF_CBMC
uint64_t nondet_v_u64(void);
uint32_t nondet_v_u32(void);
uint16_t nondet_v_u16(void);
uint8_t nondet_v_u8(void);
static inline uint64_t nd64(void) { uint64_t v_nd_value = nondet_v_u64(); return v_nd_value; }
static inline uint32_t nd32(void) { uint32_t v_nd_value = nondet_v_u32(); return v_nd_value; }
static inline uint16_t nd16(void) { uint16_t v_nd_value = nondet_v_u16(); return v_nd_value; }
static inline uint8_t nd8(void) { uint8_t v_nd_value = nondet_v_u8(); return v_nd_value; }
#define V_ASSERT(c, msg) __CPROVER_assert((c), "V: " msg)
#define V_ASSUME(c) __CPROVER_assume(c)
#define V_WITNESS(msg) __CPROVER_assert(0, "WITNESS: " msg)
#define V_CASE_END() __CPROVER_assume(0) /* nothing follows this case: no state merge */
#define V_OBJ_SIZE(p) __CPROVER_OBJECT_SIZE(p)
#else
uint64_t v_next_value(void);
void v_fail(const char *msg, const char *file, int line);
void v_assume_fail(const char *msg, const char *file, int line);
void v_witness(const char *msg);
static inline uint64_t nd64(void) { return v_next_value(); }
static inline uint32_t nd32(void) { return (uint32_t)v_next_value(); }
static inline uint16_t nd16(void) { return (uint16_t)v_next_value(); }
static inline uint8_t nd8(void) { return (uint8_t)v_next_value(); }
#define V_ASSERT(c, msg) do { if (!(c)) v_fail(msg, __FILE__, __LINE__); } while (0)
#define V_ASSUME(c) do { if (!(c)) v_assume_fail(#c, __FILE__, __LINE__); } while (0)
#define V_WITNESS(msg) v_witness(msg)
#define V_CASE_END() ((void)0)
#endif

static inline bool ndbool(void) { return (nd8() & 1) != 0; }
/* value in [lo, hi] */
static inline uint32_t nd_range(uint32_t lo, uint32_t hi)
{
    uint32_t v = nd32();
    V_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline void nd_bytes(void *p, size_t n)
{
    uint8_t *b = (uint8_t *)p;
    for (size_t v_i = 0; v_i < n; v_i++) {
        b[v_i] = nd8();
    }
}
/* case split: body(k) runs with the constant k for the symbolic choice n == k (keeps loop bounds concrete) */
#define V_SPLIT(n, lo, hi, body) do { \
        for (uint32_t v_const_k = (lo); v_const_k <= (uint32_t)(hi); v_const_k++) { \
            if ((n) == v_const_k) { body(v_const_k); } \
        } \
    } while (0)
/* the harness library (common/vlib.c) */
extern bool v_alloc_may_fail;   /* BSL_SAL_Malloc may return NULL at any call when true */
extern uint32_t v_alloc_last;   /* requested size of the last block */
extern uint32_t v_alloc_live;   /* live allocations made through BSL_SAL_* */
extern int32_t v_alloc_failed;  /* number of injected failures */
bool v_eq(const void *a, const void *b, size_t n);
#endif
