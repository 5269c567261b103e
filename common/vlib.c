/* Environment model shared by all harnesses: allocator, error stack, log. */
#include "v.h"
#include "hitls_build.h"
#include "bsl_sal.h"
#include "bsl_err.h"

bool v_alloc_may_fail = false;
uint32_t v_alloc_live = 0;
uint32_t v_alloc_last = 0;
int32_t v_alloc_failed = 0;

bool v_eq(const void *a, const void *b, size_t n)
{
    const uint8_t *x = a, *y = b;
    bool r = true;
    for (size_t v_i = 0; v_i < n; v_i++) {
        r = r && (x[v_i] == y[v_i]);
    }
    return r;
}

#ifndef V_REAL_SAL
static void v_copy(void *dst, const void *src, uint32_t n)
{
#if defined(V_FIXED_ALLOC) && defined(VF_CBMC)
    for (uint32_t v_i = 0; v_i < V_FIXED_ALLOC; v_i++) {
        if (v_i < n) { ((uint8_t *)dst)[v_i] = ((const uint8_t *)src)[v_i]; }
    }
#else
    memcpy(dst, src, n);
#endif
}
void *BSL_SAL_Malloc(uint32_t size)
{
    if (size == 0) {
        return NULL;
    }
    if (v_alloc_may_fail && ndbool()) {
        v_alloc_failed++;
        return NULL;
    }
#if defined(V_FIXED_ALLOC) && defined(VF_CBMC)
    /* one constant size for every block: keeps the encoding small where sizes are symbolic */
    __CPROVER_assume(size <= V_FIXED_ALLOC);
    void *p = malloc(V_FIXED_ALLOC);
#else
    void *p = malloc(size);
#endif
    V_ASSUME(p != NULL);
    v_alloc_live++;
    v_alloc_last = size;
    return p;
}
void BSL_SAL_Free(void *p)
{
    if (p != NULL) {
        v_alloc_live--;
    }
    free(p);
}
void *BSL_SAL_Calloc(uint32_t num, uint32_t size)
{
    if (num == 0 || size == 0) {
        return NULL;
    }
    if (num > UINT32_MAX / size) {
        return NULL;
    }
    if (v_alloc_may_fail && ndbool()) {
        v_alloc_failed++;
        return NULL;
    }
#if defined(V_FIXED_CALLOC) && defined(VF_CBMC)
    __CPROVER_assume(num * size <= V_FIXED_CALLOC);
    void *p = calloc(1, V_FIXED_CALLOC);
#else
    void *p = calloc(num, size);
#endif
    V_ASSUME(p != NULL);
    v_alloc_live++;
    v_alloc_last = num * size;
    return p;
}
void *BSL_SAL_Dump(const void *src, uint32_t size)
{
    if (src == NULL || size == 0) {
        return NULL;
    }
    void *p = BSL_SAL_Malloc(size);
    if (p == NULL) {
        return NULL;
    }
    v_copy(p, src, size);
    return p;
}
void *BSL_SAL_Realloc(void *addr, uint32_t newSize, uint32_t oldSize)
{
    if (addr == NULL) {
        return BSL_SAL_Malloc(newSize);
    }
    uint32_t m = oldSize > newSize ? newSize : oldSize;
    void *p = BSL_SAL_Malloc(newSize);
    if (p == NULL) {
        return NULL;
    }
    if (m > 0) {
        v_copy(p, addr, m);
    }
    BSL_SAL_Free(addr);
    return p;
}
void BSL_SAL_CleanseData(void *ptr, uint32_t size)
{
    if (ptr == NULL || size == 0) {
        return;
    }
    memset(ptr, 0, size);
}
void BSL_SAL_ClearFree(void *ptr, uint32_t size)
{
    if (ptr == NULL) {
        return;
    }
#ifdef V_CLEARFREE_CHECKS
    BSL_SAL_CleanseData(ptr, size);
#else
    (void)size;
#endif
    BSL_SAL_Free(ptr);
}
#endif

#ifndef V_REAL_ERR
void BSL_ERR_PushError(int32_t err, const char *file, uint32_t lineNo)
{
    (void)err; (void)file; (void)lineNo;
}
void BSL_ERR_ClearError(void) {}
int32_t BSL_ERR_SetMark(void) { return 0; }
int32_t BSL_ERR_PopToMark(void) { return 0; }
int32_t BSL_ERR_ClearLastMark(void) { return 0; }
#endif
#ifndef V_REAL_LOG
void BSL_LOG_BinLogFixLen(uint32_t logId, uint32_t logLevel, uint32_t logType, void *format, void *para1, void *para2,
    void *para3, void *para4)
{
    (void)logId; (void)logLevel; (void)logType; (void)format; (void)para1; (void)para2; (void)para3; (void)para4;
}
void BSL_LOG_BinLogVarLen(uint32_t logId, uint32_t logLevel, uint32_t logType, void *format, void *para)
{
    (void)logId; (void)logLevel; (void)logType; (void)format; (void)para;
}
#endif
