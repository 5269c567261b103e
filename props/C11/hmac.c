/* C11: HMAC over a small model hash (block B bytes, digest D bytes), any key, any split, reinit, copy. */
#include "v.h"
#include "crypt_errno.h"
#include "crypt_hmac.h"
#include "eal_mac_local.h"
#ifndef TB
#define TB 8
#define TD 4
#endif
#ifndef CASES
#define CASES {{0, 0, 0}}
#endif
typedef struct { uint8_t a[TD]; uint8_t n; uint8_t st; } Th;
static Th pool[6];
static uint32_t used;
static void hInit(Th *c) { memset(c, 0, sizeof(*c)); c->a[0] = 0x5a; c->st = 1; }
static void hUpd(Th *c, const uint8_t *p, uint32_t n)
{
    for (uint32_t i = 0; i < n; i++) {
        uint32_t k = c->n++ % TD;
        uint8_t x = (uint8_t)(c->a[(k + TD - 1) % TD] ^ p[i]);
        c->a[k] ^= (uint8_t)((x << 3) | (x >> 5));
    }
}
static void hFin(Th *c, uint8_t *out)
{
    for (uint32_t i = 0; i < TD; i++) { out[i] = (uint8_t)(c->a[(i + c->n) % TD] ^ c->n); }
    c->st = 2;
}
static void *tNew(void *p, int32_t id) { (void)p; (void)id; V_ASSERT(used < 6, "contexts"); return &pool[used++]; }
static int32_t tInit(void *d, const BSL_Param *p) { (void)p; hInit(d); return CRYPT_SUCCESS; }
static int32_t tUpdate(void *d, const uint8_t *in, uint32_t n)
{
    V_ASSERT(((Th *)d)->st == 1, "hash updated only between its initialisation and its end");
    hUpd(d, in, n);
    return CRYPT_SUCCESS;
}
static int32_t tFinal(void *d, uint8_t *out, uint32_t *n)
{
    V_ASSERT(((Th *)d)->st == 1, "hash finished only once");
    if (*n < TD) { return CRYPT_INVALID_ARG; }
    hFin(d, out);
    *n = TD;
    return CRYPT_SUCCESS;
}
static int32_t tDeinit(void *d) { memset(d, 0, sizeof(Th)); return CRYPT_SUCCESS; }
static int32_t tCopy(void *d, const void *s) { memcpy(d, s, sizeof(Th)); return CRYPT_SUCCESS; }
static void *tDup(const void *s) { void *d = tNew(NULL, 0); memcpy(d, s, sizeof(Th)); return d; }
static void tFree(void *d) { (void)d; }
int32_t EAL_MacFindDepMethod(CRYPT_MAC_AlgId macId, void *libCtx, const char *attrName, EAL_MacDepMethod *depMeth, void **provCtx, bool isProvider)
{
    (void)macId; (void)libCtx; (void)attrName; (void)provCtx; (void)isProvider;
    EAL_MdMethod m = {0};
    m.blockSize = TB; m.mdSize = TD;
    m.newCtx = tNew; m.init = tInit; m.update = tUpdate; m.final = tFinal; m.deinit = tDeinit; m.copyCtx = tCopy; m.dupCtx = tDup; m.freeCtx = tFree;
    *depMeth->method.md = m;
    return CRYPT_SUCCESS;
}
#define KMAX 24
#define MMAX 24
static void oracle(const uint8_t *key, uint32_t kl, const uint8_t *m, uint32_t n, uint8_t *out)
{
    uint8_t k[TB], t[TD], pad[TB];
    Th c;
    memset(k, 0, sizeof(k));
    if (kl > TB) { hInit(&c); hUpd(&c, key, kl); hFin(&c, k); } else { memcpy(k, key, kl); }
    for (uint32_t i = 0; i < TB; i++) { pad[i] = k[i] ^ 0x36; }
    hInit(&c); hUpd(&c, pad, TB); hUpd(&c, m, n); hFin(&c, t);
    for (uint32_t i = 0; i < TB; i++) { pad[i] = k[i] ^ 0x5c; }
    hInit(&c); hUpd(&c, pad, TB); hUpd(&c, t, TD); hFin(&c, out);
}
static void once(CRYPT_HMAC_Ctx *c, const uint8_t *key, uint32_t kl, const uint8_t *m, uint32_t from, uint32_t a, uint32_t n)
{
    uint8_t out[TD + 1], want[TD];
    uint32_t len = TD + 1;
    V_ASSERT(CRYPT_HMAC_Update(c, m + from, a - from) == CRYPT_SUCCESS, "update");
    V_ASSERT(CRYPT_HMAC_Update(c, m + a, n - a) == CRYPT_SUCCESS, "update");
    out[TD] = 0x5a;
    V_ASSERT(CRYPT_HMAC_Final(c, out, &len) == CRYPT_SUCCESS, "final");
    V_ASSERT(len == TD, "tag length");
    V_ASSERT(out[TD] == 0x5a, "no more than the tag is written");
    oracle(key, kl, m, n, want);
    V_ASSERT(v_eq(out, want, TD), "HMAC of the message");
}
static const uint32_t C[][3] = CASES;
static void run(uint32_t kl, uint32_t a, uint32_t n)
{
    uint8_t key[KMAX], key2[KMAX], m[MMAX], m2[MMAX];
    nd_bytes(key, kl); nd_bytes(key2, KMAX); nd_bytes(m, n); nd_bytes(m2, n);
    CRYPT_HMAC_Ctx *c = CRYPT_HMAC_NewCtx(CRYPT_MAC_HMAC_SHA256);
    V_ASSERT(c != NULL, "context");
    V_ASSERT(CRYPT_HMAC_Init(c, key, kl) == CRYPT_SUCCESS, "init");
#ifdef DUP
    memcpy(m2, m, a);
    V_ASSERT(CRYPT_HMAC_Update(c, m, a) == CRYPT_SUCCESS, "update");
    CRYPT_HMAC_Ctx *d = CRYPT_HMAC_DupCtx(c);
    V_ASSERT(d != NULL, "copy");
    once(c, key, kl, m, a, a, n);
    once(d, key, kl, m2, a, a, n);
#else
    once(c, key, kl, m, 0, a, n);
    V_ASSERT(CRYPT_HMAC_Reinit(c) == CRYPT_SUCCESS, "reinit");
    CRYPT_HMAC_Update(c, m2, 1); /* abandoned */
    V_ASSERT(CRYPT_HMAC_Reinit(c) == CRYPT_SUCCESS, "reinit");
    once(c, key, kl, m2, 0, a, n);
    V_ASSERT(CRYPT_HMAC_Init(c, key2, 5) == CRYPT_SUCCESS, "new key");
    once(c, key2, 5, m, 0, 0, n);
#endif
    V_WITNESS("tag");
    V_CASE_END();
}
void h_hmac(void)
{
    uint8_t k = nd8();
    for (uint32_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
        if (k == i) { run(C[i][0], C[i][1], C[i][2]); }
    }
}
void h_hmac_room(void)
{
    uint8_t key[3] = {1, 2, 3}, out[TD];
    uint32_t len = nd32();
    V_ASSUME(len < TD);
    CRYPT_HMAC_Ctx *c = CRYPT_HMAC_NewCtx(CRYPT_MAC_HMAC_SHA256);
    V_ASSERT(CRYPT_HMAC_Init(c, key, 3) == CRYPT_SUCCESS, "init");
    V_ASSERT(CRYPT_HMAC_Final(c, out + TD - len, &len) != CRYPT_SUCCESS, "short buffer refused");
    V_WITNESS("refused");
}
