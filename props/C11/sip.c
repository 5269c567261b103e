/* C11: SipHash-2-4 against its definition, any key and message, any split. */
#include "v.h"
#include "crypt_errno.h"
#include "crypt_siphash.h"
#include "eal_mac_local.h"
#ifndef HS
#define HS 8
#define CASES {{0, 0, 0}}
#endif
static EAL_SiphashMethod g_m;
int32_t EAL_MacFindDepMethod(CRYPT_MAC_AlgId macId, void *libCtx, const char *attrName, EAL_MacDepMethod *depMeth, void **provCtx, bool isProvider)
{
    (void)macId; (void)libCtx; (void)attrName; (void)provCtx; (void)isProvider;
    memset(&g_m, 0, sizeof(g_m));
    g_m.hashSize = HS; g_m.compressionRounds = CR; g_m.finalizationRounds = FR;
    depMeth->method.sip = &g_m;
    return CRYPT_SUCCESS;
}
static uint64_t rl(uint64_t x, uint32_t n) { return (x << n) | (x >> (64 - n)); }
static void round_(uint64_t *v)
{
    v[0] += v[1]; v[1] = rl(v[1], 13); v[1] ^= v[0]; v[0] = rl(v[0], 32);
    v[2] += v[3]; v[3] = rl(v[3], 16); v[3] ^= v[2];
    v[0] += v[3]; v[3] = rl(v[3], 21); v[3] ^= v[0];
    v[2] += v[1]; v[1] = rl(v[1], 17); v[1] ^= v[2]; v[2] = rl(v[2], 32);
}
static uint64_t ld(const uint8_t *p)
{
    uint64_t r = 0;
    for (uint32_t i = 0; i < 8; i++) { r |= (uint64_t)p[i] << (8 * i); }
    return r;
}
static void oracle(const uint8_t *key, const uint8_t *m, uint32_t n, uint8_t *out)
{
    uint64_t k0 = ld(key), k1 = ld(key + 8);
    uint64_t v[4] = {k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL};
    if (HS == 16) { v[1] ^= 0xee; }
    for (uint32_t o = 0; o <= n; o += 8) {
        uint8_t b[8];
        uint32_t l = n - o < 8 ? n - o : 8;
        memset(b, 0, 8);
        memcpy(b, m + o, l);
        if (l < 8) { b[7] = (uint8_t)n; }
        uint64_t w = ld(b);
        v[3] ^= w;
        for (uint32_t i = 0; i < CR; i++) { round_(v); }
        v[0] ^= w;
        if (l < 8) { break; }
    }
    v[2] ^= HS == 16 ? 0xee : 0xff;
    for (uint32_t h = 0; h < HS; h += 8) {
        if (h) { v[1] ^= 0xdd; }
        for (uint32_t i = 0; i < FR; i++) { round_(v); }
        uint64_t r = v[0] ^ v[1] ^ v[2] ^ v[3];
        for (uint32_t i = 0; i < 8; i++) { out[h + i] = (uint8_t)(r >> (8 * i)); }
    }
}
static const uint32_t C[][3] = CASES;
void h_sip(void)
{
    uint8_t k = nd8();
    for (uint32_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
        if (k != i) { continue; }
        uint32_t a = C[i][0], b = C[i][1], n = C[i][2];
        uint8_t key[16], m[40], out[HS + 1], want[HS];
        uint32_t len = HS + 1;
        nd_bytes(key, 16); nd_bytes(m, n);
        CRYPT_SIPHASH_Ctx *c = CRYPT_SIPHASH_NewCtx(CRYPT_MAC_SIPHASH64);
        V_ASSERT(c != NULL, "context");
        V_ASSERT(CRYPT_SIPHASH_Init(c, key, 16) == CRYPT_SUCCESS, "init");
#ifdef REINIT
        CRYPT_SIPHASH_Update(c, m, 1);
        V_ASSERT(CRYPT_SIPHASH_Reinit(c) == CRYPT_SUCCESS, "reinit");
#endif
        V_ASSERT(CRYPT_SIPHASH_Update(c, m, a) == CRYPT_SUCCESS, "update");
        V_ASSERT(CRYPT_SIPHASH_Update(c, m + a, b - a) == CRYPT_SUCCESS, "update");
        V_ASSERT(CRYPT_SIPHASH_Update(c, m + b, n - b) == CRYPT_SUCCESS, "update");
        out[HS] = 0x5a;
        V_ASSERT(CRYPT_SIPHASH_Final(c, out, &len) == CRYPT_SUCCESS, "final");
        V_ASSERT(len == HS, "tag length");
        V_ASSERT(out[HS] == 0x5a, "no more than the tag is written");
        oracle(key, m, n, want);
        V_ASSERT(v_eq(out, want, HS), "SipHash of the message");
        V_WITNESS("tag");
        V_CASE_END();
    }
}
