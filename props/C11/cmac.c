/* C11: CMAC and CBC-MAC over the model block cipher. */
#include "toy.h"
#include "eal_mac_local.h"
#include "crypt_types.h"
#ifdef CBC
#include "crypt_cbc_mac.h"
#define F(x) CRYPT_CBC_MAC_##x
#define CTX CRYPT_CBC_MAC_Ctx
#else
#include "crypt_cmac.h"
#define F(x) CRYPT_CMAC_##x
#define CTX CRYPT_CMAC_Ctx
#endif
#ifndef CASES
#define CASES {{0, 0, 0}}
#endif
int32_t EAL_MacFindDepMethod(CRYPT_MAC_AlgId macId, void *libCtx, const char *attrName, EAL_MacDepMethod *depMeth, void **provCtx, bool isProvider)
{
    (void)macId; (void)libCtx; (void)attrName; (void)provCtx; (void)isProvider;
    depMeth->method.sym = &g_toy;
    return CRYPT_SUCCESS;
}
static void dbl(uint8_t *x)
{
    uint8_t msb = x[0] >> 7;
    for (uint32_t i = 0; i < TOYB; i++) { x[i] = (uint8_t)((x[i] << 1) | (i + 1 < TOYB ? x[i + 1] >> 7 : 0)); }
    if (msb) { x[TOYB - 1] ^= TOYB == 16 ? 0x87 : 0x1b; }
}
static void oracle(const uint8_t *key, const uint8_t *m, uint32_t n, uint8_t *out)
{
    ToyKey k;
    uint8_t x[TOYB], b[TOYB], sub[TOYB];
    memcpy(k.k, key, TOYB);
    memset(x, 0, TOYB);
    uint32_t nb = (n + TOYB - 1) / TOYB;
    if (nb == 0) { nb = 1; }
    for (uint32_t j = 0; j < nb; j++) {
        bool last = j + 1 == nb;
        uint32_t l = last ? n - j * TOYB : TOYB;
        memset(b, 0, TOYB);
        memcpy(b, m + j * TOYB, l);
#ifndef CBC
        if (last) {
            memset(sub, 0, TOYB);
            ToyEnc(&k, sub, sub);
            dbl(sub);
            if (l < TOYB) { dbl(sub); b[l] = 0x80; }
            for (uint32_t i = 0; i < TOYB; i++) { b[i] ^= sub[i]; }
        }
#else
        (void)sub; (void)dbl;
#endif
        for (uint32_t i = 0; i < TOYB; i++) { x[i] ^= b[i]; }
        ToyEnc(&k, x, x);
    }
    memcpy(out, x, TOYB);
}
static void once(CTX *c, const uint8_t *key, const uint8_t *m, uint32_t from, uint32_t a, uint32_t n)
{
    uint8_t out[TOYB + 1], want[TOYB];
    uint32_t len = TOYB + 1;
    V_ASSERT(F(Update)(c, m + from, a - from) == CRYPT_SUCCESS, "update");
    V_ASSERT(F(Update)(c, m + a, n - a) == CRYPT_SUCCESS, "update");
    out[TOYB] = 0x5a;
    V_ASSERT(F(Final)(c, out, &len) == CRYPT_SUCCESS, "final");
    V_ASSERT(len == TOYB, "tag length");
    V_ASSERT(out[TOYB] == 0x5a, "no more than the tag is written");
    oracle(key, m, n, want);
    V_ASSERT(v_eq(out, want, TOYB), "MAC of the message");
}
static CTX *mk(const uint8_t *key)
{
    CTX *c = F(NewCtx)(0);
    V_ASSERT(c != NULL, "context");
    V_ASSERT(F(Init)(c, key, TOYB) == CRYPT_SUCCESS, "init");
#ifdef CBC
    int32_t p = CRYPT_PADDING_ZEROS;
    V_ASSERT(CRYPT_CBC_MAC_Ctrl(c, CRYPT_CTRL_SET_CBC_MAC_PADDING, &p, sizeof(p)) == CRYPT_SUCCESS, "padding");
#endif
    return c;
}
static const uint32_t C[][3] = CASES;
#define MMAX (3 * TOYB + 4)
static void run(uint32_t a, uint32_t b, uint32_t n)
{
    uint8_t key[TOYB], m[MMAX], m2[MMAX];
    nd_bytes(key, TOYB); nd_bytes(m, n); nd_bytes(m2, n);
    CTX *c = mk(key);
    V_ASSERT(F(Update)(c, m, a) == CRYPT_SUCCESS, "update");
#ifdef DUP
    memcpy(m2, m, a);
    CTX *d = F(DupCtx)(c);
    V_ASSERT(d != NULL, "copy");
    once(c, key, m, a, b, n);
    once(d, key, m2, a, b, n);
#else
    once(c, key, m, a, b, n);
    V_ASSERT(F(Reinit)(c) == CRYPT_SUCCESS, "reinit");
    F(Update)(c, m, 1); /* abandoned */
    V_ASSERT(F(Reinit)(c) == CRYPT_SUCCESS, "reinit");
    once(c, key, m2, 0, b, n);
#endif
    V_WITNESS("tag");
    V_CASE_END();
}
void h_cmac(void)
{
    uint8_t k = nd8();
    for (uint32_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
        if (k == i) { run(C[i][0], C[i][1], C[i][2]); }
    }
}
void h_cmac_room(void)
{
    uint8_t key[TOYB], out[TOYB];
    nd_bytes(key, TOYB);
    uint32_t len = nd32();
    V_ASSUME(len < TOYB);
    CTX *c = mk(key);
    V_ASSERT(F(Final)(c, out + TOYB - len, &len) != CRYPT_SUCCESS, "short buffer refused");
    V_WITNESS("refused");
}
