/* A small invertible block cipher standing in for the real one: E(x)[i] = rotl(x[i+5 mod B] + k[i], 3). */
#ifndef TOY_H
#define TOY_H
#include "v.h"
#include "crypt_local_types.h"
#include "crypt_errno.h"
typedef struct { uint8_t k[16]; uint8_t keyed; } ToyKey;
#ifndef TOYB
#define TOYB 16
#endif
static void ToyEnc(const ToyKey *k, const uint8_t *in, uint8_t *out)
{
    uint8_t t[TOYB];
    for (uint32_t v_i = 0; v_i < TOYB; v_i++) {
#ifdef TOY_LINEAR
        uint8_t s = (uint8_t)(in[(v_i + 5) % TOYB] ^ k->k[v_i]);
#else
        uint8_t s = (uint8_t)(in[(v_i + 5) % TOYB] + k->k[v_i]);
#endif
        t[v_i] = (uint8_t)((s << 3) | (s >> 5));
    }
    for (uint32_t v_i = 0; v_i < TOYB; v_i++) { out[v_i] = t[v_i]; }
}
static void ToyDec(const ToyKey *k, const uint8_t *in, uint8_t *out)
{
    uint8_t t[TOYB];
    for (uint32_t v_i = 0; v_i < TOYB; v_i++) {
        uint8_t s = (uint8_t)((in[v_i] >> 3) | (in[v_i] << 5));
#ifdef TOY_LINEAR
        t[(v_i + 5) % TOYB] = (uint8_t)(s ^ k->k[v_i]);
#else
        t[(v_i + 5) % TOYB] = (uint8_t)(s - k->k[v_i]);
#endif
    }
    for (uint32_t v_i = 0; v_i < TOYB; v_i++) { out[v_i] = t[v_i]; }
}
static int32_t ToyEncryptBlock(void *ctx, const uint8_t *in, uint8_t *out, uint32_t len)
{
    V_ASSERT(len % TOYB == 0, "the block cipher is given whole blocks");
    for (uint32_t v_o = 0; v_o + TOYB <= len; v_o += TOYB) { ToyEnc((const ToyKey *)ctx, in + v_o, out + v_o); }
    return CRYPT_SUCCESS;
}
static int32_t ToyDecryptBlock(void *ctx, const uint8_t *in, uint8_t *out, uint32_t len)
{
    V_ASSERT(len % TOYB == 0, "the block cipher is given whole blocks");
    for (uint32_t v_o = 0; v_o + TOYB <= len; v_o += TOYB) { ToyDec((const ToyKey *)ctx, in + v_o, out + v_o); }
    return CRYPT_SUCCESS;
}
static int32_t ToySetKey(void *ctx, const uint8_t *key, uint32_t len)
{
    if (len != TOYB) { return CRYPT_INVALID_ARG; }
    memcpy(((ToyKey *)ctx)->k, key, TOYB);
    ((ToyKey *)ctx)->keyed = 1;
    return CRYPT_SUCCESS;
}
static void ToyDeInit(void *ctx) { memset(ctx, 0, sizeof(ToyKey)); }
static const EAL_SymMethod g_toy = { ToySetKey, ToySetKey, ToyEncryptBlock, ToyDecryptBlock, ToyDeInit, NULL, TOYB, sizeof(ToyKey), 0 };
#endif
