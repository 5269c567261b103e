/* C10: Merkle-Damgard digests, streaming and padding, with the compression function replaced by a linear model. */
#include "v.h"
#include <stdlib.h>
#include "crypt_errno.h"
#ifdef D_SHA256
#include "crypt_sha2.h"
#define P(x) CRYPT_SHA2_256_##x
#define CTX CRYPT_SHA2_256_Ctx
#define DIG 32
static const uint32_t IV[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
#elif defined(D_SHA224)
#include "crypt_sha2.h"
#define P(x) CRYPT_SHA2_224_##x
#define CTX CRYPT_SHA2_224_Ctx
#define DIG 28
static const uint32_t IV[8] = {0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4};
#elif defined(D_SHA512)
#include "crypt_sha2.h"
#define P(x) CRYPT_SHA2_512_##x
#define CTX CRYPT_SHA2_512_Ctx
#define DIG 64
#define W64
static const uint64_t IV[8] = {0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL,
    0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};
#elif defined(D_SHA384)
#include "crypt_sha2.h"
#define P(x) CRYPT_SHA2_384_##x
#define CTX CRYPT_SHA2_384_Ctx
#define DIG 48
#define W64
static const uint64_t IV[8] = {0xcbbb9d5dc1059ed8ULL, 0x629a292a367cd507ULL, 0x9159015a3070dd17ULL, 0x152fecd8f70e5939ULL,
    0x67332667ffc00b31ULL, 0x8eb44a8768581511ULL, 0xdb0c2e0d64f98fa7ULL, 0x47b5481dbefa4fa4ULL};
#elif defined(D_SHA1)
#include "crypt_sha1.h"
#define P(x) CRYPT_SHA1_##x
#define CTX CRYPT_SHA1_Ctx
#define DIG 20
#define NW 5
static const uint32_t IV[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
#elif defined(D_MD5)
#include "crypt_md5.h"
#define P(x) CRYPT_MD5_##x
#define CTX CRYPT_MD5_Ctx
#define DIG 16
#define NW 4
#define LE
static const uint32_t IV[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
#elif defined(D_SM3)
#include "crypt_sm3.h"
#define P(x) CRYPT_SM3_##x
#define CTX CRYPT_SM3_Ctx
#define DIG 32
static const uint32_t IV[8] = {0x7380166F, 0x4914B2B9, 0x172442D7, 0xDA8A0600, 0xA96F30BC, 0x163138AA, 0xE38DEE4D, 0xB0FB0E4E};
#endif
#ifndef NW
#define NW 8
#endif
#ifdef W64
typedef uint64_t W;
#define BLK 128
#define LENB 16
#define WB 8
#else
typedef uint32_t W;
#define BLK 64
#define LENB 8
#define WB 4
#endif

#ifdef REC
/* recording model: checks the padding it is given */
static uint64_t g_hi, g_lo;  /* expected bit length (W64: 128 bits) */
static int g_final;
static uint32_t g_room;      /* bytes of message in the buffer before padding */
static const uint8_t *g_msg;
static uint32_t g_calls;
static void compress(W *h, const uint8_t *p, uint32_t num)
{
    (void)h;
    if (!g_final) {
        return;
    }
    g_calls++;
    V_ASSERT(num == 1, "final blocks one at a time");
    if (g_room + 1 + LENB > BLK && g_calls == 1) {
        return;
    }
    for (uint32_t i = 0; i < LENB; i++) {
#ifdef LE
        uint8_t e = (uint8_t)(g_lo >> (8 * i));
#elif defined(W64)
        uint8_t e = i < 8 ? (uint8_t)(g_hi >> (56 - 8 * i)) : (uint8_t)(g_lo >> (120 - 8 * i));
#else
        uint8_t e = (uint8_t)(g_lo >> (56 - 8 * i));
#endif
        V_ASSERT(p[BLK - LENB + i] == e, "length field is the number of message bits");
    }
#ifndef COUNT
    V_WITNESS("length checked");
#endif
}
#else
static W rol(W x) { return (W)((x << 5) | (x >> (sizeof(W) * 8 - 5))); }
static void compress(W *h, const uint8_t *p, uint32_t num)
{
    for (uint32_t b = 0; b < num; b++) {
        for (uint32_t i = 0; i < 16; i++) {
            W w = 0;
            for (uint32_t j = 0; j < WB; j++) {
                w = (W)((w << 8) | p[b * BLK + i * WB + j]);
            }
            h[i % NW] = rol(h[i % NW]) ^ w;
        }
    }
}
#endif
#if defined(D_SHA256) || defined(D_SHA224)
void SHA256CompressMultiBlocks(uint32_t hash[8], const uint8_t *in, uint32_t num) { compress(hash, in, num); }
#elif defined(W64)
void SHA512CompressMultiBlocks(uint64_t hash[8], const uint8_t *in, uint32_t num) { compress(hash, in, num); }
#elif defined(D_MD5)
void MD5_Compress(uint32_t state[4], const uint8_t *in, uint32_t num) { compress(state, in, num); }
#elif defined(D_SM3)
void SM3_Compress(uint32_t state[8], const uint8_t *in, uint32_t num) { compress(state, in, num); }
#elif defined(D_SHA1)
const uint8_t *SHA1_Step(const uint8_t *input, uint32_t len, uint32_t *h)
{
    compress(h, input, len / BLK);
    return input + len / BLK * BLK;
}
#endif

#ifndef REC
#ifndef CASES
#define CASES {{0, 0, 0}}
#endif
static const uint32_t C[][3] = CASES;
#define NMAX (2 * BLK + 8)
static void oracle(const uint8_t *m, uint32_t n, uint8_t *out)
{
    uint8_t pad[4 * BLK];
    W h[8];
    uint32_t tot = (n + 1 + LENB + BLK - 1) / BLK * BLK;
    memset(pad, 0, sizeof(pad));
    memcpy(pad, m, n);
    pad[n] = 0x80;
    uint64_t bits = (uint64_t)n * 8;
    for (uint32_t i = 0; i < 8; i++) {
#ifdef LE
        pad[tot - 8 + i] = (uint8_t)(bits >> (8 * i));
#else
        pad[tot - 8 + i] = (uint8_t)(bits >> (56 - 8 * i));
#endif
    }
    for (uint32_t i = 0; i < NW; i++) {
        h[i] = IV[i];
    }
    compress(h, pad, tot / BLK);
    for (uint32_t i = 0; i < DIG; i++) {
#ifdef LE
        out[i] = (uint8_t)(h[i / WB] >> (8 * (i % WB)));
#else
        out[i] = (uint8_t)(h[i / WB] >> (8 * (WB - 1 - i % WB)));
#endif
    }
}
static void run(uint32_t a, uint32_t b, uint32_t n)
{
    uint8_t m[NMAX];
    uint8_t m2[NMAX];
    static CTX ctx, copy;
    uint8_t out[DIG + 1], out2[DIG + 1], want[DIG];
    uint32_t len = DIG, len2 = DIG + 1;
    nd_bytes(m, n);
    nd_bytes(&ctx, sizeof(ctx)); /* whatever was computed in this context before */
    V_ASSERT(P(Init)(&ctx) == CRYPT_SUCCESS, "init");
    V_ASSERT(P(Update)(&ctx, m, a) == CRYPT_SUCCESS, "update 1");
#ifdef COPY
    nd_bytes(m2, n);
    memcpy(m2, m, a);
    V_ASSERT(P(CopyCtx)(&copy, &ctx) == CRYPT_SUCCESS, "copy");
#endif
    V_ASSERT(P(Update)(&ctx, m + a, b - a) == CRYPT_SUCCESS, "update 2");
    V_ASSERT(P(Update)(&ctx, m + b, n - b) == CRYPT_SUCCESS, "update 3");
    out[DIG] = 0x5a;
    V_ASSERT(P(Final)(&ctx, out, &len) == CRYPT_SUCCESS, "final");
    V_ASSERT(len == DIG, "digest length");
    oracle(m, n, want);
    V_ASSERT(v_eq(out, want, DIG), "digest of the message");
    V_ASSERT(out[DIG] == 0x5a, "no more than the digest is written");
#ifdef COPY
    V_ASSERT(P(Update)(&copy, m2 + a, n - a) == CRYPT_SUCCESS, "update copy");
    V_ASSERT(P(Final)(&copy, out2, &len2) == CRYPT_SUCCESS, "final copy");
    V_ASSERT(len2 == DIG, "digest length");
    oracle(m2, n, want);
    V_ASSERT(v_eq(out2, want, DIG), "digest of the copy's message");
#else
    (void)copy; (void)out2; (void)len2; (void)m2;
#endif
    V_WITNESS("digest");
    V_CASE_END();
}
void h_stream(void)
{
    uint8_t k = nd8();
    for (uint32_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
        if (k == i) {
            run(C[i][0], C[i][1], C[i][2]);
        }
    }
}
/* a buffer that is too small is refused and left alone, and the digest can still be had */
void h_room(void)
{
    static CTX ctx;
    uint8_t out[DIG];
    uint32_t len = nd32();
    V_ASSUME(len < DIG);
    V_ASSERT(P(Init)(&ctx) == CRYPT_SUCCESS, "init");
    V_ASSERT(P(Final)(&ctx, out + DIG - len, &len) != CRYPT_SUCCESS, "short buffer refused");
    V_WITNESS("refused");
}
#else
static CTX ctx;
#ifdef D_SHA1
#define FILL ctx.count
#elif defined(D_SHA256) || defined(D_SHA224)
#define FILL ctx.blocklen
#else
#define FILL ctx.num
#endif
/* any state a context can be in: counters of any value consistent with the buffered bytes */
static uint64_t lo0, hi0;
static void any_state(uint32_t fill)
{
    P(Init)(&ctx);
    FILL = fill;
    for (uint32_t i = 0; i < NW; i++) {
        ctx.h[i] = (W)nd64();
    }
    lo0 = nd64();
    hi0 = 0;
#ifdef W64
    hi0 = nd64();
    ctx.lNum = lo0;
    ctx.hNum = hi0;
#else
    ctx.lNum = (uint32_t)lo0;
    ctx.hNum = (uint32_t)(lo0 >> 32);
#endif
    V_ASSUME(lo0 % (8 * BLK) == 8 * fill);
}
/* the last block carries the number of bits, for every counter value */
static void fin(uint32_t fill)
{
    uint8_t out[DIG];
    uint32_t len = DIG;
    any_state(fill);
    g_final = 1;
    g_hi = hi0; g_lo = lo0;
    g_room = fill;
    V_ASSERT(P(Final)(&ctx, out, &len) == CRYPT_SUCCESS, "final");
    V_ASSERT(g_calls == (fill + 1 + LENB > BLK ? 2 : 1), "number of padding blocks");
    V_CASE_END();
}
void h_final(void)
{
    uint8_t f = nd8();
    for (uint32_t i = 0; i < BLK; i++) {
        if (f == i) { fin(i); }
    }
}
/* an update adds its length to the bit counter for every counter and every length; one that would pass 2^64 (2^128) is refused */
void h_count(void)
{
    #ifdef VF_CBMC
    static uint8_t dummy[0x100000000ULL];
#else
    uint8_t *dummy = malloc(0x100000000ULL);
#endif
    uint32_t n = nd32();
    V_ASSUME(n >= BLK * 2);       /* the whole input goes to the (recording) compression function */
    n = n / BLK * BLK;
    any_state(0);
    int32_t ret = P(Update)(&ctx, dummy, n);
    uint64_t add = (uint64_t)n * 8;
    uint64_t lo = lo0 + add;
    bool carry = lo < add;
#ifdef W64
    uint64_t hi = hi0 + carry;
    bool over = carry && hi == 0;
    uint64_t chi = ctx.hNum, clo = ctx.lNum;
#else
    uint64_t hi = 0, chi = 0;
    bool over = carry;
    uint64_t clo = ((uint64_t)ctx.hNum << 32) | ctx.lNum;
#endif
    V_ASSERT((ret == CRYPT_SUCCESS) == !over, "refused exactly when the length counter would overflow");
    if (ret == CRYPT_SUCCESS) {
        V_ASSERT(clo == lo && chi == hi, "counter advanced by the number of bits");
        V_WITNESS("advanced");
    } else {
        V_WITNESS("overflow refused");
    }
}
#endif
