/* C10: BLAKE2s: streaming with a modelled compression function; the compression function against RFC 7693. */
#include "v.h"
#include "crypt_errno.h"
#include "crypt_blake2.h"
void BLAKE2S_Compress(uint32_t h[8], const uint8_t block[64], uint64_t counter, uint32_t flag);
static const uint32_t IV[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
static uint32_t rr(uint32_t x, uint32_t n) { return (x >> n) | (x << (32 - n)); }
static uint32_t ld(const uint8_t *p) { return (uint32_t)p[0] | ((uint32_t)p[1] << 8) | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24); }
void ToyBlake(uint32_t h[8], const uint8_t block[64], uint64_t counter, uint32_t flag)
{
    for (uint32_t i = 0; i < 16; i++) {
        h[i % 8] = rr(h[i % 8], 5) ^ ld(block + 4 * i);
    }
    h[0] ^= (uint32_t)counter;
    h[1] ^= (uint32_t)(counter >> 32);
    h[2] ^= flag;
}
#ifdef H_STREAM
static const uint32_t C[][3] = CASES;
static void oracle(const uint8_t *m, uint32_t n, uint8_t *out)
{
    uint8_t pad[256];
    uint32_t h[8];
    memset(pad, 0, sizeof(pad));
    memcpy(pad, m, n);
    for (uint32_t i = 0; i < 8; i++) { h[i] = IV[i]; }
    h[0] ^= 0x01010000u ^ 32u;
    uint32_t o = 0;
    for (; n - o > 64; o += 64) {
        ToyBlake(h, pad + o, o + 64, 0);
    }
    ToyBlake(h, pad + o, n, 0xffffffffu);
    for (uint32_t i = 0; i < 32; i++) { out[i] = (uint8_t)(h[i / 4] >> (8 * (i % 4))); }
}
static void run(uint32_t a, uint32_t b, uint32_t n)
{
    static CRYPT_BLAKE2S_Ctx ctx;
    uint8_t m[200], out[33], want[32];
    uint32_t len = 32;
    nd_bytes(m, n);
    nd_bytes(&ctx, sizeof(ctx));
    V_ASSERT(CRYPT_BLAKE2S256_InitEx(&ctx, NULL) == CRYPT_SUCCESS, "init");
    V_ASSERT(CRYPT_BLAKE2S_Update(&ctx, m, a) == CRYPT_SUCCESS, "update 1");
    V_ASSERT(CRYPT_BLAKE2S_Update(&ctx, m + a, b - a) == CRYPT_SUCCESS, "update 2");
    V_ASSERT(CRYPT_BLAKE2S_Update(&ctx, m + b, n - b) == CRYPT_SUCCESS, "update 3");
    out[32] = 0x5a;
    V_ASSERT(CRYPT_BLAKE2S_Final(&ctx, out, &len) == CRYPT_SUCCESS, "final");
    V_ASSERT(len == 32, "digest length");
    oracle(m, n, want);
    V_ASSERT(v_eq(out, want, 32), "digest of the message");
    V_ASSERT(out[32] == 0x5a, "no more than the digest is written");
    V_WITNESS("digest");
    V_CASE_END();
}
void h_stream(void)
{
    uint8_t k = nd8();
    for (uint32_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
        if (k == i) { run(C[i][0], C[i][1], C[i][2]); }
    }
}
void h_room(void)
{
    static CRYPT_BLAKE2S_Ctx ctx;
    uint8_t out[32];
    uint32_t len = nd32();
    V_ASSUME(len < 32);
    V_ASSERT(CRYPT_BLAKE2S256_InitEx(&ctx, NULL) == CRYPT_SUCCESS, "init");
    V_ASSERT(CRYPT_BLAKE2S_Final(&ctx, out + 32 - len, &len) != CRYPT_SUCCESS, "short buffer refused");
    V_WITNESS("refused");
}
#else
static void G(uint32_t *v, uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint32_t x, uint32_t y)
{
    v[a] = v[a] + v[b] + x; v[d] = rr(v[d] ^ v[a], 16);
    v[c] = v[c] + v[d];     v[b] = rr(v[b] ^ v[c], 12);
    v[a] = v[a] + v[b] + y; v[d] = rr(v[d] ^ v[a], 8);
    v[c] = v[c] + v[d];     v[b] = rr(v[b] ^ v[c], 7);
}
static const uint8_t S[10][17] = {"0123456789abcdef", "ea489fd61c02b753", "b8c052fdae367194", "7931dcbe265a40f8", "905724afe1bc683d",
    "2c6a0b834d75fe19", "c51fed4a0763928b", "db7ec13950f4862a", "6fe9b308c2d714a5", "a2847615fb9e3cd0"};
static uint32_t hx(uint8_t c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
void h_compress(void)
{
    uint32_t h[8], g[8], v[16], m[16];
    uint8_t b[64];
    uint64_t t = nd64();
    uint32_t f = ndbool() ? 0xffffffffu : 0;
    nd_bytes(b, 64);
    for (uint32_t i = 0; i < 8; i++) { h[i] = nd32(); g[i] = h[i]; }
    BLAKE2S_Compress(h, b, t, f);
    for (uint32_t i = 0; i < 16; i++) { m[i] = ld(b + 4 * i); v[i] = i < 8 ? g[i] : IV[i - 8]; }
    v[12] ^= (uint32_t)t; v[13] ^= (uint32_t)(t >> 32); v[14] ^= f;
    for (uint32_t r = 0; r < 10; r++) {
        for (uint32_t i = 0; i < 8; i++) {
            uint32_t x = m[hx(S[r][2 * i])], y = m[hx(S[r][2 * i + 1])];
            if (i < 4) { G(v, i, 4 + i, 8 + i, 12 + i, x, y); }
            else { G(v, i - 4, 4 + (i - 3) % 4, 8 + (i - 2) % 4, 12 + (i - 1) % 4, x, y); }
        }
    }
    for (uint32_t i = 0; i < 8; i++) {
        V_ASSERT(h[i] == (g[i] ^ v[i] ^ v[i + 8]), "compressed state");
    }
    V_WITNESS("compressed");
}
#endif
