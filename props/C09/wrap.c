/* AES key wrap (RFC 3394, RFC 5649). */
#define TOYB 16
#include "toy.h"
#include "hitls_build.h"
#include "modes_local.h"
#include "crypt_modes_aes_wrap.h"
static ToyKey g_key;
static uint8_t g_iv[8];
static MODES_WRAP_Ctx g_c;
static void setup(bool enc)
{
    memset(&g_c, 0, sizeof(g_c));
    g_c.wrapCtx.ciphCtx = &g_key;
    g_c.wrapCtx.ciphMeth = &g_toy;
    g_c.wrapCtx.flagPad = PAD;
    g_c.wrapCtx.blockSize = 8;
    uint8_t key[16];
    memcpy(key, g_key.k, 16);
#ifdef OWNIV
    nd_bytes(g_iv, 8);
    V_ASSERT(MODES_WRAP_InitCtx(&g_c, key, 16, g_iv, PAD ? 4 : 8, NULL, enc) == CRYPT_SUCCESS, "initialisation succeeds");
#else
    if (PAD) { g_iv[0] = 0xa6; g_iv[1] = 0x59; g_iv[2] = 0x59; g_iv[3] = 0xa6; } else { memset(g_iv, 0xa6, 8); }
    V_ASSERT(MODES_WRAP_InitCtx(&g_c, key, 16, NULL, 0, NULL, enc) == CRYPT_SUCCESS, "initialisation succeeds");
#endif
}
static void xorT(uint8_t *a, uint32_t t) { a[7] ^= (uint8_t)t; a[6] ^= (uint8_t)(t >> 8); a[5] ^= (uint8_t)(t >> 16); a[4] ^= (uint8_t)(t >> 24); }
/* W over n semiblocks in r, initial value a: the wrapped string in out */
static void W(const uint8_t *a0, const uint8_t *r0, uint32_t n, uint8_t *out)
{
    uint8_t b[16];
    memcpy(b, a0, 8);
    for (uint32_t i = 0; i < n * 8; i++) { out[8 + i] = r0[i]; }
    for (uint32_t j = 0; j < 6; j++) {
        for (uint32_t i = 0; i < n; i++) {
            for (uint32_t x = 0; x < 8; x++) { b[8 + x] = out[8 + 8 * i + x]; }
            ToyEnc(&g_key, b, b);
            xorT(b, n * j + i + 1);
            for (uint32_t x = 0; x < 8; x++) { out[8 + 8 * i + x] = b[8 + x]; }
        }
    }
    for (uint32_t x = 0; x < 8; x++) { out[x] = b[x]; }
}
/* unwrap: initial value to a, semiblocks to r */
static void U(const uint8_t *in, uint32_t n, uint8_t *a, uint8_t *r)
{
    uint8_t b[16];
    for (uint32_t x = 0; x < 8; x++) { b[x] = in[x]; }
    for (uint32_t i = 0; i < n * 8; i++) { r[i] = in[8 + i]; }
    for (uint32_t j = 6; j-- > 0;) {
        for (uint32_t i = n; i-- > 0;) {
            xorT(b, n * j + i + 1);
            for (uint32_t x = 0; x < 8; x++) { b[8 + x] = r[8 * i + x]; }
            ToyDec(&g_key, b, b);
            for (uint32_t x = 0; x < 8; x++) { r[8 * i + x] = b[8 + x]; }
        }
    }
    for (uint32_t x = 0; x < 8; x++) { a[x] = b[x]; }
}
static void wrapLen(uint32_t n)
{
    uint8_t in[MAXN], outBuf[MAXN + 16], want[MAXN + 16], pad[MAXN + 8], a[8];
    uint32_t padded = PAD ? (n + 7) / 8 * 8 : n;
    uint8_t *p = in + MAXN - n, *out = outBuf + MAXN + 16 - (padded + 8);
    setup(true);
    nd_bytes(p, n);
    uint32_t ol = padded + 8;
    for (uint32_t i = 0; i < padded; i++) { pad[i] = i < n ? p[i] : 0; }
    memcpy(a, g_iv, 8);
    if (PAD) { a[4] = a[5] = a[6] = 0; a[7] = (uint8_t)n; }
    if (PAD && padded == 8) {
        uint8_t b[16];
        memcpy(b, a, 8); memcpy(b + 8, pad, 8);
        ToyEnc(&g_key, b, want);
    } else {
        W(a, pad, padded / 8, want);
    }
#ifdef SHORT
    ol -= SHORT;
    V_ASSERT(MODES_WRAP_Update(&g_c, p, n, out, &ol) != CRYPT_SUCCESS, "an output buffer too small is refused");
    V_WITNESS("refused");
    V_CASE_END();
#else
    int32_t r = MODES_WRAP_Update(&g_c, p, n, out, &ol);
    bool ok = PAD ? n >= 1 : n >= 16 && n % 8 == 0;
    V_ASSERT((r == CRYPT_SUCCESS) == ok, "wraps 16 or more bytes in multiples of 8, or any length with padding");
    if (ok) {
        V_ASSERT(ol == padded + 8, "wrapped length");
        for (uint32_t i = 0; i < padded + 8; i++) { V_ASSERT(out[i] == want[i], "wrapped key is the standard's"); }
        V_WITNESS("wrapped");
    }
    V_CASE_END();
#endif
}
static void unwrapLen(uint32_t n)
{
    uint8_t in[MAXN + 8], outBuf[MAXN + 8], r[MAXN + 8], a[8];
    uint8_t *c = in + MAXN + 8 - n;
    setup(false);
    nd_bytes(c, n);
    if (n < 16 || n % 8 != 0) {
        uint32_t ol = n;
        V_ASSERT(MODES_WRAP_Update(&g_c, c, n, outBuf, &ol) != CRYPT_SUCCESS, "not a wrapped length");
        V_WITNESS("bad length");
        V_CASE_END();
        return;
    }
    uint32_t m = n - 8, ol = m;
    uint8_t *out = outBuf + MAXN + 8 - m;
#ifdef SHORT
    ol -= SHORT;
    V_ASSERT(MODES_WRAP_Update(&g_c, c, n, out, &ol) != CRYPT_SUCCESS, "an output buffer too small is refused by unwrap");
    V_WITNESS("refused");
    V_CASE_END();
#else
    if (PAD && n == 16) { uint8_t b[16]; ToyDec(&g_key, c, b); memcpy(a, b, 8); memcpy(r, b + 8, 8); } else { U(c, m / 8, a, r); }
    bool ok = true;
    uint32_t want = m;
    if (PAD) {
        want = (uint32_t)a[4] << 24 | (uint32_t)a[5] << 16 | (uint32_t)a[6] << 8 | a[7];
        ok = a[0] == g_iv[0] && a[1] == g_iv[1] && a[2] == g_iv[2] && a[3] == g_iv[3] && want <= m && want + 8 > m;
        for (uint32_t i = m - 8; ok && i < m; i++) { if (i >= want && r[i] != 0) { ok = false; } }
    } else {
        for (uint32_t i = 0; i < 8; i++) { ok = ok && a[i] == g_iv[i]; }
    }
    int32_t ret = MODES_WRAP_Update(&g_c, c, n, out, &ol);
    V_ASSERT((ret == CRYPT_SUCCESS) == ok, "unwraps exactly what wrapping produces");
    if (ok) {
        V_ASSERT(ol == want, "unwrapped length");
        for (uint32_t i = 0; i < m; i++) { if (i < want) { V_ASSERT(out[i] == r[i], "unwrapped key is the standard's"); } }
        V_WITNESS("unwrapped");
    } else {
        for (uint32_t i = 0; i < m; i++) { V_ASSERT(out[i] == 0, "a failed unwrap leaves no key bytes"); }
        V_WITNESS("tampered");
    }
    V_CASE_END();
#endif
}
void h_wrap(void) { nd_bytes(g_key.k, 16); uint32_t n = nd_range(NLO, NHI); V_SPLIT(n, NLO, NHI, wrapLen); }
void h_unwrap(void) { nd_bytes(g_key.k, 16); uint32_t n = nd_range(NLO, NHI); V_SPLIT(n, NLO, NHI, unwrapLen); }
