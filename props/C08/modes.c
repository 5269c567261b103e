/* Block-cipher modes against their definitions, for any split of the message into calls. */
#include "toy.h"
#include "hitls_build.h"
#include "modes_local.h"
#include "crypt_modes_cfb.h"
#include "crypt_aes.h"
#include "crypt_algid.h"
#define B TOYB
#ifndef ALG
#define ALG 0x7fff  /* an algorithm without its own fast path */
#endif
static ToyKey g_key;
static uint8_t g_iv[B];

#ifdef H_BLOCK
/* stand-ins for the assembly kernels */
int32_t CRYPT_AES_CBC_Encrypt(const CRYPT_AES_Key *ctx, const uint8_t *in, uint8_t *out, uint32_t len, uint8_t *iv)
{
    for (uint32_t o = 0; o + B <= len; o += B) {
        uint8_t t[B];
        for (uint32_t i = 0; i < B; i++) { t[i] = in[o + i] ^ iv[i]; }
        ToyEnc((const ToyKey *)ctx, t, out + o);
        memcpy(iv, out + o, B);
    }
    return CRYPT_SUCCESS;
}
int32_t CRYPT_AES_CBC_Decrypt(const CRYPT_AES_Key *ctx, const uint8_t *in, uint8_t *out, uint32_t len, uint8_t *iv)
{
    for (uint32_t o = 0; o + B <= len; o += B) {
        uint8_t t[B], c[B];
        memcpy(c, in + o, B);
        ToyDec((const ToyKey *)ctx, in + o, t);
        for (uint32_t i = 0; i < B; i++) { out[o + i] = t[i] ^ iv[i]; }
        memcpy(iv, c, B);
    }
    return CRYPT_SUCCESS;
}
int32_t CRYPT_AES_ECB_Encrypt(const CRYPT_AES_Key *ctx, const uint8_t *in, uint8_t *out, uint32_t len)
{ return ToyEncryptBlock((void *)(uintptr_t)ctx, in, out, len); }
int32_t CRYPT_AES_ECB_Decrypt(const CRYPT_AES_Key *ctx, const uint8_t *in, uint8_t *out, uint32_t len)
{ return ToyDecryptBlock((void *)(uintptr_t)ctx, in, out, len); }
/* oracle: pad (message of n bytes in m, room for a block) then CBC/ECB */
static uint32_t Pad(uint8_t *m, uint32_t n)
{
    uint32_t p = B - n % B;
    for (uint32_t i = 0; i < p; i++) {
        m[n + i] = PADT == CRYPT_PADDING_PKCS7 || PADT == CRYPT_PADDING_PKCS5 ? (uint8_t)p :
            PADT == CRYPT_PADDING_ISO7816 ? (i == 0 ? 0x80 : 0) : PADT == CRYPT_PADDING_X923 ? (i == p - 1 ? (uint8_t)p : 0) : 0;
    }
    return n + p;
}
static bool UnpadOk(const uint8_t *m, uint32_t n, uint32_t *len)
{
    const uint8_t *l = m + n - B;
    uint32_t p = l[B - 1];
    if (PADT == CRYPT_PADDING_ISO7816) {
        for (int32_t v_i = B - 1; v_i >= 0; v_i--) {
            if (l[v_i] == 0x80) { *len = n - B + v_i; return true; }
            if (l[v_i] != 0) { return false; }
        }
        return false;
    }
    if (p < 1 || p > B) { return false; }
    for (uint32_t v_i = 0; v_i + 1 < B; v_i++) {
        if (v_i >= B - p && l[v_i] != (PADT == CRYPT_PADDING_X923 ? 0 : p)) { return false; }
    }
    *len = n - p;
    return true;
}
#ifdef CBC
#define UPDATE MODES_CBC_UpdateEx
#define FINAL MODES_CBC_FinalEx
#define CTRL MODES_CBC_Ctrl
#define INIT MODES_CBC_InitCtxEx
#else
#define UPDATE MODES_ECB_UpdateEx
#define FINAL MODES_ECB_FinalEx
#define CTRL MODES_ECB_Ctrl
#define INIT MODES_ECB_InitCtxEx
#endif
static void run(uint32_t n, uint32_t a, uint32_t b)
{
    MODES_CipherCtx c;
    memset(&c, 0, sizeof(c));
    c.algId = ALG;
    c.commonCtx.ciphCtx = &g_key;
    c.commonCtx.ciphMeth = &g_toy;
    c.commonCtx.blockSize = B;
    uint8_t key[B];
    memcpy(key, g_key.k, B);
    bool enc = ENC;
    V_ASSERT(INIT(&c, key, B, g_iv, B, NULL, enc) == CRYPT_SUCCESS, "initialisation succeeds");
    int32_t pad = PADT;
    V_ASSERT(CTRL(&c, CRYPT_CTRL_SET_PADDING, &pad, sizeof(pad)) == CRYPT_SUCCESS, "every padding kind can be set");
    uint8_t m[NMAX + B], want[NMAX + B], out[NMAX + B];
    nd_bytes(m, n);
    uint32_t plen = n, wlen;
    bool ok = true;
    memcpy(want, m, n);
#if ENC
    if (PADT != CRYPT_PADDING_NONE) { plen = Pad(want, n); }
    ok = plen % B == 0;
    plen -= plen % B;
    for (uint32_t o = 0; o < plen; o += B) {
#ifdef CBC
        for (uint32_t i = 0; i < B; i++) { want[o + i] ^= o == 0 ? g_iv[i] : want[o - B + i]; }
#endif
        ToyEnc(&g_key, want + o, want + o);
    }
    wlen = plen;
#else
    plen -= plen % B;
    for (uint32_t o = 0; o < plen; o += B) {
        ToyDec(&g_key, m + o, want + o);
#ifdef CBC
        for (uint32_t i = 0; i < B; i++) { want[o + i] ^= o == 0 ? g_iv[i] : m[o - B + i]; }
#endif
    }
    wlen = n;
    ok = n % B == 0;
    if (ok && PADT != CRYPT_PADDING_NONE && PADT != CRYPT_PADDING_ZEROS) { ok = n > 0 && UnpadOk(want, n, &wlen); }
#endif
    uint32_t cut[4] = { 0, a, b, n }, got = 0;
    for (uint32_t k = 0; k < 3; k++) {
        uint32_t l = cut[k + 1] - cut[k];
        if (l == 0) { continue; }
        uint8_t ib[NMAX], ob[NMAX + B], *in = ib + NMAX - l, *o = ob + NMAX - l; /* ends where the data ends: any overrun is out of bounds */
        memcpy(in, m + cut[k], l);
        uint32_t ol = l + B - 1;
#ifdef INPLACE
        memcpy(o, in, l);
        in = o;
#endif
        V_ASSERT(UPDATE(&c, in, l, o, &ol) == CRYPT_SUCCESS, "an update call succeeds");
        uint32_t upto = cut[k + 1];
        if (!ENC && PADT != CRYPT_PADDING_NONE) { upto--; }
        uint32_t exp = upto / B * B - got;
        V_ASSERT(ol == exp, "an update call returns every complete block, holding back only what may be padding");
        memcpy(out + got, o, exp);
        got += exp;
        
        
    }
    uint8_t o[B];
    uint32_t ol = B;
    int32_t r = FINAL(&c, o, &ol);
#if !ENC
    if (n == 0 && PADT != CRYPT_PADDING_NONE && PADT != CRYPT_PADDING_ZEROS) { return; } /* nothing was given: not specified */
#endif
    V_ASSERT((r == CRYPT_SUCCESS) == ok, "finishing succeeds exactly for whole blocks with correct padding");
    if (r == CRYPT_SUCCESS) {
        V_ASSERT(ol <= B && got + ol == wlen, "the total output has the length the padding gives");
        for (uint32_t v_i = 0; v_i < B; v_i++) { if (v_i < ol) { out[got + v_i] = o[v_i]; } }
        for (uint32_t v_i = 0; v_i < n + B; v_i++) { if (v_i < wlen) { V_ASSERT(out[v_i] == want[v_i], "the output is the mode's definition applied to the whole message, however it was split"); } }
        V_WITNESS("finished");
    }
    

}
void harness(void)
{
    nd_bytes(g_key.k, B);
    nd_bytes(g_iv, B);
    uint32_t n = nd_range(NLO, NHI), a = nd_range(0, NMAX), b = nd_range(0, NMAX);
    V_ASSUME(a <= b && b <= n);
    for (uint32_t kn = NLO; kn <= NHI; kn++) {
#if defined(CUTS) && defined(H_BLOCK)
        static const uint32_t cuts[][2] = CUTS;
        for (uint32_t k = 0; k < sizeof(cuts) / sizeof(cuts[0]); k++) {
            if (n == kn && a == cuts[k][0] && b == cuts[k][1] && cuts[k][1] <= kn) { run(kn, cuts[k][0], cuts[k][1]); V_CASE_END(); }
        }
#else
        /* two update calls reach every state a longer history can reach, the IV being arbitrary */
        for (uint32_t ka = 0; ka <= kn && ka <= B; ka++) {
            if (n == kn && a == ka && b == kn) { run(kn, ka, kn); V_CASE_END(); }
        }
#endif
    }
}
#endif

#ifdef H_STREAM
/* CTR / OFB / CFB: kinds 0 CTR 1 OFB 2 CFB128 3 CFB64 4 CFB8 5 CFB1 */
int32_t CRYPT_AES_CTR_Encrypt(const CRYPT_AES_Key *ctx, const uint8_t *in, uint8_t *out, uint32_t len, uint8_t *iv)
{   /* the assembly kernel counts in the last four bytes of the counter block only */
    for (uint32_t o = 0; o + B <= len; o += B) {
        uint8_t t[B];
        ToyEnc((const ToyKey *)ctx, iv, t);
        for (uint32_t i = 0; i < B; i++) { out[o + i] = in[o + i] ^ t[i]; }
        uint32_t c = ((uint32_t)iv[12] << 24) | ((uint32_t)iv[13] << 16) | ((uint32_t)iv[14] << 8) | iv[15];
        c++;
        iv[12] = (uint8_t)(c >> 24); iv[13] = (uint8_t)(c >> 16); iv[14] = (uint8_t)(c >> 8); iv[15] = (uint8_t)c;
    }
    return CRYPT_SUCCESS;
}
int32_t CRYPT_AES_CFB_Decrypt(const CRYPT_AES_Key *ctx, const uint8_t *in, uint8_t *out, uint32_t len, uint8_t *iv)
{
    for (uint32_t o = 0; o + B <= len; o += B) {
        uint8_t t[B], x[B];
        memcpy(x, in + o, B);
        ToyEnc((const ToyKey *)ctx, iv, t);
        for (uint32_t i = 0; i < B; i++) { out[o + i] = x[i] ^ t[i]; }
        memcpy(iv, x, B);
    }
    return CRYPT_SUCCESS;
}
static void Oracle(const uint8_t *m, uint8_t *w, uint32_t n)
{
    uint8_t s[B], t[B];
    memcpy(s, g_iv, B);
#if KIND == 5
    for (uint32_t i = 0; i < 8 * n; i++) {
        ToyEnc(&g_key, s, t);
        uint8_t inb = (m[i / 8] >> (7 - i % 8)) & 1, ob = inb ^ (t[0] >> 7), cb = ENC ? ob : inb;
        w[i / 8] = (uint8_t)((w[i / 8] & ~(1u << (7 - i % 8))) | (ob << (7 - i % 8)));
        for (uint32_t j = 0; j < B; j++) { s[j] = (uint8_t)((s[j] << 1) | (j + 1 < B ? s[j + 1] >> 7 : cb)); }
    }
#else
    uint32_t fb = KIND == 3 ? 8 : KIND == 4 ? 1 : B;
    for (uint32_t o = 0; o < n; o += fb) {
        uint32_t l = n - o < fb ? n - o : fb;
        ToyEnc(&g_key, s, t);
        for (uint32_t i = 0; i < l; i++) { w[o + i] = m[o + i] ^ t[i]; }
        if (KIND == 0) {
            uint32_t carry = 1;
            for (uint32_t j = B; j > 0; j--) { carry += s[j - 1]; s[j - 1] = (uint8_t)carry; carry >>= 8; }
        } else if (KIND == 1) {
            memcpy(s, t, B);
        } else {
            for (uint32_t j = 0; j + fb < B; j++) { s[j] = s[j + fb]; }
            for (uint32_t i = 0; i < l; i++) { s[B - fb + i] = ENC ? w[o + i] : m[o + i]; }
        }
    }
#endif
}
static void run(uint32_t n, uint32_t a, uint32_t b)
{
    uint8_t m[NMAX], want[NMAX] = { 0 };
    nd_bytes(m, n);
    Oracle(m, want, n);
    uint8_t key[B];
    memcpy(key, g_key.k, B);
#if KIND < 2
    MODES_CipherCtx c;
    memset(&c, 0, sizeof(c));
    c.commonCtx.ciphCtx = &g_key; c.commonCtx.ciphMeth = &g_toy; c.commonCtx.blockSize = B;
#else
    MODES_CFB_Ctx c;
    memset(&c, 0, sizeof(c));
    c.cfbCtx.modeCtx.ciphCtx = &g_key; c.cfbCtx.modeCtx.ciphMeth = &g_toy; c.cfbCtx.modeCtx.blockSize = B;
    c.cfbCtx.feedbackBits = 128;
#endif
    c.algId = ALG;
#if KIND == 0
#define SINIT MODES_CTR_InitCtxEx
#define SUPD MODES_CTR_UpdateEx
#elif KIND == 1
#define SINIT MODES_OFB_InitCtxEx
#define SUPD MODES_OFB_UpdateEx
#else
#define SINIT MODES_CFB_InitCtxEx
#define SUPD MODES_CFB_UpdateEx
#endif
    V_ASSERT(SINIT(&c, key, B, g_iv, B, NULL, ENC) == CRYPT_SUCCESS, "initialisation succeeds");
#if KIND >= 2
    uint32_t fb = KIND == 2 ? 128 : KIND == 3 ? 64 : KIND == 4 ? 8 : 1;
    V_ASSERT(MODES_CFB_Ctrl(&c, CRYPT_CTRL_SET_FEEDBACKSIZE, &fb, sizeof(fb)) == CRYPT_SUCCESS, "every feedback size can be set");
#endif
    uint32_t cut[4] = { 0, a, b, n };
    for (uint32_t k = 0; k < 3; k++) {
        uint32_t l = cut[k + 1] - cut[k];
        if (l == 0) { continue; }
        uint8_t ib[NMAX], ob[NMAX], *in = ib + NMAX - l, *o = ob + NMAX - l; /* ends where the data ends: any overrun is out of bounds */
        memcpy(in, m + cut[k], l);
        memset(o, 0, l);
        uint32_t ol = l;
#ifdef INPLACE
        memcpy(o, in, l);
        V_ASSERT(SUPD(&c, o, l, o, &ol) == CRYPT_SUCCESS && ol == l, "as many bytes come out as go in");
#else
        V_ASSERT(SUPD(&c, in, l, o, &ol) == CRYPT_SUCCESS && ol == l, "as many bytes come out as go in");
#endif
        for (uint32_t i = 0; i < l; i++) { V_ASSERT(o[i] == want[cut[k] + i], "the output is the mode's definition applied to the whole message, however it was split"); }
        
        
    }
    V_WITNESS("stream");
}
void harness(void)
{
    nd_bytes(g_key.k, B);
    nd_bytes(g_iv, B);
#ifdef IVLO /* the last four bytes of the counter block are fixed per harness */
    g_iv[12] = (uint8_t)(IVLO >> 24); g_iv[13] = (uint8_t)(IVLO >> 16); g_iv[14] = (uint8_t)(IVLO >> 8); g_iv[15] = (uint8_t)(IVLO);
#endif
    static const uint32_t cuts[][3] = CUTS;
    uint32_t n = nd32();
    for (uint32_t k = 0; k < sizeof(cuts) / sizeof(cuts[0]); k++) {
        if (n == k) { run(cuts[k][2], cuts[k][0], cuts[k][1]); V_CASE_END(); }
    }
}
#endif
