/* CCM, GCM and ChaCha20-Poly1305 against their definitions, for any split of the message into calls. */
#include "toy.h"
#include "hitls_build.h"
#include "modes_local.h"
#include "asm_aes_ccm.h"
#include "asm_aes_gcm.h"
#include "crypt_modes_ccm.h"
#include "crypt_modes_gcm.h"
#include "crypt_modes_chacha20poly1305.h"
#include "poly1305_core.h"
#include "crypt_chacha20.h"
#include "crypt_algid.h"
#ifndef ALG
#define ALG 0x7fff
#endif
static uint8_t g_rawkey[32], g_rawiv[20];
static void inc(uint8_t *p, uint32_t n) { for (uint32_t v_i = n; v_i-- > 0;) { if (++p[v_i] != 0) { break; } } }
typedef struct { uint32_t a, s1, s2, n, iv, tag; } Case;

#ifdef M_CCM
typedef MODES_CCM_Ctx Ctx;
#define INIT(c, k, kl, iv, il, e) MODES_CCM_InitCtx(c, k, kl, iv, il, NULL, e)
#define CTRL MODES_CCM_Ctrl
#define UPDATE MODES_CCM_UpdateEx
#define FINAL MODES_CCM_Final
#define KEYLEN 16
/* stand-ins for the assembly kernels: whole blocks only */
static void ccmBlocks(void *key, uint8_t *nonce, const uint8_t *in, uint8_t *out, uint32_t len, bool enc)
{
    MODES_CipherCCMCtx *c = (MODES_CipherCCMCtx *)(nonce - offsetof(MODES_CipherCCMCtx, nonce));
    uint32_t cl = (nonce[0] & 7) + 1;
    for (uint32_t v_o = 0; v_o + 16 <= len; v_o += 16) {
        uint8_t s[16], p;
        ToyEnc(key, nonce, s);
        for (uint32_t v_i = 0; v_i < 16; v_i++) { p = in[v_o + v_i]; out[v_o + v_i] = p ^ s[v_i]; c->tag[v_i] ^= enc ? p : p ^ s[v_i]; }
        ToyEnc(key, c->tag, c->tag);
        inc(nonce + 16 - cl, cl);
    }
}
void AesCcmEncryptAsm(void *key, uint8_t *nonce, const uint8_t *in, uint8_t *out, uint32_t len) { ccmBlocks(key, nonce, in, out, len, true); }
void AesCcmDecryptAsm(void *key, uint8_t *nonce, const uint8_t *in, uint8_t *out, uint32_t len) { ccmBlocks(key, nonce, in, out, len, false); }
static ToyKey g_key;
#define CIPH(c) (c)->ccmCtx.ciphCtx = &g_key; (c)->ccmCtx.ciphMeth = &g_toy
/* RFC 3610 */
static void oracle(const Case *k, const uint8_t *aad, const uint8_t *p, uint8_t *ct, uint8_t *tag)
{
    ToyKey key; memcpy(key.k, g_rawkey, 16);
    uint32_t L = 15 - k->iv;
    uint8_t x[16], b[16], s[16];
    memset(b, 0, 16);
    b[0] = (k->a > 0 ? 64 : 0) + 8 * ((k->tag - 2) / 2) + (L - 1);
    memcpy(b + 1, g_rawiv, k->iv);
    b[15] = (uint8_t)k->n; b[14] = (uint8_t)(k->n >> 8);
    ToyEnc(&key, b, x);
    if (k->a > 0) {
        uint8_t hdr[6] = { (uint8_t)(k->a >> 8), (uint8_t)k->a };
        uint32_t h = 2;
        if (k->a >= 0xff00) { h = 6; hdr[0] = 0xff; hdr[1] = 0xfe; hdr[2] = (uint8_t)(k->a >> 24); hdr[3] = (uint8_t)(k->a >> 16); hdr[4] = (uint8_t)(k->a >> 8); hdr[5] = (uint8_t)k->a; }
        for (uint32_t i = 0; i < h + k->a; i++) {
            x[i % 16] ^= i < h ? hdr[i] : aad[i - h];
            if (i % 16 == 15 || i == h + k->a - 1) { ToyEnc(&key, x, x); }
        }
    }
    for (uint32_t i = 0; i < k->n; i++) {
        x[i % 16] ^= p[i];
        if (i % 16 == 15 || i == k->n - 1) { ToyEnc(&key, x, x); }
    }
    memset(b, 0, 16);
    b[0] = (uint8_t)(L - 1);
    memcpy(b + 1, g_rawiv, k->iv);
    ToyEnc(&key, b, s);
    for (uint32_t i = 0; i < k->tag; i++) { tag[i] = x[i] ^ s[i]; }
    for (uint32_t i = 0; i < k->n; i++) {
        if (i % 16 == 0) { b[15] = (uint8_t)(i / 16 + 1); b[14] = (uint8_t)((i / 16 + 1) >> 8); ToyEnc(&key, b, s); }
        ct[i] = p[i] ^ s[i % 16];
    }
}
#endif
#ifdef M_GCM
typedef MODES_GCM_Ctx Ctx;
#define INIT(c, k, kl, iv, il, e) MODES_GCM_InitCtxEx(c, k, kl, iv, il, NULL, e)
#define CTRL MODES_GCM_Ctrl
#define UPDATE MODES_GCM_UpdateEx
#define FINAL MODES_GCM_Final
#define KEYLEN 16
static ToyKey g_key;
#define CIPH(c) (c)->gcmCtx.ciphCtx = &g_key; (c)->gcmCtx.ciphMeth = &g_toy
/* stand-in for GHASH: linear, position, order and key dependent */
static void absorb(uint8_t t[16], const uint8_t h[16], const uint8_t *in)
{
    uint8_t u[16];
    for (uint32_t v_i = 0; v_i < 16; v_i++) { uint8_t s = t[(v_i + 3) % 16] ^ in[(v_i + 3) % 16]; u[v_i] = (uint8_t)((s << 1) | (s >> 7)) ^ h[v_i]; }
    for (uint32_t v_i = 0; v_i < 16; v_i++) { t[v_i] = u[v_i]; }
}
void GcmTableGen4bit(uint8_t key[16], MODES_GCM_GF128 hTable[16]) { memcpy(hTable, key, 16); }
void GcmHashMultiBlock(uint8_t t[16], const MODES_GCM_GF128 hTable[16], const uint8_t *in, uint32_t len)
{
    uint8_t h[16];
    memcpy(h, hTable, 16);
    V_ASSERT(len % 16 == 0, "GHASH is given whole blocks");
    for (uint32_t v_o = 0; v_o + 16 <= len; v_o += 16) { absorb(t, h, in + v_o); }
}
static uint32_t gcmBlocks(MODES_CipherGCMCtx *c, const uint8_t *in, uint8_t *out, uint32_t len, uint32_t unit, void *key, bool enc)
{
    uint8_t h[16];
    uint32_t v_o = 0;
    memcpy(h, c->hTable, 16);
    for (; v_o + unit <= len; v_o += unit) {
        for (uint32_t v_b = v_o; v_b < v_o + unit; v_b += 16) {
            uint8_t s[16], ct[16], d[16];
            ToyEnc(key, c->iv, s);
            for (uint32_t v_i = 0; v_i < 16; v_i++) { d[v_i] = in[v_b + v_i]; out[v_b + v_i] = d[v_i] ^ s[v_i]; ct[v_i] = enc ? d[v_i] ^ s[v_i] : d[v_i]; }
            absorb(c->ghash, h, ct);
            inc(c->iv + 12, 4);
        }
    }
    return v_o;
}
#ifndef UNIT
#define UNIT 64
#endif
uint32_t AES_GCM_EncryptBlockAsm(MODES_CipherGCMCtx *c, const uint8_t *in, uint8_t *out, uint32_t len, void *key) { return gcmBlocks(c, in, out, len, UNIT, key, true); }
uint32_t AES_GCM_DecryptBlockAsm(MODES_CipherGCMCtx *c, const uint8_t *in, uint8_t *out, uint32_t len, void *key) { return gcmBlocks(c, in, out, len, UNIT, key, false); }
void AES_GCM_Encrypt16BlockAsm(MODES_CipherGCMCtx *c, const uint8_t *in, uint8_t *out, uint32_t len, void *key) { gcmBlocks(c, in, out, len, 16, key, true); }
void AES_GCM_Decrypt16BlockAsm(MODES_CipherGCMCtx *c, const uint8_t *in, uint8_t *out, uint32_t len, void *key) { gcmBlocks(c, in, out, len, 16, key, false); }
void AES_GCM_ClearAsm(void) {}
#ifndef IVLO
#define IVLO 0
#endif
/* NIST SP 800-38D */
static void oracle(const Case *k, const uint8_t *aad, const uint8_t *p, uint8_t *ct, uint8_t *tag)
{
    ToyKey key; memcpy(key.k, g_rawkey, 16);
    uint8_t h[16], j0[16], s[16], t[16], b[16], e0[16];
    memset(b, 0, 16);
    ToyEnc(&key, b, h);
    if (k->iv == 12) {
        memcpy(j0, g_rawiv, 12);
        j0[12] = j0[13] = j0[14] = 0; j0[15] = 1;
    } else {
        memset(j0, 0, 16);
        for (uint32_t i = 0; i < k->iv; i += 16) {
            for (uint32_t j = 0; j < 16; j++) { b[j] = i + j < k->iv ? g_rawiv[i + j] : 0; }
            absorb(j0, h, b);
        }
        memset(b, 0, 16);
        b[15] = (uint8_t)(k->iv * 8); b[14] = (uint8_t)(k->iv * 8 >> 8);
        absorb(j0, h, b);
    }
    ToyEnc(&key, j0, e0);
    for (uint32_t i = 0; i < k->n; i++) {
        if (i % 16 == 0) { inc(j0 + 12, 4); ToyEnc(&key, j0, s); }
        ct[i] = p[i] ^ s[i % 16];
    }
    memset(t, 0, 16);
    for (uint32_t i = 0; i < k->a; i += 16) {
        for (uint32_t j = 0; j < 16; j++) { b[j] = i + j < k->a ? aad[i + j] : 0; }
        absorb(t, h, b);
    }
    for (uint32_t i = 0; i < k->n; i += 16) {
        for (uint32_t j = 0; j < 16; j++) { b[j] = i + j < k->n ? ct[i + j] : 0; }
        absorb(t, h, b);
    }
    memset(b, 0, 16);
    b[7] = (uint8_t)(k->a * 8); b[6] = (uint8_t)(k->a * 8 >> 8);
    b[15] = (uint8_t)(k->n * 8); b[14] = (uint8_t)(k->n * 8 >> 8);
    absorb(t, h, b);
    for (uint32_t i = 0; i < k->tag; i++) { tag[i] = t[i] ^ e0[i]; }
}
#endif
#ifdef M_CHACHA
typedef MODES_CHACHAPOLY_Ctx Ctx;
#define INIT(c, k, kl, iv, il, e) MODES_CHACHA20POLY1305_InitCtx(c, k, kl, iv, il, NULL, e)
#define CTRL MODES_CHACHA20POLY1305_Ctrl
#define UPDATE MODES_CHACHA20POLY1305_Update
#define FINAL MODES_CHACHA20POLY1305_Final
#define KEYLEN 32
static CRYPT_CHACHA20_Ctx g_key;
static void chachaClean(void *c) { CRYPT_CHACHA20_Clean(c); }
static int32_t chachaKey(void *c, const uint8_t *k, uint32_t l) { return CRYPT_CHACHA20_SetKey(c, k, l); }
static int32_t chachaUpdate(void *c, const uint8_t *in, uint8_t *out, uint32_t l) { return CRYPT_CHACHA20_Update(c, in, out, l); }
static int32_t chachaCtrl(void *c, int32_t o, void *v, uint32_t l) { return CRYPT_CHACHA20_Ctrl(c, o, v, l); }
static const EAL_SymMethod g_chacha = { chachaKey, chachaKey, chachaUpdate, chachaUpdate, chachaClean, chachaCtrl, 1, sizeof(CRYPT_CHACHA20_Ctx), 0 };
#define CIPH(c) (c)->chachaCtx.key = &g_key; (c)->chachaCtx.method = &g_chacha
/* stand-in for the block function (xor of rotated state words) */
static void toyBlock(const uint32_t st[16], uint8_t out[64])
{
    for (uint32_t v_i = 0; v_i < 16; v_i++) {
        uint32_t c = st[12], w = st[v_i] ^ (st[(v_i + 7) % 16] << 9 | st[(v_i + 7) % 16] >> 23) ^ (c << (v_i + 1) | c >> (31 - v_i));
        for (uint32_t v_j = 0; v_j < 4; v_j++) { out[4 * v_i + v_j] = (uint8_t)(w >> (8 * v_j)); }
    }
}
void ToyChachaBlock(CRYPT_CHACHA20_Ctx *c) { toyBlock(c->state, c->last.u); c->state[12]++; }
void CHACHA20_Update(CRYPT_CHACHA20_Ctx *c, const uint8_t *in, uint8_t *out, uint32_t len)
{
    V_ASSERT(len % 64 == 0, "the bulk kernel is given whole blocks");
    for (uint32_t v_o = 0; v_o + 64 <= len; v_o += 64) {
        uint8_t s[64];
        toyBlock(c->state, s);
        for (uint32_t v_i = 0; v_i < 64; v_i++) { out[v_o + v_i] = in[v_o + v_i] ^ s[v_i]; }
        c->state[12]++;
    }
}
/* stand-in for the Poly1305 field arithmetic */
static void polyAbsorb(uint32_t acc[6], const uint32_t r[4], const uint8_t *d, uint32_t pad)
{
    uint32_t w[4];
    for (uint32_t v_i = 0; v_i < 4; v_i++) { w[v_i] = d[4 * v_i] | (uint32_t)d[4 * v_i + 1] << 8 | (uint32_t)d[4 * v_i + 2] << 16 | (uint32_t)d[4 * v_i + 3] << 24; }
    uint32_t a0 = acc[0] ^ w[0], a1 = acc[1] ^ w[1], a2 = acc[2] ^ w[2], a3 = acc[3] ^ w[3];
    acc[0] = (a1 << 5 | a1 >> 27) ^ r[0];
    acc[1] = (a2 << 5 | a2 >> 27) ^ r[1];
    acc[2] = (a3 << 5 | a3 >> 27) ^ r[2];
    acc[3] = (a0 << 5 | a0 >> 27) ^ r[3] ^ pad;
}
void Poly1305InitForAsm(Poly1305Ctx *c) { (void)c; }
uint32_t Poly1305Block(Poly1305Ctx *c, const uint8_t *data, uint32_t len, uint32_t pad)
{
    for (uint32_t v_o = 0; v_o + 16 <= len; v_o += 16) { polyAbsorb(c->acc, c->r, data + v_o, pad); }
    return len % 16;
}
static void putLe(uint8_t *p, uint32_t w) { for (uint32_t v_j = 0; v_j < 4; v_j++) { p[v_j] = (uint8_t)(w >> (8 * v_j)); } }
void Poly1305Last(Poly1305Ctx *c, uint8_t mac[16]) { for (uint32_t v_i = 0; v_i < 4; v_i++) { putLe(mac + 4 * v_i, c->acc[v_i] ^ c->s[v_i]); } }
void Poly1305CleanRegister(void) {}
static uint32_t getLe(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
/* RFC 8439 */
static void oracle(const Case *k, const uint8_t *aad, const uint8_t *p, uint8_t *ct, uint8_t *tag)
{
    uint32_t st[16] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 };
    uint8_t n12[12] = { 0 }, s[64], b[16], mac[16];
    memcpy(n12 + 12 - k->iv, g_rawiv, k->iv);
    for (uint32_t i = 0; i < 8; i++) { st[4 + i] = getLe(g_rawkey + 4 * i); }
    for (uint32_t i = 0; i < 3; i++) { st[13 + i] = getLe(n12 + 4 * i); }
    toyBlock(st, s);
    uint32_t r[4] = { getLe(s) & 0x0fffffff, getLe(s + 4) & 0x0ffffffc, getLe(s + 8) & 0x0ffffffc, getLe(s + 12) & 0x0ffffffc };
    uint32_t pad[4] = { getLe(s + 16), getLe(s + 20), getLe(s + 24), getLe(s + 28) };
    for (uint32_t i = 0; i < k->n; i++) {
        if (i % 64 == 0) { st[12]++; toyBlock(st, s); }
        ct[i] = p[i] ^ s[i % 64];
    }
    uint32_t acc[6] = { 0 };
    for (uint32_t i = 0; i < k->a; i += 16) {
        for (uint32_t j = 0; j < 16; j++) { b[j] = i + j < k->a ? aad[i + j] : 0; }
        polyAbsorb(acc, r, b, 1);
    }
    for (uint32_t i = 0; i < k->n; i += 16) {
        for (uint32_t j = 0; j < 16; j++) { b[j] = i + j < k->n ? ct[i + j] : 0; }
        polyAbsorb(acc, r, b, 1);
    }
    memset(b, 0, 16);
    b[0] = (uint8_t)k->a; b[1] = (uint8_t)(k->a >> 8);
    b[8] = (uint8_t)k->n; b[9] = (uint8_t)(k->n >> 8);
    polyAbsorb(acc, r, b, 1);
    for (uint32_t i = 0; i < 4; i++) { putLe(mac + 4 * i, acc[i] ^ pad[i]); }
    memcpy(tag, mac, 16);
}
#endif

#ifndef NMAX
#define NMAX 40
#endif
#ifndef AMAX
#define AMAX 40
#endif
static Ctx g_c;
static void run(Case k)
{
    Ctx *c = &g_c;
    uint8_t aadBuf[AMAX], in[NMAX], outBuf[NMAX + 4], pt[NMAX], ct[NMAX], tag[16], got[16], want;
    uint8_t *aad = aadBuf + AMAX - k.a, *m = in + NMAX - k.n, *out = outBuf + NMAX - k.n;
    bool enc = ENC;
#if defined(M_GCM) && IVLO
    g_rawiv[12] = (uint8_t)(IVLO >> 24);
#endif
#ifdef AADLONG
    /* a long header: symbolic at both ends only */
    for (uint32_t i = 0; i < k.a; i++) { aad[i] = 0; }
    nd_bytes(aad, 16); nd_bytes(aad + k.a - 16, 16);
#else
    nd_bytes(aad, k.a);
#endif
    nd_bytes(m, k.n);
    memset(c, 0, sizeof(*c));
    memset(&g_key, 0, sizeof(g_key));
    c->algId = ALG;
    CIPH(c);
#ifdef SECOND
    /* an earlier message under another nonce, left unfinished */
    uint8_t iv0[20], junk[5], jo[5]; uint32_t jl = 5; uint64_t jm = 7;
    (void)jm;
    nd_bytes(iv0, k.iv); nd_bytes(junk, 5);
    V_ASSERT(INIT(c, g_rawkey, KEYLEN, iv0, k.iv, enc) == CRYPT_SUCCESS, "initialisation succeeds");
#ifdef M_CCM
    V_ASSERT(CTRL(c, CRYPT_CTRL_SET_MSGLEN, &jm, sizeof(jm)) == CRYPT_SUCCESS, "message length accepted");
#endif
    V_ASSERT(CTRL(c, CRYPT_CTRL_SET_AAD, junk, 5) == CRYPT_SUCCESS, "first header accepted");
    V_ASSERT(UPDATE(c, junk, 5, jo, &jl) == CRYPT_SUCCESS, "first message accepted");
    if (!enc) { V_ASSERT(CTRL(c, CRYPT_CTRL_SET_TAG, jo, 5) == CRYPT_SUCCESS, "tag set"); }
    V_ASSERT(CTRL(c, CRYPT_CTRL_REINIT_STATUS, g_rawiv, k.iv) == CRYPT_SUCCESS, "a new nonce can be set");
#else
    V_ASSERT(INIT(c, g_rawkey, KEYLEN, g_rawiv, k.iv, enc) == CRYPT_SUCCESS, "initialisation succeeds");
#endif
#ifndef M_CHACHA
    uint32_t tl = k.tag;
    V_ASSERT(CTRL(c, CRYPT_CTRL_SET_TAGLEN, &tl, sizeof(tl)) == CRYPT_SUCCESS, "the tag length can be set");
#endif
#ifdef M_CCM
    uint64_t ml = k.n;
    V_ASSERT(CTRL(c, CRYPT_CTRL_SET_MSGLEN, &ml, sizeof(ml)) == CRYPT_SUCCESS, "the message length can be set");
#endif
    V_ASSERT(CTRL(c, CRYPT_CTRL_SET_AAD, aad, k.a) == CRYPT_SUCCESS, "the header can be set");
#ifdef M_CCM
    if (k.a > 0) { V_ASSERT(CTRL(c, CRYPT_CTRL_SET_MSGLEN, &ml, sizeof(ml)) != CRYPT_SUCCESS, "message length is fixed once the header is in"); }
#endif
    if (k.a > 0) { V_ASSERT(CTRL(c, CRYPT_CTRL_SET_AAD, aad, k.a) != CRYPT_SUCCESS, "a second header is refused"); }
    uint32_t cut[4] = { 0, k.s1, k.s2, k.n };
    for (uint32_t i = 0; i < 3; i++) {
        uint32_t l = cut[i + 1] - cut[i], ol;
        if (l == 0) { continue; }
        ol = l + 3;
        V_ASSERT(UPDATE(c, m + cut[i], l, out + cut[i], &ol) == CRYPT_SUCCESS, "update succeeds");
        V_ASSERT(ol == l, "update emits as many bytes as it is given");
    }
    if (k.n > 0 && k.a == 0) { V_ASSERT(CTRL(c, CRYPT_CTRL_SET_AAD, g_rawkey, 1) != CRYPT_SUCCESS, "no header after message bytes"); }
#ifdef M_CCM
    {
        uint8_t x = 0, y[4]; uint32_t ol = 4;
        V_ASSERT(UPDATE(c, &x, 1, y, &ol) != CRYPT_SUCCESS, "no message bytes beyond the announced length");
    }
#endif
#if ENC
    oracle(&k, aad, m, ct, tag);
    for (uint32_t i = 0; i < k.n; i++) { V_ASSERT(out[i] == ct[i], "ciphertext is the mode's"); }
    V_ASSERT(CTRL(c, CRYPT_CTRL_SET_TAG, tag, k.tag) != CRYPT_SUCCESS, "no tag to verify while encrypting");
    V_ASSERT(CTRL(c, CRYPT_CTRL_GET_TAG, got, k.tag) == CRYPT_SUCCESS, "the tag can be read");
    for (uint32_t i = 0; i < k.tag; i++) { V_ASSERT(got[i] == tag[i], "tag is the mode's"); }
    V_ASSERT(CTRL(c, CRYPT_CTRL_GET_TAG, got, k.tag) == CRYPT_SUCCESS && v_eq(got, tag, k.tag), "reading the tag does not disturb it");
    (void)pt; (void)want;
#else
    /* keystream from the oracle on zeros, then the plaintext */
    uint8_t z[NMAX] = { 0 };
    oracle(&k, aad, z, ct, tag);
    for (uint32_t i = 0; i < k.n; i++) { pt[i] = m[i] ^ ct[i]; V_ASSERT(out[i] == pt[i], "plaintext is the mode's"); }
    oracle(&k, aad, pt, ct, tag);
    uint32_t ol = 3;
#ifdef NOTAG
    V_ASSERT(FINAL(c, got, &ol) != CRYPT_SUCCESS, "no verification without a tag");
#elif defined(SHORTTAG)
    int32_t r = CTRL(c, CRYPT_CTRL_SET_TAG, tag, k.tag - SHORTTAG);
    V_ASSERT(r != CRYPT_SUCCESS || FINAL(c, got, &ol) != CRYPT_SUCCESS, "a tag of another length never verifies");
#else
    nd_bytes(got, k.tag);
    V_ASSERT(CTRL(c, CRYPT_CTRL_SET_TAG, got, k.tag) == CRYPT_SUCCESS, "the expected tag can be set");
    want = 0;
    for (uint32_t i = 0; i < k.tag; i++) { want |= got[i] ^ tag[i]; }
    int32_t r = FINAL(c, outBuf, &ol);
    V_ASSERT((r == CRYPT_SUCCESS) == (want == 0), "accepted exactly when every tag byte matches");
    V_ASSERT(r != CRYPT_SUCCESS || ol == 0, "final emits nothing");
    if (r == CRYPT_SUCCESS) { V_WITNESS("a message verifies"); } else { V_WITNESS("a message is rejected"); }
#endif
#endif
    V_WITNESS("a message is processed");
    V_CASE_END();
}
#define CASE(i) run(cs[i])
void h_aead(void)
{
    static const Case cs[] = CASES;
    nd_bytes(g_rawkey, KEYLEN);
    nd_bytes(g_rawiv, 20);
    uint32_t w = nd_range(0, sizeof(cs) / sizeof(cs[0]) - 1);
    V_SPLIT(w, 0, sizeof(cs) / sizeof(cs[0]) - 1, CASE);
}
