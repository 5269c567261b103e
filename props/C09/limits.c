/* Length fields and usage limits of the AEAD modes, for every length (no data is walked: the primitives only record). */
#include "toy.h"
#include "hitls_build.h"
#include "modes_local.h"
#include "crypt_modes_ccm.h"
#include "crypt_modes_gcm.h"
#include "crypt_modes_chacha20poly1305.h"
#include "poly1305_core.h"
#include "crypt_chacha20.h"
#include "crypt_algid.h"
#ifdef H_CCM
#include "asm_aes_ccm.h"
void AesCcmEncryptAsm(void *key, uint8_t *nonce, const uint8_t *in, uint8_t *out, uint32_t len) { (void)key; (void)nonce; (void)in; (void)out; (void)len; }
void AesCcmDecryptAsm(void *key, uint8_t *nonce, const uint8_t *in, uint8_t *out, uint32_t len) { (void)key; (void)nonce; (void)in; (void)out; (void)len; }
static uint32_t g_calls, g_a, g_nl, g_tl;
static uint64_t g_ml;
static uint8_t g_nonce[13], g_aad[16];
static int32_t rec(void *c, const uint8_t *in, uint8_t *out, uint32_t len)
{
    (void)c; (void)len;
    if (g_calls++ == 0) {
        uint32_t L = 15 - g_nl;
        V_ASSERT(in[0] == (g_a > 0 ? 64 : 0) + 8 * ((g_tl - 2) / 2) + (L - 1), "flags of the first block");
        for (uint32_t i = 0; i < g_nl; i++) { V_ASSERT(in[1 + i] == g_nonce[i], "nonce in the first block"); }
        for (uint32_t i = 0; i < L; i++) { V_ASSERT(in[15 - i] == (uint8_t)(i < 8 ? g_ml >> (8 * i) : 0), "message length in the first block"); }
        for (uint32_t i = 0; i < 16; i++) { out[i] = 0; }
        return CRYPT_SUCCESS;
    }
    uint8_t hd[16] = { 0 };
    uint32_t h = 2;
    if (g_a < 0xff00) { hd[0] = (uint8_t)(g_a >> 8); hd[1] = (uint8_t)g_a; }
    else { h = 6; hd[0] = 0xff; hd[1] = 0xfe; hd[2] = (uint8_t)(g_a >> 24); hd[3] = (uint8_t)(g_a >> 16); hd[4] = (uint8_t)(g_a >> 8); hd[5] = (uint8_t)g_a; }
    for (uint32_t i = 0; i < 16; i++) {
        uint8_t w = i < h ? hd[i] : i - h < g_a ? g_aad[i - h] : 0;
        V_ASSERT(in[i] == w, "header length encoding");
    }
    if (g_a >= 0xff00) { V_WITNESS("a long header"); } else { V_WITNESS("a short header"); }
    V_CASE_END();
    return CRYPT_SUCCESS;
}
static const EAL_SymMethod g_rec = { ToySetKey, ToySetKey, rec, rec, ToyDeInit, NULL, 16, sizeof(ToyKey), 0 };
static ToyKey g_key;
static MODES_CCM_Ctx g_c;
static void one(uint32_t nl)
{
    uint8_t key[16] = { 0 };
    g_calls = 0;
    g_nl = nl;
    memset(&g_c, 0, sizeof(g_c));
    g_c.algId = 0x7fff;
    g_c.ccmCtx.ciphCtx = &g_key;
    g_c.ccmCtx.ciphMeth = &g_rec;
    if (nl < 7 || nl > 13) {
        V_ASSERT(MODES_CCM_InitCtx(&g_c, key, 16, g_nonce, nl, NULL, true) != CRYPT_SUCCESS, "nonce length outside 7..13 refused");
        V_CASE_END();
    } else {
        uint32_t tl = nd32();
        V_ASSERT(MODES_CCM_InitCtx(&g_c, key, 16, g_nonce, nl, NULL, true) == CRYPT_SUCCESS, "nonce of 7..13 bytes accepted");
        int32_t r = MODES_CCM_Ctrl(&g_c, CRYPT_CTRL_SET_TAGLEN, &tl, sizeof(tl));
        V_ASSERT((r == CRYPT_SUCCESS) == (tl >= 4 && tl <= 16 && tl % 2 == 0), "tag lengths 4, 6 .. 16 only");
        g_tl = r == CRYPT_SUCCESS ? tl : 16;
        uint64_t ml = nd64();
        r = MODES_CCM_Ctrl(&g_c, CRYPT_CTRL_SET_MSGLEN, &ml, sizeof(ml));
        V_ASSERT((r == CRYPT_SUCCESS) == (nl == 7 || ml < (1ULL << (8 * (15 - nl) % 64))), "message length must fit its field");
        g_ml = r == CRYPT_SUCCESS ? ml : 0;
        g_a = nd32();
        V_ASSUME(g_a > 0);
        (void)MODES_CCM_Ctrl(&g_c, CRYPT_CTRL_SET_AAD, g_aad, g_a);
        V_CASE_END();
    }
}
#define ONE(i) one(i)
void h_ccm(void)
{
    nd_bytes(g_nonce, 13); nd_bytes(g_aad, 16);
    uint32_t nl = nd_range(6, 14);
    V_SPLIT(nl, 6, 14, ONE);
}
#endif
#ifdef H_GCM
static uint8_t g_last[16];
static uint32_t g_n;
static uint64_t g_total;
void GcmTableGen4bit(uint8_t key[16], MODES_GCM_GF128 hTable[16]) { (void)key; (void)hTable; }
void GcmHashMultiBlock(uint8_t t[16], const MODES_GCM_GF128 hTable[16], const uint8_t *in, uint32_t len)
{
    (void)hTable; (void)t;
    V_ASSERT(len % 16 == 0, "whole blocks");
    g_n++;
    g_total += len;
    if (len == 16) { for (uint32_t i = 0; i < 16; i++) { g_last[i] = in[i]; } }
}
#include "asm_aes_gcm.h"
uint32_t AES_GCM_EncryptBlockAsm(MODES_CipherGCMCtx *c, const uint8_t *in, uint8_t *out, uint32_t len, void *key) { (void)c; (void)in; (void)out; (void)key; return len & ~63u; }
uint32_t AES_GCM_DecryptBlockAsm(MODES_CipherGCMCtx *c, const uint8_t *in, uint8_t *out, uint32_t len, void *key) { (void)c; (void)in; (void)out; (void)key; return len & ~63u; }
void AES_GCM_Encrypt16BlockAsm(MODES_CipherGCMCtx *c, const uint8_t *in, uint8_t *out, uint32_t len, void *key) { (void)c; (void)in; (void)out; (void)key; (void)len; }
void AES_GCM_Decrypt16BlockAsm(MODES_CipherGCMCtx *c, const uint8_t *in, uint8_t *out, uint32_t len, void *key) { (void)c; (void)in; (void)out; (void)key; (void)len; }
void AES_GCM_ClearAsm(void) {}
static ToyKey g_key;
static MODES_GCM_Ctx g_c;
static uint64_t be(const uint8_t *p) { uint64_t v = 0; for (uint32_t i = 0; i < 8; i++) { v = v << 8 | p[i]; } return v; }
static void setup(void)
{
    memset(&g_c, 0, sizeof(g_c));
    g_c.algId = ALG;
    g_c.gcmCtx.ciphCtx = &g_key;
    g_c.gcmCtx.ciphMeth = &g_toy;
    g_c.gcmCtx.tagLen = 16;
    g_c.enc = ENC;
}
void h_gcm(void)
{
    static uint8_t buf[32], out[32];
    uint32_t ol = 16;
    setup();
    uint32_t which = nd_range(0, 3);
    if (which == 0) {
        uint32_t il = nd32();
        V_ASSUME(il % 16 == 0 && il > 0);
        V_ASSERT(MODES_GCM_Ctrl(&g_c, CRYPT_CTRL_SET_IV, buf, il) == CRYPT_SUCCESS, "a nonce of any length is accepted");
        V_ASSERT(be(g_last) == 0 && be(g_last + 8) == (uint64_t)il * 8, "nonce length in bits");
        V_ASSERT(g_total == (uint64_t)il + 16, "the whole nonce is hashed once");
        V_WITNESS("long nonce");
        V_CASE_END();
    } else if (which == 1) {
        uint32_t al = nd32();
        uint8_t tag[16];
        V_ASSUME(al % 16 == 0);
        uint64_t pl = nd64();
        V_ASSUME(pl <= (1ULL << 36) - 32 && pl % 16 == 0);
        V_ASSERT(MODES_GCM_Ctrl(&g_c, CRYPT_CTRL_SET_AAD, buf, al) == CRYPT_SUCCESS, "header accepted");
        g_c.gcmCtx.plaintextLen = pl;
        V_ASSERT(MODES_GCM_Ctrl(&g_c, CRYPT_CTRL_GET_TAG, tag, 16) == CRYPT_SUCCESS, "tag computed");
        V_ASSERT(be(g_last) == (uint64_t)al * 8 && be(g_last + 8) == pl * 8, "lengths in bits in the last block");
        V_WITNESS("long header");
        V_CASE_END();
    } else if (which == 2) {
        uint64_t pl = nd64();
        V_ASSUME(pl <= (1ULL << 36) - 32 && pl % 16 == 0);
        g_c.gcmCtx.plaintextLen = pl;
        int32_t r = MODES_GCM_UpdateEx(&g_c, buf, 32, out, (ol = 32, &ol));
        V_ASSERT((r == CRYPT_SUCCESS) == (pl + 32 <= (1ULL << 36) - 32), "a message never exceeds 2^36 - 32 bytes");
        V_ASSERT(r == CRYPT_SUCCESS ? g_c.gcmCtx.plaintextLen == pl + 32 : true, "length counted");
        if (r != CRYPT_SUCCESS) { V_WITNESS("too long"); } else { V_WITNESS("fits"); }
        V_CASE_END();
    } else {
        uint32_t cnt = nd32(), tl = nd32();
        g_c.gcmCtx.cryptCnt = cnt;
        int32_t r = MODES_GCM_Ctrl(&g_c, CRYPT_CTRL_SET_TAGLEN, &tl, sizeof(tl));
        V_ASSERT((r == CRYPT_SUCCESS) == (tl == 4 || tl == 8 || (tl >= 12 && tl <= 16)), "tag lengths 4, 8, 12..16 only");
        r = MODES_GCM_Ctrl(&g_c, CRYPT_CTRL_SET_IV, buf, 12);
        V_ASSERT((r == CRYPT_SUCCESS) == (cnt != 0xffffffffu), "a key refuses a new message after 2^32 - 1 of them");
        V_ASSERT(MODES_GCM_Ctrl(&g_c, CRYPT_CTRL_SET_IV, buf, 0) != CRYPT_SUCCESS, "an empty nonce is refused");
        if (r != CRYPT_SUCCESS) { V_WITNESS("used up"); }
        V_CASE_END();
    }
}
#endif
#ifdef H_CHACHA
static uint32_t g_bulk, g_cnt0;
static uint64_t g_used;  /* keystream blocks used so far */
static uint64_t g_limit;
void ToyChachaBlock(CRYPT_CHACHA20_Ctx *c)
{
    V_ASSERT(g_used < g_limit && c->state[12] == (uint32_t)(g_cnt0 + g_used), "no keystream block is used twice");
    g_used++; c->state[12]++;
    for (uint32_t i = 0; i < 64; i++) { c->last.u[i] = 0; }
}
void CHACHA20_Update(CRYPT_CHACHA20_Ctx *c, const uint8_t *in, uint8_t *out, uint32_t len)
{
    (void)in; (void)out;
    uint32_t b = len / 64;
    V_ASSERT(len % 64 == 0 && g_used + b <= g_limit && c->state[12] == (uint32_t)(g_cnt0 + g_used), "no keystream block is used twice in bulk");
    g_used += b; c->state[12] += b;
}
static CRYPT_CHACHA20_Ctx g_k;
#ifndef LENS
#define LENS { 1, 1, 1 }
#endif
void h_chacha(void)
{
    static uint8_t buf[256], out[256], key[32], nonce[12], cnt[4];
    nd_bytes(cnt, 4);
    g_cnt0 = cnt[0] | (uint32_t)cnt[1] << 8 | (uint32_t)cnt[2] << 16 | (uint32_t)cnt[3] << 24;
    g_limit = (1ULL << 32) - g_cnt0;
    V_ASSERT(CRYPT_CHACHA20_Update(&g_k, buf, out, 1) != CRYPT_SUCCESS, "no keystream without a key");
    V_ASSERT(CRYPT_CHACHA20_SetKey(&g_k, key, 32) == CRYPT_SUCCESS, "key");
    V_ASSERT(CRYPT_CHACHA20_Update(&g_k, buf, out, 1) != CRYPT_SUCCESS, "no keystream without a nonce");
    V_ASSERT(CRYPT_CHACHA20_Ctrl(&g_k, CRYPT_CTRL_SET_IV, nonce, 12) == CRYPT_SUCCESS, "nonce");
    V_ASSERT(CRYPT_CHACHA20_Ctrl(&g_k, CRYPT_CTRL_SET_COUNT, cnt, 4) == CRYPT_SUCCESS, "counter");
    uint32_t l[3] = LENS;
    uint64_t tot = 0;
    for (uint32_t i = 0; i < 3; i++) {
        int32_t r = CRYPT_CHACHA20_Update(&g_k, buf, out, l[i]);
        bool fits = tot + l[i] <= g_limit * 64;
        V_ASSERT((r == CRYPT_SUCCESS) == fits, "refused exactly when the block counter would wrap");
        if (r != CRYPT_SUCCESS) { V_WITNESS("the counter is used up"); V_CASE_END(); return; }
        tot += l[i];
        V_ASSERT(g_used == (tot + 63) / 64, "one keystream block per 64 bytes");
    }
    V_WITNESS("all three calls pass");
}
/* any amount of data in one call */
void h_chacha_big(void)
{
    static uint8_t key[32], nonce[12], cnt[4];
    static uint8_t one[1], o[1];
    nd_bytes(cnt, 4);
    g_cnt0 = cnt[0] | (uint32_t)cnt[1] << 8 | (uint32_t)cnt[2] << 16 | (uint32_t)cnt[3] << 24;
    g_limit = (1ULL << 32) - g_cnt0;
    (void)CRYPT_CHACHA20_SetKey(&g_k, key, 32);
    (void)CRYPT_CHACHA20_Ctrl(&g_k, CRYPT_CTRL_SET_IV, nonce, 12);
    (void)CRYPT_CHACHA20_Ctrl(&g_k, CRYPT_CTRL_SET_COUNT, cnt, 4);
    uint32_t len = nd32();
    V_ASSUME(len % 64 == 0 && len > 0);
    int32_t r = CRYPT_CHACHA20_Update(&g_k, one, o, len);
    V_ASSERT((r == CRYPT_SUCCESS) == (len <= g_limit * 64), "a bulk call is refused exactly when the block counter would wrap");
    if (r != CRYPT_SUCCESS) { V_WITNESS("too much"); return; }
    V_ASSERT(g_used == len / 64, "every block counted");
    r = CRYPT_CHACHA20_Update(&g_k, one, o, 1);
    V_ASSERT((r == CRYPT_SUCCESS) == (g_used <= g_limit && (uint64_t)len + 1 <= g_limit * 64), "then one more byte");
    V_WITNESS("bulk");
}
#endif
