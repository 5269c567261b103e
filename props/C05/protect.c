/* Record protection layer (CBC MAC-then-encrypt / encrypt-then-MAC, AEAD nonce and additional data), real code with
 * block cipher and hash replaced by models: identity cipher, 32-bit rolling digest. */
#define REC_ENV_REAL_RECORD
#include "rec_env.h"
#include "crypt.h"
int32_t RecIoBufInit(TLS_Ctx *ctx, RecCtx *recordCtx, bool isRead) { (void)ctx; (void)recordCtx; (void)isRead; return HITLS_SUCCESS; }

#ifndef MACLEN
#define MACLEN 20
#endif
#define IV 16
/* ---- digest model */
typedef struct { uint32_t st; } Dg;
static Dg g_dg[3];
static uint32_t g_dgN;
static uint32_t Mix(uint32_t st, uint8_t b) { return ((st << 5) | (st >> 27)) ^ b; }
HITLS_HASH_Ctx *SAL_CRYPT_DigestInit(HITLS_Lib_Ctx *l, const char *a, HITLS_HashAlgo h) { (void)l; (void)a; (void)h; g_dg[0].st = 7; return &g_dg[0]; }
HITLS_HASH_Ctx *SAL_CRYPT_DigestCopy(HITLS_HASH_Ctx *c) { (void)c; g_dgN++; g_dg[1].st = 7; g_dg[2].st = 7; return &g_dg[g_dgN]; }
void SAL_CRYPT_DigestFree(HITLS_HASH_Ctx *c) { (void)c; }
int32_t SAL_CRYPT_DigestUpdate(HITLS_HASH_Ctx *c, const uint8_t *d, uint32_t n)
{
    for (uint32_t v_i = 0; v_i < n; v_i++) {
        /* by value comparison: the caller selects the context with a constant-time mask */
        if (c == (HITLS_HASH_Ctx *)&g_dg[0]) { g_dg[0].st = Mix(g_dg[0].st, d[v_i]); }
        else if (c == (HITLS_HASH_Ctx *)&g_dg[1]) { g_dg[1].st = Mix(g_dg[1].st, d[v_i]); }
        else if (c == (HITLS_HASH_Ctx *)&g_dg[2]) { g_dg[2].st = Mix(g_dg[2].st, d[v_i]); }
        else { V_ASSERT(false, "digest update on an unknown context"); }
    }
    return HITLS_SUCCESS;
}
static void Out(uint32_t st, uint8_t *o) { for (uint32_t v_i = 0; v_i < MACLEN; v_i++) { o[v_i] = (uint8_t)((st >> (8 * (v_i & 3))) + v_i); } }
int32_t SAL_CRYPT_DigestFinal(HITLS_HASH_Ctx *c, uint8_t *o, uint32_t *n)
{
    Out(c == (HITLS_HASH_Ctx *)&g_dg[0] ? g_dg[0].st : g_dg[1].st, o);
    *n = MACLEN;
    return HITLS_SUCCESS;
}
/* reference HMAC over the same digest, keyed as the record layer keys it */
static uint32_t g_hst;
static void RefInit(void) { g_hst = 7; for (uint32_t v_i = 0; v_i < BLEN; v_i++) { g_hst = Mix(g_hst, (v_i < MACLEN ? g_suite.macKey[v_i] : 0) ^ 0x36); } }
static void RefUpd(uint8_t b) { g_hst = Mix(g_hst, b); }
static void RefFinal(uint8_t *mac)
{
    uint8_t ih[MACLEN];
    Out(g_hst, ih);
    uint32_t st = 7;
    for (uint32_t v_i = 0; v_i < BLEN; v_i++) { st = Mix(st, (v_i < MACLEN ? g_suite.macKey[v_i] : 0) ^ 0x5c); }
    for (uint32_t v_i = 0; v_i < MACLEN; v_i++) { st = Mix(st, ih[v_i]); }
    Out(st, mac);
}
static uint8_t g_hm;
static uint32_t g_rands;
static bool g_auth;
HITLS_HMAC_Ctx *SAL_CRYPT_HmacInit(HITLS_Lib_Ctx *l, const char *a, HITLS_HashAlgo h, const uint8_t *k, uint32_t n)
{
    (void)l; (void)a; (void)h;
    V_ASSERT(k == g_suite.macKey && n == MACLEN, "MAC is keyed with the connection's MAC key");
    RefInit();
    return &g_hm;
}
int32_t SAL_CRYPT_HmacReInit(HITLS_HMAC_Ctx *c) { (void)c; RefInit(); return HITLS_SUCCESS; }
int32_t SAL_CRYPT_HmacUpdate(HITLS_HMAC_Ctx *c, const uint8_t *d, uint32_t n) { (void)c; for (uint32_t v_i = 0; v_i < n; v_i++) { RefUpd(d[v_i]); } return HITLS_SUCCESS; }
int32_t SAL_CRYPT_HmacFinal(HITLS_HMAC_Ctx *c, uint8_t *o, uint32_t *n) { (void)c; RefFinal(o); *n = MACLEN; return HITLS_SUCCESS; }
void SAL_CRYPT_HmacFree(HITLS_HMAC_Ctx *c) { (void)c; }
uint32_t SAL_CRYPT_HmacSize(HITLS_HashAlgo h) { (void)h; return MACLEN; }
int32_t SAL_CRYPT_Rand(HITLS_Lib_Ctx *l, uint8_t *b, uint32_t n) { (void)l; V_ASSERT(n == IV, "a full block of IV is drawn"); nd_bytes(b, IV); g_rands++; return HITLS_SUCCESS; }

static const uint8_t *g_msg;
static uint32_t g_decs, g_encs;
static uint8_t g_nonce[12], g_aad[16];
static uint32_t g_aadLen, g_encIn, g_capIn;
static uint8_t g_ptLast[64];
int32_t SAL_CRYPT_Decrypt(HITLS_Lib_Ctx *l, const char *a, const HITLS_CipherParameters *c, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{
    (void)l; (void)a;
    g_decs++;
#ifdef AEAD
    V_ASSERT(c->ivLen == 12 && c->aadLen <= 16, "nonce and additional data have the specified sizes");
    memcpy(g_nonce, c->iv, 12);
    memcpy(g_aad, c->aad, 16);
    g_aadLen = c->aadLen;
    g_encIn = inLen;
    g_msg = in;
    V_ASSERT(*outLen >= inLen - 16, "room for the plaintext");
    *outLen = inLen - 16;
    return g_auth ? HITLS_SUCCESS : HITLS_CRYPT_ERR_DECRYPT;
#else
    V_ASSERT(c->iv == g_msg && in == g_msg + IV, "the explicit IV is the first block of the record");
    V_ASSERT(inLen == g_capIn && *outLen >= inLen, "exactly the encrypted part is decrypted, into enough room");
    memcpy(out, in, g_capIn);
    *outLen = inLen;
    return HITLS_SUCCESS;
#endif
}
int32_t SAL_CRYPT_Encrypt(HITLS_Lib_Ctx *l, const char *a, const HITLS_CipherParameters *c, const uint8_t *in, uint32_t inLen, uint8_t *out, uint32_t *outLen)
{
    (void)l; (void)a;
    g_encs++;
#ifdef AEAD
    V_ASSERT(c->ivLen == 12 && c->aadLen <= 16, "nonce and additional data have the specified sizes");
    memcpy(g_nonce, c->iv, 12);
    memcpy(g_aad, c->aad, 16);
    g_aadLen = c->aadLen;
    g_encIn = inLen;
    g_msg = in;
    *outLen = inLen + 16;
    return HITLS_SUCCESS;
#else
    V_ASSERT(inLen % IV == 0 && *outLen >= inLen, "whole blocks are encrypted");
    memcpy(out, in, inLen);
    memcpy(g_nonce, c->iv, 12);
    *outLen = inLen;
    return HITLS_SUCCESS;
#endif
}
static void Suite(void)
{
    EnvSetup(HITLS_VERSION_TLS12, TLS12_VERSION_BIT, 0);
    g_suite.cipherType = HITLS_CBC_CIPHER;
    g_suite.cipherAlg = HITLS_CIPHER_AES_128_CBC;
    g_suite.macAlg = MACLEN == 20 ? HITLS_MAC_1 : HITLS_MAC_384;
    g_suite.macLen = MACLEN;
    g_suite.macKeyLen = MACLEN;
    g_suite.fixedIvLength = IV;
    g_suite.recordIvLength = IV;
    g_suite.blockLength = IV;
    g_suite.encKeyLen = 16;
    for (uint32_t v_i = 0; v_i < MACLEN; v_i++) { g_suite.macKey[v_i] = (uint8_t)(v_i * 7 + 1); }
}
static void Hdr(REC_TextInput *m)
{
    m->type = nd8();
    m->version = HITLS_VERSION_TLS12;
    m->negotiatedVersion = HITLS_VERSION_TLS12;
    nd_bytes(m->seq, 8);
}
#ifdef H_MTE_DEC
/* every plaintext of N bytes behind a CBC record */
static void body(uint32_t padv)
{
    Suite();
    uint8_t rec[IV + N], out[N];
#ifdef SYM /* only the first bytes are symbolic, the rest is padding */
    memset(rec, (uint8_t)padv, IV + N);
    nd_bytes(rec + IV, SYM);
#else
    nd_bytes(rec, IV + N);
#endif
    rec[IV + N - 1] = (uint8_t)padv;
    REC_TextInput m = {0};
    Hdr(&m);
    m.text = rec;
    m.textLen = IV + N;
    g_msg = rec;
    g_capIn = N;
    const uint8_t *p = rec + IV;
    uint32_t pad = padv;
    bool ok = pad + 1 + MACLEN <= N;
    for (uint32_t i = 0; i < N; i++) {
        if (ok && i < N - 1 && i >= N - 1 - pad && p[i] != pad) { ok = false; }
    }
    uint32_t plen = ok ? N - 1 - pad - MACLEN : 0;
    RefInit();
    for (uint32_t i = 0; i < 8; i++) { RefUpd(m.seq[i]); }
    RefUpd(m.type); RefUpd(3); RefUpd(3); RefUpd((uint8_t)(plen >> 8)); RefUpd((uint8_t)plen);
    for (uint32_t i = 0; i < N - MACLEN - 1; i++) { if (i < plen) { RefUpd(p[i]); } }
    uint8_t mac[MACLEN];
    RefFinal(mac);
    if (ok) {
        for (uint32_t i = 0; i < MACLEN; i++) { if (p[plen + i] != mac[i]) { ok = false; } }
    }
    uint32_t len = N;
    int32_t ret = RecConnDecrypt(&g_ctx, &g_cur, &m, out, &len);
    V_ASSERT((ret == HITLS_SUCCESS) == ok, "a CBC record is accepted exactly when every padding byte and the MAC over header and content are right");
    if (ret == HITLS_SUCCESS) {
        V_ASSERT(len == plen, "the delivered length is the authenticated length");
#ifndef REJ
        V_WITNESS("accepted");
#endif
    } else {
        V_ASSERT(ret == HITLS_REC_BAD_RECORD_MAC, "padding and MAC failures are indistinguishable");
        V_WITNESS("rejected");
    }
}
void harness(void)
{
    static const uint8_t pads[] = PADS;
    uint32_t sel = nd_range(0, sizeof(pads) - 1);
    for (uint32_t v_k = 0; v_k < sizeof(pads); v_k++) {
        if (sel == v_k) { body(pads[v_k]); V_CASE_END(); }
    }
}
#endif
#ifdef H_ETM_DEC
static void body(uint32_t padv)
{
    Suite();
    g_cur.isEncryptThenMac = true;
    uint8_t rec[IV + N + MACLEN], out[N];
    nd_bytes(rec, sizeof(rec));
    rec[IV + N - 1] = (uint8_t)padv;
    REC_TextInput m = {0};
    Hdr(&m);
    m.isEncryptThenMac = true;
    m.text = rec;
    m.textLen = sizeof(rec);
    g_msg = rec;
    g_capIn = N;
    const uint8_t *p = rec + IV;
    uint32_t pad = padv;
    bool macok = true, padok = pad + 1 <= N;
    for (uint32_t i = 0; i < N; i++) {
        if (padok && i < N - 1 && i >= N - 1 - pad && p[i] != pad) { padok = false; }
    }
    RefInit();
    for (uint32_t i = 0; i < 8; i++) { RefUpd(m.seq[i]); }
    RefUpd(m.type); RefUpd(3); RefUpd(3); RefUpd((IV + N) >> 8); RefUpd((uint8_t)(IV + N));
    for (uint32_t i = 0; i < IV + N; i++) { RefUpd(rec[i]); }
    uint8_t mac[MACLEN];
    RefFinal(mac);
    for (uint32_t i = 0; i < MACLEN; i++) { if (rec[IV + N + i] != mac[i]) { macok = false; } }
    uint32_t len = N;
    int32_t ret = RecConnDecrypt(&g_ctx, &g_cur, &m, out, &len);
    V_ASSERT((ret == HITLS_SUCCESS) == (macok && padok), "an encrypt-then-MAC record is accepted exactly when MAC and padding are right");
    if (!macok) {
        V_ASSERT(g_decs == 0, "nothing is decrypted before the MAC has been verified");
        V_ASSERT(ret == HITLS_REC_BAD_RECORD_MAC, "MAC failure is a bad record");
    }
    if (ret == HITLS_SUCCESS) {
        V_ASSERT(len == N - 1 - pad, "the delivered length is the authenticated length");
        V_WITNESS("accepted");
    }
}
void harness(void)
{
    static const uint8_t pads[] = PADS;
    uint32_t sel = nd_range(0, sizeof(pads) - 1);
    for (uint32_t v_k = 0; v_k < sizeof(pads); v_k++) {
        if (sel == v_k) { body(pads[v_k]); V_CASE_END(); }
    }
}
#endif
#ifdef H_CBC_LEN
/* any record length, any ETM setting: short or misaligned records are refused before use */
static void body(uint32_t n)
{
    uint8_t *rec = malloc(n);
    uint8_t out[N];
    V_ASSUME(rec != NULL);
    nd_bytes(rec, n);
    REC_TextInput m = {0};
    Hdr(&m);
    m.text = rec;
    m.textLen = n;
    bool etm = g_cur.isEncryptThenMac;
    uint32_t min = etm ? IV + IV + MACLEN : ((IV + MACLEN + 1 + IV - 1) / IV) * IV;
    uint32_t encLen = etm ? n - MACLEN : n;
    g_msg = rec;
    g_capIn = encLen - IV;
    uint32_t len = N;
    if (n < min || encLen % IV != 0) {
        int32_t ret = RecConnDecrypt(&g_ctx, &g_cur, &m, out, &len);
        V_ASSERT(ret != HITLS_SUCCESS, "a record too short for IV, MAC and padding, or not a whole number of blocks, is refused");
        V_ASSERT(g_decs == 0, "and is not decrypted");
        V_WITNESS("refused");
    }
}
void harness(void)
{
    Suite();
    g_cur.isEncryptThenMac = ndbool();
    static const uint8_t lens[] = LENS;
    uint32_t sel = nd_range(0, sizeof(lens) - 1);
    for (uint32_t v_k = 0; v_k < sizeof(lens); v_k++) {
        if (sel == v_k) { body(lens[v_k]); V_CASE_END(); }
    }
}
#endif
#ifdef H_CBC_ENC
static void body(uint32_t n)
{
    bool etm = ETM;
    g_cur.isEncryptThenMac = etm;
    uint8_t msg[N + 1];
    nd_bytes(msg, N + 1);
    REC_TextInput m = {0};
    Hdr(&m);
    m.isEncryptThenMac = etm;
    m.text = msg;
    m.textLen = n;
    const RecCryptoFunc *f = RecGetCryptoFuncs(&g_suite);
    uint32_t clen = f->calCiphertextLen(&g_ctx, &g_suite, n, false);
    uint32_t want = etm ? IV + (n / IV + 1) * IV + MACLEN : IV + ((n + MACLEN) / IV + 1) * IV;
    V_ASSERT(clen == want, "the record length is IV, content, MAC and minimal padding");
    uint8_t *rec = malloc(want);
    V_ASSUME(rec != NULL);
    int32_t ret = RecConnEncrypt(&g_ctx, &g_cur, &m, rec, want);
    V_ASSERT(ret == HITLS_SUCCESS, "every content is protected");
    V_ASSERT(g_rands == 1, "every record draws a fresh IV");
    for (uint32_t i = 0; i < 12; i++) { V_ASSERT(rec[i] == g_nonce[i], "the IV sent is the IV used"); }
    for (uint32_t i = 0; i < N; i++) { if (i < n) { V_ASSERT(rec[IV + i] == msg[i], "the content is what is encrypted"); } }
    uint32_t padAt = etm ? want - MACLEN - 1 : want - 1;
    V_ASSERT(rec[padAt] < IV, "padding is minimal");
    /* the peer accepts it */
    uint8_t out[N + 64];
    uint32_t len = want - IV;
    g_msg = rec;
    g_capIn = etm ? want - IV - MACLEN : want - IV;
    g_dgN = 0;
    m.text = rec;
    m.textLen = want;
    ret = RecConnDecrypt(&g_ctx, &g_cur, &m, out, &len);
    V_ASSERT(ret == HITLS_SUCCESS && len == n, "what one side protects the other side accepts, with the same length");
    V_WITNESS("round trip");
}
void harness(void)
{
    Suite();
    uint32_t n = nd_range(0, 2);
    if (n == 0) { body(N0); }
    if (n == 1) { body(N1); }
    if (n == 2) { body(N2); }
}
#endif
#ifdef H_AEAD
/* nonce and additional data of an AEAD record, both directions */
void harness(void)
{
    uint16_t ver = VER;
    EnvSetup(ver, ver == HITLS_VERSION_DTLS12 ? DTLS12_VERSION_BIT : (TLS12_VERSION_BIT | TLS13_VERSION_BIT), 0);
    bool explicitIv = XIV;
    g_suite.cipherType = HITLS_AEAD_CIPHER;
    g_suite.fixedIvLength = explicitIv ? 4 : 12;
    g_suite.recordIvLength = explicitIv ? 8 : 0;
    g_suite.macLen = 16;
    g_suite.encKeyLen = 16;
    nd_bytes(g_suite.iv, 12);
    uint8_t seq[8];
    nd_bytes(seq, 8);
    REC_TextInput m = {0};
    m.type = nd8();
    m.version = ver == HITLS_VERSION_DTLS12 ? ver : HITLS_VERSION_TLS12;
    m.negotiatedVersion = ver;
    memcpy(m.seq, seq, 8);
    uint32_t pl = 5, xl = explicitIv ? 8 : 0;
    uint8_t msg[64];
    nd_bytes(msg, 40);
    uint32_t total = pl + 16 + xl;
    uint32_t aadContent;
    uint8_t out[64];
    bool enc = ndbool();
    int32_t ret;
    uint8_t expl[8];
    g_auth = ndbool();
    if (enc) {
        m.text = msg;
        m.textLen = pl;
        V_ASSERT(RecGetCryptoFuncs(&g_suite)->calCiphertextLen(&g_ctx, &g_suite, pl, false) == total, "AEAD expansion is tag plus explicit IV");
        ret = RecConnEncrypt(&g_ctx, &g_cur, &m, out, total);
        V_ASSERT(ret == HITLS_SUCCESS && g_encs == 1, "the record is protected once");
        V_ASSERT(g_msg == msg && g_encIn == pl, "the content is what is protected");
        memcpy(expl, out, 8);
        if (explicitIv) { V_ASSERT(v_eq(out, seq, 8), "the explicit nonce is the sequence number"); }
        V_WITNESS("protect");
    } else {
        m.text = msg;
        m.textLen = total;
        uint32_t len = sizeof(out);
        ret = RecConnDecrypt(&g_ctx, &g_cur, &m, out, &len);
        V_ASSERT(g_decs == 1 && g_msg == msg + xl && g_encIn == total - xl, "exactly ciphertext and tag are given to the AEAD");
        V_ASSERT((ret == HITLS_SUCCESS) == g_auth, "a record is accepted exactly when the AEAD authenticates it");
        if (ret == HITLS_SUCCESS) { V_ASSERT(len == pl, "plaintext length"); }
        memcpy(expl, msg, 8);
        V_WITNESS("unprotect");
    }
    for (uint32_t i = 0; i < 12; i++) {
        uint8_t want = explicitIv ? (i < 4 ? g_suite.iv[i] : expl[i - 4]) : (uint8_t)(g_suite.iv[i] ^ (i < 4 ? 0 : seq[i - 4]));
        V_ASSERT(g_nonce[i] == want, "the nonce is built from the fixed IV and the record's own sequence number");
    }
    if (ver == HITLS_VERSION_TLS13) {
        V_ASSERT(g_aadLen == 5 && g_aad[0] == m.type && g_aad[1] == 3 && g_aad[2] == 3 && g_aad[3] == (uint8_t)(total >> 8) && g_aad[4] == (uint8_t)total,
            "TLS 1.3 additional data is the record header");
    } else {
        V_ASSERT(g_aadLen == 13 && v_eq(g_aad, seq, 8) && g_aad[8] == m.type && g_aad[9] == (uint8_t)(m.version >> 8) && g_aad[10] == (uint8_t)m.version &&
            g_aad[11] == 0 && g_aad[12] == pl, "TLS 1.2 additional data is sequence number, type, version and plaintext length");
    }
}
#endif
#ifdef H_INNER
/* TLS 1.3 inner plaintext: content type is the last non-zero byte */
int32_t RecParseInnerPlaintext(TLS_Ctx *ctx, const uint8_t *text, uint32_t *textLen, uint8_t *recType);
static void body(uint32_t n)
{
    uint8_t t[N];
    nd_bytes(t, N);
    uint32_t len = n;
    uint8_t type = 0x77;
    uint32_t last = n;
    while (last > 0 && t[last - 1] == 0) { last--; }
    int32_t ret = RecParseInnerPlaintext(&g_ctx, t, &len, &type);
    V_ASSERT((ret == HITLS_SUCCESS) == (last > 0), "an inner plaintext of only zeros is refused, every other one accepted");
    if (ret == HITLS_SUCCESS) {
        V_ASSERT(len == last - 1 && type == t[last - 1], "content type is the last non-zero byte and the content is what precedes it");
        V_WITNESS("accepted");
    }
}
void harness(void)
{
    EnvSetup(HITLS_VERSION_TLS13, TLS13_VERSION_BIT, 0);
    uint32_t n = nd_range(0, N);
    V_SPLIT(n, 0, N, body);
}
#endif
