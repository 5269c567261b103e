/* C11: HKDF, the TLS 1.2 PRF and PBKDF2 over a small model MAC. */
#include "v.h"
#include "crypt_errno.h"
#include "crypt_types.h"
#include "crypt_params_key.h"
#include "bsl_params.h"
#include "eal_mac_local.h"
#include "crypt_hkdf.h"
#include "crypt_kdf_tls12.h"
#include "crypt_pbkdf2.h"
#define TD 4
#ifndef CASES
#define CASES {{0, 0, 0, 1, 1}}
#endif
typedef struct { uint32_t acc, key; uint8_t st; } Tm;
static Tm pool[3];
static uint32_t used;
static uint32_t ab(uint32_t a, uint8_t b) { return ((a << 5) | (a >> 27)) ^ b ^ ((uint32_t)b << 19); }
static void mKey(Tm *c, const uint8_t *k, uint32_t n)
{
    uint32_t a = 0x1234567;
    for (uint32_t i = 0; i < n; i++) { a = ab(a, k[i]); }
    c->key = ((a << 9) | (a >> 23)) ^ n; c->acc = c->key; c->st = 1;
}
static void mUpd(Tm *c, const uint8_t *p, uint32_t n) { for (uint32_t i = 0; i < n; i++) { c->acc = ab(c->acc, p[i]); } }
static void mFin(Tm *c, uint8_t *out)
{
    uint32_t r = c->acc ^ ((c->acc << 13) | (c->acc >> 19)) ^ ((c->key << 7) | (c->key >> 25));
    for (uint32_t i = 0; i < TD; i++) { out[i] = (uint8_t)(r >> (8 * i)); }
    c->st = 2;
}
static void *tNew(void *p, int32_t id) { (void)p; (void)id; V_ASSERT(used < 3, "contexts"); return &pool[used++]; }
int32_t CRYPT_ASMCAP_Mac(CRYPT_MAC_AlgId id) { (void)id; return CRYPT_SUCCESS; }
static bool g_limit;
static int32_t tInit(void *c, const uint8_t *k, uint32_t n, void *p)
{
    (void)p;
    if (g_limit) { V_ASSERT(0, "an output beyond 255 blocks is refused before anything is computed"); V_CASE_END(); }
    mKey(c, k, n);
    return CRYPT_SUCCESS;
}
static int32_t tUpdate(void *c, const uint8_t *in, uint32_t n)
{
    V_ASSERT(((Tm *)c)->st == 1, "MAC updated only when keyed");
    mUpd(c, in, n);
    return CRYPT_SUCCESS;
}
static int32_t tFinal(void *c, uint8_t *out, uint32_t *n)
{
    V_ASSERT(((Tm *)c)->st == 1, "MAC finished only when keyed");
    if (*n < TD) { return CRYPT_INVALID_ARG; }
    mFin(c, out); *n = TD;
    return CRYPT_SUCCESS;
}
static int32_t tDeinit(void *c) { memset(c, 0, sizeof(Tm)); return CRYPT_SUCCESS; }
static int32_t tReinit(void *c)
{
    V_ASSERT(((Tm *)c)->st != 0, "MAC restarted only when keyed");
    ((Tm *)c)->acc = ((Tm *)c)->key; ((Tm *)c)->st = 1;
    return CRYPT_SUCCESS;
}
static void tFree(void *c) { (void)c; }
#ifdef REC
static bool g_rec;
/* the block counter of long outputs: the MAC records what it is given */
static uint32_t g_blk, g_pos;
static int32_t rInit(void *c, const uint8_t *k, uint32_t n, void *p) { (void)c; (void)k; (void)n; (void)p; g_pos = 0; return CRYPT_SUCCESS; }
static int32_t rReinit(void *c) { (void)c; g_pos = 0; return CRYPT_SUCCESS; }
static uint8_t g_fed[TD + 8];
static int32_t rUpdate(void *c, const uint8_t *in, uint32_t n)
{
    (void)c;
    for (uint32_t i = 0; i < n; i++) { if (g_pos < sizeof(g_fed)) { g_fed[g_pos] = in[i]; } g_pos++; }
    return CRYPT_SUCCESS;
}
static int32_t rFinal(void *c, uint8_t *out, uint32_t *n)
{
    (void)c;
    g_blk++;
#ifdef REC_HKDF
    V_ASSERT(g_pos == (g_blk == 1 ? 0 : TD) + 3, "info and counter follow the previous block");
    V_ASSERT(g_fed[g_pos - 1] == (uint8_t)g_blk, "HKDF block counter");
#else
    V_ASSERT(g_pos == 7, "salt and block counter");
    V_ASSERT(g_fed[3] == (uint8_t)(g_blk >> 24) && g_fed[4] == (uint8_t)(g_blk >> 16) && g_fed[5] == (uint8_t)(g_blk >> 8) && g_fed[6] == (uint8_t)g_blk, "PBKDF2 block counter");
#endif
    memset(out, 0, TD);
    *n = TD; g_pos = 0;
    return CRYPT_SUCCESS;
}
#endif
EAL_MacMethod *EAL_MacFindMethod(CRYPT_MAC_AlgId id, EAL_MacMethod *m)
{
    (void)id;
    memset(m, 0, sizeof(*m));
#ifdef REC
    if (g_rec) {
        m->newCtx = tNew; m->init = rInit; m->update = rUpdate; m->final = rFinal; m->deinit = tDeinit; m->reinit = rReinit; m->freeCtx = tFree;
        return m;
    }
#endif
    m->newCtx = tNew; m->init = tInit; m->update = tUpdate; m->final = tFinal; m->deinit = tDeinit; m->reinit = tReinit; m->freeCtx = tFree;
    return m;
}
EAL_MacMethod *EAL_MacFindMethodEx(CRYPT_MAC_AlgId id, void *libCtx, const char *attr, EAL_MacMethod *m, void **p) { (void)libCtx; (void)attr; (void)p; return EAL_MacFindMethod(id, m); }
int32_t EAL_MacFindDepMethod(CRYPT_MAC_AlgId macId, void *libCtx, const char *attrName, EAL_MacDepMethod *depMeth, void **provCtx, bool isProvider)
{
    (void)macId; (void)libCtx; (void)attrName; (void)provCtx; (void)isProvider;
    depMeth->method.md->mdSize = TD;
    return CRYPT_SUCCESS;
}
bool ParamIdIsValid(uint32_t id, const uint32_t *list, uint32_t num) { for (uint32_t i = 0; i < num; i++) { if (id == list[i]) { return true; } } return false; }
static void mac(const uint8_t *k, uint32_t kl, const uint8_t *a, uint32_t al, const uint8_t *b, uint32_t bl, const uint8_t *c, uint32_t cl, uint8_t *out)
{
    Tm t;
    mKey(&t, k, kl); mUpd(&t, a, al); mUpd(&t, b, bl); mUpd(&t, c, cl); mFin(&t, out);
}
static BSL_Param par(int32_t key, uint32_t type, void *v, uint32_t n) { BSL_Param p = {key, type, v, n, 0}; return p; }
#define LMAX 8
#ifndef OMAX
#define OMAX 24
#endif
static const uint32_t C[][5] = CASES;
static uint8_t key[LMAX], salt[LMAX], info[LMAX], out[OMAX + 1], want[OMAX];
static void hkdf(uint32_t kl, uint32_t sl, uint32_t il, uint32_t n, uint32_t mode)
{
    uint32_t id = CRYPT_MAC_HMAC_SHA256, md = mode, outLen = n;
    uint8_t prk[TD], t[TD];
    CRYPT_HKDF_Ctx *c = CRYPT_HKDF_NewCtx();
    V_ASSERT(c != NULL, "context");
    BSL_Param p[8] = { par(CRYPT_PARAM_KDF_MAC_ID, BSL_PARAM_TYPE_UINT32, &id, 4), par(CRYPT_PARAM_KDF_MODE, BSL_PARAM_TYPE_UINT32, &md, 4),
        par(mode == CRYPT_KDF_HKDF_MODE_EXPAND ? CRYPT_PARAM_KDF_PRK : CRYPT_PARAM_KDF_KEY, BSL_PARAM_TYPE_OCTETS, key, kl),
        par(CRYPT_PARAM_KDF_SALT, BSL_PARAM_TYPE_OCTETS, salt, sl), par(CRYPT_PARAM_KDF_INFO, BSL_PARAM_TYPE_OCTETS, info, il),
        par(CRYPT_PARAM_KDF_EXLEN, BSL_PARAM_TYPE_UINT32_PTR, &outLen, 4), {0} };
    V_ASSERT(CRYPT_HKDF_SetParam(c, p) == CRYPT_SUCCESS, "parameters");
    out[n] = 0x5a;
    V_ASSERT(CRYPT_HKDF_Derive(c, out, n) == CRYPT_SUCCESS, "derive");
    V_ASSERT(out[n] == 0x5a, "no more than asked for is written");
    const uint8_t *k = key; uint32_t pl = kl;
    if (mode != CRYPT_KDF_HKDF_MODE_EXPAND) { mac(salt, sl, key, kl, key, 0, key, 0, prk); k = prk; pl = TD; }
    if (mode == CRYPT_KDF_HKDF_MODE_EXTRACT) { V_ASSERT(outLen == TD, "length of the extracted key"); V_ASSERT(v_eq(out, prk, TD), "extracted key"); return; }
    for (uint32_t o = 0, i = 1; o < n; o += TD, i++) {
        uint8_t ctr = (uint8_t)i;
        mac(k, pl, t, i == 1 ? 0 : TD, info, il, &ctr, 1, t);
        memcpy(want + o, t, n - o < TD ? n - o : TD);
    }
    V_ASSERT(v_eq(out, want, n), "derived key");
}
static void tls12(uint32_t kl, uint32_t sl, uint32_t il, uint32_t n, uint32_t mode)
{
    (void)mode;
    uint32_t id = CRYPT_MAC_HMAC_SHA256;
    uint8_t a[TD], t[TD];
    CRYPT_KDFTLS12_Ctx *c = CRYPT_KDFTLS12_NewCtx();
    V_ASSERT(c != NULL, "context");
    BSL_Param p[5] = { par(CRYPT_PARAM_KDF_MAC_ID, BSL_PARAM_TYPE_UINT32, &id, 4), par(CRYPT_PARAM_KDF_KEY, BSL_PARAM_TYPE_OCTETS, key, kl),
        par(CRYPT_PARAM_KDF_LABEL, BSL_PARAM_TYPE_OCTETS, salt, sl), par(CRYPT_PARAM_KDF_SEED, BSL_PARAM_TYPE_OCTETS, info, il), {0} };
    V_ASSERT(CRYPT_KDFTLS12_SetParam(c, p) == CRYPT_SUCCESS, "parameters");
    out[n] = 0x5a;
    V_ASSERT(CRYPT_KDFTLS12_Derive(c, out, n) == CRYPT_SUCCESS, "derive");
    V_ASSERT(out[n] == 0x5a, "no more than asked for is written");
    mac(key, kl, salt, sl, info, il, key, 0, a);
    for (uint32_t o = 0; o < n; o += TD) {
        mac(key, kl, a, TD, salt, sl, info, il, t);
        memcpy(want + o, t, n - o < TD ? n - o : TD);
        mac(key, kl, a, TD, key, 0, key, 0, a);
    }
    V_ASSERT(v_eq(out, want, n), "P_hash output");
}
static void pbkdf2(uint32_t kl, uint32_t sl, uint32_t il, uint32_t n, uint32_t mode)
{
    (void)mode;
    uint32_t id = CRYPT_MAC_HMAC_SHA256, it = il;
    uint8_t u[TD], t[TD];
    CRYPT_PBKDF2_Ctx *c = CRYPT_PBKDF2_NewCtx();
    V_ASSERT(c != NULL, "context");
    BSL_Param p[5] = { par(CRYPT_PARAM_KDF_MAC_ID, BSL_PARAM_TYPE_UINT32, &id, 4), par(CRYPT_PARAM_KDF_PASSWORD, BSL_PARAM_TYPE_OCTETS, key, kl),
        par(CRYPT_PARAM_KDF_SALT, BSL_PARAM_TYPE_OCTETS, salt, sl), par(CRYPT_PARAM_KDF_ITER, BSL_PARAM_TYPE_UINT32, &it, 4), {0} };
    V_ASSERT(CRYPT_PBKDF2_SetParam(c, p) == CRYPT_SUCCESS, "parameters");
    out[n] = 0x5a;
    V_ASSERT(CRYPT_PBKDF2_Derive(c, out, n) == CRYPT_SUCCESS, "derive");
    V_ASSERT(out[n] == 0x5a, "no more than asked for is written");
    for (uint32_t o = 0, i = 1; o < n; o += TD, i++) {
        uint8_t be[4] = {(uint8_t)(i >> 24), (uint8_t)(i >> 16), (uint8_t)(i >> 8), (uint8_t)i};
        mac(key, kl, salt, sl, be, 4, key, 0, u);
        memcpy(t, u, TD);
        for (uint32_t j = 1; j < it; j++) {
            mac(key, kl, u, TD, key, 0, key, 0, u);
            for (uint32_t x = 0; x < TD; x++) { t[x] ^= u[x]; }
        }
        memcpy(want + o, t, n - o < TD ? n - o : TD);
    }
    V_ASSERT(v_eq(out, want, n), "derived key");
}
void h_kdf(void)
{
    uint8_t k = nd8();
    nd_bytes(key, LMAX); nd_bytes(salt, LMAX); nd_bytes(info, LMAX);
    for (uint32_t i = 0; i < sizeof(C) / sizeof(C[0]); i++) {
        if (k == i) {
            KDF(C[i][0], C[i][1], C[i][2], C[i][3], C[i][4]);
            V_WITNESS("derived");
            V_CASE_END();
        }
    }
}
int32_t CRYPT_PBKDF2_U1(const CRYPT_PBKDF2_Ctx *pCtx, uint32_t blockCount, uint8_t *u, uint32_t *blockSize);
#ifdef REC
static uint8_t big[1100];
void h_counter(void)
{
    EAL_MacMethod m;
    g_rec = true;
    EAL_MacFindMethod(CRYPT_MAC_HMAC_SHA256, &m);
    nd_bytes(salt, 3);
#ifdef REC_HKDF
    V_ASSERT(CRYPT_HKDF_Expand(tNew(NULL, 0), &m, TD, key, 3, salt, 2, big, 1019) == CRYPT_SUCCESS, "HKDF");
    V_ASSERT(g_blk == 255, "number of blocks");
#else
    /* one block, any block number */
    CRYPT_PBKDF2_Ctx *c = CRYPT_PBKDF2_NewCtx();
    uint32_t len = TD;
    uint32_t id = CRYPT_MAC_HMAC_SHA256;
    BSL_Param p[3] = { par(CRYPT_PARAM_KDF_MAC_ID, BSL_PARAM_TYPE_UINT32, &id, 4), par(CRYPT_PARAM_KDF_SALT, BSL_PARAM_TYPE_OCTETS, salt, 3), {0} };
    V_ASSERT(c != NULL && CRYPT_PBKDF2_SetParam(c, p) == CRYPT_SUCCESS, "parameters");
    g_blk = nd32();
    uint32_t n = g_blk + 1;
    V_ASSERT(CRYPT_PBKDF2_U1(c, n, big, &len) == CRYPT_SUCCESS && g_blk == n, "PBKDF2 block");
#endif
    V_WITNESS("derived");
}
#endif
/* HKDF-Expand: more than 255 blocks refused, for every length */
void h_hkdf_limit(void)
{
    EAL_MacMethod m;
    EAL_MacFindMethod(CRYPT_MAC_HMAC_SHA256, &m);
    uint32_t n = nd32();
    uint16_t md = nd16();
    g_limit = true;
    V_ASSUME(n > (uint32_t)md * 255 || n == 0);
    nd_bytes(key, LMAX);
    V_ASSERT(CRYPT_HKDF_Expand(tNew(NULL, 0), &m, md, key, LMAX, info, LMAX, out, n) != CRYPT_SUCCESS, "output beyond 255 blocks refused");
    V_WITNESS("refused");
}
