/* C16: RSA encodings: PSS, PKCS#1 v1.5 signatures and encryption, OAEP (RFC 8017). */
#include "v.h"
#include <string.h>
#include "hitls_build.h"
#include "crypt_errno.h"
#include "crypt_types.h"
#include "rsa_local.h"
#include "crypt_utils.h"
void BSL_ERR_PushError(int32_t e, const char *f, uint32_t l) { (void)e; (void)f; (void)l; }
/* memory */
#define MEM 160
static uint8_t g_m0[MEM], g_m1[MEM];
static uint32_t g_mem;
void *BSL_SAL_Malloc(uint32_t n)
{
    V_ASSERT(n <= MEM, "size");
    if (g_mem++ == 0) { return g_m0; }
    V_ASSERT(g_mem == 2, "two buffers at most");
    return g_m1;
}
void *BSL_SAL_Dump(const void *p, uint32_t n)
{
    uint8_t *d = BSL_SAL_Malloc(n);
    for (uint32_t i = 0; i < MEM; i++) { if (i < n) { d[i] = ((const uint8_t *)p)[i]; } }
    return d;
}
void BSL_SAL_Free(void *p) { (void)p; }
void BSL_SAL_ClearFree(void *p, uint32_t n) { (void)p; (void)n; }
void BSL_SAL_CleanseData(void *p, uint32_t n) { for (uint32_t i = 0; i < MEM; i++) { if (i < n) { ((uint8_t *)p)[i] = 0; } } }
/* random bytes: the stream g_rnd */
static uint8_t g_rnd[MEM];
static uint32_t g_rndUsed;
int32_t CRYPT_RandEx(void *lib, uint8_t *r, uint32_t n)
{
    (void)lib;
#ifdef H_T2 /* any bytes; at most two are drawn again */
    if (n == 1) { V_ASSUME(g_rndUsed < 2); g_rndUsed++; }
    for (uint32_t i = 0; i < n; i++) { r[i] = nd8(); }
    return CRYPT_SUCCESS;
#endif
    for (uint32_t i = 0; i < n; i++) { V_ASSUME(g_rndUsed < MEM); r[i] = g_rnd[g_rndUsed++]; }
    return CRYPT_SUCCESS;
}
#ifndef HL
#define HL 4
#endif
/* the hash: any value; what was hashed is kept */
static uint8_t g_in[MEM], g_out[HL];
static uint32_t g_inLen, g_hashes;
int32_t CRYPT_CalcHash(void *prov, const EAL_MdMethod *m, const CRYPT_ConstData *d, uint32_t n, uint8_t *out, uint32_t *outLen)
{
    (void)prov; (void)m;
    g_inLen = 0; g_hashes++;
    for (uint32_t k = 0; k < n; k++) {
        for (uint32_t i = 0; i < d[k].len; i++) { if (g_inLen < MEM) { g_in[g_inLen] = d[k].data[i]; } g_inLen++; }
    }
    V_ASSERT(*outLen >= HL, "room for the digest");
    for (uint32_t i = 0; i < HL; i++) { out[i] = g_out[i]; }
    *outLen = HL;
    return CRYPT_SUCCESS;
}
/* the mask: any value; one for each of up to two calls */
static uint8_t g_seed[2][MEM], g_mask[2][MEM];
static uint32_t g_seedLen[2], g_maskLen[2], g_masks;
int32_t CRYPT_Mgf1(void *prov, const EAL_MdMethod *m, const uint8_t *s, const uint32_t sn, uint8_t *out, uint32_t n)
{
    (void)prov; (void)m;
    uint32_t k = g_masks++;
    V_ASSERT(k < 2 && sn <= MEM && n <= MEM, "mask calls");
    for (uint32_t i = 0; i < sn; i++) { g_seed[k][i] = s[i]; }
    g_seedLen[k] = sn; g_maskLen[k] = n;
    for (uint32_t i = 0; i < n; i++) { out[i] = g_mask[k][i]; }
    return CRYPT_SUCCESS;
}
static CRYPT_RSA_Ctx g_ctx;
static EAL_MdMethod g_md;
#ifndef KB
#define KB 512
#endif
uint32_t CRYPT_RSA_GetBits(const CRYPT_RSA_Ctx *c) { (void)c; return KB; }
uint32_t CRYPT_GetMdSizeById(CRYPT_MD_AlgId id) { return id == CRYPT_MD_MD5 ? 16 : id == CRYPT_MD_SHA1 ? 20 : id == CRYPT_MD_SHA224 ? 28 : id == CRYPT_MD_SHA256 || id == CRYPT_MD_SM3 ? 32 : id == CRYPT_MD_SHA384 ? 48 : id == CRYPT_MD_SHA512 ? 64 : 0; }
static void model(void)
{
    nd_bytes(g_rnd, MEM); nd_bytes(g_out, HL); nd_bytes(g_mask[0], MEM); nd_bytes(g_mask[1], MEM);
    g_md.mdSize = HL; g_md.id = CRYPT_MD_SHA256;
    g_ctx.pad.para.pss.mdMeth.mdSize = HL;
    g_ctx.pad.para.pss.mgfMeth.mdSize = HL;
}
#ifdef H_PSS
#define K ((KB + 7) / 8)
#define EL ((KB - 1 + 7) / 8)
#define DL (EL - HL - 1)
#define TOP (8 * EL - (KB - 1)) /* unused bits of the first byte */
static uint8_t g_em[K], g_hash[HL];
/* the encoded message that belongs to salt[0..sl-1], the hash outputs and masks of the model */
static void encoded(const uint8_t *salt, uint32_t sl, uint8_t *em)
{
    uint8_t *e = em + (K - EL);
    em[0] = 0;
    for (uint32_t i = 0; i < DL; i++) { e[i] = g_mask[0][i]; }
    e[DL - sl - 1] ^= 1;
    for (uint32_t i = 0; i < sl; i++) { e[DL - sl + i] ^= salt[i]; }
    e[0] &= (uint8_t)(0xFF >> TOP);
    for (uint32_t i = 0; i < HL; i++) { e[DL + i] = g_out[i]; }
    e[EL - 1] = 0xbc;
}
static void used(const uint8_t *salt, uint32_t sl)
{
    V_ASSERT(g_hashes == 1 && g_inLen == 8 + HL + sl, "length of the message hashed");
    for (uint32_t i = 0; i < 8 + HL + sl; i++) { V_ASSERT(g_in[i] == (i < 8 ? 0 : i < 8 + HL ? g_hash[i - 8] : salt[i - 8 - HL]), "message hashed"); }
    V_ASSERT(g_masks == 1 && g_seedLen[0] == HL && g_maskLen[0] == DL, "mask of the data block");
    for (uint32_t i = 0; i < HL; i++) { V_ASSERT(g_seed[0][i] == g_em[K - EL + DL + i], "mask seed"); }
}
static uint8_t want[K];
static uint32_t g_kind;
static void pss_set(uint32_t sl)
{
    if (g_kind == 1 && sl != HL) { return; }
    int32_t a = g_kind == 1 ? CRYPT_RSA_SALTLEN_TYPE_HASHLEN : g_kind == 2 ? CRYPT_RSA_SALTLEN_TYPE_AUTOLEN : (int32_t)sl;
    if (g_kind == 2 && (sl != DL - 1 || EL != K)) { return; }
    nd_bytes(g_hash, HL);
    int32_t r = CRYPT_RSA_SetPss(&g_ctx, &g_md, &g_md, (uint32_t)a, g_hash, HL, g_em, K);
    V_ASSERT((r == CRYPT_SUCCESS) == (sl + 1 <= DL), "encoded exactly when it fits");
    if (r == CRYPT_SUCCESS) {
        encoded(g_rnd, sl, want);
        for (uint32_t i = 0; i < K; i++) { V_ASSERT(g_em[i] == want[i], "encoding"); }
        used(g_rnd, sl);
        V_WITNESS("encoded");
    } else { V_WITNESS("too long"); }
    V_CASE_END();
}
void h_pss_set(void)
{
    model();
    g_kind = 0;
    uint32_t sl = nd32();
#ifdef SETKIND
    g_kind = SETKIND;
#endif
    V_ASSUME(sl <= DL + 1);
    V_SPLIT(sl, 0, DL + 1, pss_set);
}
static void pss_verify(uint32_t sl)
{
    /* sl: the salt length asked for, or the one to be found */
    if (sl > DL + 1) { return; }
    nd_bytes(g_hash, HL); nd_bytes(g_em, K);
    uint8_t *e = g_em + (K - EL);
    uint8_t db[DL];
    for (uint32_t i = 0; i < DL; i++) { db[i] = e[i] ^ g_mask[0][i]; }
    db[0] &= (uint8_t)(0xFF >> TOP);
    int32_t a = (int32_t)sl;
#ifdef AUTO
    if (sl + 1 > DL) { return; }
    a = CRYPT_RSA_SALTLEN_TYPE_AUTOLEN;
    for (uint32_t i = 0; i + sl + 1 < DL; i++) { V_ASSUME(db[i] == 0); }
    V_ASSUME(db[DL - sl - 1] != 0);
#endif
#ifdef HASHLEN
    if (sl != HL) { return; }
    a = CRYPT_RSA_SALTLEN_TYPE_HASHLEN;
#endif
    bool ok = sl + 1 <= DL && g_em[K - 1] == 0xbc && (K == EL || g_em[0] == 0) && (e[0] & (uint8_t)~(0xFF >> TOP)) == 0;
    if (sl + 1 <= DL) {
        for (uint32_t i = 0; i + sl + 1 < DL; i++) { ok = ok && db[i] == 0; }
        ok = ok && db[DL - sl - 1] == 1;
    }
    for (uint32_t i = 0; i < HL; i++) { ok = ok && e[DL + i] == g_out[i]; }
    int32_t r = CRYPT_RSA_VerifyPss(&g_ctx, &g_md, &g_md, (uint32_t)a, g_hash, HL, g_em, K);
    V_ASSERT((r == CRYPT_SUCCESS) == ok, "accepted exactly when it is the encoding");
    if (r == CRYPT_SUCCESS) {
        used(db + (DL - sl), sl);
        V_WITNESS("accepted");
    } else { V_WITNESS("refused"); }
    V_CASE_END();
}
void h_pss_verify(void)
{
    model();
    uint32_t sl = nd32();
    V_ASSUME(sl <= DL + 1);
    V_SPLIT(sl, 0, DL + 1, pss_verify);
}
#endif
#ifdef H_T1
#define PL 128
static uint8_t g_pad[PL], g_data[64], g_w[PL];
static const uint8_t arc_md5[] = { 0x30, 0x20, 0x30, 0x0c, 6, 8, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 2, 5, 5, 0, 4, 16 };
static const uint8_t arc_sm3[] = { 0x30, 0x30, 0x30, 0x0c, 6, 8, 0x2a, 0x81, 0x1c, 0xcf, 0x55, 1, 0x83, 0x11, 5, 0, 4, 32 };
static const uint8_t arc_sha1[] = { 0x30, 0x21, 0x30, 9, 6, 5, 0x2b, 0x0e, 3, 2, 0x1a, 5, 0, 4, 20 };
static void type1(uint32_t i)
{
    static const CRYPT_MD_AlgId ids[] = { CRYPT_MD_MD5, CRYPT_MD_SHA1, CRYPT_MD_SHA224, CRYPT_MD_SHA256, CRYPT_MD_SHA384, CRYPT_MD_SHA512, CRYPT_MD_SM3, CRYPT_MD_SHA3_256 };
    CRYPT_MD_AlgId id = ids[i];
    uint32_t hl = CRYPT_GetMdSizeById(id);
    nd_bytes(g_data, 64); nd_bytes(g_pad, PL);
    if (hl == 0) {
        V_ASSERT(CRYPT_RSA_VerifyPkcsV15Type1(id, g_pad, PL, g_data, 32) != CRYPT_SUCCESS, "unknown digest refused");
        V_ASSERT(CRYPT_RSA_SetPkcsV15Type1(id, g_data, 32, g_pad, PL) != CRYPT_SUCCESS, "unknown digest refused");
        V_CASE_END(); return;
    }
    uint8_t di[19] = { 0x30, (uint8_t)(17 + hl), 0x30, 13, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 0, 5, 0, 4, (uint8_t)hl };
    uint32_t dl = 19;
    di[14] = id == CRYPT_MD_SHA224 ? 4 : id == CRYPT_MD_SHA256 ? 1 : id == CRYPT_MD_SHA384 ? 2 : 3;
    if (id == CRYPT_MD_MD5) { dl = 18; for (uint32_t b = 0; b < 18; b++) { di[b] = arc_md5[b]; } }
    if (id == CRYPT_MD_SM3) { dl = 18; for (uint32_t b = 0; b < 18; b++) { di[b] = arc_sm3[b]; } }
    if (id == CRYPT_MD_SHA1) { dl = 15; for (uint32_t b = 0; b < 15; b++) { di[b] = arc_sha1[b]; } }
    for (uint32_t b = 0; b < PL; b++) { g_w[b] = b == 0 || b == PL - hl - dl - 1 ? 0 : b == 1 ? 1 : b < PL - hl - dl ? 0xff : b < PL - hl ? di[b - (PL - hl - dl)] : g_data[b - (PL - hl)]; }
    bool ok = true;
    for (uint32_t b = 0; b < PL; b++) { ok = ok && g_pad[b] == g_w[b]; }
#if MODE == 0
    int32_t r = CRYPT_RSA_VerifyPkcsV15Type1(id, g_pad, PL, g_data, hl);
    V_ASSERT((r == CRYPT_SUCCESS) == ok, "accepted exactly when it is the encoding");
    if (r == CRYPT_SUCCESS) { V_WITNESS("accepted"); }
#elif MODE == 1
    uint8_t out[64];
    uint32_t n = nd_range(0, 64), n0 = n;
    bool well = true;
    for (uint32_t b = 0; b < PL - hl; b++) { well = well && g_pad[b] == g_w[b]; }
    int32_t r = CRYPT_RSA_UnPackPkcsV15Type1(id, g_pad, PL, out, &n);
    V_ASSERT((r == CRYPT_SUCCESS) == (well && n0 >= hl), "recovered exactly from an encoding");
    if (r == CRYPT_SUCCESS) {
        V_ASSERT(n == hl, "digest length");
        for (uint32_t b = 0; b < hl; b++) { V_ASSERT(out[b] == g_pad[PL - hl + b], "digest recovered"); }
        V_WITNESS("accepted");
    }
#else
    V_ASSERT(CRYPT_RSA_SetPkcsV15Type1(id, g_data, hl, g_pad, PL) == CRYPT_SUCCESS, "encoded");
    for (uint32_t b = 0; b < PL; b++) { V_ASSERT(g_pad[b] == g_w[b], "encoding"); }
    for (uint32_t n = 0; n < hl + dl + 11; n++) { V_ASSERT(CRYPT_RSA_SetPkcsV15Type1(id, g_data, hl, g_pad, n) != CRYPT_SUCCESS, "at least eight padding bytes"); }
    V_WITNESS("accepted");
#endif
    V_CASE_END();
}
void h_type1(void)
{
    uint32_t i = nd32();
    V_ASSUME(i <= 7);
    V_SPLIT(i, 0, 7, type1);
}
#endif
#ifdef H_T2
#ifndef TN
#define TN 20
#endif
#define TO 8
static uint8_t g_t[TN], g_o[TO + 4], g_o0[TO + 4];
/* a block of n bytes: where the message starts, 0 when it is malformed */
static uint32_t start(const uint8_t *b, uint32_t n)
{
    uint32_t z = 0;
    for (uint32_t i = TN - 1; i >= 2; i--) { if (i < n && b[i] == 0) { z = i; } }
    return b[0] == 0 && b[1] == 2 && z >= 10 ? z + 1 : 0;
}
static void type2(uint32_t n)
{
    nd_bytes(g_t, TN); nd_bytes(g_o, TO + 4);
    for (uint32_t i = 0; i < TO + 4; i++) { g_o0[i] = g_o[i]; }
    uint32_t s = start(g_t, n);
#ifdef TLSPAD
    uint32_t room = nd_range(1, TO), o = room;
    int32_t r = CRYPT_RSA_VerifyPkcsV15Type2TLS(g_t, n, g_o, &o);
    V_ASSERT((r == CRYPT_SUCCESS) == (s != 0 && n - s <= room), "accepted exactly when well formed and not too long");
    V_ASSERT(o == (r == CRYPT_SUCCESS ? n - s : room), "length");
    for (uint32_t i = 0; i < TO + 4; i++) { V_ASSERT(g_o[i] == (i >= room ? g_o0[i] : r == CRYPT_SUCCESS && i < n - s ? g_t[s + i] : 0), "message, or nothing of it"); }
#else
    uint32_t room = nd_range(0, TO), o = room;
    int32_t r = CRYPT_RSA_VerifyPkcsV15Type2(g_t, n, g_o, &o);
    V_ASSERT((r == CRYPT_SUCCESS) == (s != 0 && n - s <= room), "accepted exactly when well formed and not too long");
    for (uint32_t i = 0; i < TO + 4; i++) { V_ASSERT(g_o[i] == (r == CRYPT_SUCCESS && i < n - s ? g_t[s + i] : g_o0[i]), "message, or nothing"); }
    if (r == CRYPT_SUCCESS) { V_ASSERT(o == n - s, "length"); }
#endif
    if (r == CRYPT_SUCCESS) { V_WITNESS("accepted"); } else { V_WITNESS("refused"); }
    V_CASE_END();
}
static void type2_set(uint32_t m)
{
    nd_bytes(g_t, TN);
    uint8_t in[TN];
    nd_bytes(in, TN);
    int32_t r = CRYPT_RSA_SetPkcsV15Type2(NULL, in, m, g_t, TN);
    V_ASSERT((r == CRYPT_SUCCESS) == (m + 11 <= TN), "encoded exactly when at least eight padding bytes fit");
    if (r == CRYPT_SUCCESS) {
        V_ASSERT(start(g_t, TN) == TN - m, "padding without zeros, then the message");
        for (uint32_t i = 0; i < m; i++) { V_ASSERT(g_t[TN - m + i] == in[i], "message"); }
        V_WITNESS("encoded");
    } else { V_WITNESS("too long"); }
    V_CASE_END();
}
void h_type2(void)
{
    uint32_t n = nd32();
#ifdef SET
    V_ASSUME(n <= TN - 8); V_SPLIT(n, 0, TN - 8, type2_set);
#else
    V_ASSUME(n >= 10 && n <= TN); V_SPLIT(n, 10, TN, type2);
#endif
}
#endif
#ifdef H_OAEP
#define N (2 * HL + 2 + ML)
#define DBL (N - HL - 1)
static uint8_t g_b[N], g_msg[ML + 4], g_msg0[ML + 4], g_label[3];
static void oaep_dec(uint32_t room)
{
    nd_bytes(g_b, N); nd_bytes(g_label, 3); nd_bytes(g_msg, ML + 4);
    for (uint32_t i = 0; i < ML + 4; i++) { g_msg0[i] = g_msg[i]; }
    g_ctx.pad.para.oaep.mdMeth.mdSize = HL; g_ctx.pad.para.oaep.mgfMeth.mdSize = HL;
    uint8_t db[DBL];
    for (uint32_t i = 0; i < DBL; i++) { db[i] = g_b[1 + HL + i] ^ g_mask[1][i]; }
    bool ok = g_b[0] == 0;
    for (uint32_t i = 0; i < HL; i++) { ok = ok && db[i] == g_out[i]; }
    uint32_t one = 0;
    for (uint32_t i = DBL; i-- > HL;) { if (db[i] != 0) { one = i; } }
    ok = ok && one != 0 && db[one] == 1;
    uint32_t n = room, ml = DBL - one - 1;
    ok = ok && ml <= room && room > 0;
    int32_t r = CRYPT_RSA_VerifyPkcs1Oaep(&g_ctx.pad.para.oaep, g_b, N, g_label, 3, g_msg, &n);
    V_ASSERT((r == CRYPT_SUCCESS) == ok, "accepted exactly when it is an encoding for the label");
    for (uint32_t i = 0; i < ML + 4; i++) { V_ASSERT(g_msg[i] == (ok && i < ml ? db[one + 1 + i] : g_msg0[i]), "message, or nothing"); }
    V_ASSERT(n == (ok ? ml : room), "length");
    if (ok) {
        V_ASSERT(g_masks == 2 && g_seedLen[0] == DBL && g_maskLen[0] == HL && g_seedLen[1] == HL && g_maskLen[1] == DBL, "masks");
        for (uint32_t i = 0; i < DBL; i++) { V_ASSERT(g_seed[0][i] == g_b[1 + HL + i], "seed mask from the masked block"); }
        for (uint32_t i = 0; i < HL; i++) { V_ASSERT(g_seed[1][i] == (uint8_t)(g_b[1 + i] ^ g_mask[0][i]), "block mask from the seed"); }
        V_ASSERT(g_hashes == 1 && g_inLen == 3 && g_in[0] == g_label[0] && g_in[1] == g_label[1] && g_in[2] == g_label[2], "hash of the label");
        V_WITNESS("accepted");
    } else { V_WITNESS("refused"); }
    V_CASE_END();
}
static void oaep_enc(uint32_t m)
{
    uint8_t in[ML + 2];
    nd_bytes(in, ML + 2); nd_bytes(g_label, 3); nd_bytes(g_b, N);
    g_ctx.label.data = g_label; g_ctx.label.len = 3;
    g_ctx.pad.para.oaep.mdMeth.mdSize = HL; g_ctx.pad.para.oaep.mgfMeth.mdSize = HL;
    int32_t r = CRYPT_RSA_SetPkcs1Oaep(&g_ctx, in, m, g_b, N);
    V_ASSERT((r == CRYPT_SUCCESS) == (m <= ML), "encoded exactly when it fits");
    if (r == CRYPT_SUCCESS) {
        V_ASSERT(g_b[0] == 0 && g_rndUsed == HL, "leading zero, fresh seed");
        for (uint32_t i = 0; i < HL; i++) { V_ASSERT(g_b[1 + i] == (uint8_t)(g_rnd[i] ^ g_mask[1][i]), "masked seed"); V_ASSERT(g_seed[0][i] == g_rnd[i], "block mask from the seed"); }
        for (uint32_t i = 0; i < DBL; i++) {
            uint8_t d = i < HL ? g_out[i] : i < DBL - m - 1 ? 0 : i == DBL - m - 1 ? 1 : in[i - (DBL - m)];
            V_ASSERT(g_b[1 + HL + i] == (uint8_t)(d ^ g_mask[0][i]), "masked block");
            V_ASSERT(g_seed[1][i] == g_b[1 + HL + i], "seed mask from the masked block");
        }
        V_ASSERT(g_masks == 2 && g_seedLen[0] == HL && g_maskLen[0] == DBL && g_seedLen[1] == DBL && g_maskLen[1] == HL, "masks");
        V_ASSERT(g_hashes == 1 && g_inLen == 3 && g_in[0] == g_label[0] && g_in[1] == g_label[1] && g_in[2] == g_label[2], "hash of the label");
        V_WITNESS("encoded");
    } else { V_WITNESS("too long"); }
    V_CASE_END();
}
void h_oaep(void)
{
    model();
    uint32_t m = nd32();
#ifdef SET
    V_ASSUME(m <= ML + 2); V_SPLIT(m, 0, ML + 2, oaep_enc);
#else
    V_ASSUME(m <= ML + 2); V_SPLIT(m, 0, ML + 2, oaep_dec);
#endif
}
#endif
