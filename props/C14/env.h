/* C14 environment: certificates as records of symbolic attributes, lists as static nodes. */
#include "v.h"
#include <string.h>
#include "hitls_build.h"
#include "bsl_types.h"
#include "bsl_list.h"
#include "bsl_sal.h"
#include "sal_time.h"
#include "hitls_pki_errno.h"
#include "hitls_pki_x509.h"
#include "hitls_cert_local.h"
#include "hitls_crl_local.h"
#include "hitls_x509_local.h"
#include "hitls_x509_verify.h"
#include "hitls_x509_store_local.h"
#include "crypt_eal_pkey.h"
/* lists: a node pool */
#ifndef NODES
#define NODES 24
#endif
#ifndef LISTS
#define LISTS 6
#endif
static BslListNode g_node[NODES];
static BslList g_list[LISTS];
static uint32_t g_nodes, g_lists;
static void ladd(BslList *l, void *data)
{
    V_ASSUME(g_nodes < NODES);
    BslListNode *n = &g_node[g_nodes++];
    n->data = data; n->next = NULL; n->prev = l->last;
    if (l->last != NULL) { l->last->next = n; } else { l->first = n; }
    l->last = n;
    l->count++;
}
BslList *BSL_LIST_New(int32_t size) { (void)size; V_ASSUME(g_lists < LISTS); BslList *l = &g_list[g_lists++]; l->first = l->last = NULL; l->count = 0; return l; }
int32_t BSL_LIST_AddElement(BslList *l, void *d, BslListPosition p) { (void)p; ladd(l, d); return BSL_SUCCESS; }
BslListNode *BSL_LIST_FirstNode(const BslList *l) { return l == NULL ? NULL : l->first; }
BslListNode *BSL_LIST_LastNode(const BslList *l) { return l == NULL ? NULL : l->last; }
void *BSL_LIST_FirstNodeData(const BslList *l) { return l == NULL || l->first == NULL ? NULL : l->first->data; }
BslListNode *BSL_LIST_GetNextNode(const BslList *l, const BslListNode *n) { (void)l; return n == NULL ? NULL : n->next; }
BslListNode *BSL_LIST_GetPrevNode(const BslListNode *n) { return n == NULL ? NULL : n->prev; }
void *BSL_LIST_GetData(const BslListNode *n) { return n == NULL ? NULL : n->data; }
void BSL_LIST_DeleteAll(BslList *l, BSL_LIST_PFUNC_FREE f) { (void)f; if (l != NULL) { l->count = 0; } }
void BSL_SAL_Free(void *p) { (void)p; }
void *BSL_SAL_Dump(const void *p, uint32_t n) { (void)n; return (void *)p; }
void BSL_ERR_SetMarkDummy(void) { }
int32_t BSL_ERR_SetMark(void) { return 0; }
int32_t BSL_ERR_PopToMark(void) { return 0; }
void BSL_ERR_PushError(int32_t e, const char *f, uint32_t l) { (void)e; (void)f; (void)l; }
int32_t BSL_SAL_ThreadReadLock(BSL_SAL_ThreadLockHandle l) { (void)l; return BSL_SUCCESS; }
int32_t BSL_SAL_ThreadUnlock(BSL_SAL_ThreadLockHandle l) { (void)l; return BSL_SUCCESS; }
void v_CertFree(HITLS_X509_Cert *x) { (void)x; }
BslCid BSL_OBJ_GetCidFromOidBuff(uint8_t *oid, uint32_t n) { (void)n; return (BslCid)(oid[0] + 0x100 * oid[1]); }
int32_t HITLS_X509_CrlCtrl(HITLS_X509_Crl *x, int32_t cmd, void *v, uint32_t n) { (void)x; (void)v; (void)n; V_ASSERT(cmd == HITLS_X509_REF_UP, "reference"); return 0; }
void HITLS_X509_CrlFree(HITLS_X509_Crl *c) { (void)c; }

#ifndef NC
#define NC 3
#endif
typedef struct { bool v, self, bc, ca, kuPresent, sigOk, algSame, startOk, endOk, crit; int32_t pathLen; uint32_t ku; int64_t start, end; uint32_t bits; int32_t md, ver; } A;
static A a[NC];
static HITLS_X509_Cert c[NC];
static HITLS_X509_CertExt ext[NC];
static BslList nmS[NC], nmI[NC], extList[NC];
static uint8_t key[NC], raw[NC], sigb[NC];
static HITLS_X509_ExtEntry entry[NC];
static BslListNode extNode[NC];
static bool nameOk[NC][NC], akiOk[NC][NC], algOk[NC][NC], sigOk[NC][NC]; /* [issuer][subject] */
static uint32_t idx(const void *p) { for (uint32_t i = 0; i < NC; i++) { if (p == &c[i]) { return i; } } V_ASSERT(0, "a certificate"); return 0; }
static bool links(uint32_t j, uint32_t i) { return nameOk[j][i] && algOk[j][i] && (c[j].tbs.version != HITLS_X509_VERSION_3 || c[i].tbs.version != HITLS_X509_VERSION_3 || akiOk[j][i]); }
static uint32_t certByKey(const void *k) { for (uint32_t j = 0; j < NC; j++) { if (k == &key[j]) { return j; } } V_ASSERT(0, "a key of the chain"); return 0; }
#ifdef NCRL
static HITLS_X509_Crl crl[NCRL];
static BslList crlName[NCRL], crlExtList[NCRL], revokedList[NCRL];
static uint8_t crlRaw[NCRL], crlSig[NCRL];
typedef struct { bool named[NC], aki, alg, algSame, sig, startOk, endOk, hasEnd, crit; int64_t start, end; } L;
static L l[NCRL];
#endif
static int32_t nameRel(const void *x, const void *y)
{
    for (uint32_t j = 0; j < NC; j++) {
        if (x != &nmS[j]) { continue; }
        for (uint32_t i = 0; i < NC; i++) {
            if (y == &nmI[i]) { return nameOk[j][i] ? 0 : 1; }
            if (y == &nmS[i]) { return i == j ? 0 : 1; }
        }
#ifdef NCRL
        for (uint32_t i = 0; i < NCRL; i++) { if (y == &crlName[i]) { return l[i].named[j] ? 0 : 1; } }
#endif
    }
    return -1;
}
int32_t HITLS_X509_CmpNameNode(BSL_ASN1_List *x, BSL_ASN1_List *y)
{
    int32_t r = nameRel(x, y);
    if (r < 0) { r = nameRel(y, x); }
    V_ASSERT(r >= 0, "names of certificates");
    return r;
}
int32_t HITLS_X509_CheckAki(HITLS_X509_Ext *x, HITLS_X509_Ext *y, BSL_ASN1_List *n, BSL_ASN1_Buffer *s)
{
    for (uint32_t j = 0; j < NC; j++) {
        if (x != &c[j].tbs.ext) { continue; }
        V_ASSERT(n == c[j].tbs.issuerName && s == &c[j].tbs.serialNum, "the issuer's identity");
        for (uint32_t i = 0; i < NC; i++) { if (y == &c[i].tbs.ext) { return akiOk[j][i] ? 0 : HITLS_X509_ERR_VFY_AKI_SKI_NOT_MATCH; } }
#ifdef NCRL
        for (uint32_t i = 0; i < NCRL; i++) { if (y == &crl[i].tbs.crlExt) { return l[i].aki ? 0 : HITLS_X509_ERR_VFY_AKI_SKI_NOT_MATCH; } }
#endif
    }
    V_ASSERT(0, "extensions of certificates");
    return 1;
}
int32_t HITLS_X509_CheckAlg(CRYPT_EAL_PkeyCtx *k, const HITLS_X509_Asn1AlgId *alg)
{
    uint32_t j = certByKey(k);
    for (uint32_t i = 0; i < NC; i++) { if (alg == &c[i].tbs.signAlgId) { return algOk[j][i] ? 0 : HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH; } }
#ifdef NCRL
    for (uint32_t i = 0; i < NCRL; i++) {
        if (alg == &crl[i].tbs.signAlgId) { return l[i].alg && l[i].named[j] ? 0 : HITLS_X509_ERR_VFY_SIGNALG_NOT_MATCH; }
    }
#endif
    V_ASSERT(0, "algorithm of a certificate");
    return 1;
}
int32_t HITLS_X509_CheckSignAlgConsistency(const HITLS_X509_Asn1AlgId *in, const HITLS_X509_Asn1AlgId *out)
{
    for (uint32_t i = 0; i < NC; i++) { if (in == &c[i].tbs.signAlgId && out == &c[i].signAlgId) { return a[i].algSame ? 0 : 77; } }
#ifdef NCRL
    for (uint32_t i = 0; i < NCRL; i++) {
        if (in == &crl[i].tbs.signAlgId && out == &crl[i].signAlgId) { return l[i].algSame ? 0 : 77; }
    }
#endif
    V_ASSERT(0, "both algorithm fields of a certificate");
    return 1;
}
int32_t HITLS_X509_CheckSignature(const CRYPT_EAL_PkeyCtx *k, uint8_t *r, uint32_t n, const HITLS_X509_Asn1AlgId *alg, const BSL_ASN1_BitString *s)
{
    uint32_t j = certByKey(k);
    (void)alg;
    for (uint32_t i = 0; i < NC; i++) {
        if (r == &raw[i]) { V_ASSERT(n == 1 && s->buff == &sigb[i], "the certificate's own signature over all of it"); return sigOk[j][i] ? 0 : HITLS_X509_ERR_VFY_CERT_SIGN_FAIL; }
    }
#ifdef NCRL
    for (uint32_t i = 0; i < NCRL; i++) {
        if (r == &crlRaw[i]) { V_ASSERT(n == 1 && s->buff == &crlSig[i], "the CRL's own signature over all of it"); return l[i].sig && l[i].named[j] ? 0 : HITLS_X509_ERR_VFY_CRLSIGN_FAIL; }
    }
#endif
    V_ASSERT(0, "signed part of a certificate");
    return 1;
}
int32_t HITLS_X509_GetSignMdAlg(const HITLS_X509_Asn1AlgId *alg, int32_t *v, uint32_t n)
{
    (void)n;
    for (uint32_t i = 0; i < NC; i++) { if (alg == &c[i].signAlgId) { *v = a[i].md; return 0; } }
    return 1;
}
uint32_t CRYPT_EAL_PkeyGetSecurityBits(const CRYPT_EAL_PkeyCtx *k) { return a[certByKey(k)].bits; }
CRYPT_PKEY_AlgId CRYPT_EAL_PkeyGetId(const CRYPT_EAL_PkeyCtx *k) { (void)k; return CRYPT_PKEY_RSA; }
int32_t BSL_SAL_DateToUtcTimeConvert(const BSL_TIME *d, int64_t *t)
{
    for (uint32_t i = 0; i < NC; i++) {
        if (d == &c[i].tbs.validTime.start) { *t = a[i].start; return a[i].startOk ? BSL_SUCCESS : BSL_INTERNAL_EXCEPTION; }
        if (d == &c[i].tbs.validTime.end) { *t = a[i].end; return a[i].endOk ? BSL_SUCCESS : BSL_INTERNAL_EXCEPTION; }
    }
#ifdef NCRL
    for (uint32_t i = 0; i < NCRL; i++) {
        if (d == &crl[i].tbs.validTime.start) { *t = l[i].start; return l[i].startOk ? BSL_SUCCESS : BSL_INTERNAL_EXCEPTION; }
        if (d == &crl[i].tbs.validTime.end) { *t = l[i].end; return l[i].endOk ? BSL_SUCCESS : BSL_INTERNAL_EXCEPTION; }
    }
#endif
    V_ASSERT(0, "validity of a certificate");
    return 1;
}
int32_t v_CertCtrl(HITLS_X509_Cert *x, int32_t cmd, void *v, uint32_t n) { (void)x; (void)v; (void)n; V_ASSERT(cmd == HITLS_X509_REF_UP, "reference"); return 0; }
static void certs(void)
{
    for (uint32_t i = 0; i < NC; i++) {
        a[i].bc = ndbool(); a[i].ca = ndbool(); a[i].kuPresent = ndbool(); a[i].algSame = ndbool(); a[i].startOk = ndbool(); a[i].endOk = ndbool();
        a[i].pathLen = (int32_t)nd_range(0, NC + 1) - 1; a[i].ku = nd16(); a[i].start = (int64_t)nd64(); a[i].end = (int64_t)nd64();
        a[i].bits = nd_range(0, 300); a[i].md = nd_range(0, 3) == 0 ? CRYPT_MD_SHA1 : ndbool() ? CRYPT_MD_SHA256 : CRYPT_MD_SHA512;
        a[i].ver = (int32_t)nd_range(0, 2);
        raw[i] = (uint8_t)(i + 1);
        c[i].tbs.tbsRawData = &raw[i]; c[i].tbs.tbsRawDataLen = 1; c[i].tbs.version = a[i].ver;
        c[i].tbs.issuerName = (BSL_ASN1_List *)&nmI[i]; c[i].tbs.subjectName = (BSL_ASN1_List *)&nmS[i];
        c[i].tbs.ealPubKey = (CRYPT_EAL_PkeyCtx *)&key[i]; c[i].signature.buff = &sigb[i]; c[i].signature.len = 1;
        c[i].tbs.ext.extData = &ext[i];
        ext[i].extFlags = (a[i].bc ? HITLS_X509_EXT_FLAG_BCONS : 0) | (a[i].kuPresent ? HITLS_X509_EXT_FLAG_KUSAGE : 0);
        ext[i].isCa = a[i].ca; ext[i].maxPathLen = a[i].pathLen; ext[i].keyUsage = a[i].ku;
        /* one extension entry, of any kind, or none; the cid list is what the library says it processes */
        bool known = ndbool(), crit = ndbool(), any = ndbool();
        entry[i].cid = known ? BSL_CID_CE_KEYUSAGE : ndbool() ? BSL_CID_CE_NAMECONSTRAINTS : ndbool() ? BSL_CID_CE_POLICYCONSTRAINTS : BSL_CID_UNKNOWN;
        entry[i].critical = crit && any;
        a[i].crit = crit && any && !known;
        extNode[i].data = &entry[i]; extList[i].first = extList[i].last = &extNode[i]; extList[i].count = any ? 1 : 0;
        c[i].tbs.ext.extList = &extList[i];
        for (uint32_t j = 0; j < NC; j++) { sigOk[j][i] = ndbool(); }
    }
}
