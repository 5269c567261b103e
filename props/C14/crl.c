/* C14: revocation checking of a valid chain with CRLs, and the purpose of the end-entity certificate. */
#include "env.h"
static HITLS_X509_StoreCtx g_sc;
static HITLS_X509_Store g_store;
static BslList g_trustList, g_given, g_crls;
static uint32_t g_final;
static int64_t g_now;
BslUnixTime BSL_SAL_CurrentSysTimeGet(void) { return g_now; }
static int32_t Cb(int32_t err, HITLS_X509_StoreCtx *s) { (void)s; if (err == HITLS_PKI_SUCCESS) { g_final++; } return err; }
/* a valid chain c[0] <- c[1] <- ... with a trusted self-signed root */
static void valid(uint64_t flags)
{
    for (uint32_t i = 0; i < NC; i++) {
        bool last = i == NC - 1;
        c[i].isSelfIssued = last;
        nameOk[i][i] = akiOk[i][i] = algOk[i][i] = last;
        if (!last) { nameOk[i + 1][i] = akiOk[i + 1][i] = algOk[i + 1][i] = true; }
    }
    certs();
    g_now = (int64_t)nd64();
    V_ASSUME(g_now > 0);
    for (uint32_t i = 0; i < NC; i++) {
        a[i].bc = a[i].ca = a[i].algSame = a[i].startOk = a[i].endOk = true; a[i].crit = false;
        a[i].pathLen = -1; a[i].start = 0; a[i].end = g_now; a[i].ver = HITLS_X509_VERSION_3;
        c[i].tbs.version = HITLS_X509_VERSION_3;
        ext[i].extFlags = HITLS_X509_EXT_FLAG_BCONS | (a[i].kuPresent ? HITLS_X509_EXT_FLAG_KUSAGE : 0);
        ext[i].isCa = true; ext[i].maxPathLen = -1; ext[i].keyUsage = a[i].ku;
        if (i > 0) { V_ASSUME((a[i].ku & HITLS_X509_EXT_KU_KEY_CERT_SIGN) != 0); }
        c[i].tbs.ext.extList = NULL;
        sigOk[i][i] = sigOk[i < NC - 1 ? i + 1 : i][i] = true;
    }
    g_sc.certChain = &g_list[0];
    g_sc.store = &g_store; g_store.certs = &g_trustList;
    g_sc.verifyCb = Cb;
    g_sc.verifyParam.maxDepth = NC + 1;
    g_sc.verifyParam.flags = flags;
    ladd(&g_trustList, &c[NC - 1]);
    for (uint32_t i = 0; i < NC - 1; i++) { ladd(&g_given, &c[i]); }
}
#ifdef NCRL
#define NREV 2
static HITLS_X509_CrlEntry rev[NCRL][NREV];
static uint8_t revSerial[NCRL][NREV][2], serial[NC][2];
static HITLS_X509_ExtEntry crlEntry[NCRL];
static bool revoked(uint32_t k, uint32_t i)
{
    bool r = false;
    for (uint32_t m = 0; m < NREV; m++) {
        uint32_t n = rev[k][m].serialNumber.len;
        bool same = rev[k][m].serialNumber.tag == c[i].tbs.serialNum.tag && n == c[i].tbs.serialNum.len;
        for (uint32_t b = 0; b < 2; b++) { if (b < n) { same = same && revSerial[k][m][b] == serial[i][b]; } }
        r = r || same;
    }
    return r;
}
/* case k: two issuer bits per CRL: the number of the certificate that issued it, 0 for nobody of the chain */
static void crls(uint32_t k)
{
    for (uint32_t i = 0; i < NCRL; i++) { if (((k >> (2 * i)) & 3) >= NC) { return; } }
    uint64_t flags = MODE == 0 ? HITLS_X509_VFY_FLAG_CRL_ALL : MODE == 1 ? HITLS_X509_VFY_FLAG_CRL_DEV : MODE == 2 ? HITLS_X509_VFY_FLAG_CRL_ALL | HITLS_X509_VFY_FLAG_CRL_DEV
        : HITLS_X509_VFY_FLAG_CRL_ALL | HITLS_X509_VFY_FLAG_DISABLE_TIME_CHECK;
    valid(flags);
    bool timed = MODE != 3;
    for (uint32_t i = 0; i < NC; i++) {
        serial[i][0] = nd8(); serial[i][1] = nd8();
        c[i].tbs.serialNum.buff = serial[i]; c[i].tbs.serialNum.len = nd_range(1, 2); c[i].tbs.serialNum.tag = 2;
    }
    for (uint32_t i = 0; i < NCRL; i++) {
        uint32_t by = (k >> (2 * i)) & 3;
        for (uint32_t j = 1; j < NC; j++) { l[i].named[j] = j == by; }
        l[i].aki = ndbool(); l[i].alg = ndbool(); l[i].algSame = ndbool(); l[i].sig = ndbool(); l[i].startOk = ndbool(); l[i].endOk = ndbool(); l[i].hasEnd = ndbool();
        l[i].start = (int64_t)nd64(); l[i].end = (int64_t)nd64();
        crl[i].tbs.version = (int32_t)nd_range(0, 1);
        crl[i].tbs.issuerName = (BSL_ASN1_List *)&crlName[i];
        crlRaw[i] = (uint8_t)(100 + i);
        crl[i].tbs.tbsRawData = &crlRaw[i]; crl[i].tbs.tbsRawDataLen = 1; crl[i].signature.buff = &crlSig[i]; crl[i].signature.len = 1;
        crl[i].tbs.validTime.flag = l[i].hasEnd ? BSL_TIME_AFTER_SET : 0;
        bool known = ndbool();
        crlEntry[i].cid = known ? (ndbool() ? BSL_CID_CE_AUTHORITYKEYIDENTIFIER : BSL_CID_CE_CRLNUMBER) : ndbool() ? BSL_CID_CE_ISSUINGDISTRIBUTIONPOINT : ndbool() ? BSL_CID_CE_DELTACRLINDICATOR : BSL_CID_UNKNOWN;
        crlEntry[i].critical = ndbool();
        l[i].crit = crlEntry[i].critical && !known;
        ladd(&crlExtList[i], &crlEntry[i]);
        crl[i].tbs.crlExt.extList = (BSL_ASN1_List *)&crlExtList[i];
        for (uint32_t m = 0; m < NREV; m++) {
            revSerial[i][m][0] = nd8(); revSerial[i][m][1] = nd8();
            rev[i][m].serialNumber.buff = revSerial[i][m]; rev[i][m].serialNumber.len = nd_range(1, 2); rev[i][m].serialNumber.tag = 2;
            ladd(&revokedList[i], &rev[i][m]);
        }
        crl[i].tbs.revokedCerts = (BSL_ASN1_List *)&revokedList[i];
        ladd(&g_crls, &crl[i]);
    }
    g_store.crls = &g_crls;
    int32_t r = HITLS_X509_CertVerify(&g_sc, &g_given);
    bool ok = true;
    for (uint32_t i = 0; i + 1 < NC; i++) {
        if (i > 0 && MODE == 1) { continue; }   /* only the end-entity certificate */
        ok = ok && (!a[i + 1].kuPresent || (a[i + 1].ku & HITLS_X509_EXT_KU_CRL_SIGN) != 0);
        bool found = false;
        for (uint32_t x = 0; x < NCRL; x++) {
            bool use = l[x].named[i + 1] && (crl[x].tbs.version != 1 || l[x].aki);
            use = use && (!timed || (l[x].startOk && l[x].start <= g_now && (!l[x].hasEnd || (l[x].endOk && g_now <= l[x].end))));
            found = found || use;
            ok = ok && (!use || (!l[x].crit && l[x].algSame && l[x].alg && l[x].sig && !revoked(x, i)));
        }
        ok = ok && found;
    }
    V_ASSERT((r == HITLS_PKI_SUCCESS) == ok, "accepted exactly when a valid, current CRL covers every checked certificate and none lists it");
    V_ASSERT((r == HITLS_PKI_SUCCESS) == (g_final == 1), "the application hears of it");
    if (r == HITLS_PKI_SUCCESS) { V_WITNESS("accepted"); } else { V_WITNESS("refused"); }
    V_CASE_END();
}
void h_crl(void)
{
    uint32_t k = nd32();
    V_ASSUME(k < (1u << (2 * NCRL)));
    V_SPLIT(k, 0, (1u << (2 * NCRL)) - 1, crls);
}
#endif
/* the end-entity certificate may only be used for what its key usage and extended key usage allow */
static BslListNode g_ekuNode[2];
static BSL_Buffer g_oid[2];
static uint8_t g_oidData[2][2];
static BslList g_eku;
static BslCid cid[2];
void h_purpose(void)
{
    valid(HITLS_X509_VFY_FLAG_DISABLE_TIME_CHECK);
    static const struct { uint16_t ku; BslCid eku; } use[9] = {
        [1] = { HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_KEY_ENCIPHERMENT | HITLS_X509_EXT_KU_KEY_AGREEMENT | HITLS_X509_EXT_KU_NON_REPUDIATION | HITLS_X509_EXT_KU_DATA_ENCIPHERMENT, BSL_CID_KP_SERVERAUTH },
        [2] = { HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_KEY_ENCIPHERMENT | HITLS_X509_EXT_KU_KEY_AGREEMENT | HITLS_X509_EXT_KU_NON_REPUDIATION | HITLS_X509_EXT_KU_DATA_ENCIPHERMENT, BSL_CID_KP_CLIENTAUTH },
        [3] = { HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_NON_REPUDIATION, BSL_CID_KP_EMAILPROTECTION },
        [4] = { HITLS_X509_EXT_KU_KEY_ENCIPHERMENT, BSL_CID_KP_EMAILPROTECTION },
        [5] = { HITLS_X509_EXT_KU_DIGITAL_SIGN, BSL_CID_KP_CODESIGNING },
        [6] = { HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_NON_REPUDIATION, BSL_CID_KP_OCSPSIGNING },
        [7] = { HITLS_X509_EXT_KU_DIGITAL_SIGN | HITLS_X509_EXT_KU_NON_REPUDIATION, BSL_CID_KP_TIMESTAMPING },
    };
    static const BslCid oids[] = { BSL_CID_KP_SERVERAUTH, BSL_CID_KP_CLIENTAUTH, BSL_CID_KP_EMAILPROTECTION, BSL_CID_KP_CODESIGNING, BSL_CID_KP_OCSPSIGNING, BSL_CID_KP_TIMESTAMPING, BSL_CID_UNKNOWN };
    bool eku = ndbool();
    uint32_t n = nd_range(0, 2);
    if (eku) { ext[0].extFlags |= HITLS_X509_EXT_FLAG_EXKUSAGE; }
    for (uint32_t i = 0; i < 2; i++) {
        cid[i] = oids[nd_range(0, 6)];
        g_oidData[i][0] = (uint8_t)cid[i]; g_oidData[i][1] = (uint8_t)(cid[i] >> 8);
        g_oid[i].data = g_oidData[i]; g_oid[i].dataLen = 2;
        g_ekuNode[i].data = &g_oid[i];
    }
    if (n > 0) { g_eku.first = &g_ekuNode[0]; g_eku.count = (int32_t)n; }
    if (n > 1) { g_ekuNode[0].next = &g_ekuNode[1]; }
    ext[0].exKeyUsage.oidList = &g_eku;
    int32_t purpose = (int32_t)nd32();
    g_sc.verifyParam.purpose = purpose;
    int32_t r = HITLS_X509_CertVerify(&g_sc, &g_given);
    bool ok = purpose == 0 || purpose == HITLS_X509_VFY_PURPOSE_ANY;
    if (purpose >= 1 && purpose <= 7) {
        bool has = false;
        for (uint32_t i = 0; i < 2; i++) { has = has || (i < n && cid[i] == use[purpose].eku); }
        ok = (!a[0].kuPresent || (a[0].ku & use[purpose].ku) != 0) && (!eku || has);
    }
    V_ASSERT((r == HITLS_PKI_SUCCESS) == ok, "accepted exactly for the purposes the certificate states");
    if (r == HITLS_PKI_SUCCESS) { V_WITNESS("accepted"); } else { V_WITNESS("refused"); }
}
