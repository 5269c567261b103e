/* C14: a chain is accepted exactly when every link and every constraint holds. */
#include "env.h"
#ifndef WHY
#define WHY 0
#endif
#define LCASES (4u * (NC == 1 ? 4u : (1u << NC)))
#ifndef MODE
#define MODE 0
#endif
#ifndef DEPTH
#define DEPTH (NC + 1)
#endif
#ifndef TP
#define TP 0
#endif
static HITLS_X509_StoreCtx g_sc;
static HITLS_X509_Store g_store;
static BslList g_trustList, g_given;
static bool trusted[NC];
static uint32_t g_final;
static int64_t g_now;
BslUnixTime BSL_SAL_CurrentSysTimeGet(void) { return g_now; }
static uint32_t hashBits(int32_t md) { return md == CRYPT_MD_SHA1 ? 63 : md == CRYPT_MD_SHA256 ? 128 : 256; }
static bool selfSigned(uint32_t r) { return links(r, r) && a[r].algSame && sigOk[r][r]; }
/* the path p[0..n-1], end entity first, against RFC 5280 section 6 as far as the library claims it */
static bool pathOk(const uint32_t *p, uint32_t n)
{
    uint64_t flags = g_sc.verifyParam.flags;
    bool partial = (flags & HITLS_X509_VFY_FLAG_PARTIAL_CHAIN) != 0;
    bool ok = trusted[p[n - 1]] || (partial && trusted[p[0]]);   /* with partial chains the certificate itself may be the trusted one */
    int64_t t = (flags & HITLS_X509_VFY_FLAG_TIME) != 0 ? g_sc.verifyParam.time : g_now;
    bool timed = (flags & HITLS_X509_VFY_FLAG_TIME) != 0 || (flags & HITLS_X509_VFY_FLAG_DISABLE_TIME_CHECK) == 0;
    bool rootSelf = links(p[n - 1], p[n - 1]);
    if (!rootSelf) { ok = ok && partial && n > 1; }
    for (uint32_t k = 0; k < NC + 1; k++) {
        if (k >= n) { continue; }
        uint32_t i = p[k];
        bool root = k == n - 1;
        if (!root) { ok = ok && links(p[k + 1], i) && sigOk[p[k + 1]][i] && a[i].algSame; }
        else if (n == 1 || !partial) { ok = ok && sigOk[i][i] && a[i].algSame; }
        if (timed) { ok = ok && a[i].startOk && a[i].endOk && a[i].start <= t && t <= a[i].end; }
        if ((flags & HITLS_X509_VFY_FLAG_SECBITS) != 0) {
            ok = ok && a[i].bits >= g_sc.verifyParam.securityBits;
            if (!root) { ok = ok && hashBits(a[i].md) >= g_sc.verifyParam.securityBits; }
        }
        ok = ok && (a[i].ver == HITLS_X509_VERSION_3 ? !a[i].crit : extList[i].count == 0);
        if (k > 0) {
            ok = ok && (a[i].ver == HITLS_X509_VERSION_3 ? a[i].bc && a[i].ca : root);
            ok = ok && (!a[i].kuPresent || (a[i].ku & HITLS_X509_EXT_KU_KEY_CERT_SIGN) != 0);
            if (a[i].pathLen >= 0) {
                int32_t below = 0;
                for (uint32_t m = 1; m < NC; m++) { if (m < k && !c[p[m]].isSelfIssued) { below++; } }
                ok = ok && below <= a[i].pathLen;
            }
        }
    }
    return ok;
}
static int32_t g_count;
static int32_t Cb(int32_t err, HITLS_X509_StoreCtx *s)
{
    if (err == HITLS_PKI_SUCCESS) {
        g_final++;
        g_count = s->certChain->count;
        V_ASSERT(s == &g_sc && s->certChain == &g_list[0], "the verdict on the chain that was built");
    }
    return err;
}
static void setup(bool partial, uint32_t mode)
{
    certs();
    g_sc.certChain = &g_list[0];
    g_sc.store = &g_store; g_store.certs = &g_trustList;
    g_sc.verifyCb = Cb;
    uint64_t f = partial ? HITLS_X509_VFY_FLAG_PARTIAL_CHAIN : 0;
    switch (mode) {
        case 1: f |= HITLS_X509_VFY_FLAG_DISABLE_TIME_CHECK | HITLS_X509_VFY_FLAG_SECBITS; break;
        case 2: f |= HITLS_X509_VFY_FLAG_DISABLE_TIME_CHECK | HITLS_X509_VFY_FLAG_TIME; break;
        case 3: f |= HITLS_X509_VFY_FLAG_TIME | HITLS_X509_VFY_FLAG_SECBITS; break;
        default: break;
    }
    g_sc.verifyParam.flags = f;
    g_sc.verifyParam.time = (int64_t)nd64();
    g_sc.verifyParam.securityBits = nd_range(0, 300);
    g_now = (int64_t)nd64();
    V_ASSUME(g_now > 0);
}
/* a line of certificates, each issued by the next, the last one trusted: accepted exactly when valid.
   case k: two bits of whether the last is self-signed, then bit 0 partial chains allowed, bit 1 the last is self-issued, the others: certificate i is self-issued */
static void line(uint32_t kk)
{
    uint32_t mode = MODE, rs = kk & 3, k = kk >> 2;
    if (((k >> 1) & 1) == 0 && rs != 0) { return; }
#ifdef LONG /* under a self-signed trusted certificate, without partial chains */
    if ((k & 1) != 0 || ((k >> 1) & 1) == 0 || rs != 3) { return; }
#endif
    uint32_t p[NC + 2];
    for (uint32_t i = 0; i < NC; i++) {
        bool last = i == NC - 1;
        trusted[i] = last;
        c[i].isSelfIssued = last ? (k >> 1) & 1 : i == 0 ? false : (k >> (i + 1)) & 1;
        nameOk[i][i] = c[i].isSelfIssued;
        akiOk[i][i] = algOk[i][i] = last;       /* a self-issued intermediate has another key */
        if (!last) { nameOk[i + 1][i] = akiOk[i + 1][i] = algOk[i + 1][i] = true; }
        p[i] = i;
    }
    setup(k & 1, mode);
    if ((k >> 1) & 1) { sigOk[NC - 1][NC - 1] = rs & 1; a[NC - 1].algSame = (rs >> 1) & 1; }
    g_sc.verifyParam.maxDepth = DEPTH;
    ladd(&g_trustList, &c[NC - 1]);
    for (uint32_t i = 0; i < (NC == 1 ? 1 : NC - 1); i++) { ladd(&g_given, &c[i]); }
    int32_t r = HITLS_X509_CertVerify(&g_sc, &g_given);
    bool ok = pathOk(p, NC) && NC <= (uint32_t)g_sc.verifyParam.maxDepth;
    V_ASSERT((r == HITLS_PKI_SUCCESS) == ok, "a chain is accepted exactly when it is valid");
    V_ASSERT(r != HITLS_PKI_SUCCESS || g_final == 1, "the application hears of it");
    if (r == HITLS_PKI_SUCCESS) { V_WITNESS("accepted"); } else { V_WITNESS("refused"); }
    V_CASE_END();
}
void h_line(void)
{
    uint32_t k = nd32();
    V_ASSUME(k < LCASES);
    V_SPLIT(k, 0, LCASES - 1, line);
}
/* any certificates, any of them trusted, in any relation: whatever is accepted is a valid path.
   case k: NC bits of who is self-signed, NC*NC bits of who issued whom, NC bits of trust, 1 bit for partial chains; why a link fails: any reason */
static void graph(uint32_t kk)
{
    uint32_t ss = kk & ((1u << NC) - 1), k = (kk >> NC) + (TP << (NC * NC));
    for (uint32_t i = 0; i < NC; i++) {
        trusted[i] = (k >> (NC * NC + i)) & 1;
        for (uint32_t j = 0; j < NC; j++) {
            bool l = (k >> (i * NC + j)) & 1;
            nameOk[j][i] = l || WHY != 0; akiOk[j][i] = l || WHY != 1; algOk[j][i] = l || WHY != 2;
        }
        c[i].isSelfIssued = nameOk[i][i];
    }
    setup((k >> (NC * NC + NC)) & 1, MODE);
    for (uint32_t i = 0; i < NC; i++) { sigOk[i][i] = (ss >> i) & 1; if (sigOk[i][i]) { a[i].algSame = true; } }
    for (uint32_t i = 0; i < NC; i++) {
        if (WHY == 1) { V_ASSUME(a[i].ver == HITLS_X509_VERSION_3); }
        if (trusted[i]) { ladd(&g_trustList, &c[i]); }
        ladd(&g_given, &c[i]);
    }
    g_sc.verifyParam.maxDepth = NC + 1;
    int32_t r = HITLS_X509_CertVerify(&g_sc, &g_given);
    V_ASSERT((r == HITLS_PKI_SUCCESS) == (g_final == 1), "nothing is accepted unseen");
    if (r == HITLS_PKI_SUCCESS) {
        uint32_t p[NC + 2] = { 0 }, n = 0;
        for (BslListNode *x = g_list[0].first; x != NULL; x = x->next) { V_ASSUME(n < NC + 1); p[n++] = idx(x->data); }
        V_ASSERT(n == (uint32_t)g_count && n > 0 && p[0] == 0, "the chain starts with the certificate to verify");
        V_ASSERT(n <= (uint32_t)g_sc.verifyParam.maxDepth || n == 1, "the chain is not longer than allowed");
        V_ASSERT(pathOk(p, n), "every certificate of the accepted path, and every link of it, is valid");
    }
    if (r == HITLS_PKI_SUCCESS) { V_WITNESS("accepted"); } else { V_WITNESS("refused"); }
    V_CASE_END();
}
void h_graph(void)
{
    uint32_t k = nd32();
    V_ASSUME(k < (1u << (NC * NC + NC)));
    V_SPLIT(k, 0, (1u << (NC * NC + NC)) - 1, graph);
}
