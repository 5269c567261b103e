/* C15: a certificate speaks for a name exactly when one of its identities matches it. */
#include "v.h"
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include "hitls_build.h"
#include "bsl_types.h"
#include "bsl_list.h"
#include "bsl_sal.h"
#include "sal_ip_util.h"
#include "hitls_pki_errno.h"
#include "hitls_pki_x509.h"
#include "hitls_cert_local.h"
#include "hitls_x509_local.h"
#ifdef VF_CBMC
/* the C library, for the strings of this file */
#ifdef H_IP
static char host[HN + 1];
static size_t g_n; /* the length of the text, the only string here */
size_t strlen(const char *s) { V_ASSERT(s == host, "the text"); return g_n; }
#else
size_t strlen(const char *s) { for (size_t i = 0; i < VSTR; i++) { if (s[i] == 0) { return i; } } __CPROVER_assume(0); return 0; }
#endif
size_t strnlen(const char *s, size_t n) { size_t i = 0; for (; i < VSTR && i < n && s[i] != 0; i++) { } return i; }
char *strchr(const char *s, int ch) { for (size_t i = 0; i < VSTR; i++) { if (s[i] == (char)ch) { return (char *)s + i; } if (s[i] == 0) { return NULL; } } __CPROVER_assume(0); return NULL; }
void *memchr(const void *s, int ch, size_t n) { for (size_t i = 0; i < VSTR; i++) { if (i >= n) { return NULL; } if (((const char *)s)[i] == (char)ch) { return (char *)s + i; } } __CPROVER_assume(0); return NULL; }
void *memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < VSTR; i++) { if (i < n) { ((char *)d)[i] = ((const char *)s)[i]; } } V_ASSERT(n <= VSTR, "copied size"); return d; }
int tolower(int ch) { return ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; }
static const unsigned short *ctb;
static unsigned short ctab[384];
const unsigned short **__ctype_b_loc(void)
{
    for (int i = '0'; i <= '9'; i++) { ctab[128 + i] = (unsigned short)_ISdigit; }
    ctb = ctab + 128;
    return &ctb;
}
#endif
#ifndef LOCAL_IP
void BSL_ERR_PushError(int32_t e, const char *f, uint32_t l) { (void)e; (void)f; (void)l; }
int32_t BSL_ERR_SetMark(void) { return 0; }
int32_t BSL_ERR_PopToMark(void) { return 0; }
#endif
static char lo(char ch) { return ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : ch; }
/* one name against another: p[0..pn-1], h[0..hn-1]; the wildcard rules of RFC 9525, or of RFC 6125 when partial */
static bool names(bool partial, const char *p, uint32_t pn, const char *h, uint32_t hn)
{
    uint32_t stars = 0, starAt = 0, pDot = pn, hDot = hn, dots2 = 0;
    bool late = false;
    for (uint32_t i = 0; i < VSTR; i++) {
        if (i < pn && p[i] == '*') { if (stars == 0) { starAt = i; } stars++; if (pDot < i) { late = true; } }
        if (i < pn && p[i] == '.' && pDot == pn) { pDot = i; }
        if (i < hn && h[i] == '.') { if (hDot == hn) { hDot = i; } dots2++; }
    }
    if (stars == 0) {
        bool eq = pn == hn;
        for (uint32_t i = 0; i < VSTR; i++) { if (i < pn && i < hn) { eq = eq && lo(p[i]) == lo(h[i]); } }
        return eq;
    }
    if (late || starAt > pDot || stars != 1) { return false; }
    /* what follows the leftmost label is the same name */
    if ((pDot == pn) != (hDot == hn) || pn - pDot != hn - hDot) { return false; }
    bool ok = true;
    for (uint32_t i = 0; i < VSTR; i++) { if (pDot + i < pn) { ok = ok && lo(p[pDot + i]) == lo(h[hDot + i]); } }
    if (!partial) { return ok && starAt == 0 && pDot == 1 && dots2 >= 2; }
    uint32_t suf = pDot - starAt - 1;
    ok = ok && hDot >= starAt + suf;
    if (!ok) { return false; }
    for (uint32_t i = 0; i < VSTR; i++) {
        if (i < starAt) { ok = ok && lo(p[i]) == lo(h[i]); }
        if (i < suf) { ok = ok && lo(p[pDot - suf + i]) == lo(h[hDot - suf + i]); }
    }
    return ok;
}
#ifndef PN
#define PN 5
#endif
#ifndef HN
#define HN 5
#endif
static char pat[PN + 1];
static char host[HN + 1];
static uint32_t len(const char *s, uint32_t n) { for (uint32_t i = 0; i < n; i++) { if (s[i] == 0) { return i; } } return n; }
static void text(char *s, uint32_t n) { nd_bytes(s, n); s[n] = 0; }
/* the name asked for is a host name: not empty, no wildcard of its own */
#ifdef FIXED /* one host name */
static void asked(void) { host[0] = 'f'; host[1] = 'o'; host[2] = '.'; host[3] = 'c'; host[4] = 0; }
#else
static void asked(void) { text(host, HN); for (uint32_t i = 0; i < HN; i++) { V_ASSUME(host[i] != '*'); } V_ASSUME(host[0] != 0); }
#endif
void h_match(void)
{
    text(pat, PN); asked();
    int32_t r = HITLS_X509_MatchPattern(PARTIAL ? HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD : 0, pat, host);
    bool ok = names(PARTIAL, pat, len(pat, PN), host, len(host, HN));
    V_ASSERT((r == HITLS_PKI_SUCCESS) == ok, "a pattern matches exactly the names it stands for");
    if (r == HITLS_PKI_SUCCESS) { V_WITNESS("match"); if (pat[0] == '*') { V_WITNESS("wildcard"); } } else { V_WITNESS("no match"); }
}
/* a certificate: up to 2 alternative names, a common name */
static HITLS_X509_Cert g_cert;
static HITLS_X509_GeneralName gn[2];
static BslListNode node[2];
static BslList g_names;
static bool hasSan, hasCn;
static char val[2][PN], cn[PN + 1];
static uint32_t cleared;
static char g_cnOut[PN + 1];
int32_t v_CertCtrl(HITLS_X509_Cert *x, int32_t cmd, void *v, uint32_t n)
{
    (void)n;
    V_ASSERT(x == &g_cert, "the certificate");
    if (cmd == HITLS_X509_EXT_GET_SAN) {
        if (!hasSan) { return HITLS_X509_ERR_EXT_NOT_FOUND; }
        ((HITLS_X509_ExtSan *)v)->names = &g_names;
        return HITLS_PKI_SUCCESS;
    }
    V_ASSERT(cmd == HITLS_X509_GET_SUBJECT_CN_STR, "the common name");
    if (!hasCn) { return HITLS_X509_ERR_CERT_INVALID_DN; }
    for (uint32_t i = 0; i <= PN; i++) { g_cnOut[i] = cn[i]; }
    ((BSL_Buffer *)v)->data = (uint8_t *)g_cnOut;
    ((BSL_Buffer *)v)->dataLen = PN;
    return HITLS_PKI_SUCCESS;
}
BslListNode *BSL_LIST_FirstNode(const BslList *l) { return l == NULL ? NULL : l->first; }
BslListNode *BSL_LIST_GetNextNode(const BslList *l, const BslListNode *n) { (void)l; return n == NULL ? NULL : n->next; }
void *BSL_LIST_GetData(const BslListNode *n) { return n == NULL ? NULL : n->data; }
void HITLS_X509_ClearSubjectAltName(HITLS_X509_ExtSan *s) { (void)s; cleared++; }
static char g_mem[4][VSTR + 1];
static uint32_t g_memUsed;
void *BSL_SAL_Malloc(uint32_t n) { V_ASSUME(g_memUsed < 4); V_ASSERT(n <= VSTR, "size of a name"); return g_mem[g_memUsed++]; }
void BSL_SAL_Free(void *p) { (void)p; }
static bool nul(const char *s, uint32_t n) { bool z = false; for (uint32_t i = 0; i < VSTR; i++) { if (i < n) { z = z || s[i] == 0; } } return z; }
static void cert(uint32_t n)
{
    hasSan = ndbool(); hasCn = ndbool();
#ifdef FIXED
    hasSan = true;
#endif
    for (uint32_t i = 0; i < 2; i++) {
        static const int32_t types[] = { HITLS_X509_GN_DNS, HITLS_X509_GN_IP, HITLS_X509_GN_URI, HITLS_X509_GN_SRV, HITLS_X509_GN_EMAIL };
        nd_bytes(val[i], PN);
        gn[i].type = types[nd_range(0, 4)];
        gn[i].value.data = (uint8_t *)val[i];
        gn[i].value.dataLen = i == 0 ? L0 : L1;
        node[i].data = &gn[i];
    }
    text(cn, PN);
#ifdef FIXED
    hasCn = false; gn[0].type = HITLS_X509_GN_DNS; gn[0].value.dataLen = 4;
    val[0][0] = 'f'; val[0][1] = '*'; val[0][2] = '.'; val[0][3] = 'c';
#endif
    if (n > 0) { g_names.first = &node[0]; g_names.count = (int32_t)n; }
    if (n > 1) { node[0].next = &node[1]; }
    asked();
}
void h_dns(void)
{
    cert(NSAN);
#ifdef FIXED
    uint32_t hn = 4, given = 4;
#else
    uint32_t hn = len(host, HN), given = nd_range(0, HN);
#endif
    int32_t r = HITLS_X509_VerifyIdentity(&g_cert, PARTIAL ? HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD : 0, HITLS_GEN_DNS, host, given);
    bool dns = false, ok = false;
    for (uint32_t i = 0; i < NSAN; i++) {
        bool d = hasSan && gn[i].type == HITLS_X509_GN_DNS;
        dns = dns || d;
        ok = ok || (d && !nul(val[i], gn[i].value.dataLen) && names(PARTIAL, val[i], gn[i].value.dataLen, host, hn));
    }
    if (!dns) { ok = hasCn && !nul(cn, PN) && names(PARTIAL, cn, PN, host, hn); }
    ok = ok && given == hn && hn > 0;
    V_ASSERT((r == HITLS_PKI_SUCCESS) == ok, "accepted exactly when a DNS name matches, or without any the common name");
    if (r == HITLS_PKI_SUCCESS) { V_WITNESS("match"); }
#ifndef FIXED
    else { V_WITNESS("no match"); }
#endif
}
#ifdef H_IP
#ifdef MEMBER
/* any address */
static uint8_t g_ip[16];
static uint32_t g_ipLen;
static bool g_ipOk;
int32_t v_ParseIp(const char *s, unsigned char *out, int32_t *n)
{
    V_ASSERT(s == host && *n == 16, "the address asked for");
    *n = 0;
    if (!g_ipOk) { return BSL_INVALID_ARG; }
    *n = (int32_t)g_ipLen;
    for (uint32_t i = 0; i < 16; i++) { if (i < g_ipLen) { out[i] = g_ip[i]; } }
    return BSL_SUCCESS;
}
#endif
/* text of an address, by its grammar (RFC 4291 section 2.2, dotted decimal without leading zeros) */
static bool dotted(const char *s, uint32_t from, uint32_t to, uint8_t *out)
{
    uint32_t part = 0, digits = 0, v = 0;
    bool ok = true, lead = false;
    for (uint32_t i = 0; i <= VSTR; i++) {
        if (i < from || i > to) { continue; }
        char ch = i == to ? '.' : s[i];
        if (ch == '.') {
            ok = ok && digits > 0 && v <= 255 && !(digits > 1 && lead) && part < 4;
            if (part < 4) { out[part] = (uint8_t)v; }
            part++; digits = 0; v = 0;
        } else {
            ok = ok && ch >= '0' && ch <= '9' && digits < 3;
            if (digits == 0) { lead = ch == '0'; }
            if (digits < 3) { v = v * 10 + (uint32_t)(ch - '0'); }
            digits++;
        }
    }
    return ok && part == 4;
}
static bool address(const char *s, uint32_t n, uint8_t *out, uint32_t *outLen)
{
    bool colon = false;
    uint32_t lastColon = 0;
    bool dot = false;
    for (uint32_t i = 0; i < VSTR; i++) { if (i < n && s[i] == ':') { colon = true; lastColon = i; } if (i < n && s[i] == '.') { dot = true; } }
    if (!colon) { *outLen = 4; return dotted(s, 0, n, out); }
    *outLen = 16;
    uint16_t g[8] = { 0 };
    uint32_t groups = 0, gap = 9, hexEnd = n, tail = 0;
    bool ok = true;
    uint8_t v4[4] = { 0 };
    if (dot) { ok = dotted(s, lastColon + 1, n, v4); hexEnd = lastColon + 1; tail = 2; }
    /* scan: group or gap; st: 0 start, 1 in group, 2 after one colon, 3 after the gap */
    uint32_t st = 0, digits = 0, v = 0;
    for (uint32_t i = 0; i < VSTR; i++) {
        if (i >= hexEnd) { continue; }
        char ch = s[i];
        if (ch == ':') {
            if (st == 1) { if (groups < 8) { g[groups] = (uint16_t)v; } groups++; st = 2; v = 0; digits = 0; }
            else if (st == 2 && gap == 9) { gap = groups; st = 3; }
            else if (st == 0 && i + 1 < n && s[i + 1] == ':') { st = 2; }
            else { ok = false; }
        } else {
            uint32_t d = ch >= '0' && ch <= '9' ? (uint32_t)(ch - '0') : ch >= 'a' && ch <= 'f' ? (uint32_t)(ch - 'a' + 10) : ch >= 'A' && ch <= 'F' ? (uint32_t)(ch - 'A' + 10) : 99;
            ok = ok && d < 16 && digits < 4;
            v = (v << 4) | (d & 15); digits++; st = 1;
        }
    }
    if (st == 1) { if (groups < 8) { g[groups] = (uint16_t)v; } groups++; ok = ok && tail == 0; }
    else if (st == 2) { ok = ok && tail == 2; }
    else if (st == 0) { ok = false; }
    ok = ok && (gap == 9 ? groups + tail == 8 : groups + tail < 8);
    if (!ok) { return false; }
    uint32_t zeros = 8 - groups - tail;
    for (uint32_t i = 0; i < 8; i++) {
        uint16_t w = 0;
        if (i >= 8 - tail) { w = (uint16_t)((v4[2 * (i - (8 - tail))] << 8) | v4[2 * (i - (8 - tail)) + 1]); }
        else if (gap == 9 || i < gap) { w = g[i]; }
        else if (i >= gap + zeros) { w = g[i - zeros]; }
        out[2 * i] = (uint8_t)(w >> 8); out[2 * i + 1] = (uint8_t)w;
    }
    return true;
}
static uint8_t want[16], got[16];
static void ip(uint32_t n)
{
    for (uint32_t i = 0; i < HN; i++) { host[i] = (char)nd8(); if (i < n) { V_ASSUME(host[i] != 0); } }
    host[n] = 0;
#ifdef VF_CBMC
    g_n = n;
#endif
    uint32_t wl = 0;
#ifdef MEMBER
    bool ok = g_ipOk = ndbool();
    wl = g_ipLen = ndbool() ? 4 : 16;
    nd_bytes(g_ip, 16);
    for (uint32_t i = 0; i < 16; i++) { want[i] = g_ip[i]; }
    hasSan = ndbool();
    for (uint32_t i = 0; i < 2; i++) {
        nd_bytes(val[i], PN);
        gn[i].type = ndbool() ? HITLS_X509_GN_IP : HITLS_X509_GN_DNS;
        gn[i].value.data = (uint8_t *)val[i]; gn[i].value.dataLen = i == 0 ? 4 : 16; node[i].data = &gn[i];
    }
    g_names.first = &node[0]; g_names.count = 2; node[0].next = &node[1];
    int32_t r = HITLS_X509_VerifyIdentity(&g_cert, ndbool() ? HITLS_X509_FLAG_VFY_WITH_PARTIAL_WILDCARD : 0, HITLS_GEN_IP, host, n);
    bool m = false;
    for (uint32_t i = 0; i < 2; i++) {
        bool e = gn[i].type == HITLS_X509_GN_IP && gn[i].value.dataLen == wl;
        for (uint32_t b = 0; b < 16; b++) { if (b < wl && b < gn[i].value.dataLen) { e = e && (uint8_t)val[i][b] == want[b]; } }
        m = m || e;
    }
    V_ASSERT((r == HITLS_PKI_SUCCESS) == (ok && hasSan && m), "accepted exactly when the address is one of the certificate's");
#else
    int32_t gl = 16;
    bool ok = address(host, n, want, &wl);
    int32_t r = SAL_ParseIp(host, got, &gl);
    V_ASSERT((r == BSL_SUCCESS) == ok, "exactly the addresses are parsed");
    if (ok) {
        V_ASSERT((uint32_t)gl == wl, "length of the address");
        for (uint32_t b = 0; b < 16; b++) { if (b < wl) { V_ASSERT(got[b] == want[b], "value of the address"); } }
    }
#endif
    if (r == BSL_SUCCESS) { V_WITNESS("address"); } else { V_WITNESS("none"); }
    V_CASE_END();
}
void h_ip(void)
{
    uint32_t n = nd32();
    V_ASSUME(n >= LO && n <= HN);
    V_SPLIT(n, LO, HN, ip);
}
#endif
