/* ASN.1 DER: decoding any bytes, and decoding what was encoded. */
#include "v.h"
#include "hitls_build.h"
#include "bsl_asn1_internal.h"
#include "bsl_asn1.h"
#include "bsl_sal.h"
#include "bsl_errno.h"

/* oracle: definite-length header at b[0..n); returns false when not acceptable */
static bool OracleLen(const uint8_t *b, uint32_t n, uint32_t *hdr, uint64_t *len)
{
    if (n < 1) { return false; }
    if (b[0] < 0x80) { *hdr = 1; *len = b[0]; return *len <= n - 1; }
    uint32_t k = b[0] - 0x80;
    if (k == 0 || k > 4 || n - 1 < k) { return false; }
    *hdr = 1 + k;
    *len = 0;
    for (uint32_t v_i = 0; v_i < 4; v_i++) { if (v_i < k) { *len = (*len << 8) | b[1 + v_i]; } }
    return *len <= n - 1 - k;
}

#ifdef H_LEN
static void body(uint32_t n)
{
    uint8_t *in = malloc(n);
    V_ASSUME(in != NULL);
    nd_bytes(in, n);
    uint32_t hdr = 0;
    uint64_t want = 0;
    bool ok = OracleLen(in, n, &hdr, &want);
    uint8_t *p = in;
    uint32_t left = n, len = 12345;
    int32_t r = BSL_ASN1_DecodeLen(&p, &left, false, &len);
    V_ASSERT((r == BSL_SUCCESS) == ok, "a length field is accepted exactly when it is definite and the value fits the input");
    if (r == BSL_SUCCESS) {
        V_ASSERT(p == in + hdr && left == n - hdr && len == want, "the cursor moves past the length field and the length is its value");
    } else {
        V_ASSERT(p == in && left == n, "a refused length leaves the cursor in place");
    }
    if (n >= 2) {
        p = in; left = n;
        BSL_ASN1_Buffer it = { 0 };
        ok = OracleLen(in + 1, n - 1, &hdr, &want);
        r = BSL_ASN1_DecodeItem(&p, &left, &it);
        V_ASSERT((r == BSL_SUCCESS) == ok, "an element is accepted exactly when its value lies inside the input");
        if (ok) {
            V_ASSERT(it.tag == in[0] && it.buff == in + 1 + hdr && it.len == want && p == it.buff + it.len && left == n - 1 - hdr - want, "element: tag, value and rest");
            V_WITNESS("element");
        }
        p = in; left = n;
        uint8_t tag = nd8();
        r = BSL_ASN1_DecodeTagLen(tag, &p, &left, &len);
        V_ASSERT((r == BSL_SUCCESS) == (ok && tag == in[0]), "an element of the expected tag is accepted exactly when it is that element and complete");
        if (r == BSL_SUCCESS) { V_ASSERT(p == in + 1 + hdr && len == want && left == n - 1 - hdr, "tag and length: value and rest"); }
        uint32_t total = n;
        r = BSL_ASN1_GetCompleteLen(in, &total);
        V_ASSERT((r == BSL_SUCCESS) == ok, "the complete length is given exactly for complete elements");
        if (ok) { V_ASSERT(total == 1 + hdr + want, "the complete length counts tag, length and value"); }
    }
}
void harness(void)
{
    uint32_t n = nd_range(2, N);
    V_SPLIT(n, 2, N, body);
}
#endif

#ifdef H_PRIM
static void body(uint32_t n)
{
    uint8_t *in = malloc(n);
    V_ASSUME(in != NULL);
    nd_bytes(in, n);
    BSL_ASN1_Buffer it = { .tag = BSL_ASN1_TAG_INTEGER, .len = n, .buff = in };
    int iv = -7;
    int32_t r = BSL_ASN1_DecodePrimitiveItem(&it, &iv);
    uint64_t u = 0;
    for (uint32_t i = 0; i < n; i++) { u = (u << 8) | in[i]; }
    V_ASSERT((r == BSL_SUCCESS) == (n <= 4 && u <= 0x7fffffff), "a small integer is decoded exactly when it fits");
    if (r == BSL_SUCCESS) { V_ASSERT((uint64_t)iv == u, "integer value"); V_WITNESS("integer"); }
    it.tag = BSL_ASN1_TAG_BOOLEAN;
    bool bv = false;
    r = BSL_ASN1_DecodePrimitiveItem(&it, &bv);
    V_ASSERT((r == BSL_SUCCESS) == (n == 1), "a boolean has one octet");
    if (r == BSL_SUCCESS) { V_ASSERT(bv == (in[0] != 0), "boolean value"); }
    it.tag = BSL_ASN1_TAG_BITSTRING;
    BSL_ASN1_BitString bs = { 0 };
    r = BSL_ASN1_DecodePrimitiveItem(&it, &bs);
    V_ASSERT((r == BSL_SUCCESS) == (in[0] <= 7), "a bit string has 0..7 unused bits");
    if (r == BSL_SUCCESS) { V_ASSERT(bs.unusedBits == in[0] && bs.buff == in + 1 && bs.len == n - 1, "bit string value"); }
}
void harness(void)
{
    uint32_t n = nd_range(1, 6);
    V_SPLIT(n, 1, 6, body);
}
#endif

#ifdef H_TIME
/* any time string; oracle: digits, calendar */
static bool Leap(uint32_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static uint32_t D2(const uint8_t *p) { return (p[0] - '0') * 10u + (p[1] - '0'); }
static void body(uint32_t n)
{
    bool utc = n < 14;
    uint8_t *in = malloc(n);
    V_ASSUME(in != NULL);
    nd_bytes(in, n);
    BSL_ASN1_Buffer it = { .tag = utc ? BSL_ASN1_TAG_UTCTIME : BSL_ASN1_TAG_GENERALIZEDTIME, .len = n, .buff = in };
    BSL_TIME t = { 0 };
    int32_t r = BSL_ASN1_DecodePrimitiveItem(&it, &t);
    uint32_t digits = utc ? 12 : 14;
    bool ok = n == digits || (n == digits + 1 && in[digits] == 'Z');
    for (uint32_t i = 0; i < digits && i < n; i++) { ok = ok && in[i] >= '0' && in[i] <= '9'; }
    if (ok) {
        uint32_t y = utc ? D2(in) : D2(in) * 100 + D2(in + 2);
        if (utc) { y += y < 50 ? 2000 : 1900; }
        const uint8_t *p = in + digits - 10;
        uint32_t mo = D2(p), d = D2(p + 2), h = D2(p + 4), mi = D2(p + 6), s = D2(p + 8);
        uint32_t dm = mo == 2 ? (Leap(y) ? 29 : 28) : (mo == 4 || mo == 6 || mo == 9 || mo == 11) ? 30 : 31;
        ok = y >= 1970 && mo >= 1 && mo <= 12 && d >= 1 && d <= dm && h <= 23 && mi <= 59 && s <= 59;
        if (r == BSL_SUCCESS) {
            V_ASSERT(t.year == y && t.month == mo && t.day == d && t.hour == h && t.minute == mi && t.second == s, "time value");
            V_WITNESS("time");
        }
    }
    V_ASSERT((r == BSL_SUCCESS) == ok, "a time is accepted exactly when it denotes a real date and time");
}
void harness(void)
{
    uint32_t n = nd_range(12, 15);
    V_SPLIT(n, 12, 15, body);
}
#endif

#ifdef H_TEMPL
static int32_t TagCb(int32_t type, uint32_t idx, void *data, void *expVal)
{
    (void)idx;
    if (type == BSL_ASN1_TYPE_CHECK_CHOICE_TAG) {
        uint8_t t = *(uint8_t *)data;
        if (t == BSL_ASN1_TAG_UTCTIME || t == BSL_ASN1_TAG_GENERALIZEDTIME) { *(uint8_t *)expVal = t; return BSL_SUCCESS; }
        return BSL_ASN1_FAIL;
    }
    *(uint8_t *)expVal = BSL_ASN1_TAG_NULL;
    return BSL_SUCCESS;
}
static BSL_ASN1_TemplateItem g_items[] = {
#if TPL == 0
    {BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, 0, 0},
        {BSL_ASN1_TAG_INTEGER, 0, 1},
        {BSL_ASN1_TAG_OCTETSTRING, BSL_ASN1_FLAG_OPTIONAL, 1},
        {BSL_ASN1_TAG_BITSTRING, 0, 1},
#define NARR 3
#elif TPL == 1
    {BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, 0, 0},
        {BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_CLASS_CTX_SPECIFIC | 0, BSL_ASN1_FLAG_DEFAULT, 1},
            {BSL_ASN1_TAG_INTEGER, 0, 2},
        {BSL_ASN1_TAG_CHOICE, 0, 1},
        {BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, BSL_ASN1_FLAG_HEADERONLY, 1},
#define NARR 3
#elif TPL == 2
    {BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, 0, 0},
        {BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, 0, 1},
            {BSL_ASN1_TAG_OBJECT_ID, 0, 2},
            {BSL_ASN1_TAG_ANY, BSL_ASN1_FLAG_OPTIONAL, 2},
        {BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_CLASS_CTX_SPECIFIC | 1, BSL_ASN1_FLAG_OPTIONAL | BSL_ASN1_FLAG_HEADERONLY, 1},
            {BSL_ASN1_TAG_INTEGER, 0, 2},
#define NARR 3
#endif
};
#define NITEM (sizeof(g_items) / sizeof(g_items[0]))
static void body(uint32_t n)
{
    uint8_t *in = malloc(n);
    V_ASSUME(in != NULL);
    nd_bytes(in, n);
    uint32_t arrNum = ndbool() ? NARR : NARR - 1;
    BSL_ASN1_Buffer arr[NARR + 1];
    for (uint32_t i = 0; i <= NARR; i++) { arr[i].tag = 0x77; arr[i].len = 7; arr[i].buff = (uint8_t *)arr; }
    BSL_ASN1_Template t = { g_items, NITEM };
    uint8_t *p = in;
    uint32_t left = n;
    int32_t r = BSL_ASN1_DecodeTemplate(&t, (BSL_ASN1_DecTemplCallBack)TagCb, &p, &left, arr, arrNum);
    for (uint32_t i = 0; i <= NARR; i++) {
        if (i >= arrNum) { V_ASSERT(arr[i].tag == 0x77, "never more results than the caller has room for"); }
    }
    if (r != BSL_SUCCESS) {
        V_ASSERT(p == in && left == n, "a refused encoding leaves the cursor in place");
        return;
    }
    V_ASSERT(arrNum == NARR, "too few result slots is an error");
    V_ASSERT(p >= in && p <= in + n && left == (uint32_t)(in + n - p), "the cursor stays inside the input");
    uint32_t h = 0;
    uint64_t L = 0;
    bool ok = in[0] == 0x30 && OracleLen(in + 1, n - 1, &h, &L);
    V_ASSERT(ok, "the outer element is the expected one and complete");
    if (!ok) { return; }
    uint8_t *lo = in + 1 + h, *hi = lo + L;
    V_ASSERT(p <= hi, "nothing beyond the outer element is consumed");
    uint8_t *prev = lo;
    for (uint32_t i = 0; i < NARR; i++) {
        if (arr[i].tag == 0) {
            V_ASSERT(arr[i].len == 0 && arr[i].buff == NULL, "an absent element is empty");
            continue;
        }
        if (arr[i].tag == BSL_ASN1_TAG_NULL) { continue; }
        V_ASSERT(arr[i].buff >= prev && arr[i].buff <= hi && arr[i].len <= (uint32_t)(hi - arr[i].buff), "every value lies inside the outer element, after the previous one");
        prev = arr[i].buff + arr[i].len;
    }
#if TPL == 0
    V_ASSERT(arr[0].tag == BSL_ASN1_TAG_INTEGER && (arr[1].tag == 0 || arr[1].tag == BSL_ASN1_TAG_OCTETSTRING) && arr[2].tag == BSL_ASN1_TAG_BITSTRING, "tags are those of the template");
    if (arr[0].len > 0) {
        uint8_t *v = in + 1 + h;
        uint32_t ih = 0;
        uint64_t il = 0;
        V_ASSERT(v[0] == 2 && OracleLen(v + 1, (uint32_t)(hi - v) - 1, &ih, &il), "the integer is complete");
        v += 1 + ih;
        V_ASSERT((v[0] & 0x80) == 0 && !(il > 1 && v[0] == 0 && (v[1] & 0x80) == 0), "integers are non-negative and minimally encoded");
        V_ASSERT(il > 1 && v[0] == 0 ? (arr[0].buff == v + 1 && arr[0].len == il - 1) : (arr[0].buff == v && arr[0].len == il), "the integer's magnitude is returned");
    }
    V_WITNESS("decoded");
#elif TPL == 1
    V_ASSERT((arr[0].tag == 0 || arr[0].tag == BSL_ASN1_TAG_INTEGER) && (arr[1].tag == BSL_ASN1_TAG_UTCTIME || arr[1].tag == BSL_ASN1_TAG_GENERALIZEDTIME) && arr[2].tag == 0x30, "tags are those of the template");
    V_ASSERT((arr[0].tag != 0) == (L > 0 && in[1 + h] == 0xA0), "a default element is returned exactly when it is present");
    if (arr[0].tag != 0) { V_WITNESS("default present"); } else { V_WITNESS("default absent"); }
#else
    V_ASSERT(arr[0].tag == BSL_ASN1_TAG_OBJECT_ID && (arr[1].tag == 0 || arr[1].tag == BSL_ASN1_TAG_NULL) && (arr[2].tag == 0 || arr[2].tag == 0xA1), "tags are those of the template");
    V_ASSERT(prev <= hi, "values are inside");
    V_WITNESS("decoded");
#endif
}
void harness(void)
{
    uint32_t n = nd_range(NLO, NHI);
    V_SPLIT(n, NLO, NHI, body);
}
#endif

#ifdef H_ROUND
static BSL_ASN1_TemplateItem g_items[] = {
    {BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, 0, 0},
        {BSL_ASN1_TAG_INTEGER, 0, 1},
        {BSL_ASN1_TAG_OCTETSTRING, BSL_ASN1_FLAG_OPTIONAL, 1},
        {BSL_ASN1_TAG_CONSTRUCTED | BSL_ASN1_TAG_SEQUENCE, 0, 1},
            {BSL_ASN1_TAG_BITSTRING, 0, 2},
            {BSL_ASN1_TAG_BOOLEAN, BSL_ASN1_FLAG_OPTIONAL, 2},
};
static void body(uint32_t k)
{
    /* the leading octets decide the encoded length: they are fixed per case, the others are symbolic */
    static const uint8_t LEAD[6][2] = { { 0x5a, 1 }, { 0x9c, 1 }, { 0x00, 0x85 }, { 0x00, 0x00 }, { 0x80, 0 }, { 0x7f, 0 } };
    uint32_t il = ILEN, ol = k & 1 ? OLEN : 0, bl = (k & 2) ? 2 : 1;
    bool boolPresent = (k >> 2) & 1, boolv = ndbool();
    uint8_t iv[4], bv[2];
    static uint8_t ov[OLEN + 1];
    nd_bytes(iv, 4); nd_bytes(bv, 2);
    iv[0] = LEAD[LD][0];
    if (iv[0] == 0) { iv[1] = LEAD[LD][1]; if (il > 2 && iv[1] == 0) { iv[2] = 0x41; } }
    nd_bytes(ov, OLEN > 4 ? 4 : OLEN);
    uint8_t unused = nd8();
    BSL_ASN1_BitString bs = { bv, bl, unused };
    BSL_ASN1_Buffer arr[4] = {
        { BSL_ASN1_TAG_INTEGER, il, iv },
        { BSL_ASN1_TAG_OCTETSTRING, ol, ol ? ov : NULL },
        { BSL_ASN1_TAG_BITSTRING, sizeof(bs), (uint8_t *)&bs },
        { BSL_ASN1_TAG_BOOLEAN, boolPresent ? sizeof(bool) : 0, boolPresent ? (uint8_t *)&boolv : NULL },
    };
    BSL_ASN1_Template t = { g_items, sizeof(g_items) / sizeof(g_items[0]) };
    uint8_t *enc = NULL;
    uint32_t encLen = 0;
    int32_t r = BSL_ASN1_EncodeTemplate(&t, arr, 4, &enc, &encLen);
    V_ASSERT((r == BSL_SUCCESS) == (unused <= 7), "encoding succeeds exactly for legal values");
    if (r != BSL_SUCCESS) { return; }
    BSL_ASN1_Buffer out[4] = { 0 };
    uint8_t *p = enc;
    uint32_t left = encLen;
    r = BSL_ASN1_DecodeTemplate(&t, NULL, &p, &left, out, 4);
    V_ASSERT(r == BSL_SUCCESS && left == 0, "an encoding decodes completely");
    uint32_t z = 0;
    while (z + 1 < il && iv[z] == 0) { z++; }
    V_ASSERT(out[0].len == il - z && v_eq(out[0].buff, iv + z, il - z), "the integer survives encoding");
    if (ol != 0) {
        V_ASSERT(out[1].tag == BSL_ASN1_TAG_OCTETSTRING && out[1].len == ol && v_eq(out[1].buff, ov, ol), "the octet string survives encoding");
    } else {
        V_ASSERT(out[1].tag == 0, "an absent element stays absent");
    }
    BSL_ASN1_BitString bo = { 0 };
    V_ASSERT(BSL_ASN1_DecodePrimitiveItem(&out[2], &bo) == BSL_SUCCESS && bo.unusedBits == unused && bo.len == bl, "the bit string keeps its length");
    V_ASSERT((bo.buff[bl - 1] >> unused) == (bv[bl - 1] >> unused) && (bo.buff[bl - 1] & ((1u << unused) - 1)) == 0 && (bl == 1 || bo.buff[0] == bv[0]), "the bit string survives encoding, unused bits are zero");
    if (boolPresent) {
        bool o = !boolv;
        V_ASSERT(BSL_ASN1_DecodePrimitiveItem(&out[3], &o) == BSL_SUCCESS && o == boolv, "the boolean survives encoding");
        V_ASSERT(*out[3].buff == (boolv ? 0xff : 0), "DER boolean");
    }
    BSL_SAL_Free(enc);
    V_ASSERT(v_alloc_live == 0, "encoding leaves only its result allocated");
    V_WITNESS("round trip");
}
void harness(void)
{
    uint32_t k = nd_range(0, 7);
    V_SPLIT(k, KLO, KHI, body);
}
#endif

#ifdef H_LIMB
void harness(void)
{
    uint64_t x = nd64();
    BSL_ASN1_Buffer a = { 0 };
    int32_t r = BSL_ASN1_EncodeLimb(BSL_ASN1_TAG_INTEGER, x, &a);
    V_ASSERT(r == BSL_SUCCESS && a.len >= 1 && a.len <= 8 && a.tag == BSL_ASN1_TAG_INTEGER, "small integers always encode");
    uint64_t y = 0;
    for (uint32_t i = 0; i < 8; i++) { if (i < a.len) { y = (y << 8) | a.buff[i]; } }
    V_ASSERT(y == x && (a.len == 1 || a.buff[0] != 0), "the octets are the minimal big-endian form");
    uint32_t c = nd32(), e = 0;
    r = BSL_ASN1_GetEncodeLen(c, &e);
    uint32_t lo = c < 128 ? 1 : c < 256 ? 2 : c < 65536 ? 3 : c < 0x1000000 ? 4 : 5;
    V_ASSERT((r == BSL_SUCCESS) == ((uint64_t)c + lo + 1 <= UINT32_MAX), "an element length is given exactly when it is representable");
    if (r == BSL_SUCCESS) { V_ASSERT(e == 1 + lo + c, "element length = tag + length octets + value"); V_WITNESS("len"); }
}
#endif

#ifdef H_UTF8
static void body(uint32_t n)
{
    const uint32_t sel = SEL;
    const uint8_t tag = sel == 0 ? BSL_ASN1_TAG_BMPSTRING : sel == 1 ? BSL_ASN1_TAG_UNIVERSALSTRING : BSL_ASN1_TAG_TELETEXSTRING;
    const uint32_t cs = sel == 0 ? 2 : sel == 1 ? 4 : 1;
    uint8_t in[8];
    nd_bytes(in, 8);
    BSL_ASN1_Buffer a = { tag, n, in }, o = { 0 };
    int32_t r = BSL_ASN1_ToUtf8String(&a, &o);
    bool ok = n % cs == 0;
    uint8_t ref[32];
    uint32_t w = 0;
    if (ok) {
        for (uint32_t i = 0; i < 8; i++) {
            if (i >= n / cs) { break; }
            uint32_t cp = cs == 1 ? in[i] : cs == 2 ? ((uint32_t)in[2 * (i & 3)] << 8) | in[2 * (i & 3) + 1] : ((uint32_t)in[4 * (i & 1)] << 24) | ((uint32_t)in[4 * (i & 1) + 1] << 16) | ((uint32_t)in[4 * (i & 1) + 2] << 8) | in[4 * (i & 1) + 3];
            if (cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) { ok = false; break; }
            if (cp < 0x80) { ref[w++] = cp; }
            else if (cp < 0x800) { ref[w++] = 0xc0 | (cp >> 6); ref[w++] = 0x80 | (cp & 63); }
            else if (cp < 0x10000) { ref[w++] = 0xe0 | (cp >> 12); ref[w++] = 0x80 | ((cp >> 6) & 63); ref[w++] = 0x80 | (cp & 63); }
            else { ref[w++] = 0xf0 | (cp >> 18); ref[w++] = 0x80 | ((cp >> 12) & 63); ref[w++] = 0x80 | ((cp >> 6) & 63); ref[w++] = 0x80 | (cp & 63); }
        }
    }
    V_ASSERT((r == BSL_SUCCESS) == ok, "conversion succeeds exactly for whole, valid characters");
    if (r == BSL_SUCCESS) {
        V_ASSERT(v_alloc_last >= o.len, "the text fits its buffer");
        V_ASSERT(o.len == w && o.tag == BSL_ASN1_TAG_UTF8STRING, "UTF-8 length");
        for (uint32_t i = 0; i < 32; i++) { if (i < w) { V_ASSERT(o.buff[i] == ref[i], "UTF-8 text"); } }
    }
    if (ok || NB % cs != 0) { V_WITNESS("converted"); }
}
void harness(void)
{
    body(NB);
}
#endif
