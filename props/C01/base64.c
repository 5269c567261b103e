#include "v.h"
#include "bsl_base64.h"
#include "bsl_errno.h"

static const char REF[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/* reference value of a base64 character: 0..63, 64 blank, 65 '=', 66 anything else */
static uint32_t RefVal(uint8_t c)
{
    if (c >= 'A' && c <= 'Z') { return c - 'A'; }
    if (c >= 'a' && c <= 'z') { return c - 'a' + 26; }
    if (c >= '0' && c <= '9') { return c - '0' + 52; }
    if (c == '+') { return 62; }
    if (c == '/') { return 63; }
    if (c == ' ' || c == '\r' || c == '\n') { return 64; }
    if (c == '=') { return 65; }
    return 66;
}
static char RefEncAt(const uint8_t *s, uint32_t n, uint32_t i)
{
    uint32_t g = i / 4, k = i % 4;
    uint32_t b0 = s[3 * g], b1 = 3 * g + 1 < n ? s[3 * g + 1] : 0, b2 = 3 * g + 2 < n ? s[3 * g + 2] : 0;
    if (k == 2 && 3 * g + 1 >= n) { return '='; }
    if (k == 3 && 3 * g + 2 >= n) { return '='; }
    uint32_t w = (b0 << 16) | (b1 << 8) | b2;
    return REF[(w >> (18 - 6 * k)) & 63];
}

#ifdef H_ENC
#ifndef N
#define N 8
#endif
/* every byte string of length n<=N, every capacity: exact text, exact length, terminator, no byte past need */
static void body(uint32_t n)
{
    uint8_t in[N];
    nd_bytes(in, N);
    uint32_t need = (n + 2) / 3 * 4 + 1;
    uint32_t cap = nd32();
    char out[(N + 2) / 3 * 4 + 1 + 4];
    memset(out, 0x7e, sizeof(out));
    uint32_t len = cap;
    int32_t ret = BSL_BASE64_Encode(in, n, out, &len);
    if (n == 0 || cap < need) {
        V_ASSERT(ret != BSL_SUCCESS, "base64 encode refuses an empty input or too small a buffer");
        V_ASSERT(out[0] == 0x7e, "refused encode writes nothing");
        V_WITNESS("refused");
        return;
    }
    V_ASSERT(ret == BSL_SUCCESS, "base64 encode accepts every non-empty input with a sufficient buffer");
    V_ASSERT(len == need - 1, "base64 encode reports the exact text length");
    V_ASSERT(out[len] == '\0', "base64 text is terminated");
    for (uint32_t i = 0; i < (N + 2) / 3 * 4; i++) {
        if (i < len) {
            V_ASSERT(out[i] == RefEncAt(in, n, i), "base64 text equals RFC 4648 text");
        }
    }
    V_ASSERT(out[need] == 0x7e && out[need + 1] == 0x7e, "nothing written past the required size");
    /* and back */
    uint8_t back[(N + 2) / 3 * 3 + 3];
    uint32_t blen = sizeof(back);
    ret = BSL_BASE64_Decode(out, need - 1, back, &blen);
    V_ASSERT(ret == BSL_SUCCESS && blen == n, "decode accepts every encoded text and returns its length");
    for (uint32_t i = 0; i < N; i++) {
        if (i < n) {
            V_ASSERT(back[i] == in[i], "decode(encode(x)) == x");
        }
    }
    V_WITNESS("round trip");
}
void harness(void)
{
    uint32_t n = nd_range(0, N);
    for (uint32_t v_k = 0; v_k <= N; v_k++) { if (n == v_k) { body(v_k); V_CASE_END(); } }
}
#endif

#ifdef H_DEC
#ifndef N
#define N 9
#endif
/* every text of length n<=N: accepted iff well formed after blanks are removed, and then decoded exactly */
static void body(uint32_t n)
{
    char in[N];
    nd_bytes(in, N);
    uint32_t cap = nd32();
    uint32_t need = (n + 3) / 4 * 3;
    uint8_t *out = malloc((N + 3) / 4 * 3 + 1);
    V_ASSUME(out != NULL);
    out[0] = 0x7e;
    /* reference */
    uint8_t f[N];
    uint32_t m = 0;
    for (uint32_t i = 0; i < N; i++) {
        if (i < n && RefVal((uint8_t)in[i]) != 64) { f[m++] = (uint8_t)in[i]; }
    }
    bool ok = m > 0 && m % 4 == 0;
    uint32_t pad = 0;
    for (uint32_t i = 0; i < N; i++) {
        if (i < m) {
            uint32_t v = RefVal(f[i]);
            if (v > 65) { ok = false; }
            if (v == 65) {
                pad++;
                if (i + 2 < m) { ok = false; }
            } else if (pad > 0) {
                ok = false;
            }
        }
    }
    uint32_t len = cap;
    int32_t ret = BSL_BASE64_Decode(in, n, out, &len);
    if (cap < need) {
        V_ASSERT(ret != BSL_SUCCESS, "decode refuses too small a buffer");
        V_ASSERT(out[0] == 0x7e, "refused decode writes nothing");
        return;
    }
    V_ASSERT((ret == BSL_SUCCESS) == ok, "decode accepts exactly the well-formed texts");
    if (ret == BSL_SUCCESS) {
        uint32_t want = m / 4 * 3 - pad;
        V_ASSERT(len == want, "decoded length is exact");
        for (uint32_t i = 0; i < N; i++) {
            if (i < want) {
                uint32_t g = i / 3, w = 0;
                for (uint32_t k = 0; k < 4; k++) {
                    uint32_t v = RefVal(f[4 * g + k]);
                    w = (w << 6) | (v < 64 ? v : 0);
                }
                V_ASSERT(out[i] == (uint8_t)(w >> (16 - 8 * (i % 3))), "decoded bytes are exact");
            }
        }
        V_WITNESS("accepted");
    } else {
        V_WITNESS("rejected");
    }
    V_ASSERT(v_alloc_live == 0, "decode releases its scratch buffer");
    free(out);
}
void harness(void)
{
    uint32_t n = nd_range(0, N);
    for (uint32_t v_k = 0; v_k <= N; v_k++) { if (n == v_k) { body(v_k); V_CASE_END(); } }
}
#endif

#ifdef ROOM /* one call has only so much room */
#define V_EACH(call) do { uint32_t v_pick = nd_range(0, 2); for (uint32_t v_t = 0; v_t < 3; v_t++) { if (v_pick == v_t) { call; V_CASE_END(); } } } while (0)
#else
#define V_EACH(call) do { uint32_t v_t = 3; call; V_CASE_END(); } while (0)
#endif
#ifdef H_SENC
#define N 160
/* streaming encode: chunks of c1 then c2 bytes give the RFC 4648 text in lines of 64 characters
 * (or without newlines), whatever the cut */
static uint8_t in[N];
static char out[4 * 65 + 16];
static void Stream(uint32_t c1, uint32_t c2, bool nonl, uint32_t tight) /* tight: the call with little room (3: none) */
{
    uint32_t n = c1 + c2;
    uint32_t off = 0, len;
    memset(out, 0x7e, sizeof(out));
    BSL_Base64Ctx *ctx = BSL_BASE64_CtxNew();
    BSL_BASE64_EncodeInit(ctx);
    if (nonl) {
        BSL_BASE64_SetFlags(ctx, BSL_BASE64_FLAGS_NO_NEWLINE);
    }
    uint32_t cut[2] = {c1, c2};
    uint32_t pos = 0;
    for (uint32_t k = 0; k < 2; k++) {
        if (cut[k] == 0) { continue; }
        uint32_t cap = sizeof(out) - off;
        if (tight == k) { cap = nd_range(0, sizeof(out) - off); }
        len = cap;
        int32_t ret = BSL_BASE64_EncodeUpdate(ctx, in + pos, cut[k], out + off, &len);
        if (cap >= (cut[k] + 47) / 48 * 65 + 1) {
            V_ASSERT(ret == BSL_SUCCESS, "streaming encode accepts every chunk when there is room");
        }
        if (ret != BSL_SUCCESS) {
#ifdef ROOM
            V_WITNESS("no room");
#endif
            V_ASSERT(out[off] == 0x7e, "a refused call writes nothing");
            return;
        }
        V_ASSERT(len <= cap, "no more is written than there is room for");
        if (tight == k) {
#ifdef ROOM
                V_WITNESS("fits");
#endif
                return;
            }
        pos += cut[k];
        V_ASSERT(off + len == pos / 48 * (nonl ? 64 : 65), "a chunk gives every complete line");
        off = pos / 48 * (nonl ? 64 : 65);
    }
    uint32_t cap = sizeof(out) - off;
    if (tight == 2) { cap = nd_range(0, sizeof(out) - off); }
    len = cap;
    int32_t ret = BSL_BASE64_EncodeFinal(ctx, out + off, &len);
    if (cap < 66 && ret != BSL_SUCCESS) { return; }
    V_ASSERT(len <= cap, "no more is written than there is room for");
    if (tight == 2) { return; }
    V_ASSERT(ret == BSL_SUCCESS, "streaming encode final succeeds");
    off += len;
    uint32_t text = (n + 2) / 3 * 4, lines = (n + 47) / 48;
    V_ASSERT(off == text + (nonl ? 0 : lines), "streaming encode total length is exact");
    off = text + (nonl ? 0 : lines);
    for (uint32_t i = 0; i < off; i++) {
        if (nonl) {
            V_ASSERT(out[i] == RefEncAt(in, n, i), "streaming text equals one-shot text");
        } else if (i % 65 == 64 || i == off - 1) {
            V_ASSERT(out[i] == '\n', "each line ends with a newline");
        } else {
            V_ASSERT(out[i] == RefEncAt(in, n, i / 65 * 64 + i % 65), "streaming text equals one-shot text");
        }
    }
    BSL_BASE64_CtxFree(ctx);
    V_ASSERT(v_alloc_live == 0, "context released");
#ifndef ROOM
    V_WITNESS("streamed");
#endif
}
void harness(void)
{
    static const uint8_t C1[] = C1SET;
    nd_bytes(in, N);
    uint32_t a = nd32();
    for (uint32_t v_i = 0; v_i < sizeof(C1); v_i++) {
        uint32_t c1 = C1[v_i], r = 48 - c1;
        uint32_t c2[6] = {1, r - (r > 1), r, r + 1, r + 48, r + 49};
        for (uint32_t v_j = 0; v_j < 6; v_j++) {
            if (a == v_i * 6 + v_j) {
                V_EACH(Stream(c1, c2[v_j], v_j % 2 == v_i % 2, v_t));

                V_CASE_END();
            }
        }
    }
}
#endif

#ifdef H_SDEC
/* streaming decode of any text of n characters cut after c1 characters: accepted iff well formed; bytes exact */
static uint8_t in[N];
static void Stream(uint32_t n, uint32_t c1, uint32_t tight) /* tight: the call with little room (3: none) */
{
    uint8_t out[(N + 3) / 4 * 3 + 52];
    uint32_t off = 0, len;
    BSL_Base64Ctx *ctx = BSL_BASE64_CtxNew();
    BSL_BASE64_DecodeInit(ctx);
    uint32_t cut[2] = {c1, n - c1};
    uint32_t pos = 0;
    int32_t ret = BSL_SUCCESS;
    for (uint32_t k = 0; k < 2 && ret == BSL_SUCCESS; k++) {
        if (cut[k] == 0) { continue; }
        uint32_t cap = sizeof(out) - off;
        if (tight == k) { cap = nd_range(0, sizeof(out) - off); }
        len = cap;
        ret = BSL_BASE64_DecodeUpdate(ctx, (char *)in + pos, cut[k], out + off, &len);
        if (ret == BSL_BASE64_BUF_NOT_ENOUGH) {
            V_ASSERT(cap < (cut[k] + 63) / 64 * 48, "streaming decode accepts every chunk when there is room");
            return;
        }
        if (ret == BSL_SUCCESS) {
            V_ASSERT(len <= cap, "no more is written than there is room for");
            if (tight == k) {
#ifdef ROOM
                V_WITNESS("fits");
#endif
                return;
            }
#ifdef PREFIX
            off += len;
#else
            V_ASSERT(len == 0, "less than a block gives nothing yet");
#endif
        }
        pos += cut[k];
    }
    if (ret == BSL_SUCCESS) {
        uint32_t cap = sizeof(out) - off;
        if (tight == 2) { cap = nd_range(0, sizeof(out) - off); }
        len = cap;
        ret = BSL_BASE64_DecodeFinal(ctx, out + off, &len);
        if (ret == BSL_BASE64_BUF_NOT_ENOUGH && cap < 48) { return; }
        if (ret == BSL_SUCCESS) {
            V_ASSERT(len <= cap, "no more is written than there is room for");
            off += len;
        }
        if (tight == 2) { return; }
    }
    /* sequential reference: acc holds the bits of the current group, k the bytes produced so far */
    uint32_t m = 0, pad = 0, acc = 0, k = 0;
    bool ok = true, same = true;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t v = RefVal(in[i]);
        if (v == 64) { continue; }
        if (v > 65) { ok = false; }
        if (v == 65) { pad++; } else if (pad > 0) { ok = false; }
        if (v < 64) {
            acc = (acc << 6) | v;
            if (m % 4 != 0) {
                same = same && out[k] == (uint8_t)(acc >> (6 - 2 * (m % 4)));
                k++;
            }
        }
        m++;
    }
    if (pad > 2 || m % 4 != 0) { ok = false; }
    V_ASSERT((ret == BSL_SUCCESS) == ok, "streaming decode accepts exactly the well-formed texts");
    if (ok) {
        V_ASSERT(off == k && k == m / 4 * 3 - pad, "streamed decoded length is exact");
        V_ASSERT(same, "streamed decoded bytes are exact");
#ifndef ROOM
        V_WITNESS("accepted");
#endif
    } else {
#ifndef ROOM
        V_WITNESS("rejected");
#endif
    }
    BSL_BASE64_CtxFree(ctx);
    V_ASSERT(v_alloc_live == 0, "context released");
}
void harness(void)
{
    nd_bytes(in, N);
#ifdef PREFIX
    /* first PREFIX characters are a fixed data pattern: brings the 64-character block boundary in reach */
    for (uint32_t v_i = 0; v_i < PREFIX; v_i++) { in[v_i] = (uint8_t)REF[(v_i * 7) % 64]; }
#ifdef ONLY
    uint32_t a = ONLY;
#else
    uint32_t a = nd8();
#endif
    if (a == 0) { V_EACH(Stream(64, 63, v_t)); V_CASE_END(); }
    if (a == 1) { V_EACH(Stream(N, 64, v_t)); V_CASE_END(); }
    if (a == 2) { V_EACH(Stream(N, 62, v_t)); V_CASE_END(); }
#else
    uint32_t a = nd32();
    for (uint32_t v_i = 1; v_i <= N; v_i++) {
        for (uint32_t v_j = 0; v_j <= v_i; v_j += CSTEP) {
            if (a == v_i * 100 + v_j) { V_EACH(Stream(v_i, v_j, v_t)); V_CASE_END(); }
        }
    }
#endif
}
#endif
