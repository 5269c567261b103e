/* C12: DTLS handshake reassembly. */
#include "v.h"
#include "hitls_build.h"
#include "tls.h"
#include "hitls_error.h"
#include "hs_ctx.h"
#include "hs_msg.h"
#include "hs_common.h"
#include "hs_reass.h"
#include "hs.h"
#include "rec.h"
#ifndef L
#define L 9
#define NF 3
#endif
#define HDR 12
#define MAXC (HDR + L + 8)
void *memcpy(void *d, const void *s, size_t n)
{
    V_ASSERT(n == 0 || (d != NULL && s != NULL), "copy between valid buffers");
    V_ASSERT(n <= MAXC, "copy within the message");
    for (uint32_t v_i = 0; v_i < MAXC; v_i++) { if (v_i < n) { ((uint8_t *)d)[v_i] = ((const uint8_t *)s)[v_i]; } }
    return d;
}
static TLS_Ctx g_ctx;
static HS_Ctx g_hs;
static uint8_t g_raw[HDR + L];
static uint32_t g_alerts;
static void Alert(TLS_Ctx *ctx, ALERT_Level level, ALERT_Description d) { (void)ctx; (void)level; (void)d; g_alerts++; }
int32_t HS_ReSizeMsgBuf(TLS_Ctx *ctx, uint32_t n)
{
    V_ASSERT(n == HDR + L, "the buffer is sized for the whole message");
    ctx->hsCtx->bufferLen = n;
    return HITLS_SUCCESS;
}
static uint8_t g_body[L + 1], g_buf[HDR + L];
static void put24(uint8_t *p, uint32_t v) { p[0] = (uint8_t)(v >> 16); p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)v; }
static void setup(void)
{
    g_ctx.hsCtx = &g_hs;
    g_ctx.method.sendAlert = Alert;
    g_hs.msgBuf = g_buf;
    g_hs.bufferLen = 1;
    V_ASSERT(HS_ReassQueueInit(&g_ctx) == HITLS_SUCCESS, "queue");
}
static int32_t append(uint8_t type, uint32_t length, uint16_t seq, uint32_t off, uint32_t len)
{
    HS_MsgInfo m = {0};
    g_raw[0] = type; put24(g_raw + 1, length); g_raw[4] = (uint8_t)(seq >> 8); g_raw[5] = (uint8_t)seq; put24(g_raw + 6, off); put24(g_raw + 9, len);
    for (uint32_t i = 0; i < L; i++) { if (i < len) { g_raw[HDR + i] = off + i < L ? g_body[off + i] : nd8(); } else { g_raw[HDR + i] = nd8(); } }
    m.type = type; m.length = length; m.sequence = seq; m.fragmentOffset = off; m.fragmentLength = len;
    m.rawMsg = g_raw; m.headerAndBodyLen = HDR + length;
    return HS_ReassAppend(&g_ctx, &m);
}
/* faithful fragments of one message in any order, overlapping in any way */
void h_reass(void)
{
    setup();
    uint8_t type = nd8();
    uint16_t seq = nd16();
    bool cov[L + 1] = {0}, all = true;
    V_ASSUME(type < 30);
    g_hs.expectRecvSeq = seq;
    nd_bytes(g_body, L);
    for (uint32_t f = 0; f < NF; f++) {
        uint32_t off = nd_range(0, L), len = nd_range(L ? 1 : 0, L ? L : 0);
        V_ASSUME(off + len <= L);
        V_ASSERT(append(type, L, seq, off, len) == HITLS_SUCCESS, "a valid fragment is taken");
        for (uint32_t i = 0; i < L; i++) { if (i >= off && i < off + len) { cov[i] = true; } }
    }
    for (uint32_t i = 0; i < L; i++) { all = all && cov[i]; }
    V_ASSERT(g_alerts == 0, "no alert for valid fragments");
    HS_MsgInfo r = {0};
    uint32_t n = 77;
    V_ASSERT(HS_GetReassMsg(&g_ctx, &r, &n) == HITLS_SUCCESS, "asking for the message");
    V_ASSERT((n != 0) == all, "delivered exactly when every byte has arrived");
    V_ASSERT(HS_ReassQueueIsEmpty(&g_ctx) == all, "a delivered message leaves the queue, an incomplete one stays");
    if (all) {
        V_ASSERT(n == HDR + L && r.type == type && r.length == L && r.sequence == seq && r.fragmentOffset == 0 && r.fragmentLength == L && r.headerAndBodyLen == HDR + L && r.rawMsg == g_hs.msgBuf, "fields of the delivered message");
        uint8_t h[HDR];
        h[0] = type; put24(h + 1, L); h[4] = (uint8_t)(seq >> 8); h[5] = (uint8_t)seq; put24(h + 6, 0); put24(h + 9, L);
        V_ASSERT(v_eq(g_hs.msgBuf, h, HDR), "header of the unfragmented message");
        V_ASSERT(v_eq(g_hs.msgBuf + HDR, g_body, L), "every byte of the message in its place");
        V_WITNESS("complete");
    } else {
#if L > 1
        V_WITNESS("incomplete");
#endif
    }
}
/* a second fragment that contradicts the first is refused, whatever it claims */
void h_mismatch(void)
{
    setup();
    uint8_t t2 = nd8();
    uint16_t seq = nd16();
    uint32_t l2 = nd_range(0, 0xffffff), off = ndbool() ? 1 : 0, len = 1;
    g_hs.expectRecvSeq = seq;
    V_ASSERT(append(3, L, seq, 0, 1) == HITLS_SUCCESS, "first fragment");
    V_ASSUME(off + len <= l2 && (len != 0 || l2 == 0));
    V_ASSUME(t2 != 3 || l2 != L);
    int32_t r = append(t2, l2, seq, off, len);
    V_ASSERT(r != HITLS_SUCCESS, "fragments of one message agree on type and length");
    V_ASSERT(g_alerts != 0, "a contradiction is answered with an alert");
    V_WITNESS("contradiction");
    V_CASE_END();
}
/* messages far ahead of the expected one take no memory; nearer ones are kept apart by sequence number */
void h_window(void)
{
    setup();
    uint16_t want = nd16(), s1 = nd16();
    g_hs.expectRecvSeq = want;
    uint32_t live = v_alloc_live;
    nd_bytes(g_body, L);
    V_ASSERT(append(3, L, s1, 0, L) == HITLS_SUCCESS, "kept or dropped");
    V_ASSERT(s1 <= want + 10 || v_alloc_live == live, "messages far ahead are not buffered");
    HS_MsgInfo r = {0};
    uint32_t n = 77;
    V_ASSERT(HS_GetReassMsg(&g_ctx, &r, &n) == HITLS_SUCCESS, "asking for the message");
    V_ASSERT((n != 0) == (s1 == want), "only the expected message is delivered");
    V_ASSERT(n == 0 || r.sequence == want, "with its sequence number");
    if (s1 != want && s1 <= want + 10) {
        g_hs.expectRecvSeq = s1;
        V_ASSERT(HS_GetReassMsg(&g_ctx, &r, &n) == HITLS_SUCCESS && n != 0, "a message that came early is delivered when its turn comes");
        V_WITNESS("early");
    } else if (s1 == want) { V_WITNESS("in order"); } else { V_WITNESS("far ahead"); }
    HS_ReassQueueFree(&g_ctx);
    V_ASSERT(v_alloc_live + 1 == live, "nothing is left allocated");
}
