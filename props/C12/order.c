/* C12: order of DTLS handshake messages, and the message header. */
#include "v.h"
#include "hitls_build.h"
#include "tls.h"
#include "hitls_error.h"
#include "hs_ctx.h"
#include "hs_msg.h"
#include "hs_common.h"
#include "hs_reass.h"
#include "hs.h"
#include "hs_state_recv.h"
#include "parse.h"
#include "parse_msg.h"
#include "rec.h"
#include "bsl_uio.h"
#include "transcript_hash.h"
#include "recv_process.h"
#define HDR 12
#define ML 2
#define MAXC 24
static TLS_Ctx g_ctx;
static HS_Ctx g_hs;
static uint32_t g_alerts;
static uint8_t g_buf[64];
static void Alert(TLS_Ctx *ctx, ALERT_Level level, ALERT_Description d) { (void)ctx; (void)level; (void)d; g_alerts++; }
static bool AlertFlag(const TLS_Ctx *ctx) { (void)ctx; return g_alerts != 0; }
static bool IsCcs(const TLS_Ctx *ctx) { (void)ctx; return true; }
bool BSL_UIO_GetUioChainTransportType(BSL_UIO *uio, const BSL_UIO_TransportType t) { (void)uio; return t == BSL_UIO_UDP; }
int32_t HITLS_DtlsProcessTimeout(HITLS_Ctx *ctx) { (void)ctx; return HITLS_MSG_HANDLE_DTLS_RETRANSMIT_NOT_TIMEOUT; }
void REC_RetransmitListClean(REC_Ctx *r) { (void)r; }
REC_Type REC_GetUnexpectedMsgType(TLS_Ctx *ctx) { (void)ctx; return REC_TYPE_APP; }
void INDICATOR_MessageIndicate(int32_t w, uint32_t v, int32_t c, const void *b, uint32_t l, HITLS_Ctx *ctx, void *arg) { (void)w; (void)v; (void)c; (void)b; (void)l; (void)ctx; (void)arg; }
void INDICATOR_StatusIndicate(const HITLS_Ctx *ctx, int32_t e, int32_t v) { (void)ctx; (void)e; (void)v; }
void CleanCertificate(CertificateMsg *m) { (void)m; }
int32_t ParseErrorProcess(TLS_Ctx *ctx, int32_t err, uint32_t logId, const void *format, ALERT_Description d) { (void)logId; (void)format; (void)d; g_alerts++; (void)ctx; return err; }
static void setup(void)
{
    g_ctx.hsCtx = &g_hs;
    g_ctx.method.sendAlert = Alert;
    g_ctx.method.getAlertFlag = AlertFlag;
    g_ctx.method.isRecvCCS = IsCcs;
    g_ctx.config.tlsConfig.originVersionMask = DTLS12_VERSION_BIT;
    g_ctx.negotiatedInfo.version = HITLS_VERSION_DTLS12;
    g_ctx.config.tlsConfig.maxVersion = HITLS_VERSION_DTLS12;
    g_ctx.state = CM_STATE_HANDSHAKING;
    g_ctx.isClient = true;
    g_hs.state = TRY_RECV_CERTIFICATE;
    g_hs.msgBuf = g_buf;
    g_hs.bufferLen = sizeof(g_buf);
}
#ifdef H_ORDER
/* one call of the receiver, from any expected sequence number: the reassembly queue (decided in reass.c) either holds the
 * expected message or not, and the next datagram is any fragment of any message */
static uint16_t g_want, g_seq;
static uint32_t g_off, g_fl, g_len, g_appended, g_parsed, g_raw, g_read;
static bool g_queued, g_empty;
static uint8_t g_type;
int32_t HS_GetReassMsg(TLS_Ctx *ctx, HS_MsgInfo *m, uint32_t *n)
{
    *n = 0;
    if (g_queued) { m->type = g_type; m->length = g_len; m->sequence = ctx->hsCtx->expectRecvSeq; m->fragmentOffset = 0; m->fragmentLength = g_len; m->rawMsg = ctx->hsCtx->msgBuf; m->headerAndBodyLen = HDR + g_len; *n = HDR + g_len; }
    return HITLS_SUCCESS;
}
int32_t HS_ReassAppend(TLS_Ctx *ctx, HS_MsgInfo *m)
{
    V_ASSERT(m->type == g_type && m->sequence == g_seq && m->length == g_len && m->fragmentOffset == g_off && m->fragmentLength == g_fl && m->rawMsg == ctx->hsCtx->msgBuf, "the fragment itself is kept");
    g_appended++;
    return HITLS_SUCCESS;
}
int32_t REC_Read(TLS_Ctx *ctx, REC_Type t, uint8_t *data, uint32_t *readLen, uint32_t num)
{
    V_ASSERT(t == REC_TYPE_HANDSHAKE && !g_queued, "a queued message comes first");
    *readLen = 0;
    if (g_empty) { return HITLS_REC_NORMAL_RECV_BUF_EMPTY; }
    if (g_read == 0) {
        V_ASSERT(num == HDR && data == ctx->hsCtx->msgBuf, "header first");
        uint8_t h[HDR] = {g_type, (uint8_t)(g_len >> 16), (uint8_t)(g_len >> 8), (uint8_t)g_len, (uint8_t)(g_seq >> 8), (uint8_t)g_seq, (uint8_t)(g_off >> 16), (uint8_t)(g_off >> 8), (uint8_t)g_off, (uint8_t)(g_fl >> 16), (uint8_t)(g_fl >> 8), (uint8_t)g_fl};
        for (uint32_t i = 0; i < HDR; i++) { data[i] = h[i]; }
        g_read = HDR;
        *readLen = HDR;
        return HITLS_SUCCESS;
    }
    V_ASSERT(data == ctx->hsCtx->msgBuf + g_read && num == HDR + g_fl - g_read && num <= sizeof(g_buf) - HDR, "the rest of the fragment, behind its header");
    for (uint32_t i = 0; i < 8; i++) { if (i < num) { data[i] = nd8(); } }
    g_read += num;
    *readLen = num;
    return HITLS_SUCCESS;
}
int32_t HS_GrowMsgBuf(TLS_Ctx *ctx, uint32_t n, bool keep) { (void)ctx; V_ASSERT(keep && n <= sizeof(g_buf), "buffer"); return HITLS_SUCCESS; }
uint32_t HS_MaxMessageSize(TLS_Ctx *ctx, HS_MsgType t) { (void)ctx; (void)t; return 100; }
int32_t stub_CheckType(TLS_Ctx *ctx, HS_MsgType t) { (void)ctx; V_ASSERT(t == g_type, "type"); return HITLS_SUCCESS; }
int32_t stub_ParseMsg(TLS_Ctx *ctx, const HS_MsgInfo *info, HS_Msg *msg)
{
    V_ASSERT(g_parsed == 0 && info->sequence == ctx->hsCtx->expectRecvSeq, "only the message next in sequence is processed");
    V_ASSERT(info->fragmentOffset == 0 && info->fragmentLength == g_len && info->length == g_len && info->rawMsg == ctx->hsCtx->msgBuf && info->headerAndBodyLen == HDR + g_len && info->type == g_type, "and only whole");
    V_ASSERT(g_queued || g_read == HDR + g_len, "all of it read");
    msg->type = info->type;
    g_parsed++;
    return HITLS_SUCCESS;
}
int32_t VERIFY_AppendDtlsRaw(VerifyCtx *c, const uint8_t *data, uint32_t len, VERIFY_TranscriptStyle s)
{
    (void)c;
    V_ASSERT(g_parsed == 1 && data == g_hs.msgBuf && len == HDR + g_len, "the whole message enters the transcript");
    V_ASSERT(s == (g_ctx.negotiatedInfo.version == HITLS_VERSION_DTLS13 ? VERIFY_TRANSCRIPT_DTLS13 : VERIFY_TRANSCRIPT_RAW), "in the form of its version");
    g_raw++;
    return HITLS_SUCCESS;
}
int32_t RecvCertificateProcess(TLS_Ctx *ctx, const HS_Msg *msg) { (void)ctx; (void)msg; V_ASSERT(g_raw == 1, "transcript first"); return HITLS_SUCCESS; }
int32_t Tls13RecvCertificateProcess(TLS_Ctx *ctx, const HS_Msg *msg) { return RecvCertificateProcess(ctx, msg); }
void h_order(void)
{
    setup();
    g_want = nd16(); g_seq = nd16(); g_type = nd8(); g_queued = ndbool(); g_empty = ndbool();
    g_len = nd_range(0, 8); g_off = nd_range(0, 8); g_fl = nd_range(0, 8);
    V_ASSUME(g_off + g_fl <= g_len && (g_fl != 0 || g_len == 0)); /* other headers are refused: h_header */
    V_ASSUME(g_type == CERTIFICATE); /* types: C13 */
    if (ndbool()) { g_ctx.negotiatedInfo.version = HITLS_VERSION_DTLS13; V_ASSUME(g_want != 0xffff); }
    g_hs.expectRecvSeq = g_want;
    int32_t r = HS_RecvMsgProcess(&g_ctx);
    bool whole = g_queued || (!g_empty && g_seq == g_want && g_fl == g_len);
    V_ASSERT(r == HITLS_SUCCESS || (g_empty && !g_queued && r == HITLS_REC_NORMAL_RECV_BUF_EMPTY), "no arrival order is an error");
    V_ASSERT(g_alerts == 0, "or alerted");
    V_ASSERT((g_parsed == 1) == whole, "the expected message is processed when it is there");
    V_ASSERT(g_raw == g_parsed && g_hs.expectRecvSeq == (uint16_t)(g_want + g_parsed), "transcript and expected sequence advance with it");
    bool keep = !g_queued && !g_empty && (g_seq > g_want || (g_seq == g_want && g_fl != g_len));
    V_ASSERT(g_appended == (keep ? 1 : 0), "fragments and early messages are kept, old ones dropped");
    if (g_queued) { V_WITNESS("from the queue"); } else if (g_empty) { V_WITNESS("nothing"); } else if (whole) { V_WITNESS("whole"); } else if (keep) { V_WITNESS("kept"); } else { V_WITNESS("old"); }
}
#endif
#ifdef H_HDR
int32_t HS_GrowMsgBuf(TLS_Ctx *ctx, uint32_t n, bool keep) { (void)ctx; (void)keep; g_hs.bufferLen = n; return HITLS_SUCCESS; }
static uint32_t g_max;
uint32_t HS_MaxMessageSize(TLS_Ctx *ctx, HS_MsgType t) { (void)ctx; (void)t; return g_max; }
void h_header(void)
{
    setup();
    uint8_t h[HDR];
    uint32_t n = nd_range(0, HDR);
    HS_MsgInfo m = {0};
    nd_bytes(h, HDR);
    g_max = nd_range(0, 0xffffff);
    uint32_t len = ((uint32_t)h[1] << 16) | ((uint32_t)h[2] << 8) | h[3], seq = ((uint32_t)h[4] << 8) | h[5], off = ((uint32_t)h[6] << 16) | ((uint32_t)h[7] << 8) | h[8], fl = ((uint32_t)h[9] << 16) | ((uint32_t)h[10] << 8) | h[11];
    int32_t r = HS_ParseMsgHeader(&g_ctx, h, n, &m);
    bool frag = off + fl <= len && (fl != 0 || len == 0);
    if (r == HITLS_SUCCESS) {
        V_ASSERT(n == HDR && frag, "fragments lie inside their message and are not empty");
        V_ASSERT(len <= g_max, "messages larger than allowed are refused");
        V_ASSERT(m.type == h[0] && m.length == len && m.sequence == seq && m.fragmentOffset == off && m.fragmentLength == fl && m.headerAndBodyLen == HDR + len, "header fields");
        V_ASSERT(g_alerts == 0 && g_hs.bufferLen >= HDR + fl, "room for the fragment");
        V_WITNESS("accepted");
    } else {
        V_ASSERT(n < HDR || !frag || len > g_max || h[0] == 255 || len > HITLS_HS_BUFFER_SIZE_LIMIT - HDR, "a good header is accepted");
        V_ASSERT(g_alerts != 0, "a bad header is answered with an alert");
        V_WITNESS("refused");
    }
}
#endif
