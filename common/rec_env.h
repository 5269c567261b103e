/* Environment for record-layer harnesses: the real record code, with I/O and record protection as oracles. */
#ifndef REC_ENV_H
#define REC_ENV_H
#include "v.h"
#include "hitls_build.h"
#include "tls.h"
#include "tls_config.h"
#include "record.h"
#include "rec_read.h"
#include "rec_write.h"
#include "rec_crypto.h"
#include "rec_header.h"
#include "rec_conn.h"
#include "rec_buf.h"
#include "hitls_error.h"
#include "bsl_uio.h"
#include "bsl_errno.h"

static uint32_t g_alerts;
static bool g_isUdp;
#ifdef VF_DYN_TRANSPORT
#endif
bool BSL_UIO_GetUioChainTransportType(BSL_UIO *uio, const BSL_UIO_TransportType uioType)
{
    (void)uio;
    return g_isUdp ? uioType == BSL_UIO_UDP : uioType == BSL_UIO_TCP;
}
static bool IsRecvCcs(const TLS_Ctx *ctx) { (void)ctx; return false; }
static void SendAlert(TLS_Ctx *ctx, ALERT_Level level, ALERT_Description d) { (void)ctx; (void)level; (void)d; g_alerts++; }
static void ClearAlert(TLS_Ctx *ctx, REC_Type t) { (void)ctx; (void)t; }
static int32_t Unexpected(TLS_Ctx *ctx, uint32_t t, const uint8_t *d, uint32_t l, bool p)
{
    (void)ctx; (void)t; (void)d; (void)l; (void)p;
    return HITLS_REC_NORMAL_RECV_UNEXPECT_MSG;
}
int32_t REC_Dtls13AckListAppend(TLS_Ctx *ctx, const RecordNumber *r) { (void)ctx; (void)r; return HITLS_SUCCESS; }
void REC_Dtls13SetNeedSendRetransAck(TLS_Ctx *ctx) { (void)ctx; }
int32_t HITLS_KeyUpdate(HITLS_Ctx *ctx, uint32_t t) { (void)ctx; (void)t; return HITLS_SUCCESS; }
void INDICATOR_MessageIndicate(int32_t w, uint32_t v, int32_t c, const void *b, uint32_t l, HITLS_Ctx *ctx, void *arg)
{ (void)w; (void)v; (void)c; (void)b; (void)l; (void)ctx; (void)arg; }
#ifndef REC_ENV_REAL_RECORD
int32_t RecIoBufInit(TLS_Ctx *ctx, RecCtx *recordCtx, bool isRead) { (void)ctx; (void)recordCtx; (void)isRead; return HITLS_SUCCESS; }
void RecTryFreeRecBuf(TLS_Ctx *ctx, bool isOut) { (void)ctx; (void)isOut; }
int32_t RecDerefBufList(TLS_Ctx *ctx) { (void)ctx; return HITLS_SUCCESS; }
uint32_t RecGetInitBufferSize(const TLS_Ctx *ctx, bool isRead) { (void)ctx; (void)isRead; return 5 + 16384 + 2048; }
#endif
static TLS_Ctx g_ctx;
static RecCtx g_rec;
static RecConnState g_cur, g_old;
static RecConnSuitInfo g_suite;
static RecBuf g_in, g_outb;

static void EnvSetup(uint16_t version, uint32_t mask, uint16_t epoch)
{
    g_ctx.isClient = ndbool();
    g_ctx.recCtx = &g_rec;
    g_ctx.method.isRecvCCS = IsRecvCcs;
    g_ctx.method.sendAlert = SendAlert;
    g_ctx.method.clearAlert = ClearAlert;
    g_ctx.method.unexpectedMsgProcessCb = Unexpected;
    g_ctx.negotiatedInfo.version = version;
    g_ctx.config.tlsConfig.originVersionMask = mask;
    g_ctx.config.tlsConfig.maxVersion = version;
    g_ctx.config.tlsConfig.minVersion = version;
    g_rec.readStates.currentState = &g_cur;
    g_rec.readStates.outdatedState = &g_old;
    g_rec.writeStates.currentState = &g_cur;
    g_rec.readEpoch = epoch;
    g_rec.writeEpoch = epoch;
    g_cur.epoch = epoch;
    g_old.epoch = epoch - 1;
    g_cur.suiteInfo = &g_suite;
    g_old.suiteInfo = &g_suite;
    g_suite.cipherAlg = HITLS_CIPHER_AES_128_GCM;
    g_suite.cipherType = HITLS_AEAD_CIPHER;
    g_rec.inBuf = &g_in;
    g_rec.outBuf = &g_outb;
    g_rec.appRecList = RecBufListNew();
    g_rec.hsRecList = RecBufListNew();
    UnprocessedMsgListInit(&g_rec.UnprocessedMsgList);
}
static void Put(uint8_t *p, uint64_t v, uint32_t n) { for (uint32_t v_i = 0; v_i < n; v_i++) { p[v_i] = (uint8_t)(v >> (8 * (n - 1 - v_i))); } }
#endif
