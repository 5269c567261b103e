/* Two datagrams through the real DTLS read path; record protection is a nondeterministic oracle. */
#include "v.h"
#include "hitls_build.h"
#include "tls.h"
#include "record.h"
#include "rec_read.h"
#include "rec_crypto.h"
#include "rec_header.h"
#include "rec_conn.h"
#include "rec_buf.h"
#include "hitls_error.h"
#include "bsl_uio.h"
#include "bsl_errno.h"

#define BODY 4
#ifndef DGRAM
#define DGRAM (13 + BODY)
#endif
static uint8_t g_dgram[DGRAM];
static uint32_t g_dgramLen;
static bool g_auth;       /* verdict of record protection for the current datagram */
static uint8_t g_innerType;
static uint32_t g_decrypts, g_alerts;
static uint64_t g_lastSeq13;

bool BSL_UIO_GetUioChainTransportType(BSL_UIO *uio, const BSL_UIO_TransportType uioType)
{
    (void)uio;
    return uioType == BSL_UIO_UDP;
}
int32_t BSL_UIO_Read(BSL_UIO *uio, void *data, uint32_t len, uint32_t *readLen)
{
    (void)uio;
    V_ASSUME(len >= DGRAM);
    memcpy(data, g_dgram, DGRAM);
    *readLen = g_dgramLen;
    return BSL_SUCCESS;
}
static int32_t StubPlainLen(TLS_Ctx *ctx, RecConnSuitInfo *s, uint32_t c, uint32_t *off, uint32_t *p)
{
    (void)ctx; (void)s;
    *off = 0;
    *p = c;
    return HITLS_SUCCESS;
}
static uint32_t StubCipherLen(const TLS_Ctx *ctx, RecConnSuitInfo *s, uint32_t p, bool isRead)
{
    (void)ctx; (void)s; (void)isRead;
    return p;
}
static int32_t StubDecrypt(TLS_Ctx *ctx, RecConnState *st, const REC_TextInput *m, uint8_t *data, uint32_t *len)
{
    (void)ctx; (void)st;
    g_decrypts++;
    if (!g_auth) {
        return HITLS_REC_BAD_RECORD_MAC;
    }
    data[0] = m->text[0];
    *len = 1;
    return HITLS_SUCCESS;
}
static int32_t StubPost(TLS_Ctx *ctx, RecConnSuitInfo *s, REC_TextInput *m, uint8_t *data, uint32_t *len)
{
    (void)ctx; (void)s; (void)data; (void)len;
    m->type = g_innerType;
    return HITLS_SUCCESS;
}
static const RecCryptoFunc g_funcs = { .calCiphertextLen = StubCipherLen, .calPlantextBufLen = StubPlainLen, .decrypt = StubDecrypt, .decryptPostProcess = StubPost };
const RecCryptoFunc *RecGetCryptoFuncs(const RecConnSuitInfo *suiteInfo)
{
    (void)suiteInfo;
    return &g_funcs;
}
int32_t Dtls13CryptSequenceNumber(TLS_Ctx *ctx, RecConnSuitInfo *suiteInfo, const uint8_t *c, uint32_t clen, uint8_t *seq, uint8_t seqLen)
{
    (void)ctx; (void)suiteInfo; (void)c; (void)clen; (void)seq; (void)seqLen; /* identity mask */
    return HITLS_SUCCESS;
}
static bool IsRecvCcs(const TLS_Ctx *ctx) { (void)ctx; return false; }
static void SendAlert(TLS_Ctx *ctx, ALERT_Level level, ALERT_Description d) { (void)ctx; (void)level; (void)d; g_alerts++; }
static void ClearAlert(TLS_Ctx *ctx, REC_Type t) { (void)ctx; (void)t; }
static int32_t Unexpected(TLS_Ctx *ctx, uint32_t t, const uint8_t *d, uint32_t l, bool p)
{
    (void)ctx; (void)t; (void)d; (void)l; (void)p;
    return HITLS_REC_NORMAL_RECV_UNEXPECT_MSG;
}
int32_t REC_Dtls13AckListAppend(TLS_Ctx *ctx, const RecordNumber *r) { (void)ctx; (void)r; return HITLS_SUCCESS; }
void REC_Dtls13SetNeedSendRetransAck(TLS_Ctx *ctx) { (void)ctx; }
int32_t HITLS_KeyUpdate(HITLS_Ctx *ctx, uint32_t t) { (void)ctx; (void)t; return HITLS_SUCCESS; }
void INDICATOR_MessageIndicate(int32_t w, uint32_t v, int32_t c, const void *b, uint32_t l, HITLS_Ctx *ctx, void *arg)
{ (void)w; (void)v; (void)c; (void)b; (void)l; (void)ctx; (void)arg; }
int32_t RecIoBufInit(TLS_Ctx *ctx, RecCtx *recordCtx, bool isRead) { (void)ctx; (void)recordCtx; (void)isRead; return HITLS_SUCCESS; }
void RecTryFreeRecBuf(TLS_Ctx *ctx, bool isOut) { (void)ctx; (void)isOut; }
int32_t RecDerefBufList(TLS_Ctx *ctx) { (void)ctx; return HITLS_SUCCESS; }

static TLS_Ctx g_ctx;
static RecCtx g_rec;
static RecConnState g_cur, g_old;
static RecConnSuitInfo g_suite;
static RecBuf g_in;
static uint8_t g_inBuf[DGRAM];
static RecBufList *g_list;
static uint8_t g_out[64];

static void Setup(uint16_t version, uint16_t epoch)
{
    g_ctx.isClient = ndbool();
    g_ctx.recCtx = &g_rec;
    g_ctx.method.isRecvCCS = IsRecvCcs;
    g_ctx.method.sendAlert = SendAlert;
    g_ctx.method.clearAlert = ClearAlert;
    g_ctx.method.unexpectedMsgProcessCb = Unexpected;
    g_ctx.negotiatedInfo.version = version;
    g_ctx.config.tlsConfig.originVersionMask = DTLS12_VERSION_BIT | DTLS13_VERSION_BIT;
    g_ctx.config.tlsConfig.maxVersion = version;
    g_ctx.config.tlsConfig.minVersion = version;
    g_rec.readStates.currentState = &g_cur;
    g_rec.readStates.outdatedState = &g_old;
    g_rec.readEpoch = epoch;
    g_cur.epoch = epoch;
    g_old.epoch = epoch - 1;
    g_cur.suiteInfo = &g_suite;
    g_old.suiteInfo = &g_suite;
    g_suite.cipherAlg = HITLS_CIPHER_AES_128_GCM;
    g_in.buf = g_inBuf;
    g_in.bufSize = sizeof(g_inBuf);
    g_rec.inBuf = &g_in;
    g_rec.hsRecList = NULL;
    g_rec.appRecList = g_list = RecBufListNew();
    g_rec.hsRecList = RecBufListNew();

    UnprocessedMsgListInit(&g_rec.UnprocessedMsgList);
}
static void Put(uint8_t *p, uint64_t v, uint32_t n) { for (uint32_t i = 0; i < n; i++) { p[i] = (uint8_t)(v >> (8 * (n - 1 - i))); } }

#ifdef H_READ12
static uint64_t Dgram12(uint16_t epoch, uint64_t seq)
{
    nd_bytes(g_dgram + 13, BODY);
    g_dgram[0] = REC_TYPE_APP;
    Put(g_dgram + 1, HITLS_VERSION_DTLS12, 2);
    Put(g_dgram + 3, epoch, 2);
    Put(g_dgram + 5, seq, 6);
    Put(g_dgram + 11, BODY, 2);
    g_dgramLen = DGRAM;
    g_auth = ndbool();
    return seq;
}
void harness(void)
{
    uint16_t epoch = nd16();
    V_ASSUME(epoch > 0 && epoch < 0xFFFF);
    Setup(HITLS_VERSION_DTLS12, epoch);
    RecSlidWindow w0 = { .top = nd64(), .window = nd64() };
    V_ASSUME(w0.top <= REC_DTLS_SN_MAX_VALUE);
    g_cur.window = w0;
    uint64_t s1 = nd64(), s2 = nd64();
    V_ASSUME(s1 <= REC_DTLS_SN_MAX_VALUE && s2 <= REC_DTLS_SN_MAX_VALUE);
    bool old1 = RecAntiReplayCheck(&w0, s1);
    Dgram12(epoch, s1);
    bool auth1 = g_auth;
    uint32_t len = 0;
    uint32_t d0 = g_decrypts;
    int32_t r1 = DtlsRecordRead(&g_ctx, REC_TYPE_APP, g_out, &len, sizeof(g_out));
    V_ASSERT((r1 == HITLS_SUCCESS) == (auth1 && !old1), "a DTLS record is delivered exactly when it is authentic and not a replay");
    if (r1 == HITLS_SUCCESS) {
        V_WITNESS("delivered");
    } else {
        V_ASSERT(g_cur.window.top == w0.top && g_cur.window.window == w0.window,
            "a record that is a replay or fails authentication does not move the window");
    }
    RecSlidWindow w1 = g_cur.window;
    bool old2 = RecAntiReplayCheck(&w1, s2);
    if (r1 == HITLS_SUCCESS && s1 == s2) {
        V_ASSERT(old2, "the delivered record number is remembered");
    }
    Dgram12(epoch, s2);
    bool auth2 = g_auth;
    int32_t r2 = DtlsRecordRead(&g_ctx, REC_TYPE_APP, g_out, &len, sizeof(g_out));
    V_ASSERT((r2 == HITLS_SUCCESS) == (auth2 && !old2), "second record: delivered exactly when authentic and not a replay");
    if (r1 == HITLS_SUCCESS && r2 == HITLS_SUCCESS) {
        V_ASSERT(s1 != s2, "no record number is delivered twice");
        V_WITNESS("two deliveries");
    }
}
#endif
#ifdef H_READ13
/* unified header 001CSLEE, 16-bit sequence number, length present */
static void Dgram13(uint16_t epoch, uint16_t partial)
{
    nd_bytes(g_dgram + 5, DGRAM - 5);
    g_dgram[0] = 0x20 | 0x08 | 0x04 | (epoch & 3);
    Put(g_dgram + 1, partial, 2);
    Put(g_dgram + 3, DGRAM - 5, 2);
    g_dgramLen = DGRAM;
    g_auth = ndbool();
    g_innerType = REC_TYPE_APP;
}
static uint64_t Recon(uint64_t cur, uint16_t partial)
{
    uint64_t e = cur + 1;
    uint64_t c = (e & ~0xFFFFull) | partial;
    if (c > e && c - e > 0x8000 && c >= 0x10000) { return c - 0x10000; }
    if (c < e && e - c > 0x8000) { return c + 0x10000; }
    return c;
}
void harness(void)
{
    uint16_t epoch = nd16();
    V_ASSUME(epoch >= 4 && epoch < 0xFFFF);
    Setup(HITLS_VERSION_DTLS13, epoch);
    bool useOld = ndbool();
    RecSlidWindow wc = { .top = nd64(), .window = nd64() };
    RecSlidWindow wo = { .top = nd64(), .window = nd64() };
    V_ASSUME(wc.top < (1ull << 47) && wo.top < (1ull << 47));
    if (useOld) {
        /* records of the previous epoch are only admitted before the first record of the new one */
        wc.window = 0;
        wc.top = 0;
    }
    g_cur.window = wc;
    g_old.window = wo;
    g_cur.seq = wc.top;
    g_old.seq = wo.top;
    RecConnState *st = useOld ? &g_old : &g_cur;
    RecConnState *other = useOld ? &g_cur : &g_old;
    RecSlidWindow w0 = st->window, x0 = other->window;
    uint16_t p1 = nd16(), p2 = nd16();
    uint64_t s1 = Recon(st->seq, p1);
    /* an all-zero sequence number is the sentinel "not yet recovered" in the header, still handled */
    bool old1 = RecAntiReplayCheck(&w0, s1);
    Dgram13(useOld ? epoch - 1 : epoch, p1);
    bool auth1 = g_auth;
    uint32_t len = 0;
    int32_t r1 = DtlsRecordRead(&g_ctx, REC_TYPE_APP, g_out, &len, sizeof(g_out));
    V_ASSERT((r1 == HITLS_SUCCESS) == (auth1 && !old1), "a DTLS 1.3 record is delivered exactly when it is authentic and not a replay");
    V_ASSERT(other->window.top == x0.top && other->window.window == x0.window, "the window of the other epoch is untouched");
    if (r1 != HITLS_SUCCESS) {
        V_ASSERT(st->window.top == w0.top && st->window.window == w0.window,
            "a record that is a replay or fails authentication does not move the window");
    } else {
        V_ASSERT(RecAntiReplayCheck(&st->window, s1), "the delivered record number is remembered");
        V_WITNESS("delivered");
        uint64_t seqNow = st->seq;
        V_ASSERT(seqNow >= s1, "reconstruction continues from the highest delivered number");
#ifdef TWO
        uint64_t s2 = Recon(seqNow, p2);
        bool old2 = RecAntiReplayCheck(&st->window, s2);
        Dgram13(useOld ? epoch - 1 : epoch, p2);
        bool auth2 = g_auth;
        int32_t r2 = DtlsRecordRead(&g_ctx, REC_TYPE_APP, g_out, &len, sizeof(g_out));
        V_ASSERT((r2 == HITLS_SUCCESS) == (auth2 && !old2), "second record: delivered exactly when authentic and not a replay");
        if (r2 == HITLS_SUCCESS) {
            V_ASSERT(s1 != s2, "no record number is delivered twice");
            V_WITNESS("two deliveries");
        }
#endif
    }
}
#endif
