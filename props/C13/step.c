/* C13: one receive step of the handshake from any state. */
#include "v.h"
#include "hitls_build.h"
#include "tls.h"
#include "hitls_error.h"
#include "hs_ctx.h"
#include "hs_msg.h"
#include "hs_common.h"
#include "hs_kx.h"
#include "hs_state_recv.h"
#include "parse.h"
#include "parse_msg.h"
#include "rec.h"
#include "session.h"
#include "crypt.h"
#include "cert.h"
#include "hs_verify.h"
#include "hs_cert.h"
#include "recv_process.h"
#ifndef VER
#define VER HITLS_VERSION_TLS12
#endif
#define T13 (VER == HITLS_VERSION_TLS13 || VER == HITLS_VERSION_DTLS13)
#define DG (VER == HITLS_VERSION_DTLS12 || VER == HITLS_VERSION_DTLS13)
#define HL (DG ? 12 : 4)
#define VDMAX 16
uint32_t g_envfail;
static TLS_Ctx g_ctx;
static HS_Ctx g_hs;
static KeyExchCtx g_kx;
static VerifyCtx g_vc;
static TLS_Config g_global;
static uint8_t g_buf[64], g_psk[4], g_vd[MAX_DIGEST_SIZE], g_fd[VDMAX];
static uint32_t g_alerts, g_last, g_vdn, g_fdn, g_parsed, g_pos, g_len, g_hello, g_certCount, g_chainBad, g_infoBad, g_usageBad, g_chains;
static uint8_t g_type;
static bool g_ccs, g_fatal, g_parsefail, g_inTranscript, g_sigok;
static CERT_Pair *g_pair;
static uint64_t g_dummy[8];
static void Alert(const TLS_Ctx *ctx, ALERT_Level level, ALERT_Description d) { (void)ctx; g_alerts++; g_last = d; g_fatal = level == ALERT_LEVEL_FATAL; }
static bool AlertFlag(const TLS_Ctx *ctx) { (void)ctx; return g_alerts != 0; }
static bool IsCcs(const TLS_Ctx *ctx) { (void)ctx; return g_ccs; }
static void CtrlCcs(TLS_Ctx *ctx, CCS_Cmd cmd) { (void)ctx; (void)cmd; }
int32_t ReturnAlertProcess(TLS_Ctx *ctx, int32_t err, uint32_t logId, const void *logStr, ALERT_Description d) { (void)logId; (void)logStr; if (d != ALERT_UNKNOWN) { ctx->method.sendAlert(ctx, ALERT_LEVEL_FATAL, d); } return err; }
int32_t ReturnErrorNumberProcess(int32_t err, uint32_t logId, const void *logStr) { (void)logId; (void)logStr; return err; }
int32_t REC_Read(TLS_Ctx *ctx, REC_Type t, uint8_t *data, uint32_t *readLen, uint32_t num)
{
    V_ASSERT(t == REC_TYPE_HANDSHAKE && data == ctx->hsCtx->msgBuf + g_pos && num <= HL, "reads the message");
    uint8_t h[12] = {g_type, 0, 0, (uint8_t)g_len, 0, 7, 0, 0, 0, 0, 0, (uint8_t)g_len};
    for (uint32_t i = 0; i < HL; i++) { if (i < num) { data[i] = g_pos == 0 ? h[i] : 0; } }
    g_pos += num;
    *readLen = num;
    return HITLS_SUCCESS;
}
/* message bodies: parsed or refused, with any content */
static int32_t parse(HS_Msg *m, uint8_t t)
{
    V_ASSERT(m->type == t && t == g_type, "the parser of this message");
    g_parsed++;
    if (ndbool()) { g_parsefail = true; Alert(&g_ctx, ALERT_LEVEL_FATAL, ALERT_DECODE_ERROR); return HITLS_PARSE_INVALID_MSG_LEN; }
    return HITLS_SUCCESS;
}
#define PA TLS_Ctx *ctx, const uint8_t *b, uint32_t n, HS_Msg *m
int32_t ParseClientHello(PA) { (void)ctx; (void)b; (void)n; return parse(m, CLIENT_HELLO); }
int32_t ParseServerHello(PA) { (void)ctx; (void)b; (void)n; return parse(m, SERVER_HELLO); }
int32_t ParseServerKeyExchange(PA) { (void)ctx; (void)b; (void)n; return parse(m, SERVER_KEY_EXCHANGE); }
int32_t ParseCertificateRequest(PA) { (void)ctx; (void)b; (void)n; return parse(m, CERTIFICATE_REQUEST); }
static uint16_t g_sig;
int32_t Tls13ParseCertificateRequest(PA) { (void)ctx; (void)b; (void)n; if (ndbool()) { m->body.certificateReq.signatureAlgorithms = &g_sig; } return parse(m, CERTIFICATE_REQUEST); }
int32_t ParseHelloVerifyRequest(PA) { (void)ctx; (void)b; (void)n; return parse(m, HELLO_VERIFY_REQUEST); }
int32_t ParseEncryptedExtensions(PA) { (void)ctx; (void)b; (void)n; return parse(m, ENCRYPTED_EXTENSIONS); }
int32_t ParseClientKeyExchange(PA) { (void)ctx; (void)b; (void)n; return parse(m, CLIENT_KEY_EXCHANGE); }
int32_t ParseNewSessionTicket(PA) { (void)ctx; (void)b; (void)n; return parse(m, NEW_SESSION_TICKET); }
int32_t ParseCertificateVerify(PA) { (void)ctx; (void)b; (void)n; int32_t r = parse(m, CERTIFICATE_VERIFY); g_sigok = r == HITLS_SUCCESS; return r; }
void CleanCertificateVerify(CertificateVerifyMsg *m) { (void)m; }
int32_t ParseCertificate(PA) { (void)ctx; (void)b; (void)n; m->body.certificate.certCount = g_certCount; return parse(m, CERTIFICATE); }
int32_t Tls13ParseCertificate(PA) { (void)ctx; (void)b; (void)n; m->body.certificate.certCount = g_certCount; return parse(m, CERTIFICATE); }
int32_t ParseFinished(PA) { (void)ctx; (void)b; (void)n; m->body.finished.verifyData = g_fd; m->body.finished.verifyDataSize = g_fdn; return parse(m, FINISHED); }
void CleanFinished(FinishedMsg *m) { (void)m; }
int32_t ParseKeyUpdate(PA) { (void)ctx; (void)b; (void)n; m->body.keyUpdate.requestUpdate = nd8(); return parse(m, KEY_UPDATE); }
int32_t ParseNewConnectionId(PA) { (void)ctx; (void)b; (void)n; return parse(m, NEW_CONNECTION_ID); }
int32_t ParseRequestConnectionId(PA) { (void)ctx; (void)b; (void)n; return parse(m, REQUEST_CONNECTION_ID); }
/* the hello messages choose the rest of the handshake: not decided here */
static int32_t hello(TLS_Ctx *ctx, uint8_t t, bool client, uint32_t state) { V_ASSERT(g_type == t && ctx->isClient == client && ctx->hsCtx->state == state, "hello in its state"); g_hello++; return HITLS_SUCCESS; }
int32_t ServerRecvClientHelloProcess(TLS_Ctx *ctx, const HS_Msg *m, bool cb) { (void)m; (void)cb; return hello(ctx, CLIENT_HELLO, false, TRY_RECV_CLIENT_HELLO); }
int32_t Tls13ServerRecvClientHelloProcess(TLS_Ctx *ctx, HS_Msg *m) { (void)m; return hello(ctx, CLIENT_HELLO, false, TRY_RECV_CLIENT_HELLO); }
int32_t ClientRecvServerHelloProcess(TLS_Ctx *ctx, const HS_Msg *m) { (void)m; return hello(ctx, SERVER_HELLO, true, TRY_RECV_SERVER_HELLO); }
int32_t Tls13ClientRecvServerHelloProcess(TLS_Ctx *ctx, const HS_Msg *m) { (void)m; return hello(ctx, SERVER_HELLO, true, TRY_RECV_SERVER_HELLO); }
int32_t HS_GetReassMsg(TLS_Ctx *ctx, HS_MsgInfo *m, uint32_t *n) { (void)ctx; (void)m; *n = 0; return HITLS_SUCCESS; }
int32_t HS_ReassAppend(TLS_Ctx *ctx, HS_MsgInfo *m) { (void)ctx; (void)m; V_ASSERT(0, "whole message in sequence"); return HITLS_SUCCESS; }
/* certificates */
int32_t SAL_CERT_ParseCertChain(HITLS_Ctx *ctx, CERT_Item *item, CERT_Pair **p) { (void)ctx; (void)item; if (ndbool()) { g_infoBad++; return HITLS_CERT_ERR_PARSE_MSG; } *p = (CERT_Pair *)g_dummy; return HITLS_SUCCESS; }
HITLS_CERT_X509 *SAL_CERT_GetDummy(void);
int32_t HS_CheckCertInfo(HITLS_Ctx *ctx, const CERT_ExpectInfo *e, HITLS_CERT_X509 *c, bool a, bool b) { (void)ctx; (void)e; (void)c; (void)a; (void)b; if (ndbool()) { g_infoBad++; return HITLS_CERT_ERR_EXP_CERT; } return HITLS_SUCCESS; }
bool SAL_CERT_CheckCertKeyUsage(HITLS_Ctx *ctx, HITLS_CERT_X509 *c, HITLS_CERT_CtrlCmd u) { (void)ctx; (void)c; (void)u; if (ndbool()) { g_usageBad++; return false; } return true; }
int32_t SAL_CERT_VerifyCertChain(HITLS_Ctx *ctx, CERT_Pair *p, bool enc) { (void)ctx; (void)p; (void)enc; g_chains++; if (ndbool()) { g_chainBad++; return HITLS_CERT_ERR_VERIFY_CERT_CHAIN; } return HITLS_SUCCESS; }
HITLS_Session *HITLS_SESS_New(void) { return (HITLS_Session *)g_dummy; }
HITLS_Session *SESS_Copy(HITLS_Session *s) { (void)s; return (HITLS_Session *)g_dummy; }
HITLS_HASH_Ctx *SAL_CRYPT_DigestCopy(HITLS_HASH_Ctx *s) { (void)s; return (HITLS_HASH_Ctx *)g_dummy; }
uint32_t SAL_CRYPT_DigestSize(HITLS_HashAlgo a) { (void)a; return 32; }
BslUnixTime BSL_SAL_CurrentSysTimeGet(void) { return nd64(); }
int32_t VERIFY_GetVerifyData(const VerifyCtx *v, uint8_t *d, uint32_t *n) { V_ASSERT(v == &g_vc && *n >= VDMAX, "verify data"); for (uint32_t i = 0; i < VDMAX; i++) { if (i < g_vdn) { d[i] = g_vd[i]; } } *n = g_vdn; return HITLS_SUCCESS; }
int32_t SAL_CERT_X509Ctrl(HITLS_Config *c, HITLS_CERT_X509 *x, HITLS_CERT_CtrlCmd cmd, void *i, void *o) { (void)c; (void)x; (void)cmd; (void)i; *(int32_t *)o = CERT_SIG_SCHEME_SM2_SM3; return HITLS_SUCCESS; }

static bool same(void) { uint8_t d = 0; for (uint32_t i = 0; i < VDMAX; i++) { if (i < g_vdn) { d |= g_fd[i] ^ g_vd[i]; } } return d == 0; }
static bool NeedSke(bool client, HITLS_KeyExchAlgo k)
{
    (void)client;
    if (VER == HITLS_VERSION_TLCP_DTLCP11) { return true; }
    return k == HITLS_KEY_EXCH_ECDHE || k == HITLS_KEY_EXCH_DHE || k == HITLS_KEY_EXCH_PSK || k == HITLS_KEY_EXCH_DHE_PSK || k == HITLS_KEY_EXCH_ECDHE_PSK || k == HITLS_KEY_EXCH_RSA_PSK;
}
void h_step(void)
{
    bool client = ndbool();
    uint32_t st = nd8();
    HITLS_KeyExchAlgo kx = nd_range(HITLS_KEY_EXCH_ECDHE, HITLS_KEY_EXCH_ECC);
    TLS_Config *cfg = &g_ctx.config.tlsConfig;
    g_ctx.hsCtx = &g_hs;
    g_ctx.method.sendAlert = Alert; g_ctx.method.getAlertFlag = AlertFlag; g_ctx.method.isRecvCCS = IsCcs; g_ctx.method.ctrlCCS = CtrlCcs;
    g_ctx.negotiatedInfo.version = VER;
    g_ctx.negotiatedInfo.cipherSuiteInfo.kxAlg = kx;
    cfg->maxVersion = VER;
    cfg->originVersionMask = VER == HITLS_VERSION_TLS12 ? TLS12_VERSION_BIT : VER == HITLS_VERSION_TLS13 ? TLS13_VERSION_BIT : VER == HITLS_VERSION_DTLS12 ? DTLS12_VERSION_BIT : VER == HITLS_VERSION_DTLS13 ? DTLS13_VERSION_BIT : TLCP11_VERSION_BIT;
    cfg->version = cfg->originVersionMask;
    cfg->maxCertList = 100;
    g_ctx.globalConfig = &g_global;
    g_ctx.isClient = client;
    g_ctx.state = CM_STATE_HANDSHAKING;
    g_ctx.preState = CM_STATE_IDLE;
    g_hs.msgBuf = g_buf; g_hs.bufferLen = sizeof(g_buf);
    g_hs.kxCtx = &g_kx; g_hs.verifyCtx = &g_vc;
    g_kx.keyExchAlgo = kx;
    g_hs.expectRecvSeq = 7;
    g_hs.isNeedClientCert = ndbool();
    g_ctx.negotiatedInfo.isResume = ndbool();
    g_ctx.negotiatedInfo.isTicket = ndbool();
    cfg->isSupportClientVerify = ndbool(); cfg->isSupportNoClientCert = ndbool(); cfg->isSupportVerifyNone = ndbool(); cfg->needCheckKeyUsage = ndbool();
    cfg->ticketNums = nd_range(0, 2);
    g_hs.sentTickets = nd_range(0, 2);
    bool havePeer = ndbool();
    if (havePeer) { g_hs.peerCert = (CERT_Pair *)g_dummy; }
    bool psk = ndbool();
#if T13 || defined(HITLS_TLS_PROTO_TLS13_FAMILY)
    if (psk) { g_kx.pskInfo13.psk = g_psk; }
#endif
    g_ctx.phaState = ndbool() ? PHA_NONE : PHA_EXTENSION;
    g_ctx.session = ndbool() ? (HITLS_Session *)g_dummy : NULL;
    g_ccs = ndbool();
    g_certCount = nd_range(0, 2);
    g_vdn = nd_range(0, VDMAX); g_fdn = nd_range(0, VDMAX);
    nd_bytes(g_vd, VDMAX); nd_bytes(g_fd, VDMAX);
    g_type = nd8();
    g_len = ndbool() ? 0 : 3;
    if (client) {
        V_ASSUME(st == TRY_RECV_SERVER_HELLO || st == TRY_RECV_CERTIFICATE || st == TRY_RECV_CERTIFICATE_REQUEST || st == TRY_RECV_FINISH || (T13 && (st == TRY_RECV_ENCRYPTED_EXTENSIONS || st == TRY_RECV_CERTIFICATE_VERIFY)) || (!T13 && (st == TRY_RECV_SERVER_KEY_EXCHANGE || st == TRY_RECV_SERVER_HELLO_DONE || st == TRY_RECV_NEW_SESSION_TICKET)));
    } else {
        V_ASSUME(st == TRY_RECV_CLIENT_HELLO || st == TRY_RECV_CERTIFICATE || st == TRY_RECV_CERTIFICATE_VERIFY || st == TRY_RECV_FINISH || (!T13 && st == TRY_RECV_CLIENT_KEY_EXCHANGE));
    }
    V_ASSUME(VER == HITLS_VERSION_TLCP_DTLCP11 ? (kx == HITLS_KEY_EXCH_ECC || kx == HITLS_KEY_EXCH_ECDHE) : kx != HITLS_KEY_EXCH_ECC);
    g_hs.state = st;
    bool need = g_hs.isNeedClientCert;
    /* what the protocol allows here */
    uint8_t t = g_type;
    uint32_t at = st; /* state in which the message is taken */
    bool ok = false, ignored = client && t == HELLO_REQUEST;
    switch (st) {
        case TRY_RECV_CLIENT_HELLO: ok = t == CLIENT_HELLO; break;
        case TRY_RECV_SERVER_HELLO: ok = t == SERVER_HELLO || (VER == HITLS_VERSION_DTLS12 && t == HELLO_VERIFY_REQUEST); break;
        case TRY_RECV_ENCRYPTED_EXTENSIONS: ok = t == ENCRYPTED_EXTENSIONS; break;
        case TRY_RECV_CERTIFICATE: ok = t == CERTIFICATE; break;
        case TRY_RECV_SERVER_KEY_EXCHANGE:
            ok = t == SERVER_KEY_EXCHANGE || ((kx == HITLS_KEY_EXCH_PSK || kx == HITLS_KEY_EXCH_RSA_PSK) && (t == CERTIFICATE_REQUEST || t == SERVER_HELLO_DONE));
            if (t == CERTIFICATE_REQUEST) { at = TRY_RECV_CERTIFICATE_REQUEST; } else if (t == SERVER_HELLO_DONE) { at = TRY_RECV_SERVER_HELLO_DONE; }
            break;
        case TRY_RECV_CERTIFICATE_REQUEST:
            ok = t == CERTIFICATE_REQUEST || t == (T13 ? CERTIFICATE : SERVER_HELLO_DONE);
            if (t != CERTIFICATE_REQUEST) { at = T13 ? TRY_RECV_CERTIFICATE : TRY_RECV_SERVER_HELLO_DONE; }
            break;
        case TRY_RECV_SERVER_HELLO_DONE: ok = t == SERVER_HELLO_DONE; break;
        case TRY_RECV_CLIENT_KEY_EXCHANGE: ok = t == CLIENT_KEY_EXCHANGE; break;
        case TRY_RECV_CERTIFICATE_VERIFY: ok = t == CERTIFICATE_VERIFY; break;
        case TRY_RECV_NEW_SESSION_TICKET: ok = t == NEW_SESSION_TICKET; break;
        default: ok = t == FINISHED && (T13 || g_ccs); break;
    }
    int32_t r = HS_RecvMsgProcess(&g_ctx);
    uint32_t now = g_hs.state;
    if (ignored) {
        V_ASSERT(now == st && g_parsed == 0, "a HelloRequest changes nothing");
        V_ASSERT(r == HITLS_SUCCESS || g_len != 0 || g_envfail != 0, "and is ignored");
        V_WITNESS("ignored");
        return;
    }
    if (!ok) {
        V_ASSERT(r != HITLS_SUCCESS, "a message the protocol does not allow here is refused");
        V_ASSERT(g_envfail != 0 || (g_alerts != 0 && g_fatal && (g_last == ALERT_UNEXPECTED_MESSAGE || (DG && g_len != 0 && g_last == ALERT_ILLEGAL_PARAMETER))), "with a fatal unexpected_message alert");
        V_ASSERT(now == st && g_parsed == 0 && g_hello == 0, "and without any effect on the handshake");
        V_WITNESS("refused");
        return;
    }
    if (r != HITLS_SUCCESS) {
        V_ASSERT(now == at || now == st || g_envfail != 0 || (st == TRY_RECV_SERVER_HELLO && t == HELLO_VERIFY_REQUEST), "a message that is refused does not advance the handshake");
        V_WITNESS("failed");
        return;
    }
    V_ASSERT(!g_parsefail, "a message that does not parse is not accepted");
    V_ASSERT(g_envfail == 0, "a failed operation is not passed over");
    switch (at) {
        case TRY_RECV_CLIENT_HELLO: V_ASSERT(g_hello == 1, "hello"); V_WITNESS("client hello"); break;
        case TRY_RECV_SERVER_HELLO:
            if (t == SERVER_HELLO) { V_ASSERT(g_hello == 1, "hello"); } else { V_ASSERT(now == TRY_SEND_CLIENT_HELLO, "the hello is repeated with the cookie"); }
            V_WITNESS("server hello");
            break;
        case TRY_RECV_CERTIFICATE:
            if (g_certCount == 0) {
                V_ASSERT(!client && cfg->isSupportClientVerify && cfg->isSupportNoClientCert, "only a client may be without a certificate, and only if the server was told to accept that");
                V_ASSERT(now == (T13 ? TRY_RECV_FINISH : TRY_RECV_CLIENT_KEY_EXCHANGE), "no proof of possession without a certificate");
                V_ASSERT(havePeer || g_hs.peerCert == NULL, "no peer certificate");
                V_WITNESS("empty certificate");
                break;
            }
            V_ASSERT(g_infoBad == 0 && g_hs.peerCert != NULL, "the certificate fits the negotiated parameters");
            V_ASSERT(!cfg->needCheckKeyUsage || g_usageBad == 0, "and its key usage allows this");
            V_ASSERT(g_chains != 0 && (g_chainBad == 0 || cfg->isSupportVerifyNone), "the chain was verified");
            V_ASSERT(VER != HITLS_VERSION_TLCP_DTLCP11 || !client || g_chains == 2 || cfg->isSupportVerifyNone, "both certificates of a TLCP server");
            if (T13) { V_ASSERT(now == TRY_RECV_CERTIFICATE_VERIFY, "a certificate is followed by proof of possession"); }
            else if (client) { V_ASSERT(now == (NeedSke(client, kx) ? TRY_RECV_SERVER_KEY_EXCHANGE : TRY_RECV_CERTIFICATE_REQUEST), "after the server certificate"); }
            else { V_ASSERT(now == TRY_RECV_CLIENT_KEY_EXCHANGE, "after the client certificate"); }
            V_WITNESS("certificate");
            break;
        case TRY_RECV_CERTIFICATE_REQUEST:
            V_ASSERT(g_hs.isNeedClientCert, "the request is remembered");
            V_ASSERT(T13 || havePeer, "an anonymous server may not ask");
            V_ASSERT(now == (T13 ? TRY_RECV_CERTIFICATE : TRY_RECV_SERVER_HELLO_DONE), "after the request");
#if !T13 || defined(CL)
            V_WITNESS("certificate request");
#endif
            break;
        case TRY_RECV_CERTIFICATE_VERIFY:
            V_ASSERT(g_sigok, "the signature was verified");
            V_ASSERT(now == TRY_RECV_FINISH, "after the proof of possession");
            V_WITNESS("certificate verify");
            break;
        case TRY_RECV_FINISH:
            V_ASSERT(g_fdn == g_vdn && g_vdn != 0 && same(), "Finished holds the expected verify data, all of it");
            if (T13 && client) { V_ASSERT(now == (need ? TRY_SEND_CERTIFICATE : TRY_SEND_FINISH), "the client answers with its own flight"); }
            else if (T13) {
                uint32_t e = VER == HITLS_VERSION_DTLS13 ? TRY_SEND_ACK : g_hs.sentTickets < cfg->ticketNums ? TRY_SEND_NEW_SESSION_TICKET : TLS_CONNECTED;
                V_ASSERT(now == e, "the server is done");
            } else if (client) { V_ASSERT(now == (g_ctx.negotiatedInfo.isResume ? TRY_SEND_CHANGE_CIPHER_SPEC : TLS_CONNECTED), "in an abbreviated handshake the client still has to finish"); }
            else { V_ASSERT(now == (g_ctx.negotiatedInfo.isResume ? TLS_CONNECTED : g_ctx.negotiatedInfo.isTicket ? TRY_SEND_NEW_SESSION_TICKET : TRY_SEND_CHANGE_CIPHER_SPEC), "in a full handshake the server still has to finish"); }
            V_WITNESS("finished");
            break;
#if !T13
        case TRY_RECV_SERVER_KEY_EXCHANGE: V_ASSERT(now == TRY_RECV_CERTIFICATE_REQUEST, "after the key exchange"); V_WITNESS("server key exchange"); break;
        case TRY_RECV_SERVER_HELLO_DONE: V_ASSERT(now == (need ? TRY_SEND_CERTIFICATE : TRY_SEND_CLIENT_KEY_EXCHANGE), "a requested certificate is sent"); V_WITNESS("server hello done"); break;
        case TRY_RECV_CLIENT_KEY_EXCHANGE: V_ASSERT(now == (need && havePeer ? TRY_RECV_CERTIFICATE_VERIFY : TRY_RECV_FINISH), "a client that sent a certificate has to prove it holds the key"); V_WITNESS("client key exchange"); break;
        case TRY_RECV_NEW_SESSION_TICKET: V_ASSERT(now == TRY_RECV_FINISH, "after the ticket"); V_WITNESS("ticket"); break;
#else
        case TRY_RECV_ENCRYPTED_EXTENSIONS: V_ASSERT(now == (psk ? TRY_RECV_FINISH : TRY_RECV_CERTIFICATE_REQUEST), "without a PSK the server has to authenticate"); V_WITNESS("encrypted extensions"); break;
#endif
        default: V_ASSERT(0, "no other state"); break;
    }
}
