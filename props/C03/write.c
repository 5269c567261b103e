/* Record writing: what leaves on the wire, and which sequence number protects it, for every I/O behaviour. */
#include "rec_env.h"
#ifndef CALLS
#define CALLS 3
#endif
#define WIRE 64
static uint8_t g_wire[WIRE];
static uint32_t g_wireLen;
static uint32_t g_enc;            /* protected records */
static uint64_t g_encSeq[CALLS + 1];
static uint8_t g_encData[CALLS + 1];
static bool g_dgram;
static uint32_t g_off, g_recs, g_writes;  /* position in the current record, records completed, transport calls in this write */
static uint8_t g_data;
static uint32_t g_sent;           /* datagrams sent */
#ifdef H_DTLS
static uint8_t g_out[80];
#else
static uint8_t g_out[RECLEN + 1];
#endif

int32_t BSL_UIO_Write(BSL_UIO *uio, const void *data, uint32_t len, uint32_t *writeLen)
{
    (void)uio;
    const uint8_t *d = data;
    uint32_t n = nd8();
    V_ASSUME(n <= len);
    if (g_dgram && n != 0) {
        n = len;
    }
    if (ndbool()) {
        return BSL_UIO_IO_EXCEPTION;
    }
#ifdef H_DTLS
    for (uint32_t i = 0; i < RECLEN; i++) {
        if (i < n) {
            V_ASSERT(g_wireLen < WIRE, "harness: wire log large enough");
            g_wire[g_wireLen++] = d[i];
        }
    }
#else
    g_writes++;
    V_ASSUME(g_writes <= 3);
    for (uint32_t i = 0; i < RECLEN; i++) {
        if (i < n) {
            V_ASSERT(g_off < RECLEN, "never more than the record is written");
            uint8_t want = g_off == 0 ? REC_TYPE_APP : g_off == 1 ? 3 : g_off == 2 ? 3 : g_off == 3 ? 0 : g_off == 4 ? 2 : g_off == 5 ? g_data : (uint8_t)g_recs;
            V_ASSERT(d[i] == want, "the wire carries whole records in order, with the right header");
            g_off++;
        }
    }
#endif
    if (n != 0) { g_sent++; }
    *writeLen = n;
    return BSL_SUCCESS;
}
int32_t BSL_UIO_Ctrl(BSL_UIO *uio, int32_t cmd, int32_t larg, void *parg) { (void)uio; (void)cmd; (void)larg; (void)parg; return BSL_SUCCESS; }
static uint32_t CipherLen(const TLS_Ctx *ctx, RecConnSuitInfo *s, uint32_t p, bool isRead)
{
    (void)ctx; (void)s; (void)isRead;
    return p + 1;
}
static int32_t PreProcess(TLS_Ctx *ctx, uint8_t recordType, const uint8_t *data, uint32_t plainLen, RecordPlaintext *rp)
{
    (void)ctx;
    rp->recordType = recordType;
    rp->plainLen = plainLen;
    rp->plainData = NULL;
    (void)data;
    rp->isTlsInnerPlaintext = false;
    return HITLS_SUCCESS;
}
static int32_t Encrypt(TLS_Ctx *ctx, RecConnState *st, const REC_TextInput *m, uint8_t *c, uint32_t clen)
{
    (void)ctx; (void)st;
    if (ndbool()) {
        return HITLS_REC_ERR_ENCRYPT;
    }
    uint64_t seq = 0;
    for (uint32_t i = 0; i < 8; i++) { seq = (seq << 8) | m->seq[i]; }
    V_ASSERT(clen == 2 && m->textLen == 1, "the protection is given the caller's data and exact room");
    V_ASSERT(g_enc <= CALLS, "at most one protection per call");
    g_encSeq[g_enc] = seq;
    g_encData[g_enc] = m->text[0];
    c[0] = m->text[0];
    c[1] = (uint8_t)g_recs;
    g_enc++;
    return HITLS_SUCCESS;
}
static const RecCryptoFunc g_funcs = { .calCiphertextLen = CipherLen, .encryt = Encrypt, .encryptPreProcess = PreProcess };
const RecCryptoFunc *RecGetCryptoFuncs(const RecConnSuitInfo *suiteInfo) { (void)suiteInfo; return &g_funcs; }
int32_t Dtls13CryptSequenceNumber(TLS_Ctx *ctx, RecConnSuitInfo *suiteInfo, const uint8_t *c, uint32_t clen, uint8_t *seq, uint8_t seqLen)
{
    (void)ctx; (void)suiteInfo; (void)c; (void)clen; (void)seqLen;
    seq[0] ^= 0xA5;
    return HITLS_SUCCESS;
}

#ifdef H_TLS
void harness(void)
{
    bool v13 = ndbool();
    EnvSetup(v13 ? HITLS_VERSION_TLS13 : HITLS_VERSION_TLS12, TLS12_VERSION_BIT | TLS13_VERSION_BIT, 0);
    g_outb.buf = g_out;
    g_outb.bufSize = sizeof(g_out);
    uint64_t s0 = nd64();
    V_ASSUME(s0 < UINT64_MAX - CALLS);
    g_cur.seq = s0;
    g_data = nd8();
    for (uint32_t k = 0; k < CALLS; k++) {
        uint32_t encBefore = g_enc, offBefore = g_off;
        bool pending = g_outb.end > g_outb.start;
        g_writes = 0;
        int32_t ret = TlsRecordWrite(&g_ctx, REC_TYPE_APP, &g_data, 1);
        if (pending || offBefore > 0) {
            V_ASSERT(g_enc == encBefore, "a record that is only partly sent is never protected again");
            V_WITNESS("continuation of a partly sent record");
        }
        if (g_enc > encBefore) {
            V_ASSERT(g_enc == encBefore + 1 && g_encSeq[encBefore] == s0 + g_recs, "records are protected under consecutive sequence numbers: none is used twice");
            V_ASSERT(g_encData[encBefore] == g_data, "the caller's data is what is protected");
        }
        if (ret == HITLS_SUCCESS) {
            V_ASSERT(g_off == RECLEN, "success means the whole record was handed to the transport, once");
            g_recs++;
            g_off = 0;
            g_data = nd8();
        } else {
            V_ASSERT(g_off < RECLEN, "a failed write does not complete a record");
        }
        V_ASSERT(g_cur.seq == s0 + g_recs, "each written record consumes exactly one sequence number, a failed write none");
    }
    if (g_recs == CALLS) { V_WITNESS("all written"); }
    if (g_off != 0) { V_WITNESS("partial record on the wire"); }
}
#endif
#ifdef H_WRAP
/* at the end of the number space: TLS */
void harness(void)
{
    EnvSetup(HITLS_VERSION_TLS12, TLS12_VERSION_BIT, 0);
    g_outb.buf = g_out;
    g_outb.bufSize = sizeof(g_out);
    g_cur.seq = UINT64_MAX - 1;
    g_data = nd8();
    for (uint32_t k = 0; k < CALLS; k++) {
        uint32_t e0 = g_enc;
        g_writes = 0;
        int32_t ret = TlsRecordWrite(&g_ctx, REC_TYPE_APP, &g_data, 1);
        if (e0 == 2) {
            V_ASSERT(g_enc == 2, "after the last sequence number nothing more is protected");
            V_WITNESS("exhausted");
        }
        if (ret == HITLS_SUCCESS) { g_recs++; g_off = 0; }
    }
    for (uint32_t i = 0; i < CALLS; i++) {
        if (i < g_enc) {
            V_ASSERT(g_encSeq[i] == UINT64_MAX - 1 + i && g_encSeq[i] >= UINT64_MAX - 1, "sequence numbers do not wrap");
        }
    }
}
#endif
#ifdef H_DTLS
void harness(void)
{
    g_isUdp = true;
    g_dgram = true;
    bool v13 = V13;
    uint16_t epoch = nd16();
    V_ASSUME(epoch > 0);
    EnvSetup(v13 ? HITLS_VERSION_DTLS13 : HITLS_VERSION_DTLS12, DTLS12_VERSION_BIT | DTLS13_VERSION_BIT, epoch);
    g_outb.buf = g_out;
    g_outb.bufSize = sizeof(g_out);
    uint64_t s0 = nd64();
    V_ASSUME(s0 <= REC_DTLS_SN_MAX_VALUE + 1);
    g_cur.seq = s0;
    uint8_t data[CALLS];
    nd_bytes(data, CALLS);
    uint32_t done = 0;
    for (uint32_t k = 0; k < CALLS; k++) {
        uint32_t encBefore = g_enc, wire = g_wireLen;
        int32_t ret = DtlsRecordWrite(&g_ctx, REC_TYPE_APP, &data[k], 1);
        if (s0 + done > REC_DTLS_SN_MAX_VALUE) {
            V_ASSERT(ret != HITLS_SUCCESS && g_enc == encBefore && g_wireLen == wire, "no record is produced once the 48-bit number space is used up");
            V_WITNESS("exhausted");
        }
        if (g_enc > encBefore) {
            uint64_t want = ((uint64_t)epoch << 48) | (s0 + done);
            V_ASSERT(g_encSeq[encBefore] == want, "a DTLS record is protected under its epoch and the next sequence number");
        }
        if (ret == HITLS_SUCCESS) {
            V_ASSERT(g_wireLen == wire + RECLEN, "success means exactly one whole record was sent");
            uint8_t *w = &g_wire[wire];
            uint64_t seq = s0 + done;
#if V13
            V_ASSERT(w[0] == (0x2C | (epoch & 3)), "unified header: fixed bits, 16-bit number, length present, low epoch bits");
            V_ASSERT(w[1] == (uint8_t)((seq >> 8) ^ 0xA5) && w[2] == (uint8_t)seq, "unified header carries the masked low 16 bits");
            V_ASSERT(w[3] == 0 && w[4] == 2 && w[5] == data[k], "length and body follow");
#else
            V_ASSERT(w[0] == REC_TYPE_APP && w[1] == 0xFE && w[2] == 0xFD, "type and version");
            V_ASSERT(w[3] == (uint8_t)(epoch >> 8) && w[4] == (uint8_t)epoch, "epoch on the wire");
            for (uint32_t i = 0; i < 6; i++) {
                V_ASSERT(w[5 + i] == (uint8_t)(seq >> (40 - 8 * i)), "sequence number on the wire is the one protected");
            }
            V_ASSERT(w[11] == 0 && w[12] == 2 && w[13] == data[k], "length and body follow");
#endif
            done++;
            V_WITNESS("sent");
        } else {
            V_ASSERT(g_wireLen == wire, "a failed write sends nothing");
        }
        V_ASSERT(g_cur.seq == s0 + done, "the sequence number advances by exactly one per record sent");
    }
}
#endif
