/* Record framing on the read side: any datagram, any stream chunking. */
#include "rec_env.h"

static bool g_auth;
static uint32_t g_decrypts;
static uint8_t g_innerType;
static REC_TextInput g_seen;
static uint8_t g_first, g_last;
static uint8_t g_out[64];
static RecConnState g_pend;

static int32_t PlainLen(TLS_Ctx *ctx, RecConnSuitInfo *s, uint32_t c, uint32_t *off, uint32_t *p)
{ (void)ctx; (void)s; *off = 0; *p = c; return HITLS_SUCCESS; }
static uint32_t CipherLen(const TLS_Ctx *ctx, RecConnSuitInfo *s, uint32_t p, bool isRead)
{ (void)ctx; (void)s; (void)isRead; return p; }
static int32_t Decrypt(TLS_Ctx *ctx, RecConnState *st, const REC_TextInput *m, uint8_t *data, uint32_t *len)
{
    (void)ctx; (void)st;
    g_decrypts++;
    g_seen = *m;
    /* the record body handed to decryption must be readable in full: read every byte */
    V_ASSERT(m->textLen >= 1, "an empty record never reaches decryption");
    g_first = m->text[0];
    g_last = m->text[m->textLen - 1];
    if (!g_auth) { return HITLS_REC_BAD_RECORD_MAC; }
    data[0] = g_first;
    *len = 1;
    return HITLS_SUCCESS;
}
static int32_t Post(TLS_Ctx *ctx, RecConnSuitInfo *s, REC_TextInput *m, uint8_t *data, uint32_t *len)
{ (void)ctx; (void)s; (void)data; (void)len; m->type = g_innerType; return HITLS_SUCCESS; }
static const RecCryptoFunc g_funcs = { .calCiphertextLen = CipherLen, .calPlantextBufLen = PlainLen, .decrypt = Decrypt, .decryptPostProcess = Post };
const RecCryptoFunc *RecGetCryptoFuncs(const RecConnSuitInfo *suiteInfo) { (void)suiteInfo; return &g_funcs; }
int32_t Dtls13CryptSequenceNumber(TLS_Ctx *ctx, RecConnSuitInfo *suiteInfo, const uint8_t *c, uint32_t clen, uint8_t *seq, uint8_t seqLen)
{
    (void)ctx; (void)suiteInfo;
    /* the mask is derived from 16 bytes of ciphertext when that many exist */
    if (clen > 0) { g_first = c[0]; g_last = c[clen - 1]; }
    (void)seq; (void)seqLen;
    return HITLS_SUCCESS;
}

/* the delivery queues are the subject of C02/C06; here they only have to be able to take what they are given */
int32_t stub_RecBufListAddBuffer(RecBufList *l, RecBuf *b) { (void)l; g_first = b->end != 0 ? b->buf[b->end - 1] : 0; return HITLS_SUCCESS; }
int32_t stub_RecBufListGetBuffer(RecBufList *l, uint8_t *buf, uint32_t bufLen, uint32_t *len, bool peek)
{ (void)l; (void)buf; (void)bufLen; (void)peek; *len = 0; return HITLS_SUCCESS; }
#ifdef H_DGRAM
int32_t UnprocessedMsgListAppend(UnprocessedMsg *l, const RecHdr *hdr, const uint8_t *recordBody)
{
    (void)l;
    /* cached records are copied in full */
    g_first = recordBody[0];
    g_last = recordBody[hdr->bodyLen - 1];
    V_ASSERT(recordBody > g_in.buf && recordBody + hdr->bodyLen <= g_in.buf + g_in.bufSize, "a cached record body lies inside the received datagram");
    return HITLS_SUCCESS;
}
void UnprocessedMsgListInit(UnprocessedMsg *l) { (void)l; }
static uint32_t g_n;
static uint8_t g_d[DMAX];
int32_t BSL_UIO_Read(BSL_UIO *uio, void *data, uint32_t len, uint32_t *readLen)
{
    (void)uio; (void)len;
    memcpy(data, g_d, g_n);
    *readLen = g_n;
    return BSL_SUCCESS;
}
static void body(uint32_t n)
{
    /* the receive buffer has exactly the size of the datagram, so any read beyond the datagram is an error */
    g_n = n;
    g_in.buf = malloc(n);
    V_ASSUME(g_in.buf != NULL);
    g_in.bufSize = n;
    nd_bytes(g_d, n);
    uint16_t ver = V13 ? HITLS_VERSION_DTLS13 : HITLS_VERSION_DTLS12;
    uint32_t len = 0;
    g_auth = false;
    (void)DtlsRecordRead(&g_ctx, REC_TYPE_APP, g_out, &len, sizeof(g_out));
    V_ASSERT(g_in.start <= g_in.end && g_in.end <= n, "the read cursor stays inside the received datagram");
    if (g_decrypts != 0) {
#if DMAX > 13 || V13
        V_WITNESS("a record reached decryption");
#endif
        V_ASSERT(g_seen.text > g_in.buf && g_seen.text + g_seen.textLen <= g_in.buf + n, "a record body lies inside the received datagram");
        V_ASSERT(g_decrypts == 1, "one record is processed per call");
        uint32_t h = (uint32_t)(g_seen.text - g_in.buf);
        if (!V13) {
            V_ASSERT(h == 13, "the record body starts after the 13-byte header");
            V_ASSERT(g_seen.type == g_d[0] && g_seen.version == (uint16_t)((g_d[1] << 8) | g_d[2]), "type and version are the header's");
            V_ASSERT(g_seen.textLen == (uint32_t)((g_d[11] << 8) | g_d[12]), "the body length is the header's");
            V_ASSERT(v_eq(g_seen.seq, g_d + 3, 8), "epoch and sequence number given to decryption are the header's");
            V_ASSERT(g_seen.version == ver || g_seen.type == REC_TYPE_ALERT, "a record of another version is not processed");
            V_ASSERT(((g_d[3] << 8) | g_d[4]) == g_rec.readEpoch, "only records of the current epoch are decrypted with its keys");
        } else if ((g_d[0] & 0xE0) == 0x20) {
            uint32_t want = 1 + ((g_d[0] & 8) ? 2 : 1) + ((g_d[0] & 4) ? 2 : 0);
            V_ASSERT((g_d[0] & 0x10) == 0, "a record with a connection ID is rejected when none was negotiated");
            V_ASSERT(h == want, "the record body starts right after the unified header");
            if ((g_d[0] & 4) != 0) {
                V_ASSERT(g_seen.textLen == (uint32_t)((g_d[want - 2] << 8) | g_d[want - 1]), "unified header: the body length is the header's");
            } else {
                V_ASSERT(g_seen.textLen == n - want, "unified header without length: the record takes the rest of the datagram");
            }
            V_ASSERT(g_seen.dtls13AadLen == want, "the additional data is the header");
        } else {
            V_ASSERT(h == 13, "plaintext record: 13-byte header");
        }
    }
}
void harness(void)
{
    g_isUdp = true;
    uint16_t epoch = nd16();
    V_ASSUME(epoch > 0 && epoch < 0xFFFF);
    EnvSetup(V13 ? HITLS_VERSION_DTLS13 : HITLS_VERSION_DTLS12, V13 ? DTLS13_VERSION_BIT | DTLS12_VERSION_BIT : DTLS12_VERSION_BIT, epoch);
    g_rec.readStates.pendingState = &g_pend;
    g_pend.epoch = epoch + 1;
    g_pend.suiteInfo = &g_suite;
    g_cur.window.top = nd64();
    V_ASSUME(g_cur.window.top < (1ull << 47));
    g_cur.window.window = nd64();
    g_cur.seq = g_cur.window.top;
    uint32_t n = nd_range(DMIN, DMAX);
    V_SPLIT(n, DMIN, DMAX, body);
}
#endif

#ifdef H_STREAM
/* One read call from any buffer state: the buffer holds any prefix of the stream, at any position; the transport then
 * delivers further bytes in chunks of any size, or none.  By induction the result covers streams of any length. */
static uint8_t g_s[TOTAL];
static uint32_t g_pos, g_calls;
static uint8_t g_bufmem[BUFSZ];
int32_t BSL_UIO_Read(BSL_UIO *uio, void *data, uint32_t len, uint32_t *readLen)
{
    (void)uio;
    V_ASSUME(g_calls < MAXCALLS);
    g_calls++;
    uint32_t n = nd8();
    V_ASSUME(n <= len && n <= TOTAL - g_pos);
    uint32_t off = (uint32_t)((uint8_t *)data - g_bufmem);
    V_ASSERT(off <= BUFSZ && len <= BUFSZ - off, "the transport is given room inside the buffer only");
    for (uint32_t i = 0; i < BUFSZ; i++) {
        if (i >= off && i < off + n) { g_bufmem[i] = g_s[g_pos + i - off]; }
    }
    g_pos += n;
    *readLen = n;
    return BSL_SUCCESS;
}
void harness(void)
{
    EnvSetup(HITLS_VERSION_TLS12, TLS12_VERSION_BIT, 0);
    g_ctx.config.tlsConfig.readAhead = READAHEAD;
    g_in.buf = g_bufmem;
    g_in.bufSize = BUFSZ;
    nd_bytes(g_s, TOTAL);
    g_s[0] = REC_TYPE_APP; g_s[1] = 3; g_s[2] = 3; g_s[3] = 0;
    uint32_t b1 = g_s[4];
    V_ASSUME(b1 >= 1 && b1 <= BODY);
    uint32_t start = START, end = nd_range(0, BUFSZ);
    V_ASSUME(start <= end && end - start <= TOTAL);
    for (uint32_t i = 0; i < BUFSZ; i++) {
        if (i >= start && i < end) { g_bufmem[i] = g_s[i - start]; }
    }
    g_pos = end - start;
    g_in.start = start;
    g_in.end = end;
    uint64_t seq0 = nd64();
    V_ASSUME(seq0 < 0xFFFFFFFFFFFFFFF0ull);
    g_cur.seq = seq0;
    g_auth = true;
    g_innerType = REC_TYPE_APP;
    uint32_t len = 0;
    int32_t r = TlsRecordRead(&g_ctx, REC_TYPE_APP, g_out, &len, sizeof(g_out));
    V_ASSERT(r == HITLS_SUCCESS || r == HITLS_REC_NORMAL_RECV_BUF_EMPTY, "a stream of valid records never fails, however it is chunked");
    uint32_t taken = 0;
    if (r == HITLS_SUCCESS) {
        taken = 5 + b1;
        V_ASSERT(g_decrypts == 1 && g_pos >= taken, "one complete record per successful read");
        V_ASSERT(g_seen.textLen == b1, "the record has the length announced");
        V_ASSERT(g_first == g_s[5] && g_last == g_s[4 + b1], "the record body is the stream's");
        uint64_t s = 0;
        for (uint32_t i = 0; i < 8; i++) { s = (s << 8) | g_seen.seq[i]; }
        V_ASSERT(s == seq0 && g_cur.seq == seq0 + 1, "records are authenticated with consecutive sequence numbers");
        V_WITNESS("delivered");
    } else {
        V_ASSERT(g_decrypts == 0 && g_cur.seq == seq0, "nothing is consumed before the record is complete");
        V_ASSERT(g_pos < 5 + b1, "a complete record is not held back");
        V_WITNESS("incomplete");
    }
    /* what remains buffered is exactly the rest of the stream */
    V_ASSERT(g_in.start <= g_in.end && g_in.end <= BUFSZ && g_in.end - g_in.start == g_pos - taken, "no byte of the stream is lost or duplicated");
    for (uint32_t i = 0; i < BUFSZ; i++) {
        if (i < g_pos - taken) { V_ASSERT(g_bufmem[g_in.start + i] == g_s[taken + i], "the buffered rest is the stream's"); }
    }
}
#endif

#ifdef H_HEADER
/* one header, any fields, any state */
void harness(void)
{
    uint16_t neg = nd16();
    V_ASSUME(neg == 0 || neg == HITLS_VERSION_TLS12 || neg == HITLS_VERSION_TLS13);
    EnvSetup(neg, TLS12_VERSION_BIT | TLS13_VERSION_BIT, 0);
    g_ctx.config.tlsConfig.maxVersion = HITLS_VERSION_TLS13;
    g_cur.suiteInfo = ndbool() ? &g_suite : NULL;
    uint8_t mem[5 + 16384 + 2048 + 1];
    g_in.buf = mem;
    g_in.bufSize = sizeof(mem);
    RecHdr h = { 0 };
    h.type = nd8();
    h.version = nd16();
    h.bodyLen = nd16();
    int32_t r = TlsCheckRecordHeader(&g_ctx, &h);
    if (r == HITLS_SUCCESS) {
        V_ASSERT(h.type == 20 || h.type == 21 || h.type == 22 || h.type == 23 || h.type == 26, "only known content types are accepted");
        V_ASSERT(h.bodyLen <= 16384 + 2048, "a record longer than the protocol maximum is refused");
        V_ASSERT((h.version >> 8) == 3 || (neg == 0 && h.version == HITLS_VERSION_TLCP_DTLCP11), "the record version has major version 3 (or is TLCP before negotiation)");
        if (neg == HITLS_VERSION_TLS13) {
            V_ASSERT(h.version == HITLS_VERSION_TLS12, "TLS 1.3 records carry the legacy version");
            V_ASSERT(h.bodyLen <= 16384 + 256, "TLS 1.3: a record longer than 2^14+256 is refused");
            if (g_cur.suiteInfo != NULL && g_ctx.hsCtx == NULL) {
                V_ASSERT(h.type == 23 || h.type == 21, "TLS 1.3 protected records are application_data (or alert)");
            }
        } else if (neg == HITLS_VERSION_TLS12) {
            V_ASSERT(h.version == HITLS_VERSION_TLS12 || h.type == 21, "after negotiation the record version is the negotiated one");
        }
        V_WITNESS("accepted");
    } else if (neg == HITLS_VERSION_TLS12) {
        V_ASSERT(!(h.type >= 20 && h.type <= 23 && h.version == HITLS_VERSION_TLS12 && h.bodyLen <= 16384 + 2048), "a well-formed TLS 1.2 header is accepted");
        V_ASSERT(g_alerts > 0, "a refused header is answered with an alert");
    } else if (neg == HITLS_VERSION_TLS13) {
        V_ASSERT(!((h.type == 21 || h.type == 23) && h.version == HITLS_VERSION_TLS12 && h.bodyLen <= 16384 + 256), "a well-formed TLS 1.3 header is accepted");
        V_ASSERT(g_alerts > 0, "a refused header is answered with an alert");
        V_WITNESS("refused");
    }
}
#endif

#ifdef H_RECON
static uint64_t dist(uint64_t a, uint64_t b) { return a > b ? a - b : b - a; }
void harness(void)
{
    uint16_t epoch = nd16();
    V_ASSUME(epoch > 3 && epoch < 0xFFFF);
    g_isUdp = true;
    EnvSetup(HITLS_VERSION_DTLS13, DTLS13_VERSION_BIT, epoch);
    g_cur.seq = nd64();
    g_old.seq = nd64();
    V_ASSUME(g_cur.seq < (1ull << 48) - 1 && g_old.seq < (1ull << 48) - 1);
    bool useOld = ndbool();
    uint16_t partial = nd16();
    uint8_t seqLen = ndbool() ? 2 : 1;
    if (seqLen == 1) { partial &= 0xff; }
    uint64_t out = 0;
    int32_t r = Dtls13ReconstructSequenceNumber(&g_ctx, useOld ? epoch - 1 : epoch, partial, seqLen, &out);
    V_ASSERT(r == HITLS_SUCCESS, "reconstruction succeeds for the current and previous epoch");
    uint64_t expect = (useOld ? g_old.seq : g_cur.seq) + 1;
    uint64_t mask = seqLen == 2 ? 0xffff : 0xff;
    V_ASSERT((out & mask) == partial, "the low bits are the received ones");
    V_ASSERT(out < (1ull << 48) + 0x10000, "the number does not wrap below zero");
    uint64_t other = nd64();
    V_ASSUME(other < (1ull << 49) && (other & mask) == partial);
    V_ASSERT(dist(out, expect) <= dist(other, expect), "of all numbers with these low bits the one nearest the expected number is chosen");
    V_WITNESS("reconstructed");
    /* epoch */
    uint8_t bits = nd8() & 3;
    uint64_t e = 0;
    r = Dtls13ReconstructEpoch(&g_ctx, bits, &e);
    if (r == HITLS_SUCCESS) {
        V_ASSERT((e & 3) == bits && e <= epoch && epoch - e <= 4 && e > 0, "the epoch is the latest known one with these low bits");
        if (bits == (epoch & 3)) { V_ASSERT(e == epoch, "the current epoch is preferred"); }
    } else {
        V_ASSERT(epoch - ((epoch - bits) & 3) <= 0, "the epoch is found when there is one");
    }
}
#endif
