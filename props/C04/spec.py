U = ["tls/record/src/rec_unprocessed_msg.c"]
R = ["tls/record/src/rec_anti_replay.c", "tls/record/src/rec_read.c", "tls/record/src/rec_conn.c", "tls/record/src/rec_buf.c", "bsl/list/src/bsl_list_ex.c", "bsl/list/src/bsl_list_internal.c", "tls/record/src/rec_alert.c", "bsl/list/src/bsl_list.c"]
ASSUMPTIONS = ["record protection is an oracle", "sequence-number mask of DTLS 1.3 is the identity", "no connection ID negotiated"]
OUTSIDE = "datagrams longer than those listed; SCTP; TLCP record callback"
def d(v, lo, hi, **k):
    return dict(name="dgram%d_%d_%d" % (v, lo, hi), c="parse.c", defs=["H_DGRAM", "V13=%d" % (v == 13), "DMIN=%d" % lo, "DMAX=%d" % hi], srcs=R, unwind=20, replace={"RecBufListAddBuffer": "stub_RecBufListAddBuffer", "RecBufListGetBuffer": "stub_RecBufListGetBuffer"}, bounds="any datagram of %d..%d bytes" % (lo, hi), **k)
HARNESSES = [
    d(12, 1, 5, no_witness=True), d(12, 13, 13, no_witness=True), d(12, 14, 15), d(13, 1, 3, cost=3), d(13, 4, 5, cost=3), d(13, 6, 7, cost=3), d(13, 14, 14), d(12, 6, 12, no_witness=True, tier="thorough"), d(13, 8, 24, tier="thorough", timeout=1500),
    *[dict(name="stream%d_%d" % (a, st), c="parse.c", defs=["H_STREAM", "START=%d" % st, "TOTAL=8", "BODY=2", "BUFSZ=8", "READAHEAD=%d" % a, "MAXCALLS=3"], srcs=R + U, vlib_defs=["V_FIXED_ALLOC=16"], unwind=9, uw={"StreamRead.1": 4}, cost=2, solver="cadical",
        replace={"RecBufListAddBuffer": "stub_RecBufListAddBuffer", "RecBufListGetBuffer": "stub_RecBufListGetBuffer"},
        bounds="one read call from any fill of an 8-byte buffer (data at offset %d), read-ahead %d, up to 3 transport reads of any size, record body 1..2" % (st, a)) for a in (0, 1) for st in (0, 2)],
    dict(name="header", c="parse.c", defs=["H_HEADER"], srcs=R + U, unwind=4, bounds="every header, any negotiation state"),
    dict(name="reconstruct", c="parse.c", defs=["H_RECON"], srcs=R + U, unwind=6, bounds="every partial number, every expected number below 2^48, every epoch"),
]
